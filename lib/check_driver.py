"""C01-C06: generated ROS tests against Driver.  C20: animated tests."""
import itertools, random
import driver
from driver import Program, Suite, Trie
from core import CheckError

RECIPE = {
    'C01': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Sound Follow OffScript\n',
    'C02': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Complete Follow\n',
    'C03': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Position Outcome\n',
    'C04': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Follow OffScript\nPROPERTIES OneStep\n',
    'C05': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK\nPROPERTIES Absorbing\n',
    'C06': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Stimuli Follow\n',
    'C23': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nINVARIANTS Finite Alone StartsOnTime OnlyThen\nPROPERTIES Ends Stops\n',
    'C20': 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Sound Complete Outcome\nPROPERTIES Absorbing\n',
}

BASE = [('a', 'in', '0'), ('a', 'in', '1'), ('b', 'out', '0'), ('b', 'out', '1'), ('c', 'call', 'x')]

# Text values that are awkward somewhere: in CSV, in C++ literals, in templates, in comparisons.
ODD = ['Ok', 'ok', 'OK', 'a b', '"', 'say "hi"', '\\', 'C:\\new\\table', '\\n', '\\"', "it's", '%d%s%n', '??/', '??=x??!', '{{ .Name }}',
       '<b>&amp;</b>', '/* x */', '// x', 'a.b.c', '.', '..', 'a:b', ':', 'x,y', ';', '#x', '$HOME', '`x`', '(', ')', '{| f=1 |}', 'é', '日本語',
       '😀', '0x10', '1e3', '1.5', '+', '-', '--1', '- 1', '١', '9999999999999999999999', 'true', 'NULL', 'a\tb', 'a\x01b', 'a\x7fb',
       'R"(x)"', 'line1\nline2', '\\x41', '\\101', '\x1b[0m', 'a' * 300, 'Ω≈ç', 'null', 'u8"x"', '\\\nx', 'x\ry', '\\u00e9', '-x', '_', '*', '&', '?', '"\\', '??""']
NUMS = ['0', '1', '9', '10', '2147483647', '2147483648', '4294967295']
INTS = ['0', '-1', '1', '-10', '10', '2147483647', '-2147483648']


def rand_script(rng, chans, lo, hi):
    return [(lambda c: (c[0], c[1], rng.choice(c[2])))(rng.choice(chans)) for _ in range(rng.randint(lo, hi))]


def rand_chans(rng):
    names = ['batteryInfo', 'status', 'HTTPGet', 'x_y', 'fooBar2', 'moveTo', 'Stop', 'a1', 'zB', 'reallyLongChannelName_withBits']
    rng.shuffle(names)
    out = []
    for n in names[:rng.randint(2, 5)]:
        k = rng.choice(['in', 'out', 'call'])
        v = rng.choice([['0', '1', '2'], ['-1', '0', '7'], ['Ok', 'Bad', 'ok'], ['p', 'q']])
        out.append((n, k, v))
    return out


def merge_tree(name, named_scripts):
    """The tree that carries several traces at once: their union, branching where they differ.

    Returns None if the traces cannot share a deterministic tree."""
    nodes = [{'ev': None, 'out': 'unset', 'tests': [], 'next': []}]

    def add(i, ev, out, t):
        n = nodes[i]
        for k in n['next']:
            m = nodes[k]
            if m['ev'] == ev:
                if out != m['out'] or out == 'pass':
                    return None
                if t not in m['tests']:
                    m['tests'].append(t)
                return k
        nodes.append({'ev': ev, 'out': out, 'tests': [t], 'next': []})
        n['next'].append(len(nodes) - 1)
        return len(nodes) - 1

    for t, s in named_scripts:
        i = 0
        nodes[0]['tests'].append(t)
        for j, e in enumerate(s):
            i = add(i, e, 'pass' if j == len(s) - 1 else 'inc', t)
            if i is None:
                return None
        nodes.append({'ev': None, 'out': 'fail', 'tests': [t], 'next': []})
        nodes[i]['next'].append(len(nodes) - 1)
    for n in nodes:
        evs = [nodes[k]['ev'] for k in n['next'] if nodes[k]['ev']]
        ins = [e for e in evs if e[1] == 'in']
        if ins and len(evs) > 1:
            return None
        if len(set((e[0], e[2]) for e in evs)) != len(evs):
            return None
    return Program(name, [t for t, _ in named_scripts], nodes)


def add_failures(p, rng):
    """Lets tests of their own fail at points where others go on."""
    parent = {k: i for i, n in enumerate(p.nodes) for k in n['next']}
    open_nodes = [i for i, n in enumerate(p.nodes) if n['out'] == 'inc'] + [0]
    for j in range(rng.randint(1, 2)):
        i = rng.choice(open_nodes)
        if any(p.nodes[k]['out'] == 'fail' for k in p.nodes[i]['next']):
            continue
        t = 'f%d' % j
        p.nodes.append({'ev': None, 'out': 'fail', 'tests': [t], 'next': []})
        p.nodes[i]['next'].insert(rng.randint(0, len(p.nodes[i]['next'])), len(p.nodes) - 1)
        p.tests.append(t)
        while True:
            p.nodes[i]['tests'].append(t)
            if i == 0:
                break
            i = parent[i]


def trees(rng, n, chans, depth):
    out = []
    tries = 0
    while len(out) < n and tries < n * 60:
        tries += 1
        stem = rand_script(rng, chans, 0, depth)
        ss = []
        for i in range(rng.randint(2, 5)):
            cut = rng.randint(0, len(stem))
            ss.append(('p%d' % i, stem[:cut] + rand_script(rng, chans, 1, 3)))
        p = merge_tree('tree%d' % len(out), ss)
        if p is not None and len(p.tests) > 1:
            if len(out) % 2:
                add_failures(p, rng)
            out.append(p)
    return out


LONG = 'theChannelWithTheNameThatGoesOnForVeryMuchLonger'


def many_channels(rng):
    outs = [(LONG + 'To%s' % x, rng.choice(['out', 'call'])) for x in 'ABCDEFGHIJKLMN'] + [(c, 'out') for c in 'pqr']
    ins = [(LONG + 'From%s' % x, 'in') for x in 'ABCDEFG'] + [(c, 'in') for c in 'xyz']
    out = []
    for j in range(2):
        ends = rng.sample(outs, 14)
        scripts = []
        for i, (c, k) in enumerate(ends):
            s = ([('step', 'out', 'a'), ('go', 'in', 'a')] if j else []) + [(c, k, 'a')] + [rng.choice(ins) + ('a',) for _ in range(2)] + [rng.choice(outs) + (rng.choice('ab'),)]
            scripts.append(('p%d' % i, s[:-3] if i % 5 == 4 else s))
        p = merge_tree('many%d' % j, scripts)
        assert p
        out.append(p)
    both = [c + ('a',) for c in ins + outs]
    for j in range(2):
        rng.shuffle(both)
        out.append(Program.of_script('each%d' % j, list(both)))
    # Different from the first character.
    wide = [(x + LONG, k, 'a') for x, k in zip(('q', 'rA', 's_b', 'uX', 'v2'), ('in', 'out', 'call', 'in', 'out'))]
    out += [Program.of_script('wide%d' % j, rng.sample(wide, len(wide))) for j in range(2)]
    return out


def ros_suites(ctx):
    rng = ctx.rng
    suites = []
    base = [list(s) for k in (1, 2, 3) for s in itertools.product(BASE, repeat=k)]
    suites.append(Suite('all scripts of at most 3 events', [Program.of_script('s%d' % i, s) for i, s in enumerate(base)]))
    # Values.
    odd = ODD[:]
    rng.shuffle(odd)
    progs = []
    for i, v in enumerate(odd):
        w = odd[(i + 1) % len(odd)]
        progs.append(Program.of_script('v%d' % i, [('say', 'out', w), ('tell', 'in', v), ('say', 'out', v)] if i % 3 == 0 else
                                       [('tell', 'in', v), ('ask', 'call', v), ('say', 'out', w)] if i % 3 == 1 else
                                       [('ask', 'call', v), ('ask', 'call', w), ('tell', 'in', w), ('ask', 'call', v)]))
    suites.append(Suite('odd text values', progs, override_enums=['ask']))
    progs = []
    for i in range(len(NUMS)):
        progs.append(Program.of_script('n%d' % i, [('nat', 'in', NUMS[i]), ('num', 'out', INTS[i]), ('nout', 'out', NUMS[i]),
                                                   ('num', 'out', rng.choice(INTS)), ('int', 'in', INTS[i]), ('nout', 'call', NUMS[-1 - i])][:rng.randint(3, 5)]))
        progs.append(Program.of_script('m%d' % i, [('int', 'in', INTS[i]), ('int', 'in', INTS[i]), ('num', 'out', INTS[-1 - i])]))
    suites.append(Suite('numeric values', progs))
    # Long random scripts over several channels.
    for k in range(ctx.pick(2, 6)):
        ch = rand_chans(rng)
        suites.append(Suite('random scripts %d' % k, [Program.of_script('r%d' % i, rand_script(rng, ch, 3, 14)) for i in range(ctx.pick(12, 24))],
                            override_enums=[c for c, _, _ in ch if rng.random() < .3]))
    # Repetition, and one channel used in both directions.
    rep = [('ping', 'out', 'a'), ('ping', 'out', 'b'), ('both', 'in', 'a'), ('both', 'out', 'a'), ('both', 'out', 'b')]
    suites.append(Suite('repetition', [Program.of_script('q%d' % i, [rng.choice(rep[:2])] * rng.randint(1, 4) + rand_script(rng, rep, 1, 4) + [rng.choice(rep)] * 3)
                                       for i in range(12)]))
    # Names of channels: words in different cases, digits, and names that differ in case only.
    nm = [[('reSet', 'out'), ('reset', 'out'), ('leg2Up', 'in'), ('x2Y3z', 'out')], [('a1B', 'call'), ('ABc', 'out'), ('setUp', 'in'), ('setup', 'in'), ('aBcDe', 'out')],
          [('x_Y', 'out'), ('trail_', 'in'), ('HTTPGet2', 'call'), ('GPSFix', 'out'), ('a__b', 'in')], [('v', 'out'), ('V2', 'in'), ('upDown', 'out'), ('updown', 'call'), ('R2D2', 'in'), ('posXY', 'out')]]
    progs = []
    for i, cs in enumerate(nm):
        for j in range(4):
            order = cs * 2
            rng.shuffle(order)
            progs.append(Program.of_script('c%d_%d' % (i, j), [(c, k, rng.choice('ab')) for c, k in order[:rng.randint(len(cs), 2 * len(cs))]]))
    suites.append(Suite('names', progs))
    # More states than a byte can count.
    ch = [('s', 'out', ['a', 'b']), ('t', 'out', ['a', 'b']), ('u', 'in', ['a', 'b'])]
    suites.append(Suite('long', [Program.of_script('long%d' % i, [ch[0][:2] + ('a',)] + rand_script(rng, ch, n, n)) for i, n in enumerate(ctx.pick((300,), (300, 700)))]))
    # Many channels, with names that differ at the end of many characters only, and many traces in one tree.
    suites.append(Suite('many', many_channels(rng), raw=True))
    # Several traces in one tree.
    tr = trees(rng, ctx.pick(24, 60), [('a', 'in', ['0', '1']), ('b', 'out', ['0', '1', '2']), ('c', 'call', ['x', 'y'])], 3)
    suites.append(Suite('trees', tr, raw=True))
    # Machines as somebody else might have written them.
    ch = rand_chans(rng)
    ch[0] = (ch[0][0], 'in', ch[0][2])
    progs = [Program.of_script('w%d' % i, rand_script(rng, ch[:1] if i % 2 else ch, 1, 1) + rand_script(rng, ch, 1, 6)) for i in range(ctx.pick(16, 40))]
    suites.append(Suite('rearranged machines', progs))
    suites[-1].rearranged = True
    return suites


def alone_schedules(ctx, suites):
    """Tests that are left alone, at the start, at every point of the way, and after something went wrong."""
    rng = ctx.rng
    alone = ('L', '', '')
    for s in suites:
        for p in s.programs:
            t = p.trie = driver.Trie()
            al = driver.alphabet(p, rng) + [alone]
            for h in driver.happy_paths(p, rng):
                points = range(len(h) + 1) if len(h) < 30 else [0, 1, len(h) - 1, len(h)] + rng.sample(range(len(h)), 8)
                for i in points:
                    t.add(h[:i] + [alone] + h[i:][:3])
                    for a in al if len(h) < 30 else al[:3]:
                        t.add(h[:i] + [a, alone])
            for _ in range(ctx.pick(15, 100)):
                t.add([rng.choice(al) for _ in range(rng.randint(1, 5))])


def give_schedules(ctx, suites):
    for s in suites:
        for p in s.programs:
            n = len(p.nodes) - 2
            if s.label == 'long':
                p.trie = driver.long_schedules(p, ctx.rng, ctx.pick(20, 60))
            elif s.label.startswith('all scripts'):
                p.trie = driver.schedules(p, ctx.rng, ctx.pick(3, 4), 2, ctx.pick(4, 30), ctx.pick(600, 4000))
            else:
                p.trie = driver.schedules(p, ctx.rng, 2, ctx.pick(1, 2), ctx.pick(25, 150), ctx.pick(300, 2500))


def model(ctx, prop):
    if prop == 'C23':
        ctx.model('MCClock', RECIPE[prop] + 'CONSTANTS MaxLen = %d MaxSteps = %d DelaySec = 3 TimeoutSec = 15\n' % ctx.pick((3, 4), (4, 5)))
        return
    n, k = ctx.pick((3, 5), (4, 6))
    ctx.model('MCDriver', RECIPE[prop] + 'CONSTANTS MaxLen = %d MaxSteps = %d\n' % (n, k))
    if prop != 'C20':
        # The same for traces of any length: proved for the machine of Position, of which Driver is an instance.
        ctx.model('MCPosition', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT SentIsScript\nPROPERTY Refines\n'
                                'CONSTANTS MaxLen = %d MaxSteps = %d\n' % ctx.pick((3, 4), (4, 6)))
        ctx.prove('PositionProof')


def compiled_or_violation(ctx, prop, suites, decides):
    n = 0
    for s in suites:
        if s.broken:
            what = 'suite "%s": %s' % (s.label, s.broken)
            if decides:
                ctx.violation(what, {'suite': s.label, 'dir': 'none', 'error': s.broken,
                                     'tests': {p.name: p.script or p.json_tree() for p in s.programs}})
            else:
                ctx.notes.append(what)
            continue
        for p in s.programs:
            n += p.compiled
            if not p.compiled:
                what = 'suite "%s": generated code of %s %s does not compile: %s' % (s.label, p.name, p.script, p.why[:400])
                if decides:
                    ctx.violation(what, {'suite': s.label, 'test': p.name, 'script': p.script, 'error': p.why})
                else:
                    ctx.notes.append(what)
    return n


def cover(ctx, suites, recs):
    ctx.cov['programs'] = len(recs)
    ctx.cov['schedules'] = sum(len(r['trie']) for r in recs)
    ctx.cov['suites'] = [{'label': s.label, 'programs': len(s.programs),
                          'schedules': sum(len(p.trie) for p in s.programs)} for s in suites]
    sts = {}
    for r in recs:
        for t in r['trie']:
            sts[t['st']] = sts.get(t['st'], 0) + 1
    ctx.cov['observed_statuses'] = sts
    ctx.cov['skipped'] = ctx.notes[:10]
    for s in suites[:6]:
        for p in s.programs[:1]:
            if p.obs:
                n = len(p.trie) - 1
                ctx.sample({'suite': s.label, 'script': p.script, 'schedule': p.trie.path(n), 'observed': p.obs[n]})


def check_ros(ctx, prop):
    ctx.build()
    model(ctx, prop)
    suites = ros_suites(ctx)
    (alone_schedules if prop == 'C23' else give_schedules)(ctx, suites)
    driver.compile_suites(ctx, suites)
    ctx.log('compiled')
    compiled_or_violation(ctx, prop, suites, prop == 'C02')
    driver.run_suites(ctx, suites, driver.ros_token)
    ctx.log('ran')
    if prop == 'C02' and ctx.violations and not any(p.compiled for s in suites for p in s.programs):
        return
    recs = driver.judge(ctx, prop, 'ros', suites)
    cover(ctx, suites, recs)
    ctx.assumptions += ['the stand-in for roscpp delivers one event at a time and keeps delivering after shutdown',
                        'a schedule is observed through the log and exit status of a run that ends after it']


# -- C20 -------------------------------------------------------------------
def typable(v):
    return v != '' and not any(c.isspace() or c == '\x00' for c in v)


def anim_alphabet(types):
    def alphabet(p, rng):
        a = [('T', '', ''), ('D', '', ''), ('A', '', ''), ('N', rng.choice(['x', 'READY', 'timeout2', '?', '-1']), '')]
        for c, vs in p.out_values().items():
            a += [('O', c, v) for v in vs if typable(v)]
            nm = [v for v in driver.near(vs, rng) if typable(v)]
            if nm:
                a.append(('O', c, rng.choice(nm)))
            if types[c] != 'enum':
                a.append(('G', c, rng.choice(['abc', '-'] + ['99999999999999999999', '.5'] * (types[c] != 'real'))))
            a += driver.parts(p, c, vs)
        for c, k, v in p.events():
            if k == 'in' and c not in p.out_values():
                a.append(('N', c, ''))   # an input is not something the user can enter
                break
        return a
    return alphabet


def enterable(h):
    """The part of a schedule before the first value that cannot be typed in."""
    for i, t in enumerate(h):
        if t[0] == 'O' and not typable(t[2]):
            return h[:i]
    return h


def anim_token(kind, c, v):
    text = {'D': 'ready\n', 'T': 'timeout\n', 'A': 'accept\n', 'O': '%s %s\n' % (c, v), 'N': c + '\n',
            'G': '%s %s\n' % (c, v)}[kind]
    return driver.hexs(text)


def prompt_names():
    """Tests that cannot be told what their outputs are: the prompt takes their names for its own commands."""
    suite = Suite('names of commands', [Program.of_script('timeout', [('timeout', 'out', 'x'), ('a', 'out', 'y')]),
                                        Program.of_script('ready', [('a', 'in', 'x'), ('ready', 'out', 'y')]),
                                        Program.of_script('accept', [('b', 'in', 'x'), ('accept', 'out', 'y')])])
    for p, h in zip(suite.programs, ([('O', 'timeout', 'x')], [('O', 'ready', 'y')], [('D', '', ''), ('O', 'accept', 'y')])):
        p.key = 'command-name'
        p.trie = Trie()
        p.trie.add(h)
    return suite


def check_c20(ctx):
    ctx.build()
    model(ctx, 'C20')
    rng = ctx.rng
    suites = ros_suites(ctx)
    for s in suites:
        s.variant = 'animate'
        if s.label.startswith('all scripts') and not ctx.thorough:
            # Every shape of script, with fewer values.
            s.programs = [p for p in s.programs if len(p.script) < 3 or rng.random() < .5]
        ty = s.types()
        al = anim_alphabet(ty)
        for p in s.programs:
            if s.label == 'long':
                p.trie = driver.long_schedules(p, rng, ctx.pick(20, 60), alphabet=al)
                continue
            p.trie = driver.schedules(p, rng, ctx.pick(2, 3), ctx.pick(1, 2), ctx.pick(20, 100), ctx.pick(250, 2000), alphabet=al, cut=enterable)
            # The input may also end between a channel and its value.
            outs = [c for c in p.out_values()]
            if outs:
                for h in map(enterable, driver.happy_paths(p, rng)):
                    for i in range(len(h)):
                        p.trie.add(h[:i] + [('G', rng.choice(outs), '')])
    suites.append(prompt_names())
    suites[-1].variant = 'animate'
    driver.compile_suites(ctx, suites)
    ctx.log('compiled')
    compiled_or_violation(ctx, 'C20', suites, True)
    driver.run_suites(ctx, suites, anim_token)
    ctx.log('ran')
    if ctx.violations and not any(p.compiled for s in suites for p in s.programs):
        return
    recs = driver.judge(ctx, 'C20', 'animate', suites)
    cover(ctx, suites, recs)
    ctx.assumptions += ['what the user types is fed through std::cin, and always ends']
