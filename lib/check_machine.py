"""C22: programs generated from state machines of any shape, against Machine."""
import collections, json, re
import driver
from driver import Suite, csv_cell
from check_driver import LONG, rand_script, ODD, INTS, NUMS, anim_alphabet, anim_token, compiled_or_violation, cover, enterable
from core import Broken

BASE_CHANS = [('a', 'in', ['0', '1', '-7']), ('batteryInfo', 'out', ['Ok', 'Low', 'a b']), ('c', 'call', ['x', 'y']), ('b', 'out', ['0', '12'])]
OUTCOMES = ['unset', 'inc', 'pass', 'fail']


class Machine:
    """A program generated from a machine: states are dicts id, sets [(c, k, [(v, next index)])], vd."""

    script = None
    nodes = []

    def __init__(self, name, tests, states):
        self.name, self.tests, self.states = name, tests, states
        self.trie = self.obs = None
        self.compiled = False
        self.subs = []

    def events(self):
        return [(c, k, v) for s in self.states for c, k, ts in s['sets'] for v, _ in ts]

    def has_in(self):
        return any(k == 'in' for _, k, _ in self.events())

    def root_in(self):
        return any(k == 'in' for _, k, _ in self.states[0]['sets'])

    def out_values(self):
        d = collections.OrderedDict()
        for c, k, v in self.events():
            if k != 'in' and v not in d.setdefault(c, []):
                d[c].append(v)
        return d

    def paths(self, rng, limit):
        """Walks along transitions, until something fails, there is nowhere to go, or it has been long enough."""
        out = []
        for _ in range(limit * 3):
            i, h = 0, [('D', '', '')] if self.root_in() else []
            for _ in range(rng.choice([3, 6, 12])):
                s = self.states[i]
                opts = [(c, k, v, j) for c, k, ts in s['sets'] for v, j in ts]
                if not opts or 'fail' in s['vd'].values():
                    break
                c, k, v, i = rng.choice(opts)
                h.append(('A', '', '') if k == 'in' else ('O', c, v))
            if h not in out:
                out.append(h)
        return sorted(out, key=len)[-limit:]

    def file(self):
        """The machine in the format of state machine suites."""
        ids = [s['id'] for s in self.states]
        return {'states': [dict({'id': s['id']},
                                **({'transitionSets': [{'channel': '%s.%s' % (c, k), 'transitions': [{'value': v, 'next': ids[j]} for v, j in ts]}
                                                       for c, k, ts in s['sets']]} if s['sets'] else {}),
                                **({'verdicts': s['vd']} if s['vd'] or len(s['id']) % 2 else {})) for s in self.states],
                'tests': self.tests}

    json_tree = file

    def record(self):
        return {'machine': {'tests': self.tests,
                            'states': [{'id': s['id'], 'sets': [{'c': c, 'k': k, 'ts': [{'v': v, 'next': self.states[j]['id']} for v, j in ts]}
                                                                for c, k, ts in s['sets']], 'vd': s['vd']} for s in self.states]}}


def rand_ids(rng, n):
    pool = ['initial'] + ['step%d' % i for i in range(20)] + ['Start', 'fooBar', 'foo_bar', 'x', 'Xy', '_z', 'aLongNameForAState', 'END', 'state1', 'S_2',
            'ok', 'stop', 'run', 'go2', 'initial2', 'step', 'step00', 'waiting', 'Final', 'q']
    out, seen = [], set()
    if rng.random() < .6:
        pool = pool[:n + 5]
    else:
        rng.shuffle(pool)
    for p in pool:
        if p.upper() not in seen and len(out) < n:
            seen.add(p.upper())
            out.append(p)
    return out


def rand_machine(rng, name, n, chans, ntests):
    """chans: list of (name, kind, values)."""
    ids = rand_ids(rng, n)
    n = len(ids)
    tests = ['t%d' % i for i in range(ntests)] if rng.random() < .5 else rng.sample(['alpha', 'Beta', 'x_y', 'test', 'main', 'longer_test_name', name], ntests)
    ins = [c for c in chans if c[1] == 'in']
    outs = [c for c in chans if c[1] != 'in']
    pin = rng.choice([.2, .4, .7])
    pfail = rng.choice([0, .1, .2])
    states = []
    for i in range(n):
        def nxt():
            r = rng.random()
            return i if r < .15 else min(i + 1, n - 1) if r < .5 else rng.randrange(n)
        sets = []
        if ins and rng.random() < pin:
            c, k, vs = rng.choice(ins)
            sets = [(c, k, [(rng.choice(vs), nxt())])]
        else:
            for c, k, vs in rng.sample(outs, rng.randint(0 if rng.random() < .2 else min(1, len(outs)), len(outs))):
                ts = [(v, nxt()) for v in rng.sample(vs, rng.randint(1, len(vs)))]
                cut = rng.randrange(1, len(ts)) if len(ts) > 1 and rng.random() < .15 else len(ts)
                sets.append((c, k, ts[:cut]))
                if ts[cut:]:
                    # What a channel can do, said in two places.
                    sets.insert(rng.randrange(len(sets) + 1), (c, k, ts[cut:]))
        vd = {}
        for t in tests:
            if rng.random() < .6:
                vd[t] = 'fail' if i and rng.random() < pfail else rng.choice(OUTCOMES[:3])
        states.append({'id': ids[i], 'sets': sets, 'vd': vd})
    return Machine(name, tests, states)


class Machines(Suite):
    """A suite handed over as state machines."""

    reals = ()     # channels whose numbers are to be real

    def types(self):
        t = super().types()
        return {c: 'real' if c in self.reals and k != 'enum' else k for c, k in t.items()}

    def stms(self):
        ty = self.types()
        text = json.dumps({'types': ty, 'tests': {p.name: dict(p.file(), types={c: ty[c] for c in sorted({e[0] for e in p.events()})}) for p in self.programs}})
        if self.label[-1] in '13579':
            # Types, kinds and outcomes can be written in any case.
            text = re.sub(r'": "(nat|int|real|enum|inc|pass|fail|unset)"', lambda m: '": "%s"' % (m[1].upper() if m.start() % 2 else m[1].title()), text)
            text = re.sub(r'("channel": "\w+\.)(in|out|call)"', lambda m: '%s%s"' % (m[1], m[2].title()), text)
        return text


REALS = ['0', '1', '-1', '3', '16777216', '16777217']


def suites(ctx, exact=True):
    """exact: with numbers that are written otherwise than they are given."""
    rng = ctx.rng
    out = []

    def chans(kind):
        if kind == 'small':
            return [('a', 'in', ['0', '1']), ('b', 'out', ['0', '1', '2']), ('c', 'call', ['x', 'y'])]
        vals = lambda: rng.choice([rng.sample(ODD, 4), rng.sample(NUMS[:5], 3), rng.sample(INTS, 4), ['Ok', 'ok', 'Okk']])
        names = rng.sample(['batteryInfo', 'status', 'HTTPGet', 'x_y', 'fooBar2', 'moveTo', 'Stop', 'zB'], rng.randint(3, 6))
        cs = [(n, rng.choice(['in', 'out', 'out', 'call']), vals()) for n in names]
        if rng.random() < .5:
            cs.append((names[0], 'out' if cs[0][1] == 'in' else 'in', cs[0][2]))     # used in both directions
        return cs
    for k in range(ctx.pick(3, 8)):
        ch = chans('small')
        out.append(Machines('small machines %d' % k, [rand_machine(rng, 'm%d' % i, rng.randint(1, 4), ch, rng.randint(1, 2)) for i in range(24)]))
    for k in range(ctx.pick(4, 12)):
        ch = chans('wide')
        reals = ('size', 'speed') if k % 2 else ()
        ch += [(c, kind, rng.sample(REALS if exact else REALS[:4], 3)) for c, kind in zip(reals, ('out', rng.choice(['in', 'call'])))]
        s = Machines('machines %d' % k, [rand_machine(rng, 'm%d' % i, rng.choice([2, 5, 9, 25]), ch, rng.randint(1, 4)) for i in range(16)],
                     override_enums=[c for c, _, _ in ch if rng.random() < .3])
        s.reals = reals
        for p in s.programs:
            p.reals = reals
        out.append(s)
    # A ring that counts, and a machine that can be anywhere from anywhere.
    ring = Machine('ring', ['r'], [{'id': 's%d' % i, 'sets': [('tick', 'out', [('up', (i + 1) % 12), ('down', (i - 1) % 12)])],
                                    'vd': {'r': 'pass' if i == 6 else 'inc'}} for i in range(12)])
    full = Machine('full', ['f', 'g'], [{'id': 'u%d' % i, 'sets': [('tick', 'out', [(str(j), j) for j in range(6)])] if i else [('set', 'in', [('1', 1)])],
                                         'vd': {'f': OUTCOMES[i % 3]} if i % 2 else {'g': OUTCOMES[i % 3]}} for i in range(6)])
    out.append(Machines('ring', [ring]))
    # Many states, channels and tests, and long names and values.
    for k in range(2):
        outs = [(LONG + 'To%d' % i, rng.choice(['out', 'call']), ['x' * 250 + 'a', 'x' * 250 + 'b'] if i == 5 else ['a', 'b']) for i in range(14)]
        ins = [(LONG + 'From%d' % i, 'in', ['a']) for i in range(9)]
        tests = ['t%d' % i for i in range(12)]
        vd = lambda i: {t: OUTCOMES[(i + j) % 3] for j, t in enumerate(tests)} if i % 4 else {t: 'inc' for t in rng.sample(tests, 3)}
        states = [{'id': 'hub', 'sets': [(c, d, [(v, 1 + (n + m) % 18) for m, v in enumerate(vs)]) for n, (c, d, vs) in enumerate(outs)], 'vd': vd(1)}]
        states += [{'id': 'in%d' % i, 'sets': [ins[i % 9][:2] + ([('a', 19 + i)],)], 'vd': vd(i)} for i in range(18)]
        states += [{'id': 'end%d' % i, 'sets': [(c, d, [(vs[0], rng.choice([0, 0, 5, 20]))]) for c, d, vs in rng.sample(outs, 9)] if i != 7 else [],
                    'vd': dict(vd(i), t11='fail') if i == 7 else vd(i)} for i in range(18)]
        broad = Machine('broad', tests, states)
        n = 160
        deep = Machine('deep', ['u'], [{'id': 'n%d' % i, 'sets': [('turn', 'out', [(v, j) for v, j in (('left', 2 * i + 1), ('right', 2 * i + 2)) if j < n] or [('left', 0)])],
                                        'vd': {'u': OUTCOMES[i % 3]}} for i in range(n)])
        if k:
            for m in (broad, deep):
                # The same with the states in another order, but for the first.
                order = [0] + rng.sample(range(1, len(m.states)), len(m.states) - 1)
                at = {o: i for i, o in enumerate(order)}
                m.states = [dict(m.states[o], sets=[(c, d, [(v, at[j]) for v, j in ts]) for c, d, ts in m.states[o]['sets']]) for o in order]
        out.append(Machines('large %d' % k, [broad, deep]))
    out.append(Machines('full', [full]))
    return out


def check_c22(ctx):
    ctx.build()
    ctx.model('MCMachine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OneRun Latest Fails SentOk Waiting\nPROPERTIES Absorbing\n'
              'CONSTANTS States = 2 MaxSteps = %d Tests = {"t"} Outcomes = %s\n' % ctx.pick((3, '{"inc", "fail"}'), (4, '{"unset", "inc", "pass", "fail"}')))
    ctx.model('MCImage', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS SaneImage InStep Channels\nCONSTANTS MaxNodes = %d MaxSteps = 4\n' % ctx.pick(4, 5))
    rng = ctx.rng
    ss = suites(ctx)
    for n, s in enumerate(ss):
        s.variant = 'animate' if n % 3 == 2 else 'ros'
        al = anim_alphabet(s.types()) if s.variant == 'animate' else lambda p, r: driver.alphabet(p, r) + [('L', '', '')]
        for p in s.programs:
            cut = enterable if s.variant == 'animate' else lambda h: h
            p.trie = driver.schedules(p, rng, 2, ctx.pick(1, 2), ctx.pick(30, 150), ctx.pick(250, 2000), alphabet=al, cut=cut)
    driver.compile_suites(ctx, ss)
    ctx.log('compiled')
    compiled_or_violation(ctx, 'C22', ss, True)
    for v in ('ros', 'animate'):
        driver.run_suites(ctx, [s for s in ss if s.variant == v], driver.ros_token if v == 'ros' else anim_token)
    ctx.log('ran')
    if ctx.violations and not any(p.compiled for s in ss for p in s.programs):
        return
    recs = []
    for v in ('ros', 'animate'):
        recs += driver.judge(ctx, None, v, [s for s in ss if s.variant == v], module='TraceMachine')
    cover(ctx, ss, recs)
    ctx.cov['cyclic'] = sum(any(j <= i for i, s in enumerate(p.states) for _, _, ts in s['sets'] for _, j in ts) for s in ss for p in s.programs)
    ctx.assumptions += ['state, test and channel names are identifiers that differ in more than case',
                        'the stand-in for roscpp delivers one event at a time and keeps delivering after shutdown']


# -- C25 -------------------------------------------------------------------
FACT = re.compile(r"""^(?:
  Entered\ state\ (?P<enter>\w+)\.
 |Test\ (?P<test>\w+)\ is\ now\ (?P<new>[\w?]+);\ was\ (?P<old>[\w?]+)\.
 |State\ '(?P<sst>\w+)'\ sends\ (?P<sv>.*?)\ to\ SUT\ on\ (?P<sc>\w+);\ if\ accepted,\ next\ state\ will\ be\ '(?P<snext>\w+)'\.
 |State\ '(?P<rst>\w+)'\ can\ receive\ (?P<rv>.*?)\ from\ SUT\ on\ (?P<rc>\w+)(?:\.\w+)?;\ if\ received,\ next\ state\ will\ be\ '(?P<rnext>\w+)'\.
 |\(Actual\ value\ received\ by\ SUT\ on\ (?P<ac>\w+)\ after\ conversion:\ (?P<av>.*?)\)
 |(?P<ack>Accepted\ input\ on\ state\ (?P<ackst>\w+)\ as\ expected)\.
 |(?P<bad>Accepted\ input\ in\ unexpected\ state\ ?(?P<badst>\w+))
 |Unexpected\ value\ (?P<uv>.*?)\ for\ (?P<uc>\w+)\.(?P<uk>\w+)\ in\ state\ (?P<ust>\w+)\.
 |Output\ (?P<ov>.*?)\ on\ (?P<oc>\w+)\.(?P<ok>\w+)\ in\ unexpected\ state\ (?P<ost>\w+)\.
 |(?P<delay>Initial\ delay\ finished)[^\n]*
 |(?P<timeout>Timeout!)
)\n""", re.M | re.S | re.X)
PROMPT = re.compile(r'\nType one of the following:\n(?P<menu>.*?)\n> |(?P<sorry>Sorry, try again)|(?P<wait>Test is waiting for the SUT)', re.S)


def tell(log, said):
    """The facts of a log, and the prompts and apologies among what was said."""
    facts, to = [], 0
    e = None
    for m in FACT.finditer(log):
        g = m.groupdict()
        if g['enter']:
            e = {'f': 'enter', 's': g['enter'], 'ch': [], 'snd': [], 'opt': [], 'val': []}
            facts.append(e)
        elif g['timeout']:
            to += 1
        elif g['test'] or g['sst'] or g['rst'] or g['ac']:
            if e is None or e['f'] != 'enter' or (g['sst'] or g['rst'] or e['s']) != e['s']:
                facts.append({'f': 'out of place: ' + m.group(0)})
            elif g['test']:
                e['ch'].append([g['test'], g['new'], g['old']])
            elif g['sst']:
                e['snd'].append([g['sc'], g['sv'], g['snext']])
            elif g['rst']:
                e['opt'].append([g['rc'], g['rv'], g['rnext']])
            else:
                e['val'].append([g['ac'], g['av']])
        else:
            if g['ack']:
                e = {'f': 'ack', 's': g['ackst']}
            elif g['bad']:
                e = {'f': 'badack', 's': g['badst']}
            elif g['uc']:
                e = {'f': 'off', 'c': g['uc'], 'k': g['uk'], 'v': g['uv'], 's': g['ust']}
            elif g['oc']:
                e = {'f': 'off', 'c': g['oc'], 'k': g['ok'], 'v': g['ov'], 's': g['ost']}
            else:
                e = {'f': 'delay'}
            facts.append(e)
    conv = []
    for m in PROMPT.finditer(said):
        if m.group('sorry'):
            conv.append({'k': 'sorry'})
        elif m.group('wait'):
            conv.append({'k': 'wait'})
        else:
            ls = m.group('menu')
            conv.append({'k': 'menu', 'ready': '\n  ready (' in '\n' + ls, 'accept': '\n  accept (' in '\n' + ls, 'timeout': '\n  timeout (' in '\n' + ls,
                         'outs': [list(x) for x in re.findall(r'^  (\w+) \(type: (\w+)\)$', ls, re.M)]})
    return {'facts': facts, 'to': to, 'conv': conv}


class Teller(Machine):
    """A machine of which what it tells is recorded."""

    def record(self):
        return dict(super().record(), types=self.types)

    def extra(self, n):
        """What has been told since the parent of a run in the trie."""
        o = self.obs[n]
        if 'facts' not in o:
            return {'tell': [{'f': 'crash'}], 'to': -1, 'conv': []}
        p = self.trie.par[n]
        before = self.obs[p] if p is not None else {'facts': [], 'conv': []}
        r = {'to': o['to']}
        for k, name in (('facts', 'tell'), ('conv', 'conv')):
            a, b = before.get(k, []), o[k]
            r[name] = b[len(a):] if b[:len(a)] == a else [{'f': 'not what was told before', 'k': 'not what was said before'}]
        return r


def of_scripts(ctx, label, progs):
    """A suite of the machines that the first two stages make of scripts."""
    src = '\n'.join(driver.script_line(p.name, p.script) for p in progs) + '\n'
    r = ctx.run1([ctx.read_traces], stdin=src.encode())
    r = ctx.run1([ctx.make_stms], stdin=r['stdout'])
    if r['rc']:
        raise Broken('no machines for %s: %s' % (label, r['stderr']))
    d = json.loads(r['stdout'])
    out = []
    for name, m in d['tests'].items():
        no = {s['id']: i for i, s in enumerate(m['states'])}
        out.append(Machine(name, m['tests'], [{'id': s['id'], 'sets': [tuple(x['channel'].rsplit('.', 1)) + ([(t['value'], no[t['next']]) for t in x['transitions']],)
                                                                       for x in s.get('transitionSets') or []], 'vd': s.get('verdicts') or {}} for s in m['states']]))
    return Machines(label, out)


def check_c25(ctx):
    ctx.build()
    rng = ctx.rng
    for k in ('ros', 'animate'):
        ctx.model('MCStory', 'SPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS Where Outcomes_ Chained Told_ Sent_ Foretold Offers\n'
                  'CONSTANTS States = 2 MaxSteps = %d Tests = {"t"} Outcomes = {"inc", "fail"} TellKind = "%s"\n' % (ctx.pick(2, 3), k))
    both = suites(ctx, False)
    scripts = [driver.Program.of_script('s%d' % i, rand_script(rng, BASE_CHANS, 1, 7)) for i in range(ctx.pick(12, 40))]
    both.append(of_scripts(ctx, 'scripts', scripts))
    ss = []
    for n, s in enumerate(both):
        for v in ('ros', 'animate') if ctx.thorough or n % 2 else (('ros', 'animate')[n // 2 % 2],):
            c = Machines(s.label, [], override_enums=s.override_enums, variant=v)
            c.tell, c.reals = tell, s.reals
            for p in s.programs:
                x = Teller(p.name, p.tests, p.states)
                x.reals = s.reals
                c.programs.append(x)
            ty = c.types()
            every = anim_alphabet(ty) if v == 'animate' else lambda p, r: driver.alphabet(p, r) + [('L', '', '')]
            # A stream shows six digits of a real number.
            al = lambda p, r: [t for t in every(p, r) if not (t[0] == 'O' and t[1] in p.reals and len(t[2]) > 6)]
            for x in c.programs:
                x.types = ty
                x.trie = driver.schedules(x, rng, 2, 1, ctx.pick(15, 60), ctx.pick(60, 500), alphabet=al, cut=enterable if v == 'animate' else lambda h: h)
            ss.append(c)
    driver.compile_suites(ctx, ss)
    ctx.log('compiled')
    compiled_or_violation(ctx, 'C25', ss, False)
    for v in ('ros', 'animate'):
        driver.run_suites(ctx, [s for s in ss if s.variant == v], driver.ros_token if v == 'ros' else anim_token)
    ctx.log('ran')
    recs = []
    for v in ('ros', 'animate'):
        recs += driver.judge(ctx, None, v, [s for s in ss if s.variant == v], module='TraceStory')
    cover(ctx, ss, recs)
    ctx.cov['facts'] = dict(collections.Counter(f['f'] for r in recs for t in r['trie'] for f in t['tell']))
    ctx.assumptions += ['state, test and channel names are identifiers that differ in more than case']
