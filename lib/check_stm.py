"""C09, C10, C11, C12, C21: tests, their well-formedness, and state machines built from them."""
import itertools, json, re
from core import CheckError, cps

NOEV = {'c': '', 'k': 'none', 'v': ''}


def tag(v):
    """A written value with its kind: n: natural, i: negative, e: text."""
    if re.fullmatch(r'[+-]?[0-9]+', v) and -2**63 <= int(v) < 2**63:
        return ('i:' if int(v) < 0 else 'n:') + str(int(v))
    return 'e:' + v


def ev(s):
    c, k, v = s.split('.', 2)
    return {'c': c, 'k': k, 'v': tag(v)}


def node(o, e, t, n=()):
    return {'o': o, 'e': e, 't': list(t), 'n': list(n)}


def untag(v):
    return v[2:]


def written(x, rng=None, ids=None):
    """A node in the format the tools read, in one of the ways it can be written."""
    r = rng.random() if rng else 0
    d = {}
    if x.get('id'):
        d['id'] = x['id']
    if x['t'] or r < .2:
        d['tests'] = x['t'] if x['t'] or r < .1 else None
    if x['o'] != 'unset':
        d['outcome'] = x['o'] if r < .7 else x['o'].upper() if r < .85 else x['o'].capitalize()
    elif r > .3:
        d['outcome'] = 'unset'
    if x['e']['k'] != 'none':
        d['event'] = '%s.%s.%s' % (x['e']['c'], x['e']['k'], untag(x['e']['v']))
    elif r > .8:
        d['event'] = None
    if x['n'] or .4 < r < .5:
        d['next'] = [written(y, rng) for y in x['n']] if x['n'] or r < .45 else None
    return d


def suite_json(tests, rng):
    """tests: list of (name, tree or None)."""
    parts = ['%s: %s' % (json.dumps(n), 'null' if t is None else json.dumps(written(t, rng))) for n, t in tests]
    return '{' + ', '.join(parts) + '}\n'


NULL = node('null', NOEV, ['x'])


def plain(x):
    """The node as the specification sees it."""
    if x is None:
        return NULL
    return {'o': x['o'], 'e': x['e'], 't': x['t'], 'n': [plain(y) for y in x['n']]}


# Tests too deep or too wide for the above.
def flat(x):
    """The nodes of a test, root first, each with the places of its continuations."""
    out, st = [], [(x, None)]
    while st:
        y, p = st.pop()
        out.append({'o': y['o'], 'e': y['e'], 't': y['t'], 'n': []})
        if p is not None:
            out[p]['n'].append(len(out))
        st.extend((z, len(out) - 1) for z in reversed(y['n']))
    return out


def deep_json(x):
    """As written, without recursion."""
    out, st = [], [x]
    while st:
        y = st.pop()
        if isinstance(y, str):
            out.append(y)
            continue
        out.append('{"outcome": %s, "tests": %s' % (json.dumps(y['o']), json.dumps(y['t'])))
        if y['e']['k'] != 'none':
            out.append(', "event": %s' % json.dumps('%s.%s.%s' % (y['e']['c'], y['e']['k'], untag(y['e']['v']))))
        st.append('}')
        if y['n']:
            out.append(', "next": [')
            st.append(']')
            for k, z in enumerate(reversed(y['n'])):
                st.extend([z] if k == len(y['n']) - 1 else [z, ', '])
    return ''.join(out)


def flat_of_json(root):
    """A written test node by node; None if it is not one."""
    out, st = [], [(root, None)]
    while st:
        d, p = st.pop()
        try:
            if set(d) - {'id', 'tests', 'outcome', 'event', 'next'}:
                return None
            out.append({'o': d.get('outcome') or 'unset', 'e': NOEV if d.get('event') is None else ev(d['event']), 't': d.get('tests') or [], 'n': []})
        except (ValueError, TypeError, AttributeError):
            return None
        if p is not None:
            out[p]['n'].append(len(out))
        st.extend((z, len(out) - 1) for z in reversed(d.get('next') or []))
    return out


def witness(f, m):
    """The place of the state of each node, as far as there is one."""
    ids = {s['id']: k + 1 for k, s in enumerate(m['states'])}
    at = [0] * len(f)
    at[0] = 1
    for i, x in enumerate(f):
        if not 0 < at[i] <= len(m['states']):
            continue
        sets = {(q['c'], q['k']): q['ts'] for q in m['states'][at[i] - 1]['sets']}
        n = {}
        for j in x['n']:
            y = f[j - 1]
            if y['o'] != 'fail':
                ch = (y['e']['c'], y['e']['k'])
                n[ch] = n.get(ch, 0) + 1
                ts = sets.get(ch, [])
                at[j - 1] = ids.get(ts[n[ch] - 1]['next'], 0) if n[ch] <= len(ts) else 0
    return at


def large_trees(rng, typed, depths, widths):
    """Long tests, wide tests and bushy tests, well-formed."""
    for n in depths:
        p = [typed.event() for _ in range(n)]
        yield expand(p, typed.event(), 't')
        # with another end at every so many steps
        x = node('pass', typed.event(), ['t'], [node('fail', NOEV, ['t'])])
        for j in range(n // 2):
            ys = [x] if j % 5 else [x, node('pass', {'c': 'd', 'k': rng.choice(['out', 'call']), 'v': 'n:%d' % j}, ['u'], [node('fail', NOEV, ['u'])])]
            x = node('inc', typed.event(), ['t', 'u'] if j % 7 else ['t'], ys)
        yield node('unset', NOEV, ['t', 'u'], [x])
    for n in widths:
        yield node('unset', NOEV, ['t', 'u'], [node('inc', {'c': rng.choice('abc'), 'k': rng.choice(['in', 'out', 'call']), 'v': 'n:%d' % j}, [rng.choice('tu')],
                   [node('pass', ev('b.out.1'), ['t'], [node('fail', NOEV, ['t'])])]) for j in range(n)])
        t = rand_tree(rng, typed, n, distinct=True)
        while len(nodes_of(t)) < n // 2:
            t['n'] += rand_tree(rng, typed, n, distinct=True)['n']
        yield t


def spoil_at(rng, root, at, typed):
    """Makes the given node ill-formed."""
    y = nodes_of(root)[at]
    how = rng.randrange(4)
    if how == 0:
        y['t'] = []
    elif how == 1:
        y['o'] = rng.choice([o for o in ('unset', 'inc', 'pass', 'fail') if o != y['o'] and not (len(y['n']) == 1 and {o, y['o']} == {'inc', 'pass'})])
    elif how == 2:
        y['e'] = typed.event() if y['e'] == NOEV else NOEV
    elif y['n'] and y['o'] != 'unset':
        y['n'] = []
    else:
        y['t'] = []


def large_recs(ctx, suites):
    """What becomes of suites of large tests."""
    def jobs(part):
        return [{'argv': [ctx.make_stms], 'stdin': ('{%s}' % ', '.join('%s: %s' % (json.dumps(n), deep_json(t)) for n, t in s)).encode(), 'limit': 1 << 27} for s in part]
    recs, res = [], []
    for k in range(0, len(suites), 64):
        res += ctx.run(jobs(suites[k:k + 64]))
    for s, r in zip(suites, res):
        rec = {'op': 'flat', 'suite': [flat(t) for _, t in s], 'rc': r['rc'], 'out': r['stdout'] != b'', 'err': says_so(r), 'types': [], 'per': [], 'ms': [], 'at': []}
        if r['rc'] == 0:
            try:
                d = json.loads(r['stdout'])
                if set(d['tests']) != {n for n, _ in s}:
                    raise ValueError
                types = [{'c': c, 't': t} for c, t in (d.get('types') or {}).items()]
                per = [[{'c': c, 't': t} for c, t in (d['tests'][n].get('types') or {}).items()] for n, _ in s]
                ms = [machine(d['tests'][n]) for n, _ in s]
                rec.update(types=types, per=per, ms=ms, at=[witness(f, m) for f, m in zip(rec['suite'], ms)])
            except (ValueError, KeyError, TypeError, AttributeError):
                pass
        recs.append(rec)
        r['stdout'] = r['stdout'][:2000]
    return recs, res


def large(ctx, suites, label):
    recs, res = large_recs(ctx, suites)

    def what(i):
        f = recs[i]['suite']
        ctx.violation('suite of %d large tests of %s nodes: exit status %d%s' % (len(f), [len(x) for x in f], res[i]['rc'], ', ' + res[i]['stderr'].decode(errors='replace')[:200] if res[i]['rc'] else ''),
                      {'suite': [deep_json(t)[:200000] for _, t in suites[i]], 'rc': res[i]['rc'], 'stdout': res[i]['stdout'].decode(errors='replace'),
                       'stderr': res[i]['stderr'].decode(errors='replace')[:2000]})
    judge(ctx, recs, what)
    ctx.cov[label] = len(suites)
    ctx.cov[label + '_accepted'] = sum(r['rc'] == 0 for r in recs)
    ctx.cov['most_nodes'] = max(len(f) for r in recs for f in r['suite'])


def harness(ctx, ops):
    if not hasattr(ctx, 'hbin'):
        ctx.hbin = ctx.harness()
    out = []
    for _ in range(8):
        r = ctx.run1([ctx.hbin], stdin=''.join(json.dumps(o) + '\n' for o in ops[len(out):]).encode(), timeout=300, limit=1 << 29)
        out += [json.loads(l) for l in r['stdout'].decode('utf-8').splitlines(True) if l.endswith('\n')]
        if not r['rc'] and len(out) == len(ops):
            return out
        if b'panic' not in r['stderr'] and b'fatal error' not in r['stderr'] and not r.get('timeout') and r['rc'] >= 0:
            raise CheckError('harness failed: %s' % r['stderr'][-2000:].decode(errors='replace'))
        # The operation that was next brought the whole process down.
        out.append({'panic': r['stderr'][:300].decode(errors='replace')})
    return (out + [{'panic': 'not reached'}] * len(ops))[:len(ops)]


def judge(ctx, recs, what):
    n = 0
    for k in range(0, len(recs), 30000):
        part = recs[k:k + 30000]
        rej, _ = ctx.judge('TraceTests', part, expect=32 + len(part))
        for i, d in rej:
            n += 1
            what(k + i - 1)
    ctx.traces += len(recs)
    return n


def model(ctx, invs, wide):
    text = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANTS MaxNodes = %d MaxTrace = %d Tidy = %s\n'
    ctx.model('MCTests', text % (invs, 3, 4, 'FALSE'))
    if wide:
        ctx.model('MCTests', text % (invs, ctx.pick(5, 6), 0, 'TRUE'))


# -- generators ----------------------------------------------------------------
CH = ['a', 'b', 'foo', 'batteryInfo', 'A', 'x y', 'é']
INTS = ['0', '1', '7', '42', '4294967296', '9007199254740993', '9223372036854775807']
NEGS = ['-1', '-7', '-9223372036854775808']
TXTS = ['Ok', 'ok', '', 'x.y', '-', '+', '1.0', '1e3', '0x1', '"q"', 'a b', 'nat', 'null', '{{.}}', '<b>', 'é', '9223372036854775808', '٣', 'true']


class Typed:
    """Chooses events so that no channel has both numbers and text, unless asked for one that has."""
    def __init__(self, rng, nch=4):
        self.rng = rng
        chs = rng.sample(CH, nch)
        self.kind = {c: rng.choice(['n', 'n', 'i', 'e']) for c in chs}
        self.chs = chs

    def value(self, k):
        r = self.rng
        if k == 'n':
            return r.choice(INTS)
        if k == 'i':
            return r.choice(INTS + NEGS)
        return r.choice(TXTS)

    def event(self, kinds=('in', 'out', 'call')):
        c = self.rng.choice(self.chs)
        return {'c': c, 'k': self.rng.choice(kinds), 'v': tag(self.value(self.kind[c]))}


def rand_trace(rng, n=None):
    t = Typed(rng)
    n = rng.choice([0, 0, 1, 2, 3, 5, 9]) if n is None else n
    return [t.event() for _ in range(n)], t.event()


def expand(prefix, forbid, name):
    x = node('pass', forbid, [name], [node('fail', NOEV, [name])])
    for e in reversed(prefix):
        x = node('inc', e, [name], [x])
    return node('unset', NOEV, [name], [x])


def rand_tree(rng, typed, size, names=('t', 'u', 'v'), distinct=True):
    """A random well-formed test of about the given number of nodes."""
    def ts():
        return rng.sample(names, rng.randint(1, len(names)))

    def grow(budget):
        if budget <= 2 or rng.random() < .15:
            return node('pass', typed.event(), ts(), [fail_or(budget)])
        k = min(rng.choice([1, 1, 1, 2, 2, 3, 4]), budget - 1)
        return node('inc', typed.event(), ts(), kids(budget - 1, k))

    def fail_or(budget):
        if budget > 4 and rng.random() < .15:
            return grow(budget - 1)
        return node('fail', NOEV, ts())

    def kids(budget, k):
        out, seen = [], set()
        for _ in range(k):
            y = node('fail', NOEV, ts()) if rng.random() < .08 else grow(max(1, budget // k))
            key = json.dumps(y['e'])
            if y['o'] != 'fail' and key in seen and distinct:
                continue
            seen.add(key)
            out.append(y)
        return out
    return node('unset', NOEV, ts(), kids(size - 1, rng.choice([1, 1, 2, 3])) if size > 1 else [])


def nodes_of(x):
    out, st = [], [x]
    while st:
        y = st.pop()
        out.append(y)
        st.extend(reversed(y['n']))
    return out


def spoil(rng, root, typed):
    """Changes one thing about one node; mostly breaks the test."""
    y = rng.choice(nodes_of(root))
    how = rng.randrange(9)
    if how == 0:
        y['t'] = []
    elif how == 1:
        y['o'] = rng.choice(['unset', 'inc', 'pass', 'fail'])
    elif how == 2:
        y['e'] = NOEV
    elif how == 3:
        y['e'] = typed.event()
    elif how == 4:
        y['n'] = []
    elif how == 5:
        y['n'] = y['n'] + [node('fail', NOEV, ['t'])]
    elif how == 6:
        y['n'] = y['n'][:1]
    elif how == 7:
        y['n'] = y['n'] + [node('pass', typed.event(), ['t'], [node('fail', NOEV, ['t'])])]
    elif how == 8:
        y['o'] = {'unset': 'inc', 'inc': 'pass', 'pass': 'inc', 'fail': 'unset'}[y['o']]
    return root


def attrs():
    e = ev('a.out.1')
    for o in ('unset', 'inc', 'pass', 'fail'):
        for x in (NOEV, e):
            for t in ([], ['t']):
                yield o, x, t


def small_trees(n, rng=None, keep=1.0):
    """Every tree of up to n nodes over every combination of attributes."""
    A = list(attrs())
    shapes = {1: [()], 2: [(0,)], 3: [(0, 1), (0, 0)], 4: [(0, 1, 2), (0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)]}
    for k in range(1, n + 1):
        for sh in shapes[k]:
            for at in itertools.product(A, repeat=k):
                if k == 4 and rng.random() > keep:
                    continue
                ns = [node(*a) for a in at]
                for j, p in enumerate(sh):
                    ns[p]['n'].append(ns[j + 1])
                yield ns[0]


# -- C09 -----------------------------------------------------------------------
def spec_of_json(root):
    """A written test as the specification sees it; None if it is not of that form."""
    if not isinstance(root, dict) or set(root) - {'id', 'tests', 'outcome', 'event', 'next'}:
        return None
    e = root.get('event')
    try:
        e = NOEV if e is None else ev(e)
    except ValueError:
        return None
    n = [spec_of_json(y) for y in root.get('next') or []]
    if None in n:
        return None
    return {'o': root.get('outcome') or 'unset', 'e': e, 't': root.get('tests') or [], 'n': n}


def events_of(x):
    """The events of a test along its first branches."""
    out = []
    while x:
        if x['e']['k'] != 'none':
            out.append(x['e'])
        x = x['n'][0] if x['n'] else None
    return out


BROKEN = node('null', NOEV, [])


def cell(e):
    s = '%s.%s.%s' % (e['c'], e['k'], untag(e['v']))
    return '"' + s.replace('"', '""') + '"'


def check_c09(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 'ExpandOk CollapseOk FlatOk', True)
    recs, desc = [], []
    # Real traces through the reader.
    names = ['n', 'foo', 'test_1', 'a b', 'x.y', 'é', 'T', 'q-1']
    traces = []
    E = [ev(s) for s in ('a.in.1', 'a.out.1', 'b.call.x', 'a.in.-1')]
    for k in range(0, 4):
        for t in itertools.product(E, repeat=k + 1):
            try:
                kinds = {}
                for e in t:
                    if kinds.setdefault(e['c'], e['v'][0] == 'e') != (e['v'][0] == 'e'):
                        raise ValueError
                traces.append((list(t[:-1]), t[-1]))
            except ValueError:
                pass
    traces += [rand_trace(rng) for _ in range(ctx.pick(600, 6000))] + [rand_trace(rng, n) for n in (30, 80, 110)]
    files, groups = [], []
    for k in range(0, len(traces), 6):
        g = [('%s_%d' % (rng.choice(names), j), t) for j, t in enumerate(traces[k:k + 6])]
        groups.append(g)
        files.append(''.join('"%s:%s\n' % (n, ','.join([cell(e) for e in t[0] + [t[1]]])[1:]) for n, t in g))
    # Names that clash, in all ways; the tests are then told apart by their events.
    for k in range(0, len(traces) - 6, 5):
        g = [(None, t) for t in traces[k:k + rng.randint(2, 6)]]
        ns = [rng.choice(['', 'foo:', 'foo:', 'test:', 'foo0:', 'test0:']) for _ in g]
        groups.append(g)
        files.append(''.join('"%s%s\n' % (n, ','.join([cell(e) for e in t[0] + [t[1]]])[1:]) for n, (_, t) in zip(ns, g)))
    # one test per file, unnamed
    for t in traces[::5]:
        groups.append([(None, t)])
        files.append(','.join(cell(e) for e in t[0] + [t[1]]) + '\n')
    for g, f, r in zip(groups, files, ctx.run([{'argv': [ctx.read_traces], 'stdin': f.encode()} for f in files])):
        try:
            d = json.loads(r['stdout'])
        except ValueError:
            d = {}
        free = {n: spec_of_json(x) for n, x in d.items()}
        for n, (p, e) in g:
            if n is None:
                n = next((n for n, x in free.items() if x and events_of(x) == p + [e]), '')
            root = free.pop(n, None)
            recs.append({'op': 'expand', 'tr': {'prefix': p, 'forbid': e}, 'name': n, 'root': root or BROKEN})
            desc.append({'file': f, 'stdout': r['stdout'].decode(errors='replace')[:3000], 'test': n})
    # Long traces, and many.
    longs = [[('n', rand_trace(Fixed(rng), n))] for n in ctx.pick([130, 300, 1100, 2600], [130, 250, 300, 500, 1100, 2600, 3500, 4400] * 3)]
    longs.append([('n%d' % j, rand_trace(rng, rng.choice([0, 1, 5]))) for j in range(ctx.pick(400, 3000))])
    files = [''.join('"%s:%s\n' % (n, ','.join([cell(e) for e in t[0] + [t[1]]])[1:]) for n, t in g) for g in longs]
    for g, f, r in zip(longs, files, ctx.run([{'argv': [ctx.read_traces], 'stdin': f.encode(), 'limit': 1 << 27} for f in files])):
        try:
            d = json.loads(r['stdout'])
        except ValueError:
            d = {}
        if len(d) != len(g):
            d = {}
        for n, (p, e) in g:
            recs.append({'op': 'chain', 'tr': {'prefix': p, 'forbid': e}, 'name': n, 'root': n in d and flat_of_json(d[n]) or flat(BROKEN)})
            desc.append({'file': f[:20000], 'stdout': r['stdout'].decode(errors='replace')[:3000], 'test': n})
    # The library's own expansion and collapsing.
    ops = [{'op': 'expand', 'trace': {'prefix': p, 'forbid': e}, 'name': 'n'} for p, e in traces]
    trees = list(small_trees(ctx.pick(3, 4), rng, .15))
    trees += [expand(p, e, 'n') for p, e in traces]
    for _ in range(ctx.pick(4000, 40000)):
        p, e = rand_trace(rng)
        t = expand(p, e, 'n')
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            spoil(rng, t, Typed(rng))
        trees.append(t)
    for n in (50, 110):
        for at in list(range(0, n, 17)) + [n - 1, n, n + 1]:
            p, e = rand_trace(rng, n)
            t = expand(p, e, 'n')
            y = t
            for _ in range(at):
                y = y['n'][0]
            y['n'] = y['n'] + [node('fail', NOEV, ['n'])]
            trees.append(t)
    for o in ('unset', 'inc', 'pass', 'fail'):
        t = expand([E[0]], E[1], 'n')
        t['n'][0]['o'] = 'weird'
        trees.append(t)
    ops += [{'op': 'collapse', 'root': t} for t in trees]
    groups = [traces[k:k + 7] for k in range(0, len(traces), 7)]
    ops += [{'op': 'collapseAll', 'tests': [{'name': 'n%d' % j, 'prefix': p, 'forbid': e} for j, (p, e) in enumerate(g)]} for g in groups]
    for o, r in zip(ops, harness(ctx, ops)):
        if o['op'] == 'expand':
            rec = {'op': 'expand', 'tr': o['trace'], 'name': 'n', 'root': r.get('root', BROKEN)}
            recs.append(rec)
            desc.append(r)
        elif o['op'] == 'collapse':
            if r.get('ok'):
                res = {k: r[k] for k in ('ok', 'prefix', 'forbid')}
            else:
                res = {'ok': 'panic' in r}
            recs.append({'op': 'collapse', 'root': o['root'], 'res': res})
            desc.append(r)
        else:
            got = {t['name']: t for t in r.get('tests', [])}
            for t in o['tests']:
                g = got.get(t['name'])
                recs.append({'op': 'collapse', 'root': expand(t['prefix'], t['forbid'], t['name']),
                             'res': {'ok': True, 'prefix': g['prefix'], 'forbid': g['forbid']} if g and len(got) == len(o['tests']) else {'ok': False}})
                desc.append(r)

    def what(i):
        r = recs[i]
        if r['op'] in ('expand', 'chain'):
            ctx.violation('trace %s: the test is %s' % (json.dumps(r['tr'])[:300], json.dumps(r['root'])[:400]), {'record': r, 'detail': desc[i]})
        else:
            ctx.violation('collapsing %s gives %s' % (json.dumps(r['root'])[:400], json.dumps(desc[i])[:300]), {'record': r, 'detail': desc[i]})
    judge(ctx, recs, what)
    ctx.cov.update(expansions=sum(r['op'] == 'expand' for r in recs), collapses=sum(r['op'] == 'collapse' for r in recs),
                   all_trees_up_to=3)
    ctx.sample(files[3])
    ctx.sample(trees[-70])
    ctx.assumptions.append('what collapsing does with well-formed unbranching tests that no trace expands to is left open')


# -- C10 -----------------------------------------------------------------------
def run_stms(ctx, suites, rng):
    texts = [suite_json(s, rng) for s in suites]
    res = ctx.run([{'argv': [ctx.make_stms], 'stdin': t.encode(), 'limit': 1 << 26} for t in texts])
    return texts, res


def validator(ctx, rng):
    """Asks the validator itself, which can be given outcomes that no file can contain."""
    trees = []
    for _ in range(ctx.pick(1500, 8000)):
        typed = Typed(rng)
        t = rand_tree(rng, typed, rng.choice([1, 3, 5, 8, 15]))
        how = rng.random()
        if how < .5:
            rng.choice(nodes_of(t))['o'] = 'weird'
        elif how < .8:
            spoil(rng, t, typed)
        trees.append(t)
    try:
        out = harness(ctx, [{'op': 'validate', 'root': plain(t)} for t in trees])
    except CheckError as e:
        ctx.assumptions.append('the validator could not be called directly: ' + str(e)[:200])
        return
    recs = [{'op': 'validate', 'root': plain(t), 'ok': r.get('ok') is True} for t, r in zip(trees, out)]
    judge(ctx, recs, lambda i: ctx.violation('validate.Full %s the test %s' % ('accepts' if recs[i]['ok'] else 'does not accept', json.dumps(trees[i])[:500]), recs[i]))
    ctx.cov['trees_given_to_the_validator'] = len(recs)


def check_c10(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 'Local BuildOk FlatOk', True)
    suites = [[('t', t)] for t in small_trees(ctx.pick(3, 4), rng, .03)]
    n_small = len(suites)
    suites += [[], [('t', None)]]
    typed = Typed(rng)
    for _ in range(ctx.pick(3000, 25000)):
        if rng.random() < .05:
            typed = Typed(rng)
        k = rng.choice([1, 1, 1, 2, 3, 8])
        s = [('t', rand_tree(rng, typed, 6, ['m%d' % i for i in range(60)]))] if rng.random() < .01 else [('t%d' % j, rand_tree(rng, typed, rng.choice([3, 5, 8, 15, 30]))) for j in range(k)]
        if rng.random() < .75:
            spoil(rng, rng.choice(s)[1], typed)
        elif rng.random() < .1:
            s[rng.randrange(k)] = (s[0][0] + 'x', None)
        suites.append(s)
    # One spoilt node at every depth of a long test, and in every place of a wide one.
    for n in (40, 110):
        for at in range(0, n + 3, 1 if n == 40 else 7):
            for how in range(3):
                p, e = rand_trace(rng, n)
                t = expand(p, e, 't')
                y = t
                for _ in range(at):
                    y = y['n'][0] if y['n'] else y
                if how == 0:
                    y['t'] = []
                elif how == 1:
                    y['e'] = NOEV if y['e'] != NOEV else typed.event()
                else:
                    y['o'] = 'fail' if y['o'] != 'fail' else 'pass'
                suites.append([('t', t)])
    # A second root somewhere inside.
    for _ in range(60):
        t = rand_tree(rng, typed, rng.choice([5, 10, 20]))
        y = rng.choice([x for x in nodes_of(t) if x['o'] in ('unset', 'inc')])
        y['n'] = y['n'] + [rand_tree(rng, typed, rng.choice([1, 4, 8]))]
        suites.append([('t', t)])
    for at in range(0, 25):
        t = node('unset', NOEV, ['t'], [node('inc', {'c': 'a', 'k': 'out', 'v': 'n:%d' % j}, ['t'],
                 [node('pass', ev('b.out.1'), ['t'], [node('fail', NOEV, ['t'])])]) for j in range(25)])
        t['n'][at]['n'][0]['n'] = []
        suites.append([('t', t)])
    # Many tests, one of them spoilt.
    for at in range(0, 30):
        s = [('t%d' % j, expand(*rand_trace(Fixed(rng), 3), 't%d' % j)) for j in range(30)]
        spoil(rng, s[at][1], typed)
        suites.append(s)
    # Nodes may be named, and more than one the same.
    for s in suites[n_small + 2:]:
        if rng.random() < .25:
            names = rng.sample(['x', 'y', 'initial', 'step0', 'step1', 'step7', ' '], rng.randint(1, 4))
            for _, t in s:
                for y in nodes_of(t) if t else []:
                    if rng.random() < .7:
                        y['id'] = rng.choice(names)
    texts, res = run_stms(ctx, suites, rng)
    ctx.log('ran %d suites' % len(suites))
    recs = [{'op': 'suite', 'suite': [plain(t) for _, t in s], 'rc': r['rc'], 'out': r['stdout'] != b'', 'err': says_so(r)}
            for s, r in zip(suites, res)]

    def what(i):
        ctx.violation('test suite %s: exit status %d, %s' % (texts[i][:500], res[i]['rc'], (res[i]['stderr'].decode(errors='replace').strip() or 'no message')[:200]),
                      {'suite': texts[i], 'rc': res[i]['rc'], 'stdout': res[i]['stdout'].decode(errors='replace')[:2000],
                       'stderr': res[i]['stderr'].decode(errors='replace')[:2000]})
    judge(ctx, recs, what)
    validator(ctx, rng)
    # Large tests, whole or with one spoilt node.
    big = []
    for how in range(ctx.pick(10, 40)):
        typed = Typed(rng)
        for t in large_trees(rng, typed, [rng.choice([130, 180, 300]), rng.choice([600, 1100, 2500, 4400])], [rng.choice([130, 300, 1100])]):
            if how % 5:
                n = len(nodes_of(t))
                spoil_at(rng, t, rng.choice([0, 1, n - 1, n - 2, n - 3, rng.randrange(n), rng.randrange(n), rng.randrange(n)]), typed)
            big.append([('t', t)] if rng.random() < .7 else [('u', expand([], typed.event(), 'u')), ('t', t)])
    large(ctx, big, 'large_suites')
    ctx.cov.update(suites=len(suites), all_trees_up_to_3=n_small if not ctx.thorough else 8464, accepted=sum(r['rc'] == 0 for r in res))
    for t in rng.sample(texts[n_small:n_small + 2000], 3):
        ctx.sample(t[:600])
    ctx.assumptions.append('every event has a value (see C13 for those that have none)')


def says_so(r):
    """Whether a run ended with a message rather than by crashing."""
    return r['stderr'].strip() != b'' and r['rc'] > 0 and b'goroutine ' not in r['stderr']


class Fixed:
    """A random source for which channels always have the same kinds of values."""
    def __init__(self, rng):
        self.rng = rng

    def sample(self, xs, n):
        return xs[:n]

    def choice(self, xs):
        return 'n' if xs == ['n', 'n', 'i', 'e'] else self.rng.choice(xs)


# -- C11 -----------------------------------------------------------------------
def machine(stm):
    """A written machine as the specification sees it; raises if it is not of that form."""
    def chan(s):
        c, k = s.rsplit('.', 1)
        return c, k
    states = []
    for s in stm['states']:
        sets = []
        for x in s.get('transitionSets') or []:
            c, k = chan(x['channel'])
            sets.append({'c': c, 'k': k, 'ts': [{'v': tag(t['value']), 'next': t['next']} for t in x.get('transitions') or []]})
        states.append({'id': s['id'], 'sets': sets, 'vd': [{'t': t, 'o': o} for t, o in (s.get('verdicts') or {}).items()]})
    return {'states': states, 'tests': list(stm.get('tests') or [])}


def check_c11(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 'BuildOk FlatOk', True)
    suites = []
    typed = Typed(rng)
    ids = ['', '', '', 'step0', 'step1', 'step2', 'step3', 'step10', 'initial', 'x', 'y', 'Step0', 'step']
    for n in range(1, 9):
        for _ in range(ctx.pick(120, 1200)):
            suites.append([('t', rand_tree(rng, typed, n))])
    for _ in range(ctx.pick(1800, 12000)):
        if rng.random() < .05:
            typed = Typed(rng)
        k = rng.choice([1, 1, 2, 3, 6])
        distinct = rng.random() < .9
        s = []
        for j in range(k):
            t = rand_tree(rng, typed, rng.choice([3, 6, 10, 20, 40]), distinct=distinct) if rng.random() < .98 else \
                rand_tree(rng, typed, rng.choice([3, 6, 10]), ['m%d' % i for i in range(rng.choice([12, 90]))])
            if rng.random() < .5:
                for y in nodes_of(t):
                    y['id'] = rng.choice(ids)
            s.append(('t%d' % j, t))
        suites.append(s)
    for n in (12, 60, 110):
        p, e = rand_trace(rng, n)
        suites.append([('t', expand(p, e, 't'))])
    for n in (11, 40):      # wide
        t = node('unset', NOEV, ['t', 'u'], [node('inc', {'c': rng.choice('abc'), 'k': rng.choice(['in', 'out', 'call']), 'v': 'n:%d' % j}, [rng.choice('tu')],
                 [node('pass', ev('b.out.1'), ['t'], [node('fail', NOEV, ['t'])]), node('inc', ev('b.out.2'), ['u'], [node('pass', ev('c.out.1'), ['u'], [node('fail', NOEV, ['u'])])])])
                 for j in range(n)])
        suites.append([('t', t), ('u', expand([ev('a.in.0')], ev('b.out.4'), 'u'))])
    texts, res = run_stms(ctx, suites, rng)
    recs, where = [], []
    for k, (s, r) in enumerate(zip(suites, res)):
        try:
            out = json.loads(r['stdout'])['tests'] if r['rc'] == 0 else {}
            extra = set(out) - {n for n, _ in s}
        except (ValueError, KeyError, TypeError):
            out, extra = {}, set()
        for j, (n, t) in enumerate(s):
            try:
                m = machine(out[n])
                if extra:
                    raise ValueError
            except (ValueError, KeyError, TypeError, AttributeError):
                m = {'states': [], 'tests': []}
            recs.append({'op': 'machine', 'root': plain(t), 'm': m})
            where.append((k, n))

    def what(i):
        k, n = where[i]
        ctx.violation('the machine of test %s of suite %s is not its image' % (n, texts[k][:400]),
                      {'suite': texts[k], 'test': n, 'machine': recs[i]['m'], 'rc': res[k]['rc'], 'stderr': res[k]['stderr'].decode(errors='replace')[:1000]})
    judge(ctx, recs, what)
    big = []
    for _ in range(ctx.pick(6, 40)):
        typed = Typed(rng)
        for t in large_trees(rng, typed, [rng.choice([130, 250, 400]), rng.choice([600, 1300, 2500, 4400])], [rng.choice([130, 300, 1500])]):
            big.append([('t', t)])
    for n in (60, ctx.pick(200, 1000)):
        big.append([('t%d' % j, expand(*rand_trace(Fixed(rng), rng.choice([0, 3, 6])), 't%d' % j)) for j in range(n)])
    large(ctx, big, 'large_suites')
    ctx.cov.update(suites=len(suites), machines=len(recs), states_compared=sum(len(r['m']['states']) for r in recs))
    for t in rng.sample(texts, 3):
        ctx.sample(t[:600])
    ctx.assumptions.append('every event has a value; a test named at the root only may or may not be listed')


# -- C12 -----------------------------------------------------------------------
def check_c12(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 'TypesOk', False)
    suites = []
    base = ['n:0', 'n:5', 'i:-1', 'e:x', 'e:-']
    # Every sequence of values on one channel, split in every way over tests.
    for k in range(1, ctx.pick(4, 5) + 1):
        for vs in itertools.product(base, repeat=k):
            if k >= 4 and not ctx.thorough and rng.random() > .4:
                continue
            cut = rng.randrange(1, k + 1)
            evs = [{'c': 'a', 'k': rng.choice(['in', 'out', 'call']), 'v': v} for v in vs]
            for parts in ([evs], [evs[:cut], evs[cut:]], [[e] for e in evs]):
                parts = [p for p in parts if p]
                suites.append([('t%d' % j, expand(p[:-1], p[-1], 't%d' % j)) for j, p in enumerate(parts)])
    for _ in range(ctx.pick(3000, 30000)):
        typed = Typed(rng, rng.randint(1, 5))
        k = rng.choice([1, 1, 2, 3, 6])
        s = [('t%d' % j, rand_tree(rng, typed, rng.choice([3, 6, 10, 25]))) for j in range(k)]
        if rng.random() < .3:
            # One value of another kind, anywhere.
            t = rng.choice(s)[1]
            ys = [y for y in nodes_of(t) if y['e']['k'] != 'none']
            if ys:
                y = rng.choice(ys)
                kind = 'e' if y['e']['v'][0] != 'e' else rng.choice('ni')
                y['e'] = dict(y['e'], v=tag(typed.value(kind)))
        suites.append(s)
    # The same channel name in another case or under another direction.
    for a, b in itertools.product(['a', 'A', 'aa'], repeat=2):
        for ka, kb in itertools.product(['in', 'out', 'call'], repeat=2):
            suites.append([('t', expand([{'c': a, 'k': ka, 'v': 'n:1'}], {'c': b, 'k': kb, 'v': 'e:x'}, 't'))])
            suites.append([('t', expand([{'c': a, 'k': ka, 'v': 'n:1'}], {'c': b, 'k': kb, 'v': 'i:-1'}, 't'))])
            suites.append([('t', expand([], {'c': a, 'k': ka, 'v': 'n:1'}, 't')), ('u', expand([], {'c': b, 'k': kb, 'v': 'e:x'}, 'u'))])
    # Numbers at the edge of what is a number.
    for v in INTS + NEGS + TXTS:
        for u in ('n:1', 'i:-1', 'e:x'):
            suites.append([('t', expand([{'c': 'a', 'k': 'out', 'v': tag(v)}], {'c': 'a', 'k': 'out', 'v': u}, 't'))])
    suites = suites * ctx.pick(1, 2)
    texts, res = run_stms(ctx, suites, rng)
    recs = []
    for s, r in zip(suites, res):
        types, per = [], []
        if r['rc'] == 0:
            try:
                d = json.loads(r['stdout'])
                types = [{'c': c, 't': t} for c, t in (d.get('types') or {}).items()]
                per = [[{'c': c, 't': t} for c, t in (d['tests'][n].get('types') or {}).items()] for n, _ in s]
            except (ValueError, KeyError, TypeError, AttributeError):
                per = []
        recs.append({'op': 'types', 'suite': [plain(t) for _, t in s], 'rc': r['rc'], 'out': r['stdout'] != b'', 'err': says_so(r),
                     'types': types, 'per': per})

    def what(i):
        ctx.violation('suite %s: exit status %d, types %s, of each test %s' % (texts[i][:400], res[i]['rc'], json.dumps(recs[i]['types'])[:300],
                                                                              json.dumps(recs[i]['per'])[:300]),
                      {'suite': texts[i], 'rc': res[i]['rc'], 'stdout': res[i]['stdout'].decode(errors='replace')[:3000],
                       'stderr': res[i]['stderr'].decode(errors='replace')[:1000]})
    judge(ctx, recs, what)
    # A value of another kind, far away from the others; many channels.
    big = []
    for how in range(ctx.pick(8, 40)):
        typed = Typed(rng)
        for t in large_trees(rng, typed, [rng.choice([130, 250]), rng.choice([600, 1300, 2500, 4400])], [rng.choice([130, 300])]):
            if how % 4:
                ys = [y for y in nodes_of(t) if y['e']['k'] != 'none']
                y = rng.choice([ys[0], ys[-1], rng.choice(ys)])
                y['e'] = dict(y['e'], v=rng.choice(['i:-1', 'e:x', 'n:3']))
            big.append([('t', t)])
    for n in (150, ctx.pick(600, 3000)):
        evs = [{'c': 'k%d' % (j % (n // 2)), 'k': rng.choice(['in', 'out', 'call']), 'v': ['n:1', 'i:-1', 'e:x'][j % (n // 2) % 3]} for j in range(n)]
        big.append([('t', expand(evs[:-1], evs[-1], 't'))])
        big.append([('t%d' % j, expand([], e, 't%d' % j)) for j, e in enumerate(evs)])
        big.append([('t%d' % j, expand([], e, 't%d' % j)) for j, e in enumerate(evs[:-1] + [dict(evs[-1], v='e:y' if evs[-1]['v'] != 'e:x' else 'n:0')])])
    large(ctx, big, 'large_suites')
    ctx.cov.update(suites=len(suites), rejected=sum(r['rc'] != 0 for r in res))
    for t in rng.sample(texts, 3):
        ctx.sample(t[:500])
    ctx.assumptions.append('every event has a value')


# -- C21 -----------------------------------------------------------------------
def check_c21(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 'GroupOk', False)
    E = [ev(s) for s in ('a.in.1', 'a.out.1', 'b.in.1', 'a.in.2', 'a.in.x')] + [{'c': 'a', 'k': 'in', 'v': 'e:1'}, {'c': 'a', 'k': 'in', 'v': ''},
                                                                               {'c': 'A', 'k': 'in', 'v': 'n:1'}, {'c': 'a', 'k': 'call', 'v': 'n:1'},
                                                                               {'c': 'a', 'k': 'in', 'v': 'i:-1'}, {'c': 'a', 'k': 'in', 'v': 'e:X'}]
    ops = []
    upto = ctx.pick(2, 2)
    seqs = [list(t) for k in range(0, upto + 1) for t in itertools.product(E, repeat=k)]
    pairs = [(a, b) for a in seqs for b in seqs]
    if not ctx.thorough and len(pairs) > 9000:
        pairs = rng.sample(pairs, 9000)
    for a, b in pairs:
        ops.append({'op': 'compare', 'a': a, 'b': b})
    for _ in range(ctx.pick(3000, 30000)):
        n = rng.randint(1, 12) if rng.random() < .96 else rng.choice([30, 70, 200])
        a = [rng.choice(E) for _ in range(n)]
        b = list(a)
        r = rng.random()
        if r < .5:
            b[rng.randrange(n)] = rng.choice(E)
        if r < .1 or r > .8:
            b = b[:rng.randint(0, n)]
        elif r > .6:
            b = b + [rng.choice(E)]
        ops.append({'op': 'compare', 'a': a, 'b': b})
        ops.append({'op': 'compare', 'a': b, 'b': a})
    for _ in range(ctx.pick(4000, 40000)):
        es = rng.sample(E, rng.randint(1, 4))
        tests = []
        stem = [rng.choice(es) for _ in range(rng.choice([0, 0, 0, 0, 0, 0, 0, 30, 70]))]
        for j in range(rng.choice([0, 1, 2, 3, 5, 8, 20] if rng.random() < .98 else [60, 150])):
            tests.append({'name': 't%d' % j, 'prefix': stem + [rng.choice(es) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))], 'forbid': rng.choice(es), 'own': rng.choice(['', '', 't%d' % j, 't0', 'x'])})
        after = list(rng.choice(tests)['prefix']) if tests and rng.random() < .7 else [rng.choice(es) for _ in range(rng.choice([0, 1, 2, 3]))]
        ops.append({'op': rng.choice(['failures', 'spine']), 'tests': tests, 'a': after})
    recs, out = [], harness(ctx, ops)
    for o, r in zip(ops, out):
        if o['op'] == 'compare':
            recs.append({'op': 'compare', 'a': o['a'], 'b': o['b'], 'eq': r.get('eq', 'panic'), 'pre': r.get('pre', 'panic')} if 'panic' not in r else
                        {'op': 'compare', 'a': o['a'], 'b': o['b'], 'eq': o['a'] != o['b'], 'pre': False})
        elif o['op'] == 'failures':
            recs.append({'op': 'failures', 'tests': o['tests'], 'after': o['a'], 'res': r.get('failures', [{'test': '?', 'event': NOEV}])})
        else:
            recs.append({'op': 'spine', 'tests': o['tests'], 'after': o['a'], 'res': r.get('spine', [node('null', NOEV, [])])})

    def what(i):
        ctx.violation('%s gives %s' % (json.dumps(ops[i])[:500], json.dumps(out[i])[:400]), {'operation': ops[i], 'result': out[i]})
    judge(ctx, recs, what)
    ctx.cov.update({k: sum(o['op'] == k for o in ops) for k in ('compare', 'failures', 'spine')})
    for o in rng.sample(ops, 3):
        ctx.sample(o)
    ctx.assumptions.append('a spine node without continuations is tolerated where there are no other failures to group')
