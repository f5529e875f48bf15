"""C18: tests do not depend on their neighbours, and runs can be repeated."""
import copy, hashlib, json, os, re, shutil
from core import CheckError
from check_stm import Typed, cell, rand_tree, spec_of_json, written, BROKEN

NAMES = ['t', 'u', 'foo', 'test_1', 'Z', 'a', 'long_name', 'x1']


def canon(path, sort):
    """A generated file without its time stamp; sorted if the order of its parts may vary."""
    with open(path, 'rb') as f:
        ls = f.read().split(b'\n')
    ls[:12] = [re.sub(rb'\d{4}-\d\d-\d\d.*', b'', l) if l.lstrip().startswith((b'//', b'*', b'/*')) else l for l in ls[:12]]
    if sort:
        ls.sort()
    return hashlib.sha256(b'\n'.join(ls)).hexdigest()[:16]


def tree_files(root, sort=lambda rel: False):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), root)
            out.append([rel, canon(os.path.join(d, f), sort(rel))])
    return sorted(out)


def of_test(files, name):
    """The files of one test, in either variant."""
    return [f for f in files if re.fullmatch(r'(ros|animate)/src/%s/.*' % re.escape(name), f[0])]


def machine(m):
    states = []
    for s in m.get('states') or []:
        states.append({'id': s['id'], 'sets': [{'channel': x['channel'], 'ts': [{'value': y['value'], 'next': y['next']} for y in x.get('transitions') or []]}
                                               for x in s.get('transitionSets') or []],
                       'vd': sorted([t, o] for t, o in (s.get('verdicts') or {}).items())})
    return {'states': states, 'types': sorted([c, t] for c, t in (m.get('types') or {}).items()), 'tests': m.get('tests') or []}


NOMACHINE = {'states': [], 'types': [], 'tests': []}


def load(r):
    if r['rc']:
        return None
    try:
        return json.loads(r['stdout'])
    except ValueError:
        return None


def canon_json(x):
    """Canonical text of a suite of machines: lists of tests have no order."""
    def go(v, key=''):
        if isinstance(v, dict):
            return {k: go(y, k) for k, y in v.items()}
        if isinstance(v, list):
            return sorted(v) if key == 'tests' else [go(y) for y in v]
        return v
    return hashlib.sha256(json.dumps(go(x), sort_keys=True).encode()).hexdigest()[:16]


def check_c18(ctx):
    ctx.build()
    rng = ctx.rng
    # The design; and that the properties are lost if the builder kept any of its state.
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Independent Unique\nCONSTANTS MaxNodes = %d NTests = %d Reset = {%s}\n'
    parts = ['num', 'stack', 'taken', 'ty', 'out']
    q = lambda ps: ', '.join('"%s"' % p for p in ps)
    ctx.model('MCIndependence', cfg % (2, 2, q(parts)))
    if ctx.thorough:
        ctx.model('MCIndependence', cfg % (3, 2, q(parts)))
        for p in parts:
            if ctx.tlc('MCIndependence', cfg % (2, 2, q(x for x in parts if x != p)), check=False, count=False)['ok'] and p != 'out':
                raise CheckError('the model of the builder does not notice that %s is kept' % p)
    recs, descr = [], []

    def add(what, data, **rec):
        recs.append(dict(rec, id=len(recs)))
        descr.append(dict(data, what=what))

    # -- reading: traces alone, and in files of several in any order
    groups = []     # (lines [(name, text)], indices into singles)
    singles, index = [], {}

    def single(line):
        if line not in index:
            index[line] = len(singles)
            singles.append(line)
        return index[line]

    for _ in range(ctx.pick(160, 1600)):
        t = Typed(rng)
        k = rng.choice([1, 2, 2, 3, 4, 6])
        ns = rng.sample(NAMES, k)
        lines = []
        for n in ns:
            evs = [t.event() for _ in range(rng.choice([1, 1, 2, 3, 5, 8]))]
            body = ','.join(cell(e) for e in evs)
            lines.append((n, '"%s:%s' % (n, body[1:])) if rng.random() < .7 else ('', body))
        if len(groups) % 40 == 23:
            lines += [('n%d' % j, 'n%d: many.out.%d' % (j, j % 7)) for j in range(rng.choice([40, 120]))]
        for _ in range(ctx.pick(2, 3)):
            ls = list(lines)
            rng.shuffle(ls)
            groups.append(ls[:rng.choice([len(ls), len(ls), rng.randint(1, len(ls))])])
    for g in groups:
        for _, l in g:
            single(l)
    s1 = ctx.run([{'argv': [ctx.read_traces], 'stdin': (l + '\n').encode()} for l in singles])
    gj = [{'argv': [ctx.read_traces], 'stdin': ''.join(l + '\n' for _, l in g).encode()} for g in groups]
    g1 = ctx.run(gj)
    g2 = ctx.run(gj)
    tests1 = [load(r) for r in s1]
    for g, r, r2 in zip(groups, g1, g2):
        got = load(r)
        alone = []
        for n, l in g:
            a = tests1[index[l]]
            alone.append({'name': n, 'tree': (spec_of_json(next(iter(a.values()))) if a and len(a) == 1 else None) or BROKEN})
        add('reading %d traces' % len(g), {'lines': [l for _, l in g], 'stderr': r['stderr'].decode(errors='replace')[:300]}, kind='read', ok=got is not None, alone=alone,
            got=[{'name': n, 'tree': spec_of_json(x) or BROKEN} for n, x in (got or {}).items()])
        add('reading %d traces again' % len(g), {'lines': [l for _, l in g]}, kind='repeat', ok=True,
            results=[canon_json([x['rc'] == 0, load(x)]) for x in (r, r2)])
    ctx.log('read %d files' % len(groups))

    # -- machines: tests alone, and in suites of several in any order
    suites = []
    for r in g1:
        d = load(r)
        if d:
            suites.append(list(d.items()))
    # Long ones: a tree is too deep for TLC then, but not a machine.
    for n in ctx.pick((230, 400), (210, 260, 300, 600, 1000)):
        evs = [cell({'c': 'long', 'k': rng.choice(['in', 'out', 'call']), 'v': 'n:%d' % j}) for j in range(n)]
        lines = ['"%s:%s' % (m, ','.join(evs[:k])[1:]) for m, k in (('big1', n), ('big2', n - 3), ('big3', n), ('small', 2))]
        d = load(ctx.run1([ctx.read_traces], stdin='\n'.join(lines).encode()))
        if d:
            suites.append(list(d.items()))
    for _ in range(ctx.pick(120, 1200)):
        t = Typed(rng)
        k = rng.choice([1, 2, 3, 4])
        suites.append([(n, written(with_ids(rng, rand_tree(rng, t, rng.choice([2, 4, 7, 12, 20])))) if rng.random() < .8 else written(rand_tree(rng, t, 5, (n,))))
                       for n in rng.sample(NAMES, k)])
    one, jobs = [], []
    for s in suites:
        for n, x in s:
            one.append({'argv': [ctx.make_stms], 'stdin': json.dumps({n: x}).encode()})
        s2 = list(s)
        rng.shuffle(s2)
        jobs.append({'argv': [ctx.make_stms], 'stdin': json.dumps(dict(s)).encode()})
        jobs.append({'argv': [ctx.make_stms], 'stdin': json.dumps(dict(s2)).encode()})
    alone = iter(ctx.run(one))
    res = ctx.run(jobs)
    stms = []
    for s, ra, rb in zip(suites, res[::2], res[1::2]):
        a, b = load(ra), load(rb)
        add('building %d machines again' % len(s), {'suite': dict(s)}, kind='repeat', ok=a is not None and b is not None, results=[canon_json(a), canon_json(b)])
        for n, x in s:
            m1 = load(next(alone))
            for m in (a, b):
                ok = bool(m1) and bool(m) and n in m['tests'] and n in m1['tests'] and len(m['tests']) == len(s)
                add('building %s among %d' % (n, len(s)), {'suite': dict(s), 'stderr': ra['stderr'].decode(errors='replace')[:300]}, kind='machine', ok=ok,
                    alone=machine(m1['tests'][n]) if ok else NOMACHINE, got=machine(m['tests'][n]) if ok else NOMACHINE)
        if a:
            stms.append(a)
    ctx.log('built %d suites' % len(suites))

    # -- programs: machines alone, and in suites of several, with the types they share
    dirs, jobs, what = [], [], []
    rng.shuffle(stms)
    stms.sort(key=lambda s: len(s['tests']) < 2)
    for s in stms[:ctx.pick(90, 700)]:
        d = ctx.workdir('g')
        dirs.append(d)
        chans = sorted(s['types'])
        xml = '<rtcg-gen>'
        for v in rng.choice([['ros'], ['animate'], ['ros', 'animate'], ['animate', 'ros']]):
            over = rng.sample(chans, rng.randint(0, len(chans))) if rng.random() < .5 else []
            xml += '<cpp variant="%s">%s%s</cpp>' % (v, ''.join('<channel name="%s" type="T"/>' % c for c in over), rng.choice(['<makefile/>', '<catkin><package><name>p_${NAME}</name></package></catkin>', '<makefile/><catkin/>']))
            p = os.path.join(d, v, 'src', 'convert')
            os.makedirs(p)
            with open(os.path.join(p, 'convert.cpp'), 'w') as f:
                f.write('// user\n')
        with open(os.path.join(d, 'gen.xml'), 'w') as f:
            f.write(xml + '</rtcg-gen>')
        items = list(s['tests'].items())
        rng.shuffle(items)
        runs = [('all', s), ('again', s), ('turned', dict(s, tests=dict(items)))]
        runs += [('one:' + n, dict(s, tests={n: m})) for n, m in items]
        if len(items) > 2:
            runs.append(('some', dict(s, tests=dict(items[:-1]))))
        for label, x in runs:
            jobs.append({'argv': [ctx.gen, '-output', os.path.join(d, 'out', label.replace(':', '.')), os.path.join(d, 'gen.xml')], 'stdin': json.dumps(x).encode(), 'cwd': d})
        ctx.give(d)
        what.append((s, d, [l for l, _ in runs], items, xml))
    it = iter(ctx.run(jobs))
    for s, d, labels, items, xml in what:
        sort = lambda rel: any(re.match(r'(ros|animate)/src/%s/' % re.escape(n), rel) and len(m['tests'] or []) > 1 for n, m in s['tests'].items())
        out = {}
        for l in labels:
            r = next(it)
            out[l] = tree_files(os.path.join(d, 'out', l.replace(':', '.')), sort) if r['rc'] == 0 else None
            if r['rc']:
                err = r['stderr']
        data = {'suite': s, 'config': xml}
        add('generating %d tests again' % len(items), data, kind='repeat', ok=all(out[l] is not None for l in ('all', 'again', 'turned')),
            results=[out[l] or [] for l in ('all', 'again', 'turned')])
        for n, _ in items:
            for l in labels:
                if l in ('all', 'some') and (l == 'all' or n != items[-1][0]):
                    a, b = out['one:' + n], out[l]
                    add('generating %s among %d' % (n, len(items)), data, kind='program', ok=a is not None and b is not None,
                        alone=of_test(a or [], n), got=of_test(b or [], n))
        shutil.rmtree(d, True)
    ctx.log('generated %d suites' % len(what))
    rej, _ = ctx.judge('TraceIndependence', recs, expect=32 + len(recs))
    for n, why in rej:
        ctx.violation('%s (%s)' % (why.strip('"'), descr[n]['what']), dict(descr[n], record=recs[n]))
    ctx.traces += len(recs)
    for k in ('read', 'machine', 'program', 'repeat'):
        ctx.cov['compared_' + k] = sum(r['kind'] == k for r in recs)
    for x in rng.sample(descr, 4):
        ctx.sample(x['what'])
    ctx.assumptions.append('programs of machines for several tests are compared up to the order of their lines, that of tests being unspecified')


def with_ids(rng, tree):
    """Gives some nodes identifiers."""
    tree = copy.deepcopy(tree)
    st = [tree]
    while st:
        x = st.pop()
        if rng.random() < .25:
            x['id'] = rng.choice(['step0', 'step1', 'step3', 'mine', 'other', 'initial'])
        st += x['n']
    return tree
