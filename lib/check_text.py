"""C07, C08, C13: trace files, names, and events through the pipeline."""
import itertools, json, os
from core import cps, VERIF, REPO

TOKENS = ['a.in.1', 'b.Out.x', 'n:', '"', ',', ' ', '\n', '#', '\r', '.', '""']
# Bytes that are no part of UTF-8.
RAW = ['\udcff', '\udcc3', '\udca0']
EDIT = list('ab.,:"# \n\r\t+-019inOUT\x0b\u00a0é\x00\ufffd') + ['\u2003', '\ufeff', '\u2028', '\x85'] + RAW
SEEDS = ['a.in.1', 'n: a.in.1, b.out.x\n', '"a.call.""x"""\n#c\nb.out.-7', ' a . IN . +05 ,"b.out.y,z"\r\n']


class Pairs(list):
    pass


def loads(b):
    """JSON with objects as lists of pairs, so that repeated names are seen."""
    return json.loads(b.decode('utf-8'), object_pairs_hook=Pairs)


def get(o, k, d=None):
    for a, b in o:
        if a == k:
            return b
    return d


def chain(node):
    """The written events on the only way through a test; None if there is not just one."""
    out = []
    while True:
        nx = get(node, 'next') or []
        if len(nx) != 1:
            return out if not nx else None
        node = nx[0]
        e = get(node, 'event')
        if e is not None:
            out.append(e)


def tests_of(out):
    """The tests in a suite, with the events of each."""
    res = []
    try:
        for name, root in loads(out):
            c = chain(root)
            res.append({'name': cps(name), 'events': [cps(e) for e in c] if c is not None else [[-1]]})
    except (ValueError, TypeError, AttributeError):
        return [{'name': [-1], 'events': []}]
    return res


def walk(stm):
    """The events on the only way through a state machine."""
    st = {get(s, 'id'): s for s in get(stm, 'states')}
    cur = get(stm, 'states')[0]
    out = []
    for _ in range(len(st) + 1):
        sets = get(cur, 'transitionSets') or []
        ts = [(get(s, 'channel'), t) for s in sets for t in get(s, 'transitions')]
        if len(ts) != 1:
            return out if not ts else None
        ch, t = ts[0]
        c, _, k = ch.rpartition('.')
        v = get(t, 'value')
        out.append({'c': cps(c), 'k': k, 'v': cps(v) if v is not None else [-1]})
        cur = st[get(t, 'next')]
    return None


def stms_of(out):
    res = []
    try:
        for name, stm in get(loads(out), 'tests') or []:
            c = walk(stm)
            res.append({'name': cps(name), 'events': c if c is not None else [{'c': [-1], 'k': '', 'v': []}]})
    except (ValueError, TypeError, AttributeError, KeyError):
        return [{'name': [-1], 'events': []}]
    return res


def token_files(n):
    for k in range(0, n + 1):
        for t in itertools.product(TOKENS, repeat=k):
            yield ''.join(t)


def edits(s):
    for i in range(len(s) + 1):
        for c in EDIT:
            yield s[:i] + c + s[i:]
            if i < len(s):
                yield s[:i] + c + s[i + 1:]
        if i < len(s):
            yield s[:i] + s[i + 1:]


CHANS = ['a', 'foo', 'batteryInfo', 'x y', 'é', 'A', 'in', 'out1', '1', 'a-b', "q'", '#h', '{', '<x>', '\\']
INTS = ['0', '1', '-1', '+1', '007', '-0', '00', '+00', '9223372036854775807', '9223372036854775808', '-9223372036854775808',
        '-9223372036854775809', '9007199254740993', '-9007199254740993', '2147483648', '-2147483649', '4294967297', '1000000000000000001', '16777217', '99999999999999999999999', '-', '+', '1_000', '0x1F', '1.0', '1e5', '--2', '+-2', '٣', '１', '1 2']
TEXTS = ['Ok', 'ok', 'a b', 'x.y', 'x..', '.', 'a,b', 'a:b', ':', '"q"', '""', '#', "it's", '\\n', 'é😀', 'in', 'true', 'null',
         '<&>', 'two\nlines', '\u2028', 'a\tb', '{| f=1 |}', '', ' pad ', '50%25', '%41', 'a+b', '&amp;', '&#65;', '\\u0041', '\\x41', '\\101', "'x'", '"a b"', '`x`', '$HOME', '${NAME}', 'x=1', '0x10', '1e3', 'aGk=', '=41', '~', '{{.}}', '%s', '%d%!', '\x7f', '\x01', 'x' * 200, 'long ' * 240 + 'end', '9' * 70 + 'x']
NAMES = ['n', '\ufeffn', 'test', 'b1a', 'a b', 'x.y', 'é', '"', 'n0', 'with,comma', '#n', '..', 'tést', 'T', '{', '\\']


def quote(s):
    return '"' + s.replace('"', '""') + '"'


def rand_cell(rng, first, vals):
    kind = rng.choice(['in', 'out', 'call', 'In', 'OUT', 'cAlL'] if rng.random() < .93 else ['inn', '', 'i n', 'output', 'value'])
    sp = lambda: rng.choice(['', '', '', ' ', '\t', '  ', '\u00a0'])
    e = sp() + rng.choice(CHANS[:5] if rng.random() < .7 else CHANS) + sp() + '.' + sp() + kind + sp()
    if rng.random() < .95:
        e += '.' + sp() + rng.choice(vals) + sp()
    if first and rng.random() < .5:
        e = sp() + rng.choice(NAMES) + sp() + ':' + e
    return e


def rand_file(rng, safe=False):
    out = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < .1:
            out.append('#' + rng.choice(['', ' c', '"', ' a.in.1, ']))
        elif r < .2:
            out.append('')
        else:
            vals = rng.choice([INTS, TEXTS])
            cells = []
            for k in range(rng.choice([1, 1, 2, 3, 4, 8])):
                c = rand_cell(rng, k == 0, vals)
                must = any(x in c for x in '",\n') or c.lstrip() != c
                if must or rng.random() < .3:
                    c = rng.choice(['', ' ', '\t']) + quote(c) if rng.random() < .97 or safe else c
                elif k == 0 and c.startswith('#'):
                    c = ' ' + c if rng.random() < .5 else quote(c)
                cells.append(c)
            out.append(','.join(cells))
    nl = rng.choice(['\n', '\n', '\r\n'])
    f = nl.join(out)
    if rng.random() < .8:
        f += nl
    if not safe and rng.random() < .15 and f:
        i = rng.randrange(len(f))
        f = f[:i] + rng.choice(EDIT) + f[i + 1:]
    return f


def c07_files(ctx):
    rng = ctx.rng
    fs = list(token_files(ctx.pick(4, 5)))
    seen = set(fs)

    def more(it):
        for f in it:
            if f not in seen:
                seen.add(f)
                fs.append(f)
    for s in SEEDS:
        more(edits(s))
    if ctx.thorough:
        for s in SEEDS:
            es = list(edits(s))
            more(x for e in rng.sample(es, 150) for x in rng.sample(list(edits(e)), 60))
    with open(os.path.join(REPO, 'examples', 'bmon', 'traces')) as f:
        ex = f.read()
    more([ex, ex.replace('\n', '\r\n'), ex.rstrip('\n')])
    # Long files and long lines, beyond the reader's buffers.
    more(['\n'.join('a%d.in.%d' % (i, i) for i in range(400)), ', '.join('c.out.v%d' % i for i in range(1500)),
          'big: a.out.' + 'x' * 9000 + '\n#' + 'y' * 9000 + '\n"b.in.' + 'z\n' * 3000 + '"\n'])
    more(rand_file(rng) for _ in range(ctx.pick(5000, 60000)))
    return fs


def check_c07(ctx):
    ctx.build()
    inv = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Faithful AllOrNothing Distinct\nCONSTANTS MaxLines = %d MaxEvents = %d\n'
    for a, b in ctx.pick([(2, 1), (1, 2)], [(2, 1), (1, 3)]):
        ctx.model('MCTraceFile', inv % (a, b))
    fs = c07_files(ctx)
    res = ctx.run([{'argv': [ctx.read_traces], 'stdin': f} for f in fs])
    ctx.log('ran %d files' % len(fs))
    recs = [{'file': cps(f), 'rc': r['rc'], 'out': r['stdout'] != b'', 'tests': tests_of(r['stdout']) if r['rc'] == 0 else []}
            for f, r in zip(fs, res)]
    bad = 0
    for k in range(0, len(recs), 40000):
        part = recs[k:k + 40000]
        rej, _ = ctx.judge('TraceC07', part, expect=32 + len(part))
        for i, d in rej:
            f, r = fs[k + i - 1], res[k + i - 1]
            ctx.violation('file %r: the specification %s it; the program exited with %d and wrote %r' % (
                f[:300], 'reads' if d.startswith('TRUE') else 'rejects', r['rc'], r['stdout'][:400]),
                {'file': f, 'rc': r['rc'], 'stdout': r['stdout'].decode(errors='replace'), 'stderr': r['stderr'].decode(errors='replace')})
    ctx.traces += len(recs)
    ctx.cov.update(files=len(fs), accepted=sum(r['rc'] == 0 for r in res), rejected=sum(r['rc'] != 0 for r in res))
    for f in (fs[3000], fs[-1], fs[-2]):
        ctx.sample(f)


def check_c08(ctx):
    ctx.build()
    ctx.model('MCNaming', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Unique Kept Based\nPROPERTIES Prefix Steps\nCONSTANTS MaxLen = %d\n'
              % ctx.pick(4, 5))
    ctx.prove('NamingProof')
    rng = ctx.rng
    base = ['', 'test', 'test0', 'foo', 'foo0', 'foo00', 'test1', 'foo1']
    seqs = [list(s) for k in range(0, ctx.pick(5, 6)) for s in itertools.product(base[:ctx.pick(6, 7)], repeat=k)]
    wide = base + ['test00', 'Test', 'TEST', 'foo01', '0', '1', 'foo 0', 'é', 'é0', 'a.b', '..', '"', 'x,y', '-1', 'test-1', 'foo10', 'foo9', 'test10',
                   'test9', 'tes', 'fo', 'o', 't', 'test 0', '{{.}}', '<a>', '\\', 'null']
    for _ in range(ctx.pick(1500, 10000)):
        pool = rng.sample(wide, rng.randint(1, 6))
        seqs.append([rng.choice(pool) for _ in range(rng.randint(3, 30))])
    # Long names, the same at the start.
    for n in (20, 50, 120, 250, 700):
        long = [c * n + e for c in ('x', 'é') for e in ('', 'a', 'b', '0', '1', '00')]
        seqs += [[rng.choice(long) for _ in range(20)] for _ in range(3)] + [long]
    seqs.append([''] * 130)
    seqs.append(['foo'] * 120)
    seqs.append(['test%d' % i for i in range(60)] + [''] * 30)
    files = [''.join('%s\n' % quote('%sid.out.%d' % (n + ':' if n or rng.random() < .1 else '', i + 1)) for i, n in enumerate(s)) for s in seqs]
    res = ctx.run([{'argv': [ctx.read_traces], 'stdin': f.encode()} for f in files])
    recs = []
    for s, r in zip(seqs, res):
        ts = []
        try:
            for name, root in loads(r['stdout']):
                ev = chain(root)
                ids = set([e.rsplit('.', 1)[1] for e in ev]) if ev else set()
                ts.append({'name': cps(name), 'id': int(ids.pop()) if len(ids) == 1 else -1})
        except (ValueError, TypeError):
            ts = [{'name': [-1], 'id': -1}]
        recs.append({'wanted': [cps(n) for n in s], 'rc': r['rc'], 'tests': ts})
    rej, _ = ctx.judge('TraceC08', recs, expect=32 + len(recs))
    for i, d in rej:
        ctx.violation('names wanted %r: expected %s; got %s' % (seqs[i - 1], d[:300], [(''.join(map(chr, t['name'])) if t['name'] != [-1] else None, t['id'])
                                                                                    for t in recs[i - 1]['tests']][:40]),
                      {'file': files[i - 1], 'wanted': seqs[i - 1], 'stdout': res[i - 1]['stdout'].decode(errors='replace')[:2000]})
    ctx.traces += len(recs)
    ctx.cov['sequences'] = len(seqs)
    ctx.cov['exhaustive_up_to_length'] = ctx.pick(4, 5)
    ctx.sample(seqs[500])
    ctx.sample(seqs[-4])


SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def check_c13(ctx):
    ctx.build()
    ctx.model('MCTraceFile', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Stable Faithful\nCONSTANTS MaxLines = %d MaxEvents = %d\n' % ctx.pick((1, 2), (1, 3)))
    rng = ctx.rng
    fs = []
    for c in CHANS:
        for v in INTS + TEXTS:
            for k in ('in', 'out', 'call'):
                if ctx.thorough or rng.random() < .35:
                    fs.append(quote('t: %s.%s.%s' % (c, k, v)) + '\n')
        for k in ('in', 'out', 'call'):
            fs.append(quote('t: %s.%s' % (c, k)))
            fs.append(quote('t: %s.%s.' % (c, k)))
    for s in SEEDS[:2] + ['t: a.in.1', '"t: c.out.x y"']:
        fs += list(edits(s))
    # Every character of the first planes, alone and inside a value and a channel name.
    for lo in list(range(1, 0x100)) + rng.sample(range(0x100, 0xd800), ctx.pick(60, 1500)) + rng.sample(range(0x10000, 0x20000), 20):
        ch = chr(lo)
        fs.append(quote('t: a.out.%s' % ch))
        fs.append(quote('t: a.out.x%sy, b%sc.in.1' % (ch, ch)))
        fs.append('%s,%s\n' % (quote('t: k%sl.call.-1' % ch), quote('a.in.%s' % ch)))
    fs += [rand_file(rng, True) for _ in range(ctx.pick(2500, 30000))]
    res1 = ctx.run([{'argv': [ctx.read_traces], 'stdin': f} for f in fs])
    ok1 = [i for i, r in enumerate(res1) if r['rc'] == 0]
    res2 = dict(zip(ok1, ctx.run([{'argv': [ctx.make_stms], 'stdin': res1[i]['stdout']} for i in ok1])))
    cfg = os.path.join(ctx.workdir('cfg'), 'gen.xml')
    with open(cfg, 'w') as f:
        f.write('<rtcg-gen><cpp variant="animate"/></rtcg-gen>')
    recs, ok3, outs = [], [], []
    for i, (f, r) in enumerate(zip(fs, res1)):
        rec = {'id': i + 1, 'file': cps(f), 'rc1': r['rc'], 'out1': r['stdout'] != b'', 'tests': tests_of(r['stdout']) if r['rc'] == 0 else [],
               'rc2': 1, 'stms': [], 'rc3': 0}
        if i in res2:
            rec['rc2'] = res2[i]['rc']
            if rec['rc2'] == 0:
                rec['stms'] = stms_of(res2[i]['stdout'])
                if all(set(map(chr, t['name'])) <= SAFE for t in rec['tests']):
                    ok3.append(i)
        recs.append(rec)
    if not ctx.thorough:
        ok3 = rng.sample(ok3, min(len(ok3), 700)) + [i for i in ok3 if len(fs[i]) > 900]
        ok3 = sorted(set(ok3))
    base = ctx.workdir('out')
    jobs = []
    for i in ok3:
        o = os.path.join(base, str(i))
        jobs.append({'argv': [ctx.gen, '-output', o, cfg], 'stdin': res2[i]['stdout']})
    for i, r in zip(ok3, ctx.run(jobs)):
        recs[i]['rc3'] = r['rc']
    ctx.log('ran %d files, %d generated' % (len(fs), len(ok3)))
    known = {}
    for k in range(0, len(recs), 40000):
        part = recs[k:k + 40000]
        rej, _ = ctx.judge('TraceC13', part, expect=32 + len(part))
        for i, d in rej:
            d = d.strip('" ')
            if ctx.known(d):
                known.setdefault(d, []).append(fs[i - 1])
                continue
            ctx.violation('file %r: %s' % (fs[i - 1][:200], d), {'file': fs[i - 1], 'why': d, 'tests': res1[i - 1]['stdout'].decode(errors='replace')[:3000],
                          'stms': res2[i - 1]['stdout'].decode(errors='replace')[:3000] if i - 1 in res2 else None,
                          'stderr': [x['stderr'].decode(errors='replace')[:500] for x in (res1[i - 1], res2.get(i - 1, res1[i - 1]))]})
    for k, v in known.items():
        print('KNOWN-FINDING: property=C13 %s (%d files, e.g. %r)' % (ctx.known(k), len(v), min(v, key=len)))
    ctx.traces += len(recs)
    ctx.cov.update(files=len(fs), through_all_stages=len(ok3), rejected_when_read=len(fs) - len(ok1))
    for f in rng.sample(fs, 3):
        ctx.sample(f)
    ctx.assumptions.append('generation is tried for tests with identifier-like names')
