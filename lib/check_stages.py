"""C19: a stage that cannot do its work says so and hands nothing on."""
import copy, json, os, re, shutil
from core import CheckError, REPO, cps
from check_indep import canon_json, load, tree_files
from check_text import edits, rand_file

GOOD_XML = ['<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>',
            '<?xml version="1.0" encoding="UTF-8" ?>\n<rtcg-gen>\n\t<cpp>\n\t\t<include src="x.h" system="true" />\n'
            "\t\t<channel name='a' type=\"int\"/>\n\t</cpp>\n\t<directory>in</directory>\n</rtcg-gen>\n",
            '<rtcg-gen><cpp variant="ros"><catkin><package format="2"><name>p</name><version>1</version><depend>q</depend></package></catkin></cpp></rtcg-gen >']
TRACES = ['a.in.1', 't: a.in.1, b.out.x\nu: a.in.2', '#c\n"q: c.call.""x,y"""," a.in.-3"\r\n\n b.Out.Ok , a.in.0\n']
JEDIT = '{}[]":,x0- \n'
VALUES = {'string': 'zz', 'number': 7, 'true': True, 'array': [], 'object': {}, 'null': None}


def places(x, where):
    """The fields of a suite, and how to set each."""
    out = []

    def go(v, path, field):
        out.append((path, field))
        nxt = where.get(field)
        if nxt is None:
            return
        if isinstance(v, dict):
            for k, y in v.items():
                f = nxt if isinstance(nxt, str) else nxt.get(k)
                if f:
                    go(y, path + [k], f)
        elif isinstance(v, list):
            for n, y in enumerate(v):
                go(y, path + [n], nxt)
    go(x, [], 'suite')
    return out


TEST_FIELDS = {'suite': 'test', 'node': {'id': 'id', 'tests': 'tests', 'outcome': 'outcome', 'event': 'event', 'next': 'next'}, 'tests': 'name', 'next': 'node'}
TEST_FIELDS['test'] = TEST_FIELDS['node']
STM_FIELDS = {'suite': {'types': 'types', 'tests': 'tests'}, 'types': 'type', 'tests': 'stm', 'stm': {'states': 'states', 'types': 'types', 'tests': 'names'},
              'states': 'state', 'state': {'id': 'id', 'transitionSets': 'sets', 'verdicts': 'verdicts'}, 'sets': 'set', 'set': {'channel': 'channel', 'transitions': 'transitions'},
              'transitions': 'transition', 'transition': {'value': 'value', 'next': 'next'}, 'verdicts': 'outcome', 'names': 'name'}


def put(x, path, v):
    if not path:
        return v
    x = copy.deepcopy(x)
    y = x
    for k in path[:-1]:
        y = y[k]
    y[path[-1]] = v
    return x


class Runs:
    """Gathers runs and what is to be made of them."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.jobs, self.recs, self.descr = [], [], []

    def add(self, what, argv, rec, gen_out=None, **job):
        self.jobs.append(dict(argv=argv, limit=1 << 20, **job))
        self.recs.append(dict(rec, id=len(self.recs)))
        self.descr.append({'what': what, 'argv': argv, 'stdin': job.get('stdin'), 'out': gen_out})

    def go(self):
        for r, d, x in zip(self.ctx.run(self.jobs), self.descr, self.recs):
            err = r['stderr'].decode(errors='replace')
            out = r['stdout'].decode(errors='replace')
            x.update(rc=r['rc'], err=bool(err.strip()), crash=r['rc'] < 0 or r['timeout'] or bool(re.search(r'^panic:|goroutine \d+ |fatal error:', err, re.M)),
                     out=cps(out[:6000] if r['rc'] else out), touched=False)
            if d.get('result'):
                with open(d['result'], encoding='utf-8', errors='replace') as f:
                    x['out'] = cps(f.read(6000) if r['rc'] else f.read())
                os.remove(d['result'])
            # Whether the fault took place at all.
            d['moot'] = bool(d.get('log')) and not self.ctx.injected(d['log'])
            if d['out'] and os.path.isdir(d['out']):
                x['touched'] = any(fs for _, _, fs in os.walk(d['out']))
                if not d.get('keep'):
                    shutil.rmtree(d['out'], True)
            d.update(rc=r['rc'], stderr=err[:500], stdout=out[:500])


def cuts(rng, text, n):
    """Where to cut a text: everywhere, unless that is too much."""
    return range(len(text)) if len(text) <= n else sorted(rng.sample(range(len(text)), n))


def json_edits(rng, text, n):
    out = []
    for _ in range(n):
        k = rng.randrange(len(text))
        c = rng.choice(JEDIT)
        out.append(rng.choice([text[:k] + c + text[k:], text[:k] + text[k + 1:], text[:k] + c + text[k + 1:]]))
    return out


def check_c19(ctx):
    ctx.build()
    rng = ctx.rng
    ctx.model('MCStages', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Loud\nPROPERTY Ends\nCONSTANTS Size = %d Sound = TRUE\n' % ctx.pick(3, 6))
    if ctx.tlc('MCStages', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Loud\nCONSTANTS Size = 3 Sound = FALSE\n', check=False, count=False)['ok']:
        raise CheckError('the model of the pipeline does not need stages to refuse parts')
    ctx.model('MCJson', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agree Sudden\nCONSTANTS Chars = {123, 125, 91, 93, 34, 58, 44, 48, 49, 45, 32} MaxLen = %d\n' % ctx.pick(5, 6))
    rt, ms, gen = ctx.read_traces, ctx.make_stms, ctx.gen
    base = ctx.workdir('s')
    cfg = os.path.join(base, 'good.xml')
    with open(cfg, 'w') as f:
        f.write(GOOD_XML[0])
    runs = Runs(ctx)
    n = [0]

    def outdir():
        n[0] += 1
        return os.path.join(base, 'o%d' % n[0])

    def rungen(what, rec, config=None, **job):
        o = outdir()
        runs.add(what, [gen, '-output', o, config or cfg], dict(rec, stage='gen'), gen_out=o, cwd=base, **job)

    def user_code(where):
        os.makedirs(os.path.join(where, 'in', 'animate', 'src', 'convert'))
        with open(os.path.join(where, 'in', 'animate', 'src', 'convert', 'convert.cpp'), 'w') as f:
            f.write('// by the user\n')
    user_code(base)

    suites = []
    for t in TRACES:
        a = ctx.run1([rt], stdin=t)
        b = ctx.run1([ms], stdin=a['stdout'])
        suites.append((t, a['stdout'].decode(), b['stdout'].decode()))
        # A stage that fails here is caught below, as good input that was refused.

    # -- traces: cut off, edited, random
    tf = [t for t in TRACES] + [t[:k] for t in TRACES for k in range(len(t))]
    for t in TRACES[1:]:
        es = list(edits(t))
        tf += es if ctx.thorough else rng.sample(es, min(len(es), 500))
    tf += [rand_file(rng, True) for _ in range(ctx.pick(300, 3000))]
    for t in tf:
        runs.add('reading %r' % t[:200], [rt], {'kind': 'trace', 'stage': 'read', 'text': cps(t)}, stdin=t)

    # -- the JSON between stages: cut off, edited
    compact = lambda s: json.dumps(json.loads(s), separators=(',', ':')) if s.strip() else ''
    for t, a, b in suites:
        for stage, full in (('make', a), ('gen', b)):
            if not full.strip():
                continue
            texts = [(full, True), (compact(full), True)]
            texts += [(full[:k], False) for k in cuts(rng, full, ctx.pick(260, 4000))]
            c = compact(full)
            texts += [(c[:k], False) for k in cuts(rng, c, ctx.pick(200, 4000))]
            texts += [(e, False) for e in json_edits(rng, c, ctx.pick(250, 2500)) + json_edits(rng, full, ctx.pick(80, 800))]
            texts += [(full[:k] + '\x00' + full[k:], False) for k in rng.sample(range(len(full)), 5)]
            for s, clean in texts:
                what = 'a cut or changed suite (%d of %d characters)' % (len(s), len(full))
                rec = {'kind': 'json', 'text': cps(s), 'clean': clean}
                if stage == 'make':
                    runs.add('making machines of ' + what, [ms], dict(rec, stage='make'), stdin=s.encode())
                else:
                    rungen('generating from ' + what, rec, stdin=s.encode())
    for s in ('', ' ', '\n', 'nul', 'null', '{', '{}', '[', '}', '"', '{}{', '{} x', '\ufeff{}', '{}}', '{},', '{}\n{}\n', '{} \n\t\r', '{}null', '{}\x00', 'null null', 'null0'):
        runs.add('making machines of %r' % s, [ms], {'kind': 'json', 'stage': 'make', 'text': cps(s), 'clean': s == '{}'}, stdin=s.encode())
        rungen('generating from %r' % s, {'kind': 'json', 'text': cps(s), 'clean': s == '{}'}, stdin=s.encode())

    # -- values of the wrong kind in suites
    for t, a, b in suites[1:]:
        for stage, full, fields in (('make', a, TEST_FIELDS), ('gen', b, STM_FIELDS)):
            if not full.strip():
                continue
            x = json.loads(full)
            for path, field in places(x, fields):
                for kind, v in VALUES.items():
                    rec = {'kind': 'value', 'field': field, 'value': kind}
                    s = json.dumps(put(x, path, v))
                    what = '%s %s at %r' % (kind, 'in tests' if stage == 'make' else 'in machines', path)
                    if stage == 'make':
                        runs.add(what, [ms], dict(rec, stage='make'), stdin=s)
                    else:
                        rungen(what, rec, stdin=s)

    # -- configurations: cut off, edited
    stm = suites[1][2]
    xmls = [(g, True) for g in GOOD_XML] + [(g[:k], False) for g in GOOD_XML for k in range(len(g))]
    for g in GOOD_XML:
        for _ in range(ctx.pick(150, 1500)):
            k = rng.randrange(len(g))
            c = rng.choice('<>/="\' ax?-&!\n')
            xmls.append((rng.choice([g[:k] + c + g[k:], g[:k] + g[k + 1:], g[:k] + c + g[k + 1:]]), False))
    for g in GOOD_XML:
        xmls += [(g + x, False) for x in ('x', ' \n x', '<', '</', '</rtcg-gen>', '<cpp variant="ros"/>', '<rtcg-gen/>', '<?', '<?x', '<?x?', ']]>', '&amp;', '\x00')]
        xmls += [(x + g[g.index('<rtcg'):], False) for x in ('x', ' x ', '<', '</', '<cpp/>', '<?x', 'x<?x?>')]
        xmls += [(g + x, True) for x in (' ', '\n\n', '<?x?>', ' <?x y="z"?>\n')]
    for k, (s, clean) in enumerate(xmls):
        p = os.path.join(base, 'c%d.xml' % k)
        with open(p, 'w') as f:
            f.write(s)
        rungen('configuration %r' % s, {'kind': 'xml', 'text': cps(s), 'clean': clean}, config=p, stdin=stm)

    # -- other faults, next to runs that are right
    t, a, b = suites[1]
    files = {}
    for name, text in (('t.csv', t), ('t.json', a), ('s.json', b), ('-x', t)):
        files[name] = os.path.join(base, name)
        with open(files[name], 'w') as f:
            f.write(text)
    sealed = os.path.join(base, 'sealed')
    with open(sealed, 'w') as f:
        f.write(t)
    os.chmod(sealed, 0)
    adir = os.path.join(base, 'adir')
    os.mkdir(adir)
    ctx.give(adir, sealed)
    simple = (('read', rt, 't.csv', t), ('make', ms, 't.json', a))
    sh = lambda redirect: ['/bin/sh', '-c', 'exec "$@" ' + redirect, 'sh']
    for stage, prog, name, text in simple:
        def f(fault, argv, **job):
            runs.add(fault, argv, {'kind': 'fault', 'stage': stage, 'fault': fault}, cwd=base, **job)
        f('good file', [prog, files[name]])
        f('good relative file', [prog, name])
        f('good input', [prog], stdin=text)
        f('missing file', [prog, os.path.join(base, 'nowhere')], stdin=text)
        f('missing file', [prog, ''], stdin=text)
        f('missing file', [prog, os.path.join(files[name], 'x')], stdin=text)
        f('directory', [prog, adir], stdin=text)
        f('directory', [prog, '.'], stdin=text)
        f('too many arguments', [prog, files[name], files[name]], stdin=text)
        f('too many arguments', [prog, '-', '-'], stdin=text)
        if stage == 'make':       # an empty file of traces is fine
            f('closed input', sh('<&-') + [prog])
            f('closed input', sh('<&-') + [prog, '-'])
        f('directory', sh('<.') + [prog])
        f('full output', sh('>/dev/full') + [prog, files[name]])
        f('full output', sh('>/dev/full') + [prog], stdin=text)
        if ctx.uid:
            f('unreadable file', [prog, sealed], stdin=text)
    # Files that can't be read or written to their end.
    inject = ctx.injector()
    if inject:
        big = '# a comment\n' * 300 + ''.join('t%d: a.in.%d, b.out.%d\n' % (k, k, k) for k in range(ctx.pick(500, 3000)))
        r = ctx.run1([rt], stdin=big)
        r2 = ctx.run1([ms], stdin=r['stdout'])
        bigs = {'read': big.encode(), 'make': r['stdout'], 'gen': r2['stdout']}
        for stage, text in bigs.items():
            files['big.' + stage] = os.path.join(base, 'big.' + stage)
            with open(files['big.' + stage], 'wb') as f:
                f.write(text)
        odir = ctx.workdir('o')
        ctx.give(odir)
        for stage, prog, small, _ in simple:
            for name in (small, 'big.' + stage):
                p = files[name]
                n_ = len(open(p, 'rb').read())
                for k in range(1, ctx.pick(9, 40)):
                    if k > 1 and n_ < 512 << (k - 2 if stage == 'make' else 0):
                        break
                    for err in ('EIO', 'ENOMEM'):
                        for way in ([prog, p], sh('<' + p) + [prog], sh('<' + p) + [prog, '-']):
                            w, log = inject('read', 'error=' + err, k, p)
                            runs.add('read error', w + way, {'kind': 'fault', 'stage': stage, 'fault': 'read error'}, cwd=base)
                            runs.descr[-1]['log'] = log
                for err in ('EACCES', 'EMFILE', 'ELOOP'):
                    w, log = inject('openat', 'error=' + err, 1, p)
                    runs.add('open error', w + [prog, p], {'kind': 'fault', 'stage': stage, 'fault': 'read error'}, cwd=base)
                    runs.descr[-1]['log'] = log
                for err in ('ENOSPC', 'EIO', 'EDQUOT'):
                    o = os.path.join(odir, '%s.%s' % (name, err))
                    open(o, 'w').close()
                    ctx.give(o)
                    w, log = inject('write', 'error=' + err, 1, o)
                    runs.add('write error', w + sh('>' + o) + [prog, p], {'kind': 'fault', 'stage': stage, 'fault': 'write error'}, cwd=base)
                    runs.descr[-1].update(log=log, result=o)
            # Room for a part of the result.
            full = {'read': bigs['make'], 'make': bigs['gen']}[stage]
            for n_ in [1, 100, 511, 512, 513, 4095, 4096, 4097] + [rng.randrange(1, max(2, len(full) - 9)) for _ in range(ctx.pick(8, 60))]:
                if n_ < len(full) - 8:
                    o = os.path.join(odir, 'big.%s.%d' % (stage, n_))
                    open(o, 'w').close()
                    ctx.give(o)
                    runs.add('write error', ['/usr/bin/prlimit', '--fsize=%d' % n_] + sh('>' + o) + [prog, files['big.' + stage]],
                             {'kind': 'fault', 'stage': stage, 'fault': 'write error'}, cwd=base)
                    runs.descr[-1]['result'] = o
    inplace = []

    def g(fault, args, prepare=None, wrap=(), config=cfg, stdin=b, flag=True):
        o = outdir()
        if prepare:
            os.makedirs(o)
            prepare(o)
            for d, ds, fs in os.walk(o):
                ctx.give(d, *(os.path.join(d, x) for x in fs if not os.path.islink(os.path.join(d, x))))
        runs.add(fault, list(wrap) + [gen, '-output', o] + ([config] if config else []) + args, {'kind': 'fault', 'stage': 'gen', 'fault': fault}, gen_out=o, cwd=base, stdin=stdin)
        inplace.append(o)
        return o
    g('good file', [files['s.json']], stdin='')
    g('good relative file', ['s.json'], stdin='')
    g('good relative file', ['./s.json'], stdin='', config='good.xml')
    g('good input', [])
    g('good input', ['-'])
    g('missing file', ['nowhere'])
    g('directory', [adir])
    g('missing config', [], config='nowhere.xml')
    g('missing config', [], config=os.path.join(cfg, 'x'))
    g('unreadable config', [], config=adir)
    g('too few arguments', [], config=None)
    g('too many arguments', [files['s.json'], files['s.json']])
    g('closed input', [], wrap=sh('<&-'))
    g('closed input', ['-'], wrap=sh('<&-'))
    if ctx.uid:
        g('unreadable file', [sealed])
        g('unreadable config', [], config=sealed)
    for name, text in (('unknown variant', '<rtcg-gen><cpp variant="x"/></rtcg-gen>'), ('other root', '<rtcg><cpp variant="ros"/></rtcg>'),
                       ('unknown variant', '<rtcg-gen><cpp variant="ros"/><cpp variant=""/></rtcg-gen>'), ('good attributes', '<rtcg-gen><cpp variant="ros" more="x"/></rtcg-gen>')):
        p = os.path.join(base, 'f%d.xml' % len(runs.recs))
        with open(p, 'w') as f:
            f.write(text)
        g(name, [], config=p)
    p = os.path.join(base, 'user.xml')
    with open(p, 'w') as f:
        f.write(GOOD_XML[1].replace('>in<', '>nowhere<'))
    g('missing user code', [], config=p)
    x = json.loads(b) if b.strip() else {'tests': {}}
    for test in sorted(x['tests']):
        g('empty states', [], stdin=json.dumps(put(x, ['tests', test, 'states'], [])))
        for k in range(len(x['tests'][test]['states']) - 1):
            g('transition to nowhere', [], stdin=json.dumps(put(x, ['tests', test, 'states', k, 'transitionSets', 0, 'transitions', 0, 'next'], 'nowhere')))
        for bad in ('../' + test, test + '/x', '..', '', '.'):
            g('broken name', [], stdin=json.dumps({'types': x['types'], 'tests': dict(x['tests'], **{bad: x['tests'][test]})}))
    # Files that can't be written: each of those there are, in each way.
    ref = outdir()
    for sub in ([cfg], [os.path.join(base, 'c1.xml')], [os.path.join(base, 'c2.xml')]):
        r = ctx.run1([gen, '-output', ref] + sub, stdin=b, cwd=base)
        rels = [f for f, _ in tree_files(ref)] if r['rc'] == 0 else []
        shutil.rmtree(ref, True)
        for rel in rels:
            def blocked(how):
                def prepare(o):
                    p = os.path.join(o, rel)
                    os.makedirs(p if how == 'dir' else os.path.dirname(p))
                    if how == 'full':
                        os.symlink('/dev/full', p)
                return prepare
            g('directory in the way', [], prepare=blocked('dir'), config=sub[0])
            if rel.count('/') > 1:
                def infile(o):
                    p = os.path.join(o, os.path.dirname(rel))
                    os.makedirs(os.path.dirname(p))
                    with open(p, 'w') as f:
                        f.write('x')
                g('file in the way', [], prepare=infile, config=sub[0])
            g('full file', [], prepare=blocked('full'), config=sub[0])
            runs.descr[-1].update(keep=True, link=os.path.join(inplace[-1], rel))
            if inject:
                for call, err in (('openat', 'EDQUOT'), ('write', 'ENOSPC'), ('write', 'EIO'), ('close', 'EIO')):
                    w, log = inject(call, 'error=' + err, 1, os.path.join(base, 'o%d' % (n[0] + 1), rel))
                    g('write error', [], wrap=w, config=sub[0])
                    runs.descr[-1]['log'] = log
    if inject:
        for k in range(1, ctx.pick(9, 40)):
            for name, kw in (('s.json', {}), ('big.gen', {})):
                w, log = inject('read', 'error=EIO', k, files[name])
                g('read error', [files[name]], wrap=w)
                runs.descr[-1]['log'] = log
                w, log = inject('read', 'error=EIO', k, files[name])
                g('read error', [], wrap=w + sh('<' + files[name]))
                runs.descr[-1]['log'] = log
            w, log = inject('read', 'error=EIO', k, cfg)
            g('read error', [], wrap=w)
            runs.descr[-1]['log'] = log
        for p in (cfg, files['s.json']):
            w, log = inject('openat', 'error=EMFILE', 1, p)
            g('read error', [files['s.json']], wrap=w)
            runs.descr[-1]['log'] = log
    if ctx.uid:
        def seal(o):
            os.chmod(o, 0o555)
        g('unwritable output', [], prepare=seal)
        g('unwritable output', [], prepare=lambda o: (os.makedirs(os.path.join(o, 'animate')), os.chmod(os.path.join(o, 'animate'), 0o555)))
    runs.go()
    for d, x in zip(runs.descr, runs.recs):
        if d.get('link'):
            # A generator that replaces the file rather than writing to it has no trouble.
            if x['rc'] == 0 and not os.path.islink(d['link']):
                x['fault'] = 'replaced file'
    for o in inplace:
        os.system('chmod -R u+w %s 2>/dev/null' % o)
        shutil.rmtree(o, True)
    faulty = sum(bool(d.get('log')) and not d['moot'] for d in runs.descr)
    keep = [k for k, d in enumerate(runs.descr) if not d.get('moot')]
    ctx.log('%d of %d injected faults took place' % (faulty, sum(bool(d.get('log')) for d in runs.descr)))
    ctx.cov['faults_injected'] = faulty
    recs, descr = [dict(runs.recs[k], id=n_) for n_, k in enumerate(keep)], [runs.descr[k] for k in keep]
    for r in recs:
        r.setdefault('clean', False)
    ctx.log('%d runs of single stages' % len(recs))

    def more(what, data, **rec):
        recs.append(dict(rec, id=len(recs)))
        descr.append(dict(data, what=what))

    # -- ways to give the input
    def same(what, ways, of, name=None, text=None):
        res = ctx.run([dict(argv=w, cwd=base, stdin=s) for w, s in ways])
        out = []
        for (w, _), r in zip(ways, res):
            out.append([str(r['rc']), of(r, w)])
        more(what, {'argv': [w for w, _ in ways], 'results': out}, kind='same', results=out)
    # Files that are not regular ones: what is read from a pipe with a name is no different.
    fifo = lambda prog, *args: ['/bin/sh', '-c', 'd=$(mktemp -d) && mkfifo "$d/p" || exit 9\ntimeout 20 cat "$FILE" > "$d/p" 2> /dev/null &\nk=$!; "$@" "$d/p"; r=$?; kill $k 2> /dev/null; rm "$d/p"; rmdir "$d"; exit $r', 'sh', prog] + list(args)
    piped = lambda dev, prog, *args: ['/bin/sh', '-c', 'cat "$FILE" | "$@" ' + dev, 'sh', prog] + list(args)
    given = lambda p, argv: ['/usr/bin/env', 'FILE=' + p] + argv
    odd = ['', 'x', '{', 't: a.in', 't: a.in.1\nt: b.out.2', '{}']
    links = {}
    for k, text in enumerate([t, a, b] + odd):
        p = os.path.join(base, 'same%d' % k)
        with open(p, 'w') as f:
            f.write(text)
        shutil.copy(p, os.path.join(base, '-'))
        links[k] = p + '.link'
        os.symlink(os.path.basename(p), links[k])
        for prog in (rt, ms):
            same('input given in several ways', [([prog, p], 'other'), ([prog, os.path.basename(p)], ''), ([prog, './-'], 'other'), ([prog], text), ([prog, '-'], text),
                                                  (given(p, fifo(prog)), 'other'), (given(p, piped('/dev/stdin', prog)), 'other'), (given(p, piped('/dev/fd/0', prog)), 'other'), ([prog, links[k]], 'other')],
                 lambda r, w: canon_json(load(r)))
        o = outdir()
        ways = []
        for m, w in enumerate(([p], [os.path.basename(p)], ['./' + os.path.basename(p)], ['./-'], [], ['-'])):
            ways.append(([gen, '-output', '%s.%d' % (o, m), cfg] + w, text if m > 3 else 'other'))
        ways.append((given(p, fifo(gen, '-output', o + '.6', cfg)), 'other'))
        ways.append((given(p, piped('/dev/stdin', gen, '-output', o + '.7', cfg)), 'other'))
        same('input given to rtcg-gen in several ways', ways, lambda r, w: (lambda o: json.dumps(tree_files(o)) if os.path.isdir(o) else '')(w[w.index('-output') + 1]))
        for m in range(8):
            shutil.rmtree('%s.%d' % (o, m), True)

    # -- the pipeline
    pdir = ctx.workdir('p')
    shutil.copy(os.path.join(REPO, 'rtcg.sh'), pdir)
    pipes = []
    counter = [0]

    def pipe(what, config, text, stages, fake=None, argv=None, stdin=None):
        counter[0] += 1
        d = os.path.join(pdir, 'r%d' % counter[0])
        os.makedirs(os.path.join(d, 'bin'))
        for p in (rt, ms, gen):
            os.symlink(p, os.path.join(d, 'bin', os.path.basename(p)))
        shutil.copy(os.path.join(REPO, 'rtcg.sh'), d)
        with open(os.path.join(d, 'in.csv'), 'w', newline='') as f:
            f.write(text)
        with open(os.path.join(d, 'c.xml'), 'w') as f:
            f.write(config)
        if fake:
            prog, part = fake
            q = os.path.join(d, 'bin', os.path.basename(prog))
            os.remove(q)
            with open(q, 'w') as f:
                f.write('#!/bin/sh\ncat "$0.part"\necho broken >&2\nexit 1\n')
            os.chmod(q, 0o755)
            with open(q + '.part', 'w') as f:
                f.write(part)
        user_code(d)
        ctx.give(d)
        pipes.append((what, d, stages, dict(argv=['/bin/sh', 'rtcg.sh'] + (argv or ['c.xml', 'in.csv']), stdin=stdin, cwd=d)))

    def fates(config, text):
        """Whether each stage alone works on what it is given."""
        r1 = ctx.run1([rt], stdin=text.encode())
        r2 = ctx.run1([ms], stdin=r1['stdout'])
        o = outdir()
        p = os.path.join(base, 'pc.xml')
        with open(p, 'w') as f:
            f.write(config)
        r3 = ctx.run1([gen, '-output', o, p], stdin=r2['stdout'], cwd=base)
        shutil.rmtree(o, True)
        return [r['rc'] == 0 for r in (r1, r2, r3)]

    bad = [t[:k] for t in TRACES for k in range(len(t))]
    for text in TRACES + (bad if ctx.thorough else rng.sample(bad, 30)) + ['"', '', 'a.in.1,', 't: a.in.1\n"u: b.out.1', 'a.in.1\n\x01', 'a: b.in.1, b.out.x', 'x/y: a.in.1', 'a.in.x,b.out.1,b.out.x']:
        f = fates(GOOD_XML[0], text)
        pipe('pipeline on %r' % text, GOOD_XML[0], text, f)
        if rng.random() < .3:
            pipe('pipeline on input %r' % text, GOOD_XML[0], '', f, argv=['c.xml'], stdin=text.encode())
            pipe('pipeline on input %r' % text, GOOD_XML[0], '', f, argv=['c.xml', '-'], stdin=text.encode())
    for c in GOOD_XML + [GOOD_XML[0][:20], '', '<x/>', GOOD_XML[1][:-5]]:
        pipe('pipeline with configuration %r' % c, c, TRACES[1], fates(c, TRACES[1]))
    pipe('pipeline with too many arguments', GOOD_XML[0], TRACES[1], [False], argv=['c.xml', 'in.csv', 'more'])
    pipe('pipeline on a missing file', GOOD_XML[0], TRACES[1], [False], argv=['c.xml', 'nowhere'])
    pipe('pipeline on a missing configuration', GOOD_XML[0], TRACES[1], [False], argv=['nowhere', 'in.csv'])
    pipe('pipeline on a directory', GOOD_XML[0], TRACES[1], [False], argv=['c.xml', 'bin'])
    for prog, full in ((rt, a), (ms, b)):
        body = full.rstrip()
        for k in cuts(rng, body, ctx.pick(30, 400)):
            pipe('pipeline with %s breaking down after %d of %d characters' % (os.path.basename(prog), k, len(body)), GOOD_XML[0], TRACES[1], [False], fake=(prog, full[:k]))
    for (what, d, stages, job), r in zip(pipes, ctx.run([j for _, _, _, j in pipes])):
        err = r['stderr'].decode(errors='replace')
        more(what, {'stderr': err[:600], 'rc': r['rc'], 'stages': stages}, kind='pipe', rc=r['rc'], err=bool(err.strip()),
             crash=r['timeout'] or r['rc'] < 0 or bool(re.search(r'^panic:|goroutine \d+ ', err, re.M)), stages=stages)
        shutil.rmtree(d, True)
    ctx.log('%d runs of the pipeline' % len(pipes))
    rej, _ = ctx.judge('TraceStages', recs, expect=32 + len(recs))
    for n_, why in rej:
        ctx.violation('%s (%s)' % (why.strip('"'), descr[n_]['what'][:300]), dict(descr[n_], record={k: v for k, v in recs[n_].items() if k != 'out'}))
    ctx.traces += len(recs)
    for k in ('trace', 'json', 'xml', 'value', 'fault', 'same', 'pipe'):
        ctx.cov['runs_' + k] = sum(r['kind'] == k for r in recs)
    for x in rng.sample(descr, 5):
        ctx.sample(x['what'][:300])
    ctx.assumptions.append('faults while reading and writing are those of /dev/full, closed inputs, files or directories in the way, limits, and failing system calls (open, read, write, close)')
