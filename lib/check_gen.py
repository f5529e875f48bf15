"""C14, C15: what generation writes, and where."""
import copy, hashlib, itertools, json, os, re, shutil
from core import Broken

TRACES = {
    'none': '',
    'one': 't: a.in.1, b.out.2\n',
    'text': 'u: a.call.x, b.out.Ok\nv: b.out.Bad\n',
    'many': 't: a.in.1\nu: a.in.1, b.out.2\nv: b.out.-3, a.in.4, a.in.5\nw: c.call.yes\nx: c.call.yes, a.in.0\n',
    'other': 'zz: d.out.7, d.out.7\n',
    'crowd': ''.join('t%d: b.out.%d\n' % (i, i % 7) for i in range(90)),
    'swap': 't: b.out.9\nu: a.in.3, a.in.4\n',
}
USER_CONVERT = '#include <string>\n// by the user: %s\n'


def user_code(rng, v):
    """Conversion code of a user, in every form a file can have."""
    c = USER_CONVERT % (v + ' ' * rng.choice([0, 1, 7, 900]))
    k = rng.randrange(14)
    if k == 0:
        c = c.replace('\n', '\r\n')
    elif k == 1:
        c = c[:-1]
    elif k == 2:
        c = ''
    elif k == 3:
        c = (c + '// ${NAME} {{.}} {{end}} %s\n')
    elif k == 4:
        c = c * rng.choice([2000, 20000])
    elif k == 5:
        c = c.encode() + b'\x00\xff\xfe\x1a' + c.encode()
    elif k == 6:
        c = '\ufeff' + c + '\u00e9\t \f\v\n\n\n'
    elif k == 7:
        c = '\n' + c + ' \n\n'
    elif k == 8:
        c = c + 'x' * 70000 + '\n' + c
    elif k == 9:
        c = c.replace('\n', '\r')
    return c


class Cfg:
    """A configuration: what the specification knows of it, and its text."""
    def __init__(self, variants, includes=(), attrs=True, directory=None, extra=''):
        self.vs = variants
        out = ['<?xml version="1.0" encoding="UTF-8" ?>', '<rtcg-gen>']
        if directory:
            out.append('<directory>%s</directory>' % directory)
        for v in variants:
            out.append('<cpp%s>' % (' variant="%s"' % v['v'] if attrs or v['v'] != 'animate' else ''))
            out += ['<include src="%s"%s/>' % i for i in includes]
            out += ['<channel name="%s" type="T%s"/>' % (c, c) for c in v['over']]
            if v['mk']:
                out.append('<makefile />')
            if v['ck']:
                out.append('<catkin>%s</catkin>' % extra)
            out.append('</cpp>')
        out.append('</rtcg-gen>')
        self.xml = '\n'.join(out)


def variant(v, mk=False, ck=False, over=()):
    return {'v': v, 'mk': mk, 'ck': ck, 'over': list(over)}


def content(path, rel):
    with open(path, 'rb') as f:
        b = f.read()
    if rel.endswith('main.cpp'):
        # Without the time stamp.
        ls = b.split(b'\n')
        ls[:12] = [re.sub(rb'\d{4}-\d\d-\d\d.*', b'', l) if l.lstrip().startswith((b'//', b'*', b'/*')) else l for l in ls[:12]]
        b = b'\n'.join(ls)
    return b


def digest(path, rel):
    b = content(path, rel)
    return hashlib.sha256(b).hexdigest()[:16] if b else 'empty'


def is_part(b, whole, rel):
    """Whether b is how a file with content whole begins."""
    if rel.endswith('main.cpp') and b.count(b'\n') < 12:
        b = b[:b.rfind(b'\n') + 1]      # It may stop within the time stamp.
    return whole.startswith(b)


def snapshot(root, parts=None):
    """The files and directories below root.  Those of which there is only the beginning of what is in parts are marked."""
    files, dirs = [], []
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        segs = [] if rel == '.' else rel.split('/')
        dirs.append(segs)
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            if os.path.islink(p):
                h = 'link to ' + os.readlink(p)
            else:
                try:
                    h = digest(p, f)
                    if parts:
                        whole = parts.get('/'.join(segs + [f]))
                        b = content(p, f)
                        if whole is not None and b != whole and is_part(b, whole, f):
                            h = 'part'
                except OSError:
                    h = 'unreadable'
            files.append({'p': segs + [f], 'h': h})
    return files, dirs


class Gen:
    """Suites and fresh runs, shared by all histories of a check."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.stms, self.info = {}, {}
        for k, t in TRACES.items():
            r = ctx.run1([ctx.read_traces], stdin=t.encode())
            r = ctx.run1([ctx.make_stms], stdin=r['stdout'])
            if r['rc']:
                raise Broken('no state machines can be made of the traces %r: %s' % (t, r['stderr'].decode(errors='replace')[:500]))
            self.add(k, json.loads(r['stdout']))

    def add(self, key, stm):
        self.stms[key] = json.dumps(stm)
        self.info[key] = {'tests': list((stm.get('tests') or {}).keys()), 'chans': list((stm.get('types') or {}).keys())}

    def renamed(self, names, base='many'):
        """The suite of some traces, with tests of the given names."""
        key = 'names:' + json.dumps(names)
        if key not in self.stms:
            d = json.loads(self.stms[base])
            ms = list(d['tests'].values())
            d['tests'] = {}
            for k, n in enumerate(names):
                m = copy.deepcopy(ms[k % len(ms)])
                m['tests'] = [n]
                for s in m['states']:
                    if 'verdicts' in s:
                        s['verdicts'] = {n: o for _, o in s['verdicts'].items()}
                d['tests'][n] = m
            self.add(key, d)
        return key


class World:
    """A directory in which generation is run, and its history."""

    def __init__(self, gen, cfg, src_user=True, cfgdir='cfg', label='', code=None):
        self.gen, self.ctx = gen, gen.ctx
        self.root = self.ctx.workdir('h')
        self.cwd = ['deep', 'a', 'b']
        self.cfgdir = cfgdir.split('/')
        self.label = label
        for p in (self.cwd, self.cfgdir, ['stm'], ['other', 'dir']):
            os.makedirs(self.path(p), exist_ok=True)
        self.put(['other', 'dir', 'file'], 'precious')
        self.put(['deep', 'a', 'precious'], 'precious')
        self.put(['deep', 'a', 'b', 'mine'], 'precious')
        for v in ('ros', 'animate'):
            if src_user:
                self.put(self.cfgdir + [v, 'src', 'convert', 'convert.cpp'], code[v] if code else USER_CONVERT % v)
        self.setcfg(cfg)
        self.owned()

    def path(self, segs):
        return os.path.join(self.root, *segs)

    def put(self, segs, text):
        os.makedirs(os.path.dirname(self.path(segs)), exist_ok=True)
        with open(self.path(segs), 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())

    def setcfg(self, cfg, name='gen.xml'):
        self.cfg = cfg
        self.put(self.cfgdir + [name], cfg.xml)

    def owned(self):
        for d, ds, fs in os.walk(self.root):
            self.ctx.give(d)
            for f in fs:
                if not os.path.islink(os.path.join(d, f)):
                    self.ctx.give(os.path.join(d, f))

    def rel(self, segs):
        return os.path.relpath(self.path(segs), self.path(self.cwd))

    def job(self, suite, out, clean=False, cfgarg=None, stm=None, stmtext=None, argv=None, form=0, how='file'):
        """A run, as a job; its record is completed by done()."""
        text = self.gen.stms[suite] if stmtext is None else stmtext
        flags = []
        o = out if isinstance(out, str) else self.rel(out)
        if form == 1 and not isinstance(out, str):
            o = self.path(out)
        elif form == 2:
            o = './' + o + '/'
        elif form == 3:
            o = o + '/../' + os.path.basename(o) if os.path.basename(o) not in ('.', '..') else o
        flags = [['-output', o], ['-output=' + o], ['--output', o]][form % 3]
        if clean:
            flags = (flags + ['-clean']) if form % 2 else ['-clean'] + flags
        c = cfgarg if cfgarg is not None else self.rel(self.cfgdir + ['gen.xml'])
        self.put(['stm', 'suite.json'], text)
        if how == 'file':
            args = [c, self.rel(['stm', 'suite.json']) if stm is None else stm]
        elif how == 'dash':
            args = [c, '-']
        else:
            args = [c]
        self.ctx.give(self.path(['stm', 'suite.json']))
        self.before = snapshot(self.root)
        return {'argv': [self.ctx.gen] + (flags + args if argv is None else argv), 'cwd': self.path(self.cwd),
                'stdin': b'' if how == 'file' else text.encode()}

    def done(self, r, suite, out, clean=False, args=True, suiteok=True, cfgok=True, blocked=False, src=None, fresh=None, exists=None, killed=False):
        parts = None
        if blocked and r['rc'] and fresh:
            parts = {}
            for p, b in fresh[2].items():
                s = self.path((self.cfgdir if src is None else src) + p.split('/'))
                if p.endswith('convert.cpp') and os.path.isfile(s):
                    b = content(s, p)
                parts['/'.join(list(out) + [p])] = b
            # What has been there all the time is no new part.
            old = {'/'.join(x['p']): x['h'] for x in self.before[0]}
            after = snapshot(self.root, parts)
            plain = {'/'.join(x['p']): x['h'] for x in snapshot(self.root)[0]} if any(x['h'] == 'part' for x in after[0]) else {}
            for x in after[0]:
                p = '/'.join(x['p'])
                if x['h'] == 'part' and plain[p] == old.get(p):
                    x['h'] = plain[p]
        else:
            after = snapshot(self.root)
        info = self.gen.info[suite]
        return {'cfg': self.cfg.vs, 'suite': info, 'names': [n.split('/') for n in info['tests']], 'out': list(out), 'cwd': self.cwd,
                'src': self.cfgdir if src is None else src, 'clean': clean, 'args': args, 'suiteok': suiteok, 'cfgok': cfgok,
                'exists': (list(out) in self.before[1]) if exists is None else exists, 'blocked': blocked, 'killed': killed,
                'before': self.before[0], 'bdirs': self.before[1], 'after': after[0], 'adirs': after[1],
                'fresh': fresh[0] if fresh else [], 'fdirs': fresh[1] if fresh else [], 'rc': r['rc'], 'msg': r['stderr'].strip() != b''}


def fresh_runs(gen, wanted):
    """Runs (cfg, suite) pairs in empty directories: what they generate."""
    ctx = gen.ctx
    ws, jobs = [], []
    for cfg, suite in wanted:
        w = World(gen, cfg)
        ws.append(w)
        jobs.append(w.job(suite, ['fresh', 'out']))
    res = []
    for w, r in zip(ws, ctx.run(jobs)):
        if os.path.isdir(w.path(['fresh', 'out'])):
            f, d = snapshot(w.path(['fresh', 'out']))
            c = {'/'.join(x['p']): content(w.path(['fresh', 'out'] + x['p']), x['p'][-1]) for x in f if not x['h'].startswith('link')}
        else:
            f, d, c = [], [], {}
        res.append((f, d, c))
        shutil.rmtree(w.root, True)
    return res


def judge(ctx, recs, descr):
    for n, r in enumerate(recs):
        r['id'] = n + 1
    for k in range(0, len(recs), 3000):
        part = recs[k:k + 3000]
        rej, _ = ctx.judge('TraceGenFs', part, expect=32 + len(part))
        for i, d in rej:
            r = recs[i - 1]
            b = {'/'.join(x['p']): x['h'] for x in r['before']}
            a = {'/'.join(x['p']): x['h'] for x in r['after']}
            diff = {p: (b.get(p), a.get(p)) for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)}
            ctx.violation('%s: %s (exit status %d)' % (descr[i - 1]['what'], d.strip('" '), r['rc']),
                          dict(descr[i - 1], verdict=d, changed=diff, fresh=['/'.join(x['p']) for x in r['fresh']], rc=r['rc']))
    ctx.traces += len(recs)


BADNAMES = ['..', '.', '../x', '../../x', '../../../x', '../../../../x', '../../../../../x', 'a/b', 'a/../b', '/x', '/', '', 'a/', './a', '../ros', '../../Makefile',
            '..//x', 'a/../../../x', '../../../deep/a/b/x', '../convert', '../rtcg', 'x/../../..', '../../../../other/dir']
ODDNAMES = ['convert', 'rtcg', 'src', 'include', 'main.cpp', 'Makefile', 'ros', 'a b', '...', '..a', 'é', '-x', '.hidden', 'a.b', "q'uote", 'dou"ble', '$x', '${NAME}', 'a\\b',
            '*', 'x' * 200, '{{.}}', '&amp;', '<x>', 'con', 'T', 't ', ' t', '#', 'a:b', '%41', '~']


def model(ctx, stops):
    ctx.model('MCGenFs', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRuns = %d MaxEdits = %d MaxStops = %d\n'
              'INVARIANTS DoneOk PartialOk RefusedOk Contained InputsKept CleanedOk Idempotent\n' % ctx.pick((2, 0, stops), (2, 1, 1)))


def check_c14(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 0)
    gen = Gen(ctx)
    cases = []      # (label, cfg, suite, kwargs of World, kwargs of run)
    overs = [(), ('a',), ('zzz',), ('b', 'a'), ('zzz', 'b')]
    for v, mk, ck, over in itertools.product(('ros', 'animate'), (False, True), (False, True), overs):
        cfg = Cfg([variant(v, mk, ck, over)], attrs=rng.random() < .7)
        for suite in TRACES:
            if ctx.thorough or rng.random() < .6:
                cases.append((cfg, suite, {'src_user': rng.random() < .75}, {}))
    for _ in range(ctx.pick(150, 1500)):
        k = rng.choice([0, 2, 2, 2, 3])
        vs = [variant(rng.choice(['ros', 'animate']), rng.random() < .5, rng.random() < .5, rng.choice(overs)) for _ in range(k)]
        cases.append((Cfg(vs, includes=[('x/y.h', ''), ('z.h', ' system="true"')][:rng.randint(0, 2)]), rng.choice(list(TRACES)),
                      {'src_user': rng.random() < .75, 'cfgdir': rng.choice(['cfg', 'deep/a/b/cfg', 'deep/a/b'])}, {}))
    both = Cfg([variant('ros', True, True, ('a',)), variant('animate', True)])
    ros = Cfg([variant('ros', False, True)])
    for n in BADNAMES + ODDNAMES:
        for cfg in (both, ros):
            for clean in (False, True):
                for names in ([n], ['ok', n, 'ok2']):
                    if ctx.thorough or len(names) == 1 or rng.random() < .5:
                        cases.append((cfg, gen.renamed(names), {}, {'clean': clean}))
    # Something in the way of the output.
    for _ in range(ctx.pick(60, 400)):
        cases.append((both, rng.choice(['one', 'many', 'text']), {'src_user': rng.random() < .8}, {'obstacle': True, 'clean': rng.random() < .3}))
    # In place: the output directory is the one with the configuration and the user's sources.
    for suite in TRACES:
        for clean in (False, True):
            cases.append((both, suite, {}, {'inplace': True, 'clean': clean}))
    recs, descr, ws, jobs = [], [], [], []
    fresh = fresh_runs(gen, [(c, s) for c, s, _, _ in cases])
    outs = [['deep', 'a', 'b', 'out'], ['deep', 'a', 'out'], ['new', 'x', 'y'], ['deep', 'a', 'b', 'o', 'p'], ['other', 'dir']]
    for (cfg, suite, kw, rk), fr in zip(cases, fresh):
        w = World(gen, cfg, code={v: user_code(rng, v) for v in ('ros', 'animate')}, **kw)
        out = rng.choice(outs)
        if rk.get('inplace'):
            out = w.cfgdir
        blocked = False
        if 'obstacle' in rk:
            blocked = True
            out, rk['hindrance'] = hinder(rng, w, out, fr)
        elif not rk.get('inplace') and rng.random() < .3:
            # Something of an earlier run is there.
            for d in rng.sample(fr[1], rng.randint(0, min(3, len(fr[1])))):
                os.makedirs(w.path(out + d), exist_ok=True)
            for f in rng.sample(fr[0], rng.randint(0, min(4, len(fr[0])))):
                w.put(out + f['p'], rng.choice(['', 'stale', 'stale\n' * 3000]))
            w.owned()
        w.out = out
        form, how = rng.randrange(4), rng.choice(['file', 'dash', 'default'])
        if ob_exists(w, out):
            form = 0 if form == 3 else form
        ws.append(w)
        jobs.append(w.job(suite, out, clean=rk.get('clean', False), form=form if form != 3 else 1, how=how))
        w.blocked = blocked
    for (cfg, suite, kw, rk), fr, w, j, r in zip(cases, fresh, ws, jobs, ctx.run(jobs)):
        recs.append(w.done(r, suite, w.out, clean=rk.get('clean', False), blocked=w.blocked, fresh=fr,
                           exists=any(d == w.out for d in w.before[1])))
        descr.append({'what': 'generating %s with %s%s' % (json.dumps(gen.info[suite]['tests'])[:200], re.sub(r'\s+', ' ', cfg.xml[46:])[:250],
                                                          ' cleaning' if rk.get('clean') else '') + (' with ' + rk['hindrance'] if 'hindrance' in rk else ''),
                      'argv': j['argv'][1:], 'config': cfg.xml, 'stms': gen.stms[suite][:3000], 'stderr': r['stderr'].decode(errors='replace')[:1000]})
        shutil.rmtree(w.root, True)
    # A configuration that names the directory of the user's sources.
    for d in ('absolute', 'relative'):
        base = Cfg([variant('ros', True, False, ('a',))])
        w = World(gen, base, cfgdir='other/dir')
        w.cfgdir = ['cfg2']
        os.makedirs(w.path(w.cfgdir))
        cfg = Cfg(base.vs, directory=w.path(['other', 'dir']) if d == 'absolute' else '../../../other/dir')
        w.setcfg(cfg)
        w.owned()
        (fr,) = fresh_runs(gen, [(base, 'many')])
        j = w.job('many', ['deep', 'out'])
        (r,) = ctx.run([j])
        recs.append(w.done(r, 'many', ['deep', 'out'], fresh=fr, src=['other', 'dir']))
        descr.append({'what': 'generating with an %s source directory' % d, 'config': cfg.xml, 'stderr': r['stderr'].decode(errors='replace')})
        shutil.rmtree(w.root, True)
    # A configuration that is a link to one elsewhere: the sources are those beside the link.
    for v in ('ros', 'animate'):
        base = Cfg([variant(v, True, False, ('a',))])
        w = World(gen, base, cfgdir='other/dir', code={x: '// theirs\n' for x in ('ros', 'animate')})
        w.cfgdir = ['cfg2']
        w.put(w.cfgdir + [v, 'src', 'convert', 'convert.cpp'], '// mine\n')
        os.symlink('../other/dir/gen.xml', w.path(w.cfgdir + ['gen.xml']))
        w.owned()
        (fr,) = fresh_runs(gen, [(base, 'many')])
        j = w.job('many', ['deep', 'out'])
        (r,) = ctx.run([j])
        recs.append(w.done(r, 'many', ['deep', 'out'], fresh=fr))
        descr.append({'what': 'generating with a configuration that is a link', 'config': base.xml, 'stderr': r['stderr'].decode(errors='replace')})
        shutil.rmtree(w.root, True)
    ctx.log('ran %d cases' % len(recs))
    judge(ctx, recs, descr)
    ctx.cov.update(runs=len(recs), hindered=sum(r['blocked'] and r['rc'] != 0 for r in recs), succeeded=sum(r['rc'] == 0 for r in recs), odd_names=len(BADNAMES + ODDNAMES))
    for d in rng.sample(descr, 4):
        ctx.sample(d['what'])
    ctx.assumptions.append('no symbolic links inside the output directory unless it is cleaned; contents compared without the time stamp of main.cpp')


def hinder(rng, w, out, fresh):
    """Puts something in the way of a run into out."""
    ds = [d for d in fresh[1]]
    if not fresh[0] or not ds:
        raise Broken('nothing is generated from a suite of ordinary traces')
    f, d = rng.choice(fresh[0])['p'], rng.choice(ds)
    k = rng.choice(['dir for file', 'file for dir', 'full', 'read-only file', 'read-only dir', 'unreadable', 'dangling', 'locked'])
    at = lambda p: w.path(out + p)
    if k in ('file for dir', 'read-only dir') and not d and os.path.isdir(at(d)):
        k, d = 'dir for file', ['x']
    p = d if k in ('file for dir', 'read-only dir') else f
    if os.path.lexists(at(p)) and k not in ('read-only file', 'read-only dir', 'unreadable'):
        shutil.rmtree(at(p)) if os.path.isdir(at(p)) and not os.path.islink(at(p)) else os.remove(at(p))
    os.makedirs(os.path.dirname(at(p)), exist_ok=True)
    if k == 'dir for file':
        os.mkdir(at(p))
    elif k == 'file for dir':
        w.put(out + p, 'in the way')
    elif k == 'full':
        os.symlink('/dev/full', at(p))
    elif k == 'dangling':
        os.symlink('nowhere/at/all', at(p))
    w.owned()
    if k == 'read-only file':
        w.put(out + p, 'in the way')
        os.chown(at(p), 0, 0)
        os.chmod(at(p), 0o444)
    elif k == 'read-only dir':
        os.makedirs(at(p), exist_ok=True)
        w.owned()
        os.chown(at(p), 0, 0)
        os.chmod(at(p), 0o555)
    elif k == 'locked':
        w.put(out + ['kept', 'of', 'root'], 'precious')
        w.owned()
        os.chown(at(['kept', 'of']), 0, 0)
    elif k == 'unreadable':
        for v in ('ros', 'animate'):
            s = w.path(w.cfgdir + [v, 'src', 'convert', 'convert.cpp'])
            if os.path.exists(s):
                os.chown(s, 0, 0)
                os.chmod(s, 0o600)
    return out, '%s at %s' % (k, '/'.join(p))


def ob_exists(w, out):
    return os.path.lexists(w.path(out))


def edits(rng, w, out):
    """The user changes something in the output directory."""
    root = w.path(out)
    fs = [os.path.join(d, f) for d, _, ff in os.walk(root) for f in ff]
    k = rng.randrange(7)
    if k == 0 or not fs:
        w.put(out + rng.choice([['notes.txt'], ['ros', 'src', 'mine', 'x.cpp'], ['ros', 'src', 't', 'include', 'user.h'], ['animate', 'bin', 't'], ['old', 'deep', 'er', 'f'],
                                ['ros', 'src', 'gone', 'src', 'main.cpp'], ['ros', 'src', 'convert', 'convert.cpp'], ['animate', 'src', 'convert', 'extra.h'],
                                ['ros', 'build', 'CMakeCache.txt'], ['ros', 'src', 'rtcg', 'rtcg.h.orig']]), 'mine\n')
    elif k == 1:
        os.remove(rng.choice(fs))
    elif k == 2:
        with open(rng.choice(fs), 'a') as f:
            f.write('\n// more\n' * 300)
    elif k == 3:
        with open(rng.choice(fs), 'w') as f:
            f.write('')
    elif k == 4:
        with open(rng.choice(fs), 'w') as f:
            f.write('x')
    elif k == 5:
        os.makedirs(w.path(out + rng.choice([['empty'], ['ros', 'src', 'empty', 'er'], ['animate', 'src', 'gone']])), exist_ok=True)
    else:
        shutil.rmtree(rng.choice([os.path.dirname(f) for f in fs]), True)
    if not os.path.isdir(root):
        os.makedirs(root)
    w.owned()
    return ['new file', 'removed a file', 'appended to a file', 'emptied a file', 'overwrote a file', 'new directory', 'removed a directory'][k]


BADSTMS = ['', ' ', '{', '{"tests": ', '[]', '"x"', '1', 'nonsense', '{"tests": {"t": null}}', '{"tests": {"t": {"states": []}}}', '{"tests": {"t": {"states": [null]}}}',
           '{"tests": []}', '{"tests": {"t": {"states": [{"id": 1}]}}}', '{"types": {"a": "complex"}, "tests": {}}',
           '{"tests": {"t": {"states": [{"id": "initial", "transitionSets": [{"channel": "a", "transitions": []}]}]}}}',
           '{"tests": {"t": {"states": [{"id": "initial", "transitionSets": [{"channel": "a.sideways", "transitions": []}]}]}}}',
           '{"tests": {"t": {"states": [{"id": "initial", "verdicts": {"t": "perhaps"}}]}}}']
BADCFGS = ['', '<rtcg-gen>', '<rtcg-gen><cpp variant="ros"></rtcg-gen>', '<other/>', '{}', '<rtcg-gen><cpp variant="cobol"/></rtcg-gen>',
           '<rtcg-gen><cpp variant="ros"/><cpp variant=ros/></rtcg-gen>', '<rtcg-gen><cpp variant="ros"><catkin></cpp></rtcg-gen>', 'text only',
           '<rtcg-gen><cpp variant="ros"><include src="a" system="maybe"/></cpp></rtcg-gen>', '<!-- nothing -->']


def records_at_calls(ctx, gen, cfgs, fresh, record, rng):
    """Runs that are stopped, or hit by an error, at each of the system calls they make to files."""
    inject = ctx.injector()
    if not inject:
        return
    out = ['deep', 'out']
    todo = []
    for cfg, suite, old in ctx.pick([(cfgs[0], 'many', 'one'), (cfgs[2], 'one', 'many')], [(c, s, o) for c in cfgs[:5] for s, o in (('many', 'one'), ('one', 'many'), ('text', 'swap'))]):
        fs, ds, _ = fresh[(id(cfg), suite)]
        ofs, ods, _ = fresh[(id(cfg), old)]
        for clean in (False, True):
            points = []
            for p in [x['p'] for x in fs]:
                points += [(c, w, k, p) for c, w, k in (('openat', 'signal=KILL', 1), ('openat', 'error=ENOSPC', 1), ('write', 'signal=KILL', 1), ('write', 'signal=KILL', 2), ('write', 'error=EIO', 2),
                                                        ('write', 'error=ENOSPC', 1), ('close', 'signal=KILL', 1), ('close', 'error=EIO', 1))]
            points += [('mkdirat', w, 1, d) for d in ds for w in ('signal=KILL', 'error=EDQUOT')]
            if clean:
                points += [('unlinkat', w, k, None) for k in range(1, len(ofs) + len(ods) + 3) for w in ('signal=KILL', 'error=EIO')]
                points += [(c, w, k, None) for c, w in (('getdents64', 'error=EIO'), ('getdents64', 'signal=KILL')) for k in (1, 2, 3, 5, 8, 13)]
            # Where the user's code is read, and what it is read for.
            points += [(c, w, k, ('src', v)) for v in [x['v'] for x in cfg.vs if x['over']] for c, w, k in (('openat', 'error=EMFILE', 1), ('read', 'error=EIO', 1), ('read', 'signal=KILL', 1), ('read', 'error=EIO', 2))]
            todo += [(cfg, suite, old, clean, pt) for pt in (points if ctx.thorough else rng.sample(points, min(len(points), 110)))]
    hit = 0
    for k0 in range(0, len(todo), 200):
        part = todo[k0:k0 + 200]
        worlds = []
        jobs = []
        for cfg, suite, old, clean, pt in part:
            w = World(gen, cfg)
            w.hist = []
            worlds.append(w)
            jobs.append(w.job(old, out))
        for w, r, j, (cfg, suite, old, clean, pt) in zip(worlds, ctx.run(jobs), jobs, part):
            record(w, r, j, 'run ' + old, old, out)
            w.put(out + ['ros', 'src', 'mine', 'notes'], 'mine')
            w.put(out + ['mine'], 'mine')
            w.owned()
        jobs, logs = [], []
        for w, (cfg, suite, old, clean, (call, what, k, p)) in zip(worlds, part):
            path = None if p is None else w.path(w.cfgdir + [p[1], 'src', 'convert', 'convert.cpp']) if isinstance(p, tuple) else w.path(out + list(p))
            j = w.job(suite, out, clean=clean, form=1)
            words, log = inject(call, what, k, path)
            j['argv'] = words + j['argv']
            jobs.append(j)
            logs.append(log)
        for w, r, j, log, (cfg, suite, old, clean, (call, what, k, p)) in zip(worlds, ctx.run(jobs), jobs, logs, part):
            took = ctx.injected(log)
            hit += took
            record(w, r, j, '%s %s%s with %s at %s %d of %s' % ('killed' if 'KILL' in what else 'failing', suite, ' -clean' if clean else '', what, call, k, p), suite, out, clean=clean,
                   blocked=True, killed=took and 'KILL' in what)
        jobs = [w.job(suite, out, clean=clean) for w, (cfg, suite, old, clean, pt) in zip(worlds, part)]
        for w, r, j, (cfg, suite, old, clean, pt) in zip(worlds, ctx.run(jobs), jobs, part):
            record(w, r, j, 'run %s%s' % (suite, ' -clean' if clean else ''), suite, out, clean=clean)
            shutil.rmtree(w.root, True)
    ctx.cov['stopped_at_calls'] = hit
    ctx.log('%d of %d runs were stopped or hit by an error at a system call' % (hit, len(todo)))


def check_c15(ctx):
    ctx.build()
    rng = ctx.rng
    model(ctx, 1)
    gen = Gen(ctx)
    # A suite file cut off anywhere is no suite.
    full = gen.stms['one'].strip()
    cuts = [full[:k] for k in range(0, len(full), ctx.pick(max(1, len(full) // 40), 3)) if k < len(full)]
    xmls = ['<rtcg-gen><cpp variant="ros"><catkin/></cpp><cpp variant="animate"><makefile/></cpp></rtcg-gen>']
    cfgcuts = [xmls[0][:k] for k in range(0, len(xmls[0]), ctx.pick(4, 1))]
    cfgs = [Cfg([variant('ros', True, True, ('a',)), variant('animate', True)]), Cfg([variant('ros', False, True)]), Cfg([variant('animate', True, False, ('b',))]),
            Cfg([variant('animate', False)]), Cfg([variant('ros', False, False, ('a', 'b')), variant('ros', True)]), Cfg([])]
    # The same variants, configured otherwise.
    cfgs += [Cfg([variant('ros', True, True, ('a',))], extra='<package><license>%s</license><description>%s</description><depend>d%d</depend></package>' % (l, 'x' * n, n),
                 includes=inc) for l, n, inc in (('MIT', 1, [('x/y.h', '')]), ('GPL', 60, []), ('', 3, [('z.h', ' system="true"'), ('x/y.h', '')]))]
    cfgs += [Cfg([variant('animate', True, False, ('b',)), variant('ros', False, False, ('b',))], includes=[('very/long/name/of/header.h', '')])]
    suites = list(TRACES)
    pairs = [(c, s) for c in cfgs for s in suites]
    fresh = {(id(c), s): f for (c, s), f in zip(pairs, fresh_runs(gen, pairs))}
    recs, descr = [], []

    def record(w, r, j, what, suite, out, **kw):
        recs.append(w.done(r, suite, out, fresh=fresh[(id(w.cfg), suite)], **kw))
        w.hist.append(what)
        descr.append({'what': ' / '.join(w.hist)[-700:], 'argv': j['argv'][1:], 'stderr': r['stderr'].decode(errors='replace')[:600], 'config': w.cfg.xml,
                      'stms': gen.stms[suite][:2000]})

    H = ctx.pick(160, 1500)
    batch = 160
    for h0 in range(0, H, batch):
        worlds = []
        for _ in range(min(batch, H - h0)):
            inplace = rng.random() < .12
            w = World(gen, rng.choice(cfgs[:5] + cfgs[6:]), cfgdir='deep/a/b/proj' if inplace else rng.choice(['cfg', 'deep/a/b', 'deep/a/b/cfg']))
            w.out = w.cfgdir if inplace else rng.choice([['deep', 'a', 'b', 'out'], ['deep', 'out'], ['out'], ['other', 'dir'], ['deep', 'a', 'b', 'x', 'y']])
            w.inplace = inplace
            w.hist = []
            worlds.append(w)
        for step in range(ctx.pick(5, 7)):
            todo = []
            # A run that took the directory the next one would start in has
            # its record already; that history ends there.
            worlds, ended = [w for w in worlds if os.path.isdir(w.path(w.cwd))], [w for w in worlds if not os.path.isdir(w.path(w.cwd))]
            for w in ended:
                shutil.rmtree(w.root, True)
            for w in worlds:
                if step and rng.random() < .6:
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        if not w.inplace:
                            w.hist.append(edits(rng, w, w.out))
                        else:
                            w.put(w.cfgdir + rng.choice([['notes'], ['ros', 'notes'], ['ros', 'src', 't', 'x.h']]), 'mine')
                            w.owned()
                if rng.random() < .3:
                    w.setcfg(rng.choice(cfgs))
                    w.owned()
                if rng.random() < .25:
                    # The user works on the conversion code.
                    w.put(w.cfgdir + [rng.choice(['ros', 'animate']), 'src', 'convert', 'convert.cpp'], user_code(rng, 'z'))
                    w.owned()
                suite = rng.choice(suites)
                clean = rng.random() < .4 and not w.inplace
                kind = rng.choice(['run'] * 6 + ['limited', 'opens', 'killed', 'badstm', 'badcfg', 'badargs', 'cleandot'])
                kw, rk = {}, {}
                out = w.out
                what = '%s %s%s' % (kind, suite, ' -clean' if clean else '')
                if kind == 'run' and rng.random() < .08 and clean and os.path.isdir(w.path(out)):
                    os.symlink(w.path(['other']), w.path(out + ['link%d' % step]))
                    w.hist.append('link to outside')
                if kind == 'badstm':
                    t = rng.choice(BADSTMS + cuts)
                    kw = {'stmtext': t} if rng.random() < .85 else {'stm': rng.choice(['missing.json', '/nonexistent/x', '..'])}
                    rk = {'suiteok': False}
                    what += ' %r' % (kw.get('stmtext', kw.get('stm')))[:60]
                elif kind == 'badcfg':
                    old = w.cfg
                    if rng.random() < .8:
                        text = rng.choice(BADCFGS + cfgcuts)
                        w.put(w.cfgdir + ['bad.xml'], text)
                        w.owned()
                        kw = {'cfgarg': w.rel(w.cfgdir + ['bad.xml'])}
                        what += ' %r' % text[:60]
                    else:
                        kw = {'cfgarg': rng.choice(['missing.xml', '/nonexistent/gen.xml', '.'])}
                        what += ' ' + kw['cfgarg']
                    rk = {'cfgok': False}
                elif kind == 'badargs':
                    c = w.rel(w.cfgdir + ['gen.xml'])
                    o = w.rel(out)
                    kw = {'argv': rng.choice([['-clean', '-output', o], ['-output', o], ['-clean', '-output', o, c, '-', 'more'], ['-claen', '-output', o, c],
                                              ['-clean', '-output', o, '-frobnicate', c, '-'], ['-clean=maybe', '-output', o, c, '-'], ['-clean', c, '-', '-output']
                                              ])}
                    rk = {'args': False}
                    what += ' ' + ' '.join(kw['argv'])
                    clean = False
                elif kind == 'cleandot':
                    out = rng.choice([['deep', 'a', 'b'], ['deep', 'a'], ['deep'], []])
                    clean = True
                    what = 'run %s -clean in %s' % (suite, '/'.join(out) or 'the root')
                    if rng.random() < .25 and len(out) >= 2:
                        ln = w.path(['other', 'way'])
                        if not os.path.lexists(ln):
                            os.symlink(w.path(['deep']), ln)
                        kw['_out'] = w.path(['other', 'way'] + out[1:])
                        what += ' through a link'
                if ctx.uid and kind == 'run' and clean and os.path.isdir(w.path(out)) and rng.random() < .06:
                    # Something that can't be cleaned away.
                    w.put(out + ['sealed', 'x'], 'mine')
                    w.owned()
                    os.chmod(w.path(out + ['sealed']), 0o555)
                    w.hist.append('sealed directory')
                if clean and out == w.out and os.path.isdir(w.path(out + ['sealed'])):
                    rk['blocked'] = True
                kw2 = dict(kw)
                o2 = kw2.pop('_out', out)
                form = rng.choice([0, 1, 2]) if not isinstance(o2, str) else 0
                j = w.job(suite, o2, clean=clean, form=form, how='file' if 'stm' in kw2 else rng.choice(['file', 'dash', 'default']), **kw2)
                if kind == 'cleandot':
                    rk['exists'] = True
                elif kind == 'limited':
                    # No file can grow beyond this.
                    n = rng.choice([0, 1, rng.randrange(200), rng.randrange(4000), rng.randrange(4000), rng.randrange(20000)])
                    j['argv'] = ['/usr/bin/prlimit', '--fsize=%d' % n] + j['argv']
                    rk['blocked'] = True
                    what += ' at %d bytes' % n
                elif kind == 'opens':
                    n = rng.randrange(4, 12)
                    j['argv'] = ['/usr/bin/prlimit', '--nofile=%d:%d' % (n, n)] + j['argv']
                    rk['blocked'] = True
                    what += ' with %d files' % n
                elif kind == 'killed':
                    n = rng.choice([rng.uniform(.001, .004), rng.uniform(.002, .012), rng.uniform(.003, .03)])
                    j['argv'] = ['/usr/bin/timeout', '-s', 'KILL', '%.4f' % n] + j['argv']
                    rk['blocked'] = rk['killed'] = True
                    what += ' after %.4f s' % n
                todo.append((w, j, what, suite, out, clean, rk))
            for (w, j, what, suite, out, clean, rk), r in zip(todo, ctx.run([t[1] for t in todo])):
                record(w, r, j, what, suite, out, clean=clean, **rk)
        for w in worlds:
            shutil.rmtree(w.root, True)
    records_at_calls(ctx, gen, cfgs, fresh, record, rng)
    # The default output directory.
    for clean in (False, True):
        w = World(gen, cfgs[0])
        w.hist = []
        w.put(w.cwd + ['out', 'stale'], 'x')
        w.owned()
        j = w.job('many', ['deep', 'a', 'b', 'out'], argv=(['-clean'] if clean else []) + [w.rel(w.cfgdir + ['gen.xml']), w.rel(['stm', 'suite.json'])])
        (r,) = ctx.run([j])
        record(w, r, j, 'default output', 'many', ['deep', 'a', 'b', 'out'], clean=clean)
        shutil.rmtree(w.root, True)
    ctx.log('ran %d steps' % len(recs))
    judge(ctx, recs, descr)
    ctx.cov.update(histories=H, runs=len(recs), stopped_part_way=sum(r['blocked'] and r['rc'] != 0 for r in recs), succeeded=sum(r['rc'] == 0 for r in recs), cleaned=sum(r['clean'] for r in recs))
    for d in rng.sample(descr, 4):
        ctx.sample(d['what'])
    ctx.assumptions.append('no symbolic links inside the output directory unless it is cleaned; contents compared without the time stamp of main.cpp')
