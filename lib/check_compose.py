"""C24: variants generated together, and stages run as a pipeline."""
import json, os, shutil
from check_catkin import xml_package
from check_driver import ODD
from check_indep import NAMES, tree_files
from check_stm import Typed, cell
from core import Broken, CheckError, REPO

CODE = '#include <string>\n// of the user, for %s: %s\n'
FILES = ['in.csv', 'my traces.csv', '$HOME.csv', '*', 'x;y', "it's", 'q"q', 'dir/in.csv', '../in.csv', './in.csv', 'é.csv', 'a b  c', '\\n', '&', '(', 'in', '-t', '--', '-clean', '-in.csv', '--help']


def rand_traces(rng, n):
    out = []
    for k in range(n):
        t = Typed(rng) if k == 0 else t
        body = ','.join(cell(t.event()) for _ in range(rng.choice([1, 1, 2, 3, 5])))
        out.append('"%s:%s' % (NAMES[k], body[1:]) if k < len(NAMES) and rng.random() < .7 else body)
        if rng.random() < .1:
            out.append(rng.choice(['', '# comment', '#']))
    return '\n'.join(out) + rng.choice(['\n', ''])


def rand_variant(rng, v, chans):
    """The element of a variant, with everything that can be configured."""
    over = rng.sample(chans, rng.randint(0, len(chans))) if rng.random() < .7 else []
    inc = rng.sample(['a/b.h', 'vector', 'std_msgs/Float32.h', 'x.h', v + '.h'], rng.randint(0, 3))
    o = ['<cpp variant="%s">' % v]
    o += ['<include src="%s"%s/>' % (i, rng.choice(['', ' system="true"', ' system="false"'])) for i in inc]
    o += ['<channel name="%s" type="%s"/>' % (c, rng.choice(['T', 'float', 'pkg::Msg', v + '::X'])) for c in over]
    if rng.random() < .5:
        o.append('<makefile/>')
    if rng.random() < .6:
        text = lambda: rng.choice(['', '', 'of_${NAME}', v, '${NAME}'])
        o.append('<catkin>%s</catkin>' % xml_package({'name': text(), 'version': rng.choice(['', '1.0.0']), 'description': text(), 'license': text(), 'maintainer': text(), 'email': '',
                                                      'buildtool': rng.choice([[], ['catkin'], [v]]), 'depends': rng.sample(['roscpp', 'std_msgs', v, 'tf'], rng.randint(0, 3))}, rng))
    o.append('</cpp>')
    return '\n'.join(o), bool(over)


def user(d, code):
    for v, c in code.items():
        p = os.path.join(d, v, 'src', 'convert')
        os.makedirs(p)
        with open(os.path.join(p, 'convert.cpp'), 'w') as f:
            f.write(c)


def split(files):
    """Files by the variant's directory they are in."""
    out = []
    for p, h in files:
        v, _, rest = p.partition('/')
        out.append({'v': v if rest else '', 'p': rest or v, 'h': h})
    return out


def check_c24(ctx):
    ctx.build()
    rng = ctx.rng
    ctx.model('MCCompose', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Each\nPROPERTIES Ends\nCONSTANTS Variants = {"ros", "animate"} Chans = {%s} Own = TRUE\n'
              % ctx.pick('"a"', '"a", "b"'))
    ctx.model('MCPipe', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS ByHand SoFar\nPROPERTIES Ends\nCONSTANTS Room = %d MaxIn = %d\n' % ctx.pick((2, 2), (3, 3)))
    if ctx.thorough and ctx.tlc('MCCompose', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Each\nCONSTANTS Variants = {"ros", "animate"} Chans = {"a"} Own = FALSE\n',
                                check=False, count=False)['ok']:
        raise CheckError('the model of the generator does not notice that variants share a configuration')
    recs, descr = [], []

    def add(data, **rec):
        recs.append(dict(rec, id=len(recs)))
        descr.append(data)

    def stages(text):
        a = ctx.run1([ctx.read_traces], stdin=text.encode())
        b = ctx.run1([ctx.make_stms], stdin=a['stdout'])
        return b['stdout'] if a['rc'] == 0 and b['rc'] == 0 else None

    # -- variants
    jobs, what = [], []
    for k in range(ctx.pick(150, 1500)):
        text = rand_traces(rng, rng.choice([0, 1, 2, 3, 5]))
        stm = stages(text)
        if stm is None:
            raise Broken('cannot make machines of %r' % text)
        chans = sorted((json.loads(stm).get('types') or {}))
        vs = {v: rand_variant(rng, v, chans + ['unused']) for v in ('ros', 'animate')}
        d = ctx.workdir('v')
        user(d, {v: CODE % (v, k) for v in vs})
        cfgs = {'ros': ['ros'], 'animate': ['animate'], 'both': ['ros', 'animate'], 'turned': ['animate', 'ros']}
        extra = rng.choice(['', '<directory>.</directory>']) if rng.random() < .3 else ''
        for c, l in cfgs.items():
            with open(os.path.join(d, c + '.xml'), 'w') as f:
                f.write('<?xml version="1.0"?>\n<rtcg-gen>' + '\n'.join(vs[v][0] for v in l) + '</rtcg-gen>')
            jobs.append({'argv': [ctx.gen, '-output', os.path.join(d, 'out', c), os.path.join(d, c + '.xml')], 'stdin': stm, 'cwd': d})
        what.append((d, text, vs))
    it = iter(ctx.run(jobs))
    for d, text, vs in what:
        rs = {c: next(it) for c in ('ros', 'animate', 'both', 'turned')}
        out = {c: split(tree_files(os.path.join(d, 'out', c))) for c in rs}
        for c in ('both', 'turned'):
            add({'what': 'variants %s of %r' % (c, text), 'config': [vs[v][0] for v in vs], 'stderr': [r['stderr'].decode(errors='replace')[:200] for r in rs.values()]},
                kind='variants', ok=all(r['rc'] == 0 for r in rs.values()), alone=[{'v': v, 'files': out[v]} for v in vs], got=out[c])
        shutil.rmtree(d, True)
    ctx.log('generated %d configurations' % len(what))

    # -- the pipeline
    jobs, what = [], []

    def below(d):
        return {os.path.relpath(os.path.join(p, x), d) for p, ds, fs in os.walk(d) for x in ds + fs if 'here/out' not in os.path.relpath(p, d)}

    def place(kind):
        d = ctx.workdir(kind)
        w = os.path.join(d, 'here')
        os.makedirs(os.path.join(w, 'bin'))
        os.mkdir(os.path.join(w, 'dir'))
        for p in (ctx.read_traces, ctx.make_stms, ctx.gen):
            os.symlink(p, os.path.join(w, 'bin', os.path.basename(p)))
        shutil.copy(os.path.join(REPO, 'rtcg.sh'), w)
        return d, w

    texts = [rand_traces(rng, rng.choice([0, 1, 2, 4, 8])) for _ in range(ctx.pick(40, 400))]
    # More than fits in a pipe.
    texts += [rand_traces(rng, n) for n in ctx.pick((700,), (300, 700, 1500, 2500))]
    # More than a few megabytes, in few files.
    texts += ['t: a.in.%s, b.out.%s\nu: b.out.%s\n' % ('x' * n, 'y' * n, 'z') for n in ctx.pick((3 << 20,), (1 << 20, 5 << 20, 17 << 20))]
    texts += ['t: a.in.%s, b.out.%s\n' % ('x' * 70000, 'y' * 70000), '"a.in.', 'a.in.1\nfoo\n', 'x/y: a.in.1\n', '\ufeffa.in.1\n', 't: a.in.1\r\nu: a.in.2\r\n']
    for v in ODD:
        if v not in ('..', '.'):
            texts.append('"t: say.out.%s","tell.in.%s"\n' % ((v.replace('"', '""'),) * 2) if rng.random() < .5 or ctx.thorough else 't: b.out.1\n')
    for k, text in enumerate(texts):
        chans = ['a', 'b', 'foo']
        vs = [rand_variant(rng, v, chans)[0] for v in rng.choice([['ros'], ['animate'], ['ros', 'animate']])]
        config = '<rtcg-gen>' + '\n'.join(vs) + '</rtcg-gen>'
        name = FILES[k % len(FILES)]
        cname = rng.choice(['c.xml', 'my config.xml', 'dir/$c.xml', 'c*'])
        if k % 17 == 5:
            name = ''
        ways = []
        for way in ('hand', 'file', 'input', 'dash', 'path'):
            if way != 'hand' and way != 'file' and not name:
                continue
            d, w = place(way)
            user(os.path.dirname(os.path.join(w, cname)), {v: CODE % (v, k) for v in ('ros', 'animate')})
            with open(os.path.join(w, cname), 'w') as f:
                f.write(config)
            if name:
                with open(os.path.join(w, name), 'w', newline='') as f:
                    f.write(text)
            for x in (d, w, os.path.join(w, 'dir')):
                ctx.give(x)
            argv = {'file': [cname, name], 'path': [cname, name], 'input': [cname], 'dash': [cname, '-'], 'hand': None}[way]
            if way == 'path':
                # Where the script is does not matter, but where it is run.
                os.mkdir(os.path.join(d, 'the script'))
                os.rename(os.path.join(w, 'rtcg.sh'), os.path.join(d, 'the script', 'rtcg.sh'))
            ways.append((way, d, w, argv, below(d) | {'here/' + x for x in ('out', 'tests.json', 'stms.json')}))
        what.append((text, config, name, ways))
    for stage in range(4):
        jobs = []
        for text, config, name, ways in what:
            d, w = ways[0][1:3]
            tool = os.path.join(w, 'bin', 'rtcg-')
            if stage == 0:
                for way, wd, ww, argv, _ in ways[1:]:
                    script = {'path': rng.choice(['../the script/rtcg.sh', os.path.join(wd, 'the script', 'rtcg.sh')])}.get(way, 'rtcg.sh')
                    jobs.append({'argv': ['/bin/sh', script] + argv, 'stdin': text if way not in ('file', 'path') or not name else '', 'cwd': ww, 'timeout': 60})
            elif stage == 1:
                jobs.append({'argv': [tool + 'read-traces', './' + name if name else ''], 'cwd': w, 'stdin': text if not name else ''})
            elif stage == 2:
                jobs.append({'argv': [tool + 'make-stms', 'tests.json'], 'cwd': w})
            else:
                jobs.append({'argv': [tool + 'gen', './' + ways[1][3][0], 'stms.json'], 'cwd': w})
        it = iter(ctx.run(jobs))
        for x in what:
            d, w = x[3][0][1:3]
            if stage == 0:
                x[3][:] = [x[3][0]] + [y + (next(it),) for y in x[3][1:]]
            else:
                r = next(it)
                if stage < 3:
                    # A stage that fails hands nothing on.
                    with open(os.path.join(w, ('', 'tests.json', 'stms.json')[stage]), 'wb') as f:
                        f.write(r['stdout'])
                else:
                    x[3][0] += (r,)
    for text, config, name, ways in what:
        run = lambda y: {'rc': y[5]['rc'], 'beside': sorted((below(y[1]) - y[4]) | (set() if y[0] == 'hand' else below(y[1]) & {'here/tests.json', 'here/stms.json'})), 'files': split(tree_files(os.path.join(y[2], 'out')) if os.path.isdir(os.path.join(y[2], 'out')) else [])}
        add({'what': 'pipeline on %r called %r' % (text[:300], name), 'argv': [y[3] for y in ways], 'config': config, 'stderr': [y[5]['stderr'].decode(errors='replace')[:200] for y in ways]},
            kind='pipeline', hand=run(ways[0]), ways=[run(y) for y in ways[1:]])
        for y in ways:
            shutil.rmtree(y[1], True)
    ctx.log('ran %d pipelines' % len(what))
    if not any(r['kind'] == 'pipeline' and r['hand']['rc'] == 0 and r['hand']['files'] for r in recs) or all(r['hand']['rc'] == 0 for r in recs if r['kind'] == 'pipeline'):
        ctx.notes.append('pipelines all end the same way')
    rej, _ = ctx.judge('TraceCompose', recs, expect=32 + len(recs))
    for n, why in rej:
        ctx.violation('%s: %s' % (descr[n]['what'], why.strip('" ')), dict(descr[n], record=recs[n]))
    ctx.traces += len(recs)
    ctx.cov['variants'] = sum(r['kind'] == 'variants' for r in recs)
    ctx.cov['pipelines'] = {'worked': sum(r['kind'] == 'pipeline' and r['hand']['rc'] == 0 for r in recs), 'failed': sum(r['kind'] == 'pipeline' and r['hand']['rc'] != 0 for r in recs)}
    for x in rng.sample(descr, 4):
        ctx.sample(x)
