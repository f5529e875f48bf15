"""C17: the metadata of Catkin packages."""
import json, os, shutil, xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from core import VERIF

FIELDS = ['name', 'version', 'description', 'license']
TEXTS = ['', '${NAME}', 'plain', 'pkg_${NAME}', '${NAME}_pkg', '${NAME}${NAME}', 'a${NAME}b${NAME}c', '$NAME', '${NAME', '$${NAME}', '${name}', '${NAME}}', '${${NAME}}', '{NAME}', '${NAM${NAME}E}',
         '%s', '{{.Name}}']
ODD = ['a & b', '<b>bold</b> ${NAME}', ' spaced ${NAME} ', 'two\nlines ${NAME}', 'tab\t${NAME}', 'é${NAME}ü', '"quoted"', "it's ${NAME}", ']]>', '日本語${NAME}', '&amp;', 'a\u00a0b', '\n  wrapped\n  text of ${NAME}\n']
BLANKS = [' ', '   ', '\n', '\t', ' \n  ', '\u00a0', '\u200b', ' ${NAME}', '${NAME} ', '\ufeff', '0', '-', 'false', 'nil']
NAMES = ['t', 'u', 'test_one', 'NAME', 'name', 'T2', 'tt', 'package', 'x', 'long_test_name_with_many_parts']
ODDNAMES = ['a&b', '<x>', '${NAME}', 'sp ace', 'ü', '$', '{NAME}', '"q"', 'NAME}', "o'c", ']]>']
ODDDEPS = ['${NAME}', '${NAME}_msgs', 'x${NAME}', 'a&b', '<d>', 'ü', ' spaced ', 'A-b.c']
DEPS = ['std_msgs', 'roscpp', 'sensor_msgs', 'geometry_msgs', 'verif_msgs', 'tf2']
STRING = '{"states":[{"id":"initial","verdicts":{"%s":"inc"}}],"tests":["%s"]}'


def xml_package(p, rng):
    """A package as XML, fields in any order, absent ones left out or empty."""
    parts = []
    for f in FIELDS:
        if p[f] != '':
            t = escape(p[f])
            parts.append('<%s>%s</%s>' % (f, '<![CDATA[' + p[f] + ']]>' if rng.random() < .1 and ']]>' not in p[f] else t, f))
        elif rng.random() < .2:
            parts.append(rng.choice(['<%s/>', '<%s></%s>' % (f, '%s')]) % f)
    if p['maintainer'] or p['email'] or rng.random() < .2:
        parts.append('<maintainer%s>%s</maintainer>' % (' email=' + quoteattr(p['email'], {'\n': '&#10;', '\t': '&#9;'}) if p['email'] or rng.random() < .2 else '', escape(p['maintainer'])))
    parts += [None] * (len(p['buildtool']) + len(p['depends']))
    rng.shuffle(parts)
    # The dependencies keep their order.
    deps = [('buildtool_depend', d) for d in p['buildtool']] + [('depend', d) for d in p['depends']]
    if rng.random() < .5:
        b, d = list(p['buildtool']), list(p['depends'])
        deps = []
        while b or d:
            x = rng.choice([y for y in ((b, 'buildtool_depend'), (d, 'depend')) if y[0]])
            deps.append((x[1], x[0].pop(0)))
    out = []
    for x in parts:
        if x is None:
            k, d = deps.pop(0)
            x = '<%s>%s</%s>' % (k, escape(d), k)
        out.append(x)
    fmt = rng.choice(['', '', ' format="2"', ' format="3"', ' format="1"'])
    return '<package%s>%s</package>' % (fmt, rng.choice(['', '\n  ']).join(out))


def read_manifest(path):
    r = ET.parse(path).getroot()
    if r.tag != 'package':
        raise ValueError('root is ' + r.tag)
    m = r.findall('maintainer')
    for f in FIELDS + ['maintainer']:
        if len(r.findall(f)) != 1:
            raise ValueError('%d elements called %s' % (len(r.findall(f)), f))
    got = {f: r.find(f).text or '' for f in FIELDS}
    got.update(maintainer=m[0].text or '', email=m[0].get('email', ''), buildtool=[e.text or '' for e in r.findall('buildtool_depend')],
               depends=[e.text or '' for e in r.findall('depend')])
    return got, r.get('format', '')


def check_c17(ctx):
    ctx.build()
    rng = ctx.rng
    ctx.model('MCCatkin', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Tests = {%s} MaxPieces = %d\nINVARIANTS Right Kept Own Lists\n'
              % ctx.pick(('"t1", "u2", "v3"', 2), ('"t1", "u2", "v3"', 3)))
    rec_cmake = ctx.path('record.cmake')
    shutil.copy(os.path.join(VERIF, 'mock', 'cmake_record.cmake'), rec_cmake)
    cases, jobs = [], []

    def package(plain):
        pick = lambda: rng.choice(TEXTS) if plain or rng.random() < .6 else rng.choice(ODD + BLANKS)
        some = lambda: pick() if rng.random() < .6 else ''
        p = {'name': some(), 'version': rng.choice(['', '', '1.2.3', '0.0.1', '${NAME}']), 'description': some(), 'license': some(), 'maintainer': some(), 'email': some(),
             'buildtool': rng.choice([[], ['catkin'], ['catkin', 'cmake'], ['b', 'a', 'c']]), 'depends': [rng.choice(DEPS) for _ in range(rng.randint(0, 5))]}
        if not plain and rng.random() < .4:
            for k in ('buildtool', 'depends'):
                p[k] = [rng.choice(ODDDEPS) if rng.random() < .5 else x for x in p[k]]
        if plain:
            p['name'] = rng.choice(['', '${NAME}', 'pkg', 'pkg_${NAME}', '${NAME}_${NAME}', '${NAME}_pkg'])
        return p

    blank = {'name': '', 'version': '', 'description': '', 'license': '', 'maintainer': '', 'email': '', 'buildtool': [], 'depends': []}
    todo = [(blank, False, None), (blank, True, None)]
    # Every field alone, with every text.
    for f in FIELDS + ['maintainer', 'email']:
        for t in TEXTS + ODD:
            if ctx.thorough or rng.random() < .5:
                todo.append((dict(blank, **{f: t}), f != 'name', None))
        todo += [(dict(blank, **{f: t}), False, None) for t in BLANKS]
    # Dependencies are names of packages: nothing in them is replaced.
    for x in ODDDEPS:
        todo += [(dict(blank, depends=['roscpp', x, x, 'tf2'], buildtool=['catkin', x]), False, None)]
    # A lot of everything.
    for _ in range(6):
        some = lambda: ''.join(rng.choice(['${NAME}', ' text ', 'x', '$', '{}']) for _ in range(rng.choice([20, 60]))) + '${NAME}'
        todo.append((dict(blank, name='pkg_' + '${NAME}_' * 12, description=some(), maintainer=some(), license=some(), buildtool=['b%d' % i for i in range(12)],
                          depends=['d%d' % (i % 17) for i in range(rng.choice([9, 12, 30]))]), False, None))
    # Every set of absent fields.
    for m in range(64):
        todo.append(({f: ('' if m >> k & 1 else 'f%d ${NAME} g' % k) for k, f in enumerate(['name', 'version', 'description', 'license', 'maintainer', 'email'])} | {'buildtool': [], 'depends': []}, False, None))
    for _ in range(ctx.pick(150, 2500)):
        plain = rng.random() < .6
        todo.append((package(plain), plain, rng.choice([None, package(plain)])))
    for p, plain, q in todo:
        names = rng.sample(NAMES, rng.randint(1, 4))
        if not plain and rng.random() < .5:
            names = rng.sample(ODDNAMES, rng.randint(1, 2)) + names[:2]
        d = ctx.workdir('k')
        vs = [(rng.choice(['ros', 'ros', 'animate']), p)]
        if q is not None:
            vs.append(({'ros': 'animate', 'animate': 'ros'}[vs[0][0]], q))
        text = '<rtcg-gen>'
        for v, x in vs:
            body = '' if x is blank and rng.random() < .5 else xml_package(x, rng)
            text += '<cpp variant="%s"><catkin>%s</catkin></cpp>' % (v, body)
        text += '</rtcg-gen>'
        with open(os.path.join(d, 'gen.xml'), 'w') as f:
            f.write(text)
        stm = '{"types":{},"tests":{%s}}' % ','.join('%s:%s' % (json.dumps(n), STRING.replace('"%s"', json.dumps(n))) for n in names)
        jobs.append({'argv': [ctx.gen, '-output', 'out', 'gen.xml'], 'cwd': d, 'stdin': stm.encode()})
        cases.append((d, vs, names, plain, text))
    recs, descr, cm = [], [], []
    for (d, vs, names, plain, text), r in zip(cases, ctx.run(jobs)):
        for v, p in vs:
            for n in names:
                rec = {'id': len(recs), 'pkg': p, 'test': n, 'got': {}, 'format': '', 'cmake': False, 'project': '', 'components': [], 'exports': [], 'fail': ''}
                base = os.path.join(d, 'out', v, 'src', n)
                if r['rc']:
                    rec['fail'] = 'generation failed'
                else:
                    try:
                        rec['got'], rec['format'] = read_manifest(os.path.join(base, 'package.xml'))
                    except Exception as e:
                        rec['fail'] = 'unreadable manifest: %s' % e
                    if plain and all(c.isalnum() or c == '_' for c in n):
                        rec['cmake'] = True
                        cm.append((len(recs), {'argv': ['cmake', '-DVERIF_OUT=cm.%d' % len(recs), '-DVERIF_FILE=' + os.path.join(base, 'CMakeLists.txt'), '-P', rec_cmake], 'cwd': d}))
                recs.append(rec)
                descr.append({'what': 'package of test %r among %d, configured as %s' % (n, len(names), {k: x for k, x in p.items() if x}), 'config': text, 'dir': d,
                              'stderr': r['stderr'].decode(errors='replace')[:500]})
    for (k, j), r in zip(cm, ctx.run([j for _, j in cm])):
        if r['rc']:
            recs[k]['fail'] = 'the build file does not run'
            descr[k]['stderr'] = r['stderr'].decode(errors='replace')[:1500]
            continue
        for l in open(os.path.join(j['cwd'], 'cm.%d' % k)).read().splitlines():
            a, b = l.split('\t', 1)
            if a == 'project':
                recs[k]['project'] = b
            else:
                recs[k][a + 's'].append(b)
    ctx.log('generated %d packages' % len(recs))
    rej, _ = ctx.judge('TraceCatkin', recs, expect=32 + len(recs))
    for n, why in rej:
        ctx.violation('%s (%s)' % (why.strip('"'), descr[n]['what']), dict(descr[n], record=recs[n]))
    ctx.traces += len(recs)
    ctx.cov.update(configurations=len(cases), packages=len(recs), build_files=len(cm))
    for x in rng.sample(descr, 4):
        ctx.sample(x['what'])
    for d, *_ in cases:
        shutil.rmtree(d, True)
    ctx.assumptions.append('build files are judged for packages and tests whose names are identifiers')
