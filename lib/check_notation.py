"""C26: what a file means does not depend on how it is written."""
import copy, json, os, re
from core import CheckError, cps
from check_indep import canon_json, tree_files
from check_text import CHANS, INTS, NAMES, TEXTS as VALUES
from check_stm import Typed, rand_tree, spoil, written

BLANK = ['', '', '', ' ', '\n', '\t', '  \n ', '\r\n']


# --- JSON ------------------------------------------------------------------

# The members that may as well be left out, be null or be empty, by the part they belong to, and their kind.
MAYBE = {'node': {'tests': '[]', 'next': '[]', 'event': 'null'},
         'suite': {'types': '{}', 'tests': '{}'}, 'machine': {'states': '[]', 'types': '{}', 'tests': '[]'},
         'state': {'transitionSets': '[]', 'verdicts': '{}'}, 'set': {'transitions': '[]'}}
INSIDE = {('names', None): 'node', ('node', 'next'): 'node', ('suite', 'types'): 'types', ('suite', 'tests'): 'machines', ('machines', None): 'machine',
          ('machine', 'states'): 'state', ('machine', 'types'): 'types', ('state', 'transitionSets'): 'set', ('state', 'verdicts'): 'words',
          ('set', 'transitions'): 'step'}


class Writer:
    """Writes in a way of its own: how much of each liberty it takes varies."""
    def __init__(self, rng):
        self.rng = rng
        self.blanks = rng.choice([0, 0, .2, 1])
        self.escapes = rng.choice([0, .1, 1])
        self.shuffle = rng.random() < .6
        self.void = rng.choice([0, .3, .9])
        self.huge = .02 if rng.random() < .15 else 0
        self.around = rng.choice([0, 0, 0, 600, 4096, 5000])
        self.upper = rng.random() < .5

    def ws(self):
        r = self.rng
        if r.random() < self.huge:
            self.huge /= 3
            return r.choice([' ', '\n', '\r\n', '\t ']) * r.choice([600, 2048, 4096])
        return r.choice(BLANK) if r.random() < self.blanks else ''

    def string(self, s):
        r, out = self.rng, []
        for ch in s:
            n = ord(ch)
            short = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}.get(ch)
            if n == 0xfffd and r.random() < .5:
                out.append(r.choice(['\\ud800', '\\udfff', '\\uDBFF']) if not out or out[-1][:2] != '\\u' else ch)
            elif r.random() < self.escapes or (short is None and n < 32):
                us = [n] if n < 0x10000 else [0xd800 + ((n - 0x10000) >> 10), 0xdc00 + ((n - 0x10000) & 0x3ff)]
                out.append(short if short and r.random() < .3 else '\\/' if ch == '/' and r.random() < .5 else
                           ''.join('\\u' + ('%04X' if self.upper else '%04x') % u for u in us))
            else:
                out.append(short or ch)
        return '"' + ''.join(out) + '"'

    def value(self, v, part=None):
        r = self.rng
        if isinstance(v, str):
            return self.string(v)
        if isinstance(v, list):
            return '[' + ','.join(self.ws() + self.value(x, part) + self.ws() for x in v) + (self.ws() if not v else '') + ']'
        if isinstance(v, dict):
            maybe = MAYBE.get(part, {})
            ms = []
            for k, x in v.items():
                if k in maybe and x in (None, [], {}):
                    continue
                ms.append((k, self.value(x, INSIDE.get((part, k)) or INSIDE.get((part, None)))))
            for k, e in maybe.items():
                if k not in [m[0] for m in ms] and r.random() < self.void:
                    ms.append((k, r.choice(['null', e])))
            if self.shuffle:
                r.shuffle(ms)
            return '{' + ','.join(self.ws() + self.string(k) + self.ws() + ':' + self.ws() + t + self.ws() for k, t in ms) + (self.ws() if not ms else '') + '}'
        return json.dumps(v)

    def text(self, v, part):
        r = self.rng
        far = lambda: r.choice([' ', '\n']) * self.around if r.random() < .5 else self.ws()
        return far() + self.value(v, part) + far()


# --- Traces ----------------------------------------------------------------

class TWriter:
    def __init__(self, rng):
        self.rng = rng
        self.blanks = rng.choice([0, 0, .3, 1])
        self.quotes = rng.choice([0, .3, 1])
        self.notes = rng.choice([0, .4])
        self.case = rng.random() < .4
        self.ints = rng.random() < .4
        self.nl = rng.choice([['\n'], ['\r\n'], ['\n', '\r\n']])
        self.huge = .05 if rng.random() < .15 else 0

    def sp(self):
        r = self.rng
        if r.random() < self.huge:
            self.huge /= 3
            return ' ' * r.choice([600, 4096, 5000])
        return r.choice([' ', '\t', '  ', '\u00a0', ' \u3000']) if r.random() < self.blanks else ''

    def event(self, e):
        r = self.rng
        c, k, v = e
        if self.case:
            k = ''.join(r.choice([x, x.upper()]) for x in k)
        if self.ints and re.fullmatch('-?[0-9]+', v) and -2**63 <= int(v) < 2**63:
            v = ('-' if v[0] == '-' else r.choice(['', '+'])) + '0' * r.choice([0, 1, 3]) + v.lstrip('-')
        return self.sp() + c + self.sp() + '.' + self.sp() + k + self.sp() + '.' + self.sp() + v + self.sp()

    def line(self, name, es):
        r, cells = self.rng, []
        for n, e in enumerate(es):
            c = self.event(e)
            if n == 0 and (name or ':' in c or r.random() < .2):
                c = self.sp() + name + self.sp() + ':' + c
            if any(x in c for x in '",\n') or c.startswith('#') or r.random() < self.quotes:
                c = r.choice(['', ' ', '\t'] if self.blanks else ['']) + '"' + c.replace('"', '""') + '"'
            cells.append(c)
        return ','.join(cells)

    def text(self, traces):
        r, out = self.rng, []
        for t in traces:
            while r.random() < self.notes:
                out.append(r.choice(['# c', '#', '', '#"', '#a.in.1', '# %s' % ('x' * (4096 if r.random() < self.huge else 9))]))
            out.append(self.line(*t))
        while r.random() < self.notes:
            out.append(r.choice(['', '# end']))
        return ''.join(l + r.choice(self.nl) for l in out[:-1]) + ''.join(out[-1:]) + (r.choice(self.nl) if r.random() < .7 else '')


# --- XML -------------------------------------------------------------------

TEXTS = ['a', 'foo', 'x<y', 'a & b', "it's", '"q"', ']]>', 'é😀', 'two  blanks', ' pad ', '-->', '<!-- no -->', '&amp;', '&#65;', '<?no?>', '', '%', 'a>b', '<![CDATA[', '{{.}}', 'x/y.h', '\u00a0']


class XWriter:
    def __init__(self, rng):
        self.rng = rng
        self.refs = rng.choice([0, .2, 1])
        self.cdata = rng.choice([0, .5])
        self.notes = rng.choice([0, .3])
        self.blanks = rng.choice([0, .4, 1])
        self.shuffle = rng.random() < .6
        self.huge = .02 if rng.random() < .15 else 0

    def ws(self):
        r = self.rng
        if r.random() < self.huge:
            self.huge /= 3
            return r.choice([' ', '\n', '\t ']) * r.choice([600, 2048, 4096, 5000])
        return r.choice(BLANK) if r.random() < self.blanks else ''

    def sp(self):
        """White space that has to be there."""
        return self.rng.choice([' ', ' ', '\n', '\t', '  ', '\n    ']) if self.blanks else ' '

    def note(self):
        r = self.rng
        if r.random() >= self.notes:
            return ''
        return r.choice(['<!-- c -->', '<!---->', '<?note x="1"?>', '<!-- <cpp variant="ros"> & \' " -->', '<!--\n<directory>d</directory>\n-->', '<?n ?>', '<!-- > -->', '<!-- %s -->' % ('x' * r.choice([50, 4096]))])

    def ref(self, ch, always=False):
        r = self.rng
        named = {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}.get(ch)
        if not always and r.random() >= self.refs:
            return ch
        return named if named and r.random() < .5 else r.choice(['&#%d;' % ord(ch), '&#x%x;' % ord(ch), '&#x%X;' % ord(ch), '&#0%d;' % ord(ch)])

    def attr(self, s):
        q = self.rng.choice('"\'')
        return q + ''.join(self.ref(ch, ch in '<&\n\t\r' + q) for ch in s) + q

    def chars(self, s):
        r, out, i = self.rng, [], 0
        while i < len(s):
            if r.random() < self.cdata:
                n = r.randint(1, len(s) - i)
                t = s[i:i + n]
                if ']]>' not in t:
                    out.append('<![CDATA[' + t + ']]>')
                    i += n
                    continue
            out.append(self.ref(s[i], s[i] in '<&>\r'))
            i += 1
            out.append(self.note())
        return self.note() + ''.join(out)

    def element(self, e):
        name, attrs, content = e
        r = self.rng
        attrs = list(attrs.items())
        if self.shuffle:
            r.shuffle(attrs)
        a = ''.join(self.sp() + k + self.ws() + '=' + self.ws() + self.attr(v) for k, v in attrs)
        if not content and r.random() < .5:
            return '<' + name + a + self.ws() + '/>'
        if isinstance(content, str):
            body = self.chars(content)
        else:
            kids = list(content)
            if self.shuffle and kids:
                # Any order that keeps that of elements of the same name.
                names = [k[0] for k in kids]
                r.shuffle(names)
                queues = {n: [k for k in kids if k[0] == n] for n in names}
                kids = [queues[n].pop(0) for n in names]
            body = ''.join(self.ws() + self.note() + self.ws() + self.element(k) for k in kids) + (self.ws() if kids else '') + self.note()
        return '<' + name + a + self.ws() + '>' + body + '</' + name + self.ws() + '>'

    def text(self, e):
        r = self.rng
        head = r.choice(['', '<?xml version="1.0" encoding="UTF-8" ?>', "<?xml version='1.0'?>", '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n'])
        return head + self.ws() + self.note() + self.ws() + self.element(e) + self.ws() + self.note() + self.ws()


def rand_config(rng, chans):
    """A configuration, as a tree: (name, attributes, children or text)."""
    t = lambda: rng.choice(TEXTS) if rng.random() < .5 else 'w%d' % rng.randrange(100)
    cpps = []
    for v in rng.choice([['ros'], ['animate'], ['ros', 'animate'], ['animate', 'ros'], ['animate', 'ros', 'animate']]):
        kids = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            kids.append(('include', {'src': t(), 'system': rng.choice(['true', 'false'])} if rng.random() < .6 else {'src': t()}, []))
        for _ in range(rng.choice([0, 1, 2, 3])):
            kids.append(('channel', {'name': rng.choice(chans) if chans and rng.random() < .8 else t(), 'type': t()}, []))
        if rng.random() < .4:
            kids.append(('makefile', {}, []))
        if rng.random() < .6:
            p = []
            if rng.random() < .7:
                ps = [(n, {}, t()) for n in ('name', 'version', 'description', 'license') if rng.random() < .7]
                ps += [(rng.choice(['depend', 'buildtool_depend']), {}, t()) for _ in range(rng.choice([0, 1, 2, 5]))]
                if rng.random() < .6:
                    ps.append(('maintainer', {'email': t()}, t()))
                p = [('package', {'format': '2'} if rng.random() < .5 else {}, ps)]
            kids.append(('catkin', {}, p))
        attrs = {'variant': v} if v == 'ros' or rng.random() < .6 else {}
        if rng.random() < .05:
            attrs['variant'] = rng.choice(['', 'Ros', 'nonesuch'])
        cpps.append(('cpp', attrs, kids))
    if rng.random() < .5:
        cpps.insert(rng.randint(0, len(cpps)), ('directory', {}, rng.choice(['d', 'a/b', '.', 'x y', 'd&e', '<d>'])))
    return ('rtcg-gen', {}, cpps)


# --- The check -------------------------------------------------------------

ODD = ['é', '😀', '"', '\\', '/', '\n', '\t', '<', '&', '\u2028', '\ufffd', ' ', '\x7f', '\u00e9', 'e\u0301', "'"]


def odd(rng, tree):
    """Texts that need care when written, in some places."""
    st = [tree]
    while st:
        x = st.pop()
        st += x['n']
        if x['e']['k'] != 'none' and x['e']['v'].startswith('e:') and rng.random() < .4:
            x['e'] = dict(x['e'], v=x['e']['v'] + ''.join(rng.choice(ODD) for _ in range(rng.randint(1, 3))))
        if rng.random() < .2:
            x['t'] = [t + 'é' for t in x['t']]


def suites(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        ty, s = Typed(rng), {}
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            t = rand_tree(rng, ty, rng.choice([2, 4, 8, 16]))
            if rng.random() < .15:
                spoil(rng, t, ty)
            if rng.random() < .5:
                odd(rng, t)
            s[rng.choice(['t', 'foo', 'a b', 'é', '"', '', 'tests', 'next', '\\n', '😀']) + str(k)] = written(t) if rng.random() < .97 else None
        out.append(s)
    return out


def stripped(rng, stm):
    """A suite of machines with some parts missing; it may be refused."""
    stm = copy.deepcopy(stm)
    if rng.random() < .6:
        stm['types'] = {}
    for m in stm['tests'].values():
        for k in ('types', 'tests'):
            if rng.random() < .3:
                m[k] = type(m[k])()
        for s in m['states']:
            if rng.random() < .2:
                s['verdicts'] = {}
            if rng.random() < .03:
                s['transitionSets'] = []
    return stm


def hash_stms(r):
    if r['rc']:
        return 'refused' if r['stderr'].strip() else 'silent'
    try:
        return canon_json(json.loads(r['stdout']))
    except ValueError:
        return 'nothing'


def check_c26(ctx):
    ctx.build()
    rng = ctx.rng
    ctx.model('MCNotation', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Undone\nCONSTANTS JsonDepth = 1 JsonChars = {%s} XmlChars = {%s}\n'
              % (ctx.pick('97, 34, 10, 128512', '97, 34, 92, 10, 47, 128512'), ctx.pick('97, 60, 38, 34', '97, 60, 62, 38, 34, 39, 93')), timeout=800)
    recs, descr = [], []

    def add(kind, texts, results):
        recs.append({'id': len(recs) + 1, 'kind': kind, 'texts': [cps(t) for t in texts], 'results': results})
        descr.append({'kind': kind, 'texts': texts, 'results': results})

    # Files of traces.
    ways = ctx.pick(2, 3)
    files = []
    for _ in range(ctx.pick(300, 1500)):
        vals = [v for v in rng.choice([INTS, VALUES]) if v]
        ts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
            es = [(rng.choice(CHANS), rng.choice(['in', 'out', 'call']), rng.choice(vals)) for _ in range(rng.choice([1, 2, 3, 6]))]
            ts.append((rng.choice(NAMES + ['', '', 't']), es))
        files.append([TWriter(rng).text(ts) for _ in range(ways + 1)])
    rs = iter(ctx.run([{'argv': [ctx.read_traces], 'stdin': t.encode()} for ts in files for t in ts]))
    read = 0
    for ts in files:
        hs = []
        for t in ts:
            r = next(rs)
            try:
                hs.append(('' if r['stderr'].strip() else 'silent') if r['rc'] else json.dumps(json.loads(r['stdout']), sort_keys=True))
            except ValueError:
                hs.append('nothing')
        read += hs[0] not in ('', 'silent', 'nothing')
        add('traces', ts, hs)
    ctx.cov['trace_files'] = {'files': len(files), 'accepted': read}

    # Suites of tests.
    texts = []
    for s in suites(ctx, ctx.pick(300, 1000)):
        plain = json.dumps(s, ensure_ascii=rng.random() < .5)
        texts.append([plain] + [Writer(rng).text(s, 'names') for _ in range(ways)])
    rs = iter(ctx.run([{'argv': [ctx.make_stms], 'stdin': t.encode()} for ts in texts for t in ts]))
    accepted, stms = 0, []
    for ts in texts:
        hs = []
        for t in ts:
            r = next(rs)
            hs.append(hash_stms(r))
            if not r['rc'] and len(hs) == 1:
                accepted += 1
                stms.append(json.loads(r['stdout'] or b'null'))
        add('suite', ts, hs)
    ctx.cov['suites'] = {'suites': len(texts), 'accepted': accepted}

    # Suites of machines, and configurations.
    stms = [s for s in stms if s and s.get('tests') and all(n.isidentifier() and n.isascii() or rng.random() < .3 for n in s['tests'])]
    if not stms:
        raise CheckError('no machines to generate from')
    jobs, plan = [], []
    base = ctx.workdir('c26')

    def run(stm, cfg, many):
        d = os.path.join(base, 'r%d' % len(jobs))
        os.makedirs(d)
        for v in ('ros', 'animate'):
            os.makedirs(os.path.join(d, v, 'src', 'convert'))
            with open(os.path.join(d, v, 'src', 'convert', 'convert.cpp'), 'w') as f:
                f.write('// user\n')
        for n, t in (('gen.xml', cfg), ('stms.json', stm)):
            with open(os.path.join(d, n), 'wb') as f:
                f.write(t.encode())
        jobs.append({'argv': [ctx.gen, '-output', 'out', 'gen.xml', 'stms.json'], 'cwd': d, 'many': many})
        for p, ds, fs in os.walk(d):
            ctx.give(p, *[os.path.join(p, f) for f in fs])

    for k in range(ctx.pick(170, 600)):
        stm = stripped(rng, rng.choice(stms)) if rng.random() < .4 else rng.choice(stms)
        cfg = rand_config(rng, list((stm.get('types') or {}).keys()))
        first = (json.dumps(stm), XWriter(rng).text(cfg))
        many = [n for n, m in stm['tests'].items() if len(m.get('tests') or []) > 1]
        run(*first, many)
        ws = []
        for j in range(ways):
            w = (Writer(rng).text(stm, 'suite'), first[1]) if k % 2 else (first[0], XWriter(rng).text(cfg))
            run(*w, many)
            ws.append(w)
        plan.append((first, ws))
    rs = ctx.run([{k: v for k, v in j.items() if k != 'many'} for j in jobs])
    hs = []
    for j, r in zip(jobs, rs):
        out = os.path.join(j['cwd'], 'out')
        # The order of the names that a program reports may vary.
        many = lambda rel, ns=j['many']: any('/src/%s/' % n in rel for n in ns)
        # A run that is refused says so, and leaves what it leaves.
        hs.append(json.dumps([r['rc'], r['stderr'].strip() != b'', tree_files(out, many) if os.path.isdir(out) and not r['rc'] else []]))
    k, made = 0, 0
    for first, ws in plan:
        made += hs[k].startswith('[0')
        one = k // (1 + len(ws)) % 2 == 1
        add('machines' if one else 'config', [w[1 - one] for w in [first] + ws], hs[k:k + 1 + len(ws)])
        k += 1 + len(ws)
    ctx.cov['generations'] = {'runs': len(jobs), 'made': made, 'of': len(plan)}
    if read < len(files) // 3 or accepted < len(texts) // 3 or made < len(plan) // 3:
        ctx.violation('hardly anything written is accepted: %d of %d trace files, %d of %d suites, %d of %d configurations' % (read, len(files), accepted, len(texts), made, len(plan)), {})
    rej, _ = ctx.judge('TraceNotation', recs, expect=32 + len(recs))
    for i, d in rej:
        if 'not the same' in d:
            raise CheckError('the texts of record %d do not say the same: %r' % (i, descr[i - 1]))
        x = descr[i - 1]
        k = next((k for k, h in enumerate(x['results']) if h != x['results'][0]), 0)
        x = {'kind': x['kind'], 'one': x['texts'][0], 'other': x['texts'][k], 'results': [x['results'][0], x['results'][k]]}
        ctx.violation('two ways of writing the same %s: %s\n%s\n%s' % (x['kind'], d[:200], x['one'][:1500], x['other'][:1500]), x)
    ctx.traces += len(recs)
    ctx.sample(descr[3]['texts'][1][:500])
    ctx.sample(descr[-1]['texts'][1][:800])
