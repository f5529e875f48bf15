"""Compiles generated tests against the stand-in ROS and runs them under trees of schedules."""
import collections, json, os, re, subprocess
from core import Broken, CheckError, VERIF, NPROC

MOCK = os.path.join(VERIF, 'mock')
STATUS = {
    'waiting to start': 'WAIT_START', 'waiting for input acknowledgement': 'WAIT_IN', 'waiting for output': 'WAIT_OUT',
    'an event happened that took the test off-script': 'OFF_SCRIPT', 'the test ran out of time': 'TIMEOUT',
    'an unwanted behaviour occurred': 'FAIL', 'an internal error occurred': 'BUG',
}


def is_int(v):
    """Whether v is an integer as trace files have them (beyond 64 bits, a number is just text)."""
    return re.fullmatch(r'0|-?[1-9][0-9]*', v) is not None and -2**63 <= int(v) < 2**63


def topic(ch):
    out, low = '', False
    for c in ch:
        if c.isupper() and low:
            out += '_'
        out += c.lower()
        low = c.islower()
    return out


def up(s):
    return s[:1].upper() + s[1:]


def csv_cell(s):
    return '"' + s.replace('"', '""') + '"'


def script_line(name, script):
    """A line of a trace file.  Everything is quoted, so that values can have any characters."""
    cells = ['%s.%s.%s' % e for e in script]
    cells[0] = name + ': ' + cells[0]
    return ', '.join(csv_cell(c) for c in cells)


class Program:
    """One generated test, with the tree it was generated from."""

    def __init__(self, name, tests, nodes, script=None):
        self.name, self.tests, self.nodes, self.script = name, tests, nodes, script
        self.trie = None
        self.obs = None
        self.compiled = False
        self.subs = []

    @staticmethod
    def of_script(name, script):
        n = len(script)
        nodes = [{'ev': None, 'out': 'unset', 'tests': [name], 'next': [1]}]
        for i, e in enumerate(script):
            nodes.append({'ev': e, 'out': 'pass' if i == n - 1 else 'inc', 'tests': [name], 'next': [i + 2]})
        nodes.append({'ev': None, 'out': 'fail', 'tests': [name], 'next': []})
        return Program(name, [name], nodes, script)

    def events(self):
        return [n['ev'] for n in self.nodes if n['ev']]

    def has_in(self):
        return any(e[1] == 'in' for e in self.events())

    def root_in(self):
        return any(self.nodes[k]['ev'] and self.nodes[k]['ev'][1] == 'in' for k in self.nodes[0]['next'])

    def out_values(self):
        d = collections.OrderedDict()
        for c, k, v in self.events():
            if k != 'in':
                d.setdefault(c, [])
                if v not in d[c]:
                    d[c].append(v)
        return d

    def json_tree(self):
        """This tree in the format of test suites."""
        def conv(i):
            n = self.nodes[i]
            o = {'tests': n['tests']}
            if n['out'] != 'unset':
                o['outcome'] = n['out']
            if n['ev']:
                c, k, v = n['ev']
                o['event'] = '%s.%s.%s' % (c, k, v)
            if n['next']:
                o['next'] = [conv(k) for k in n['next']]
            return o
        return conv(0)


class Suite:
    def __init__(self, label, programs, override_enums=(), variant='ros', raw=False):
        self.label, self.programs, self.variant = label, programs, variant
        self.override_enums = set(override_enums)
        self.raw = raw   # hand the suite over as a test suite rather than as a trace file
        self.rearranged = False   # give the machines other identifiers, and their states in another order
        self.broken = None
        self.tell = None   # makes of a log, and of what else was said, what is to be recorded of it

    def types(self):
        t = {}
        for p in self.programs:
            for c, _, v in p.events():
                k = ('int' if v.startswith('-') else 'nat') if is_int(v) else 'enum'
                if t.get(c, k) != k:
                    k = 'int'
                t[c] = k
        return t


CPP = {'nat': 'unsigned int', 'int': 'int', 'real': 'double', 'enum': 'std::string'}


def convert_cpp(over, types):
    o = ['#include <sstream>', '#include <string>', '#include "verif_msgs/Num.h"',
         'template<typename T> static std::string text(T v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }']
    for c in over:
        t = types[c]
        back = {'nat': 'static_cast<unsigned int>(std::stoul(msg->payload))', 'int': 'std::stoi(msg->payload)', 'real': 'std::stod(msg->payload)',
                'enum': 'msg->payload'}[t]
        fwd = 'value' if t == 'enum' else 'text(value)'
        o.append('%s from%s(const verif_msgs::Num::ConstPtr& msg) { return %s; }' % (CPP[t], up(c), back))
        o.append('verif_msgs::Num to%s(const %s value) { verif_msgs::Num m; m.payload = %s; return m; }' % (up(c), CPP[t], fwd))
    return '\n'.join(o) + '\n'


def rearrange(stms, rng):
    """The same machines as somebody else might have written them: the first state stays the first, but all states have other
    identifiers (at times each other's), the other states stand in another order, and so do the parts of each object."""
    suite = json.loads(stms)
    for m in suite['tests'].values():
        ids = [s['id'] for s in m['states']]
        new = ids[1:] + ids[:1] if rng.random() < .5 else ['s%d' % n for n in range(len(ids))]
        if rng.random() < .5:
            rng.shuffle(new)
        to = dict(zip(ids, new))
        for s in m['states']:
            s['id'] = to[s['id']]
            for ts in s.get('transitionSets') or []:
                for t in ts['transitions']:
                    t['next'] = to[t['next']]
        rest = m['states'][1:]
        rng.shuffle(rest)
        m['states'][1:] = rest

    def turn(x):
        if isinstance(x, dict):
            ks = list(x)
            rng.shuffle(ks)
            return {k: turn(x[k]) for k in ks}
        return [turn(y) for y in x] if isinstance(x, list) else x
    return json.dumps(turn(suite), separators=(',', ':')).encode()


def generate(ctx, suite):
    """Runs the three stages for a suite.  Returns None, or what went wrong."""
    w = ctx.workdir('suite')
    suite.dir = w
    types = suite.types()
    over = [c for c in sorted(types) if suite.variant == 'ros' and (types[c] != 'enum' or c in suite.override_enums)]
    cdir = os.path.join(w, 'cfg', suite.variant, 'src', 'convert')
    os.makedirs(cdir)
    with open(os.path.join(cdir, 'convert.cpp'), 'w') as f:
        f.write(convert_cpp(over, types))
    xml = ['<rtcg-gen><cpp variant="%s">' % suite.variant]
    if over:
        xml.append('<include src="verif_msgs/Num.h"/>')
        xml += ['<channel name="%s" type="verif_msgs::Num"/>' % c for c in over]
    xml.append('</cpp></rtcg-gen>')
    cfg = os.path.join(w, 'cfg', 'gen.xml')
    with open(cfg, 'w') as f:
        f.write('\n'.join(xml))
    suite.over = over
    if hasattr(suite, 'stms'):
        tests = None
    elif suite.raw:
        tests = json.dumps({p.name: p.json_tree() for p in suite.programs}).encode()
    else:
        src = '\n'.join(script_line(p.name, p.script) for p in suite.programs) + '\n'
        r = ctx.run1([ctx.read_traces], stdin=src.encode())
        if r['rc']:
            return 'rtcg-read-traces failed: %s' % r['stderr'].decode()[:500]
        tests = r['stdout']
    if tests is None:
        stms = suite.stms().encode()
    else:
        r = ctx.run1([ctx.make_stms], stdin=tests)
        if r['rc']:
            return 'rtcg-make-stms failed: %s' % r['stderr'].decode()[:500]
        stms = r['stdout']
        if suite.rearranged:
            stms = rearrange(stms, ctx.rng)
    r = ctx.run1([ctx.gen, '-output', os.path.join(w, 'out'), cfg], stdin=stms)
    if r['rc']:
        return 'rtcg-gen failed: %s' % r['stderr'].decode()[:500]
    suite.src = os.path.join(w, 'out', suite.variant, 'src')
    return None


PRE = '''#include <bits/stdc++.h>
#include "ros/ros.h"
#include "std_msgs/Bool.h"
#include "std_msgs/String.h"
#include "verif_msgs/Num.h"
#include "runner.h"
'''


def pch(ctx):
    d = ctx.path('pch')
    if not os.path.isdir(d):
        os.mkdir(d)
        with open(os.path.join(d, 'pre.h'), 'w') as f:
            f.write(PRE)
        r = subprocess.run(['g++', '-std=c++11', '-O0', '-w', '-pipe', '-I' + MOCK, '-I' + MOCK + '/include', '-x', 'c++-header',
                            os.path.join(d, 'pre.h'), '-o', os.path.join(d, 'pre.h.gch')], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('precompiling the harness failed: ' + r.stderr)
    return d


def compile_suites(ctx, suites, chunk=12):
    """Generates and compiles all suites; fills in suite.exes and program.exe."""
    gch = pch(ctx)
    flags = ['-std=c++11', '-O0', '-w', '-pipe']
    jobs, meta = [], []
    objs = []
    for s in suites:
        s.broken = generate(ctx, s)
        if s.broken:
            continue
        s.inc = ['-I' + os.path.join(s.src, 'rtcg'), '-I' + os.path.join(s.src, 'convert'), '-I' + MOCK, '-I' + MOCK + '/include']
        s.objs = []
        for rel in ['rtcg/rtcg.cpp'] + (['convert/convert.cpp'] if s.over else []):
            o = os.path.join(s.dir, os.path.basename(rel)[:-4] + '.o')
            s.objs.append(o)
            objs.append((s, {'argv': ['/usr/bin/g++', *flags, *s.inc, '-c', os.path.join(s.src, rel), '-o', o], 'timeout': 120}))
    res = ctx.run([j for _, j in objs])
    for (s, _), r in zip(objs, res):
        if r['rc']:
            s.broken = 'support code does not compile: ' + r['stderr'].decode(errors='replace')[:800]

    def unit(s, progs, wrap):
        ctx._n += 1
        base = os.path.join(s.dir, 'u%d' % ctx._n)
        t = ['#include "pre.h"', '#include "rtcg.h"', '#include "convert.h"']
        for i, p in enumerate(progs):
            inc = '#include "%s"' % os.path.join(s.src, p.name, 'src', 'main.cpp')
            t += ['namespace verif_n%d {' % i, inc, '}'] if wrap else ['#define main verif_main', inc, '#undef main']
        t.append('int main(int, char** v) {')
        for i in range(len(progs)):
            f = 'verif_n%d::main' % i if wrap else '::verif_main'
            t.append('  verif::registry().push_back([]{ return verif::call(%s); });' % f)
        t.append('  return verif::runAll(v[1], v[2], %s);\n}' % ('true' if s.variant == 'animate' else 'false'))
        with open(base + '.cpp', 'w') as f:
            f.write('\n'.join(t) + '\n')
        return base, {'argv': ['/usr/bin/g++', *flags, '-I' + gch, *s.inc, base + '.cpp', *s.objs, '-o', base], 'timeout': 300}

    for s in suites:
        s.units = []
        if s.broken:
            continue
        for k in range(0, len(s.programs), chunk):
            ps = s.programs[k:k + chunk]
            base, j = unit(s, ps, True)
            jobs.append(j)
            meta.append((s, ps, base))
    res = ctx.run(jobs)
    again, ameta = [], []
    for (s, ps, base), r in zip(meta, res):
        if r['rc'] == 0:
            s.units.append((base, ps))
            for p in ps:
                p.compiled = True
        else:
            for p in ps:
                b, j = unit(s, [p], False)
                again.append(j)
                ameta.append((s, p, b))
    res = ctx.run(again)
    for (s, p, b), r in zip(ameta, res):
        if r['rc'] == 0:
            s.units.append((b, [p]))
            p.compiled = True
        else:
            p.compiled = False
            p.why = r['stderr'].decode(errors='replace')[:1500]


# -- schedules -------------------------------------------------------------
class Trie:
    """A prefix-closed set of schedules.  Tokens are tuples (kind, channel, value)."""

    def __init__(self):
        self.tok, self.kids, self.par = [None], [{}], [None]

    def add(self, seq):
        n = 0
        for t in seq:
            k = self.kids[n].get(t)
            if k is None:
                k = len(self.tok)
                self.tok.append(t)
                self.kids.append({})
                self.par.append(n)
                self.kids[n][t] = k
            n = k
        return n

    def path(self, n):
        p = []
        while n:
            p.append(self.tok[n])
            n = self.par[n]
        return p[::-1]

    def __len__(self):
        return len(self.tok)


def near(vals, rng):
    """Values close to, but different from, those given."""
    v = vals[0]
    if is_int(v):
        c = [str(int(v) + 1), str(abs(int(v) * 10)), str(abs(int(v) - 1)), '0']
        if any(x.startswith('-') for x in vals):
            c.append(str(-int(v)))
        c = [x for x in c if -2**31 <= int(x) < 2**31]
    else:
        c = [v.swapcase(), v + 'x', v[:-1], v + ' ', 'Zz']
    return [x for x in c if x not in vals]


def happy_paths(p, rng, limit=4):
    """Schedules that take the program to each of (some of) its failures."""
    if hasattr(p, 'paths'):
        return p.paths(rng, limit)
    out = []

    def go(i, acc):
        if len(out) >= limit * 4:
            return
        for k in p.nodes[i]['next']:
            n = p.nodes[k]
            if n['ev'] is None:
                out.append(list(acc))
                continue
            c, kind, v = n['ev']
            step = [('A', '', '')] if kind == 'in' else [('O', c, v)]
            pre = [('D', '', '')] if i == 0 and p.root_in() else []
            go(k, acc + pre + step)
    go(0, [])
    rng.shuffle(out)
    return out[:limit]


def alphabet(p, rng, small=False):
    a = [('T', '', '')]
    if p.has_in():
        a.append(('A', '', ''))
    if p.root_in():
        a.append(('D', '', ''))
    for c, vs in p.out_values().items():
        vs2 = vs if not small else vs[:3]
        a += [('O', c, v) for v in vs2]
        nm = near(vs, rng)
        if nm:
            a.append(('O', c, rng.choice(nm)))
        a += parts(p, c, vs)
    a += cross(p, rng)
    return a


def parts(p, c, vs):
    """Numbers between those given, if the channel has them."""
    return [('O', c, vs[0] + '.5')] if c in getattr(p, 'reals', ()) else []


def cross(p, rng, most=4):
    """Outputs that have the value of one channel on another one."""
    ov = p.out_values()
    xs = [('O', c, v) for c, vs in ov.items() for c2, vs2 in ov.items() if c != c2
          for v in vs2 if v not in vs and not (is_int(v) and int(v) >= 2**31) and all(is_int(x) == is_int(v) and not (is_int(v) and (int(v) < 0 or int(x) < 0)) for x in vs)]
    xs.sort(key=lambda x: (not any(x[1].lower() == c.lower() and x[1] != c for c in ov), rng.random()))
    return list(dict.fromkeys(xs))[:most]


def schedules(p, rng, depth, dev, walks, limit, alphabet=alphabet, cut=lambda h: h):
    """All schedules up to `depth`; all deviations of `dev` events from every point of the way to each failure; random walks."""
    t = Trie()
    alpha = alphabet(p, rng)

    def full(prefix, k):
        t.add(prefix)
        if k == 0 or len(t) > limit:
            return
        for a in alpha:
            full(prefix + [a], k - 1)

    hs = [cut(h) for h in happy_paths(p, rng)]
    for h in hs:
        t.add(h)
    k = depth
    while k > 1 and len(alpha) ** k > limit:
        k -= 1
    full([], k)
    for h in hs:
        for i in range(len(h), 0, -1):
            k = dev
            while k > 1 and len(alpha) ** k * (len(h) + 1) > limit:
                k -= 1
            if i + k > depth:
                full(h[:i], k)
    # One event too many, or another instead of the right one, anywhere on the way, after which all goes on as the script
    # says, or starts again.
    extra = [h[:i] + [a] + rest for h in hs for i in range(len(h) + 1) for a in alpha for rest in ((h[i:], h[i + 1:], h) if i else (h, h[1:]))]
    rng.shuffle(extra)
    goal = len(t) + limit
    for seq in extra:
        if len(t) > goal:
            break
        t.add(seq)
    for _ in range(walks):
        n = rng.randint(1, 12)
        h = rng.choice(hs) if hs else []
        seq = list(h[:rng.randint(0, len(h))])
        for _ in range(n):
            # Mostly go on as the script says, so that walks get somewhere.
            if len(seq) < len(h) and seq == h[:len(seq)] and rng.random() < .7:
                seq.append(h[len(seq)])
            else:
                seq.append(rng.choice(alpha))
        t.add(seq)
    return t


def long_schedules(p, rng, n, alphabet=alphabet):
    """The way to the failure of a long script, and single deviations from some points of it."""
    t = Trie()
    alpha = alphabet(p, rng)
    for h in happy_paths(p, rng):
        t.add(h)
        for _ in range(n):
            i = rng.choice([len(h), len(h) - 1, len(h) - 2, rng.randrange(len(h))])
            a = rng.choice(alpha)
            t.add(h[:i] + [a] + h[i:][:12])
    return t


def hexs(s):
    return s.encode().hex()


def run_suites(ctx, suites, token):
    """Runs every program of every suite under its trie; token(kind, c, v) encodes an event for the runner."""
    jobs, meta = [], []
    for s in suites:
        for base, ps in s.units:
            lines = ['V'] if s.tell else []
            for i, p in enumerate(ps):
                lines.append('P %d' % i)
                for n in range(len(p.trie)):
                    lines.append('R ' + ' '.join(token(*t) for t in p.trie.path(n)))
            jf = base + '.jobs'
            with open(jf, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            jobs.append({'argv': [base, jf, base + '.res'], 'timeout': 600})
            meta.append((s, base, ps))
    res = ctx.run(jobs)
    for (s, base, ps), r in zip(meta, res):
        if r['rc']:
            raise Broken('a program of tests dies or hangs (%d): %s' % (r['rc'], r['stderr'][:500]))
        with open(base + '.res') as f:
            it = iter(f.read().split('\n'))
        for p in ps:
            p.obs = [observe(p, next(it), s.variant, s.tell) for _ in range(len(p.trie))]
            p.subs = p.obs[0].pop('subs', [])
        os.remove(base + '.res')
        os.remove(base + '.jobs')


def unhex(s):
    return bytes.fromhex(s[1:]).decode(errors='replace')


def observe(p, line, variant, tell=None):
    if not line.startswith('ok '):
        return {'st': 'CRASH', 'rc': -1, 'vd': {}, 'pub': [], 'crash': line}
    f = line.split(' ')
    log = unhex(f[2])
    if variant == 'animate':
        log = re.sub(r'^\[\w+\] ', '', log, flags=re.M)
    m = None
    for m in re.finditer(r'^Test %s finished: (.*)\.$' % re.escape(p.name), log, re.M):
        pass
    st = STATUS.get(m.group(1), '?' + m.group(1)) if m else '?none'
    vd = {}
    tail = log[m.end():] if m else ''
    for o in re.finditer(r'^  (\w+) = (.*)$', tail, re.M):
        vd[o.group(1)] = o.group(2)
    o = {'st': st, 'rc': int(f[1]), 'vd': vd, 'pub': [], 'ent': re.findall(r'^Entered state (.*)\.$', log, re.M)}
    if tell:
        o.update(tell(log[:m.start()] if m else log, unhex(f[3]) if variant == 'animate' else ''))
    if variant != 'animate':
        subs, adv = f[3].split(';')
        o['subs'] = [unhex(x) for x in subs.split(',') if x]
        o['stop'] = f[6] == '1'
        if f[5]:
            o['pub'] = [[unhex(y) for y in x.split(':')] for x in f[5].split(',')]
    return o


def records(suites):
    recs, progs = [], []
    for s in suites:
        for p in s.programs:
            if not p.compiled or s.broken:
                continue
            trie = []
            for n in range(len(p.trie)):
                t = p.trie.tok[n] or ('S', '', '')
                o = p.obs[n]
                trie.append({'t': t[0], 'c': t[1], 'v': t[2], 'k': [k + 1 for k in p.trie.kids[n].values()],
                             'st': o['st'], 'rc': o['rc'], 'vd': o['vd'], 'pub': o['pub'], 'stop': o.get('stop', False)})
            r = {'id': len(recs) + 1, 'name': p.name, 'subs': p.subs, 'trie': trie}
            if hasattr(p, 'record'):
                for n, x in enumerate(trie):
                    x['ent'] = p.obs[n].get('ent', [])
                    if hasattr(p, 'extra'):
                        x.update(p.extra(n))
                r.update(p.record())
            elif p.script is not None:
                r['tree'] = False
                r['script'] = [{'c': c, 'k': k, 'v': v} for c, k, v in p.script]
            else:
                r['tree'] = True
                r['tests'] = p.tests
                r['nodes'] = [{'ev': dict(zip('ckv', n['ev'] or ('', 'none', ''))), 'out': n['out'], 'tests': n['tests'],
                               'next': [k + 1 for k in n['next']]} for n in p.nodes]
            recs.append(r)
            progs.append((s, p))
    return recs, progs


def ros_token(kind, c, v):
    if kind == 'O':
        return 'O,%s,%s' % (hexs(topic(c)), hexs(v))
    return kind


def judge(ctx, prop, kind, suites, module='TraceDriver'):
    recs, progs = records(suites)
    if not recs:
        raise Broken('no program could be compiled and run')
    nodes = sum(len(r['trie']) for r in recs)
    ctx.traces += nodes
    consts = 'CONSTANTS Kind = "%s"\n' % kind + ('Prop = "%s"\n' % prop if prop else '')
    rej, r = ctx.judge(module, recs, consts=consts, expect=nodes + 1)
    known = {}
    for idx, detail in rej:
        s, p = progs[idx - 1]
        if getattr(p, 'key', None) and ctx.known(p.key):
            known.setdefault(p.key, []).append(p.name)
            continue
        j = int(detail.split(',')[0])
        path = p.trie.path(j - 1)
        what = '%s test %s %s: after %s the specification has %s, the program %s' % (
            kind, p.name, p.script or 'tree', path, detail[detail.index(',') + 1:].strip()[:300], p.obs[j - 1])
        ctx.violation(what, {'suite': s.label, 'test': p.name, 'script': p.script, 'tree': None if p.script else p.json_tree(),
                             'schedule': path, 'observed': p.obs[j - 1], 'expected': detail})
    for k, v in known.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, ctx.known(k), ', '.join(sorted(set(v)))))
    return recs
