"""C16: generated projects build, and use the configured conversions and headers."""
import json, os, re, shutil, subprocess
from core import Broken, CheckError, VERIF
from driver import is_int, topic, up, MOCK

CHANS = ['a', 'b', 'speed', 'batteryInfo', 'Up', 'x_1']
MORE = ['m%d' % i for i in range(14)]
NAMES = ['t', 'u', 'test_one', 'T2', 'rtcg', 'convert', 'all', 'mkdir', 'std', 'bin', 'src', 'value', 'include', 'Makefile', 'node', 'x',
         'int', 'new', 'default', 'NULL', 'EOF', 'Verdict', 'dump', 'StateMachine', 'x_', 'set_x']
NATIVE = {'nat': 'unsigned int', 'int': 'int', 'enum': 'std::string'}
DECOYS = ['first.h', 'dir/second.h', 'third.hpp', 'dir/first.h']

TYPE_H = '''#ifndef T_%(c)s_H
#define T_%(c)s_H
#include <memory>
#include <ostream>
#include <string>
struct T_%(c)s {
  typedef std::shared_ptr<T_%(c)s> Ptr;
  typedef std::shared_ptr<T_%(c)s const> ConstPtr;
  std::string payload;
  void verifSet(const std::string& s) { payload = s; }
  std::string verifText() const { return payload; }
};
inline std::ostream& operator<<(std::ostream& o, const T_%(c)s& t) { return o << t.payload; }
#endif
'''


def user_code(v, over, types, user, k=0, own=()):
    """The user's conversions: they mark values on the way out, and record what they do."""
    o = ['#include <string>', '#include <cstdio>', '#include <cstdlib>']
    if v == 'ros' and (own or user == 'includes'):
        o += ['#include "ros/ros.h"', '#include "std_msgs/String.h"']
    if user == 'includes':
        o.append('#include "convert.h"')
    o += ['#include "T_%s.h"' % c for c in over]
    o.append('''static void call(const char* d, const char* c, const std::string& v) {
  if (const char* p = getenv("VERIF_CALLS")) { FILE* f = fopen(p, "a"); fprintf(f, "%s\\t%s\\t%s\\t%d\\n", d, c, v.c_str(), ''' + str(k) + '''); fclose(f); }
}
static std::string unmark(const std::string& s) { return s.empty() || s[0] != 'U' ? std::string("unmarked") : s.substr(1); }
template <class T> static T get(const std::string& s);
template <> std::string get<std::string>(const std::string& s) { return s; }
template <> int get<int>(const std::string& s) { return atoi(s.c_str()); }
template <> unsigned int get<unsigned int>(const std::string& s) { return (unsigned)strtoul(s.c_str(), nullptr, 10); }
static std::string put(const std::string& s) { return s; }
static std::string put(int s) { return std::to_string(s); }
static std::string put(unsigned s) { return std::to_string(s); }
''')
    for c in over:
        n = NATIVE[types[c]]
        if c in own and v == 'ros':
            o.append('%s from%s(const std_msgs::String::ConstPtr& msg) { auto v = get<%s>(unmark(msg->data)); call("from", "%s", put(v)); return v; }' % (n, up(c), n, c))
            o.append('std_msgs::String to%s(const %s value) { call("to", "%s", put(value)); std_msgs::String t; t.data = "U" + put(value); return t; }' % (up(c), n, c))
            continue
        if c in own:
            o += ['%s %s%s(const %s x) { call("%s", "%s", put(x)); return x; }' % (n, d, up(c), n, d, c) for d in ('from', 'to')]
            continue
        if v == 'ros':
            o.append('%s from%s(const T_%s::ConstPtr& msg) { auto v = get<%s>(unmark(msg->payload)); call("from", "%s", put(v)); return v; }' % (n, up(c), c, n, c))
        else:
            o.append('%s from%s(const T_%s msg) { auto v = get<%s>(unmark(msg.payload)); call("from", "%s", put(v)); return v; }' % (n, up(c), c, n, c))
        o.append('T_%s to%s(const %s value) { call("to", "%s", put(value)); T_%s t; t.payload = "U" + put(value); return t; }' % (c, up(c), n, c, c))
    o.append('void verif_unused() { put(1); put(1u); put(""); call("", "", ""); unmark(""); }')
    return '\n'.join(o) + '\n'


def probe(v, types):
    """A program that prints the types of the conversion functions of a suite."""
    o = ['#include <cstdio>', '#include <string>', '#include <type_traits>', '#include <memory>']
    if v == 'ros':
        o += ['#include "ros/ros.h"', '#include "std_msgs/Bool.h"', '#include "std_msgs/String.h"']
    o += ['#include "convert.h"']
    o += ['#include "T_%s.h"' % c for c in sorted(types)]
    o.append('template <class T> struct N { static const char* s() { return "some other type"; } };')
    ns = ['unsigned int', 'int', 'std::string'] + ['T_%s%s' % (c, p) for c in sorted(types) for p in ('', '::ConstPtr')]
    if v == 'ros':
        ns += ['std_msgs::String', 'std_msgs::String::ConstPtr']
    o += ['template <> struct N<%s> { static const char* s() { return "%s"; } };' % (n, n) for n in ns]
    o.append('''template <class F> struct S;
template <class R, class A> struct S<R (*)(A)> {
  static void p(const char* d, const char* c) {
    printf("sig\\t%s\\t%s\\t%s\\t%s\\n", d, c, N<R>::s(), N<typename std::remove_cv<typename std::remove_reference<A>::type>::type>::s()); }
};
int main() {''')
    for c in sorted(types):
        o += ['  S<decltype(&%s%s)>::p("%s", "%s");' % (d, up(c), d, c) for d in ('from', 'to')]
        o.append('  printf("val\\t%s\\t%%s\\n", N<%sVal>::s());' % (c, up(c)))
    return '\n'.join(o + ['}']) + '\n'


class Case:
    """A suite and a configuration of one or two variants."""

    def __init__(self, chk, n):
        rng = chk.ctx.rng
        self.id = n
        k = rng.choice([1, 1, 2, 2, 3])
        self.names = rng.sample(NAMES, k)
        many = n % 32 == 5
        chans = CHANS + MORE if many else rng.sample(CHANS, rng.randint(1, 4))
        kinds = {c: rng.choice(['nat', 'int', 'enum', 'mixed']) for c in chans}
        dirs = {c: rng.choice(['in', 'out', 'both']) for c in chans}
        vals = {'nat': ['0', '1', '42', '7'], 'int': ['-1', '-42'], 'enum': ['Ok', 'Bad', 'x'], 'mixed': ['3', '-3', '0']}
        self.scripts = {}
        for t in self.names:
            ev = []
            for c in rng.sample(chans, len(chans)) if many else [rng.choice(chans) for _ in range(rng.randint(1, 4))]:
                d = rng.choice(['in', 'out']) if dirs[c] == 'both' else dirs[c]
                ev.append((c, d, rng.choice(vals[kinds[c]])))
            self.scripts[t] = ev
        self.types = {}
        for ev in self.scripts.values():
            for c, _, v in ev:
                ty = ('int' if v.startswith('-') else 'nat') if is_int(v) else 'enum'
                if self.types.get(c, ty) != ty:
                    ty = 'int'
                self.types[c] = ty
        self.variants = []
        for v in rng.choice([['animate'], ['ros'], ['animate', 'ros'], ['ros', 'animate']]):
            style = 'all' if many else rng.choice(['none', 'all', 'some', 'some', 'elsewhere'])
            over = {'none': [], 'all': sorted(self.types), 'some': rng.sample(sorted(self.types), rng.randint(0, len(self.types))), 'elsewhere': ['elsewhere']}[style]
            if v == 'ros':
                over += [c for c in sorted(self.types) if self.types[c] != 'enum' and c not in over]
            rng.shuffle(over)
            incs = [('T_%s.h' % c, rng.random() < .5) for c in over] + [(d, rng.random() < .5) for d in rng.sample(DECOYS, rng.randint(0, 3))]
            rng.shuffle(incs)
            if incs and rng.random() < .2:
                incs.append((incs[0][0], not incs[0][1]))
            used = [c for c in over if c in self.types]
            # Types that the channels would have had without being configured.
            own = [c for c in used if rng.random() < .25]
            self.variants.append({'v': v, 'over': over, 'own': own, 'incs': incs, 'used': used, 'user': rng.choice(['plain', 'includes']) if used else rng.choice(['none', 'plain'])})
        x = ['<?xml version="1.0"?>', '<rtcg-gen>']
        for c in self.variants:
            x.append('<cpp variant="%s">' % c['v'])
            x += ['<include src="%s"%s/>' % (s, rng.choice([' system="true"', ' system="1"']) if y else rng.choice(['', ' system="false"'])) for s, y in c['incs']]
            x += ['<channel name="%s" type="%s"/>' % (o, 'T_' + o if o not in c['own'] else 'std_msgs::String' if c['v'] == 'ros' else NATIVE[self.types[o]]) for o in c['over']]
            x.append('<makefile/>' if c['v'] == 'animate' else '<catkin>%s</catkin>' % rng.choice(['', '<package><depend>verif_msgs</depend></package>']))
            x.append('</cpp>')
        self.xml = '\n'.join(x + ['</rtcg-gen>'])
        self.traces = ''.join('%s: %s\n' % (t, ', '.join('%s.%s.%s' % (c, d, v) for c, d, v in ev)) for t, ev in self.scripts.items())
        self.dir = chk.ctx.workdir('p')
        os.makedirs(os.path.join(self.dir, 'cfg'))
        self.put('cfg/gen.xml', self.xml)
        for c in self.variants:
            if c['user'] != 'none':
                self.put('cfg/%s/src/convert/convert.cpp' % c['v'], user_code(c['v'], c['used'], self.types, c['user'], 0, c['own']))

    def path(self, p):
        return os.path.join(self.dir, p)

    def put(self, p, text):
        os.makedirs(os.path.dirname(self.path(p)), exist_ok=True)
        with open(self.path(p), 'w') as f:
            f.write(text)

    def rec_c(self, c):
        return {'v': c['v'], 'over': c['over'], 'own': c['own'], 'incs': [{'src': s, 'sys': y} for s, y in c['incs']]}

    def rec_types(self):
        return [{'ch': c, 'ty': t} for c, t in sorted(self.types.items())]

    def describe(self, c, what):
        return {'what': '%s, %s: %s, configured %s' % (what, c['v'], re.sub(r'\s+', ' ', self.traces)[:150], ','.join(c['over']) or 'nothing'),
                'traces': self.traces, 'config': self.xml}


# Suites whose channels' names get in each other's way in generated code: known findings, each with its key.
CLASHES = [
    ('output-and-call', 'animate', 't: a.out.x, a.call.y', {'a': ('out', 'enum')}),
    ('first-letter', 'animate', 't: foo.out.x, Foo.out.y', {'foo': ('out', 'enum'), 'Foo': ('out', 'enum')}),
    ('same-topic', 'ros', 't: fooBar.in.x, foo_bar.in.y', {'fooBar': ('in', 'enum'), 'foo_bar': ('in', 'enum')}),
    ('input-accepted', 'ros', 't: a.in.x, inputAccepted.out.y', {'a': ('in', 'enum'), 'inputAccepted': ('out', 'enum')}),
    # The states of tests written by hand have identifiers of their own.
    ('state-case', 'ros', {'t': {'tests': ['t'], 'id': 'A', 'next': [{'tests': ['t'], 'id': 'a', 'outcome': 'pass', 'event': 'a.out.x',
                                                                       'next': [{'tests': ['t'], 'outcome': 'fail'}]}]}}, {'a': ('out', 'enum')}),
]


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.recs, self.descr = [], []
        ctx.build()
        ctx.model('MCProject', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Channels = {%s} MaxRounds = %d\n'
                  'INVARIANTS Builds Fresh Stuck RefusedRight Owned\n' % ctx.pick(('"a", "b"', 2), ('"a", "b"', 3)))
        # The user's headers: one set for each form of inclusion.
        self.sysdir, self.quotedir = ctx.path('inc-system'), ctx.path('inc-quote')
        for d, form in ((self.sysdir, 'system'), (self.quotedir, 'quote')):
            for h in ['T_%s.h' % c for c in CHANS + MORE + ['elsewhere']] + DECOYS:
                p = os.path.join(d, h)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write('#pragma verif %s %s\n' % (form, h))
                    if h.startswith('T_'):
                        f.write(TYPE_H % {'c': h[2:-2]})
        inc = os.path.join(MOCK, 'include')
        lib = ctx.path('libverifnode.a')
        r = subprocess.run('g++ -std=c++11 -I%s -c -o %s.o %s && ar rc %s %s.o' % (inc, lib, os.path.join(MOCK, 'node.cpp'), lib, lib), shell=True,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError('stand-in node library: ' + r.stderr)
        # The stand-ins, where the unprivileged user can read them.
        self.inc = ctx.path('inc-mock')
        shutil.copytree(inc, self.inc)
        self.cat = ctx.path('catkin')
        shutil.copytree(os.path.join(MOCK, 'catkin'), self.cat)
        self.lib = lib

    def add(self, case, c, what, **rec):
        self.recs.append(dict(rec, id=len(self.recs), c=case.rec_c(c), types=case.rec_types()))
        self.descr.append(case.describe(c, what))

    def sh(self, cmd, cwd, timeout=240, **env):
        return {'argv': ['/usr/bin/env'] + ['%s=%s' % kv for kv in env.items()] + ['/bin/sh', '-c', cmd], 'cwd': cwd, 'timeout': timeout}

    def generate(self, cases):
        """Runs all three stages for every case; returns the cases that could be generated."""
        ctx = self.ctx
        st = ctx.run([{'argv': [ctx.read_traces], 'stdin': c.traces.encode()} for c in cases])
        st = ctx.run([{'argv': [ctx.make_stms], 'stdin': r['stdout']} for r in st])
        for case, r in zip(cases, st):
            if r['rc']:
                raise Broken('no state machines for %r: %s' % (case.traces, r['stderr']))
            case.stms = r['stdout']
            for d, _, fs in os.walk(case.dir):
                ctx.give(d, *[os.path.join(d, f) for f in fs])
        res = ctx.run([{'argv': [ctx.gen, '-output', 'out', 'cfg/gen.xml', '-'], 'stdin': c.stms, 'cwd': c.dir} for c in cases])
        good = []
        for case, r in zip(cases, res):
            if r['rc']:
                for c in case.variants:
                    self.add(case, c, 'generating failed: ' + r['stderr'].decode(errors='replace')[:200], kind='build', tests=case.names, user=c['user'], rc=r['rc'], bins=[])
            else:
                good.append(case)
        return good

    def build(self, cases, again=''):
        """Builds everything; records results."""
        ctx = self.ctx
        jobs, what = [], []
        flags = {'CPATH': self.sysdir}
        for case in cases:
            for c in case.variants:
                if c['v'] == 'animate':
                    jobs.append(self.sh('make', case.path('out/animate'), **flags))
                    what.append((case, c, None))
                else:
                    for t in case.names:
                        b = case.path('build/' + t)
                        jobs.append(self.sh(
                            'mkdir -p build && cmake -Wno-dev -DCMAKE_PREFIX_PATH=%s -DVERIF_PACKAGES="roscpp;std_msgs;verif_msgs" -DVERIF_INCLUDES="%s;%s" -DVERIF_LIBRARY=%s '
                            '-DCMAKE_C_COMPILER_WORKS=1 -DCMAKE_CXX_COMPILER_WORKS=1 -DCMAKE_CXX_ABI_COMPILED=1 -DCMAKE_C_ABI_COMPILED=1 '
                            '-S out/ros/src/%s -B %s && cmake --build %s' % (self.cat, self.inc, self.sysdir, self.lib, t, b, b), case.dir, **flags))
                        what.append((case, c, t))
        for (case, c, t), j, r in zip(what, jobs, ctx.run(jobs)):
            if t is None:
                tests = case.names
                d = case.path('out/animate/bin')
                bins = [n for n in tests if os.access(os.path.join(d, n), os.X_OK)]
            else:
                tests = [t]
                bins = [t] if os.access(case.path('build/%s/node' % t), os.X_OK) else []
            self.add(case, c, 'building%s' % again, kind='build', tests=tests, user=c['user'], rc=r['rc'], bins=bins)
            if r['rc']:
                self.descr[-1]['output'] = (r['stdout'] + r['stderr']).decode(errors='replace')[-2500:]

    def headers(self, cases):
        """Looks at the conversion functions and the headers that are included."""
        ctx = self.ctx
        jobs, what = [], []
        for case in cases:
            for c in case.variants:
                src = case.path('out/%s/src' % c['v'])
                mock = '-I%s ' % self.inc if c['v'] == 'ros' else ''
                case.put('probe-%s.cpp' % c['v'], probe(c['v'], case.types))
                ctx.give(case.path('probe-%s.cpp' % c['v']))
                jobs.append(self.sh('g++ -std=c++11 -w %s-I%s/rtcg -I%s/convert -o probe-%s probe-%s.cpp %s && ./probe-%s'
                                    % (mock, src, src, c['v'], c['v'], self.lib if c['v'] == 'ros' else '', c['v']), case.dir, CPATH=self.sysdir))
                what.append((case, c, 'sigs'))
                for t in case.names[:1]:
                    jobs.append(self.sh('g++ -std=c++11 -E -iquote %s -I%s %s-I%s/%s/include -I%s/rtcg -I%s/convert %s/%s/src/main.cpp > main.i; e=$?; grep "^#pragma verif" main.i; exit $e'
                                        % (self.quotedir, self.sysdir, mock, src, t, src, src, src, t), case.dir))
                    what.append((case, c, 'main'))
                jobs.append(self.sh('g++ -std=c++11 -E -x c++ -iquote %s -I%s %s-I%s/rtcg %s/convert/convert.h > conv.i; e=$?; grep -E "^#pragma verif|\\b(from|to)[A-Z].*\\(" conv.i; exit $e'
                                    % (self.quotedir, self.sysdir, mock, src, src), case.dir))
                what.append((case, c, 'header'))
        # The two preprocessor runs of a variant use the same file names, so they go into their own directories.
        for k, j in enumerate(jobs):
            if 'main.i' in j['argv'][-1] or 'conv.i' in j['argv'][-1]:
                j['argv'][-1] = re.sub(r'\b(main|conv)\.i\b', r'\1.%d.i' % k, j['argv'][-1])
        got = {}
        for (case, c, kind), r in zip(what, ctx.run(jobs)):
            lines = r['stdout'].decode(errors='replace').splitlines()
            if kind == 'sigs':
                f = [l.split('\t') for l in lines]
                self.add(case, c, 'types of conversions', kind='sigs',
                         sigs=[{'dir': x[1], 'ch': x[2], 'ret': x[3], 'arg': x[4]} for x in f if x[0] == 'sig'],
                         vals=[{'ch': x[1], 'val': x[2]} for x in f if x[0] == 'val'])
                self.descr[-1]['output'] = '\n'.join(lines)[:1500] + r['stderr'].decode(errors='replace')[:1500]
            else:
                marks = [l.split()[2:4] for l in lines if l.startswith('#pragma')]
                got[case.id, c['v'], kind] = ([{'src': m[1], 'form': m[0]} for m in marks], lines, r)
        for case in cases:
            for c in case.variants:
                h, lines, r = got[case.id, c['v'], 'header']
                m = got[case.id, c['v'], 'main'][0]
                ps = [n for n, l in enumerate(lines) if l.startswith('#pragma')]
                fs = [n for n, l in enumerate(lines) if not l.startswith('#pragma') and re.search(r'\b(from|to)(%s)\s*\(' % '|'.join(up(x) for x in case.types), l)]
                self.add(case, c, 'included headers', kind='incs', main=m, header=h, before=not ps or not fs or ps[-1] < fs[0])
                self.descr[-1]['seen'] = {'main': m, 'header': h}

    def runs(self, cases, k=0):
        """Runs built tests along their traces, recording the conversions made."""
        ctx = self.ctx
        jobs, what = [], []
        for case in cases:
            for c in case.variants:
                for t in case.names:
                    ev = case.scripts[t]
                    exe = case.path('out/animate/bin/' + t if c['v'] == 'animate' else 'build/%s/node' % t)
                    if not os.access(exe, os.X_OK):
                        continue
                    n = '%s.%s.%d' % (c['v'], t, k)
                    env = {'VERIF_CALLS': case.path('calls.' + n)}
                    toks = []
                    if ev[0][1] == 'in':
                        toks.append('ready' if c['v'] == 'animate' else 'D\t\t')
                    for ch, d, v in ev:
                        if d == 'in':
                            toks.append('accept' if c['v'] == 'animate' else 'A\t\t')
                        elif c['v'] == 'animate':
                            toks.append('%s %s' % (ch, v))
                        else:
                            toks.append('O\t%s\t%s%s' % (topic(ch), 'U' if ch in c['used'] else '', v))
                    text = '\n'.join(toks) + '\n'
                    if c['v'] == 'ros':
                        case.put('toks.' + n, text)
                        ctx.give(case.path('toks.' + n))
                        env.update(VERIF_TOKENS=case.path('toks.' + n), VERIF_SENT=case.path('sent.' + n))
                    jobs.append({'argv': ['/usr/bin/env'] + ['%s=%s' % kv for kv in env.items()] + [exe], 'stdin': text.encode(), 'cwd': case.dir, 'timeout': 20})
                    what.append((case, c, t, n))
        for (case, c, t, n), r in zip(what, ctx.run(jobs)):
            ev = case.scripts[t]
            calls, sent = [], []
            if os.path.exists(case.path('calls.' + n)):
                for l in open(case.path('calls.' + n)):
                    f = l.rstrip('\n').split('\t')
                    calls.append({'dir': f[0], 'ch': f[1], 'v': f[2] if f[3] == str(k) else f[2] + ' by stale code'})
            if c['v'] == 'ros':
                back = {topic(e[0]): e[0] for e in ev}
                ls = open(case.path('sent.' + n)).read().splitlines() if os.path.exists(case.path('sent.' + n)) else ['missing\t']
                for l in ls:
                    if l != 'end':
                        a, b = l.split('\t')
                        sent.append({'ch': back.get(a, '?' + a), 'v': b})
            self.add(case, c, 'running ' + t, kind='calls', events=[{'ch': a, 'dir': d, 'v': v} for a, d, v in ev], calls=calls, sent=sent)
            self.descr[-1].update(script=ev, calls=calls, sent=sent, rc=r['rc'], stderr=r['stderr'].decode(errors='replace')[-1500:])
            ctx.traces += 1

    def clashes(self):
        """Compiles the suites that are known not to compile."""
        ctx = self.ctx
        for key, v, traces, chans in CLASHES:
            d = ctx.workdir('clash')
            with open(os.path.join(d, 'c.xml'), 'w') as f:
                f.write('<rtcg-gen><cpp variant="%s"/></rtcg-gen>' % v)
            ctx.give(d, os.path.join(d, 'c.xml'))
            if isinstance(traces, dict):
                tests = json.dumps(traces).encode()
            else:
                (r,) = ctx.run([{'argv': [ctx.read_traces], 'stdin': (traces + '\n').encode()}])
                tests = r['stdout']
            (r,) = ctx.run([{'argv': [ctx.make_stms], 'stdin': tests}])
            if r['rc']:
                raise Broken('no state machines for %r: %s' % (traces, r['stderr']))
            (r,) = ctx.run([{'argv': [ctx.gen, 'c.xml'], 'stdin': r['stdout'], 'cwd': d}])
            if not r['rc']:
                src = os.path.join(d, 'out', v, 'src')
                (r,) = ctx.run([self.sh('g++ -std=c++11 -w -fsyntax-only -I%s -I%s/rtcg -I%s/convert %s/t/src/main.cpp' % (self.inc, src, src, src), d)])
            self.recs.append({'id': len(self.recs), 'kind': 'build', 'c': {'v': v, 'over': [], 'own': [], 'incs': []}, 'user': 'none', 'tests': [], 'bins': [],
                              'types': [{'ch': c, 'ty': t} for c, (_, t) in sorted(chans.items())], 'rc': r['rc']})
            self.descr.append({'what': 'building %s: %s' % (v, traces), 'key': key, 'output': (r['stdout'] + r['stderr']).decode(errors='replace')[-1500:]})

    def finish(self):
        ctx = self.ctx
        rej, _ = ctx.judge('TraceProject', self.recs, expect=32 + len(self.recs))
        for n, why in rej:
            key = self.descr[n].get('key')
            if key and ctx.known(key):
                print('KNOWN-FINDING: property=C16 %s' % ctx.known(key))
                continue
            ctx.violation('%s (%s)' % (why.strip('"'), self.descr[n]['what']), dict(self.descr[n], record=self.recs[n]))


def check_c16(ctx):
    chk = Check(ctx)
    total = ctx.pick(64, 420)
    n = 0
    while n < total:
        k = min(64, total - n)
        cases = chk.generate([Case(chk, n + j) for j in range(k)])
        n += k
        ctx.log('generated')
        chk.headers(cases)
        ctx.log('looked at headers')
        chk.build(cases)
        ctx.log('built')
        chk.runs(cases)
        # The user changes the conversions, and generates and builds again.
        again = [c for c in cases if any(v['used'] for v in c.variants)][:ctx.pick(12, 24)]
        for case in again:
            for c in case.variants:
                if c['used']:
                    case.put('cfg/%s/src/convert/convert.cpp' % c['v'], user_code(c['v'], c['used'], case.types, c['user'], 1, c['own']))
        again = chk.generate(again)
        chk.build(again, ' again')
        chk.runs(again, 1)
        ctx.log('built again')
        for c in cases:
            shutil.rmtree(c.dir, True)
    chk.clashes()
    chk.finish()
    ctx.cov.update(projects=total, builds=sum(r['kind'] == 'build' for r in chk.recs), runs=sum(r['kind'] == 'calls' for r in chk.recs),
                   signatures=sum(len(r.get('sigs', [])) for r in chk.recs))
    for d in ctx.rng.sample(chk.descr, 4):
        ctx.sample(d['what'])
    ctx.assumptions.append('roscpp and catkin are stand-ins; names are identifiers that the generated code does not use itself')
