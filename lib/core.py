"""Shared machinery of the checks: scratch space, building, running, TLC, evidence."""
import atexit, base64, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RTCG_REPO', '/repo')
OUT = os.environ.get('RTCG_VERIF_OUT', VERIF)      # where evidence and replays go
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOBODY = 65534
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not do its work: neither held nor violated."""


class Broken(Exception):
    """The code under test fails at something so plain that the rest of the check has nothing to go on: a violation."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.root = tempfile.mkdtemp(prefix='rtcgv.', dir='/tmp')
        os.chmod(self.root, 0o755)
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, self.root, True)
        self.work = os.path.join(self.root, 'w')       # owned by the unprivileged user
        os.mkdir(self.work)
        self.uid = NOBODY
        self.level = 'model_checking'
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.notes = []
        self._n = 0
        try:
            os.chown(self.work, NOBODY, NOBODY)
        except OSError:
            self.uid = 0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def fresh(self, name):
        self._n += 1
        return os.path.join(self.root, '%s.%d' % (name, self._n))

    def workdir(self, name='d'):
        """A fresh directory the tools under test may write in."""
        self._n += 1
        p = os.path.join(self.work, '%s%d' % (name, self._n))
        os.mkdir(p)
        self.give(p)
        return p

    def give(self, *paths):
        if self.uid:
            for p in paths:
                os.chown(p, self.uid, self.uid)

    # -- building --------------------------------------------------------
    def goenv(self):
        env = dict(os.environ)
        env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
        env.setdefault('HOME', '/root')
        return env

    def build(self):
        """Builds the three tools from the working tree of the repository, and our runner."""
        self.bin = self.path('bin')
        os.mkdir(self.bin)
        r = subprocess.run(['go', 'build', '-o', self.bin + '/', './cmd/...'], cwd=REPO, env=self.goenv(),
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError('go build failed:\n' + r.stderr)
        self.gotool('runmany')
        # Can we drop privileges here?
        if self.uid:
            r = self._runmany([{'argv': ['/bin/true']}], self.uid)
            if r[0].get('error'):
                self.uid = 0
        for t in ('read-traces', 'make-stms', 'gen'):
            setattr(self, t.replace('-', '_'), os.path.join(self.bin, 'rtcg-' + t))

    def gotool(self, name):
        out = self.path('tool-' + name)
        r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'tools', name), env=self.goenv(),
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError('building %s failed:\n%s' % (name, r.stderr))
        return out

    def harness(self):
        """Builds the in-module harness (tools/harness/main.go) against the working tree, through an overlay."""
        out = self.path('harness')
        ov = self.path('overlay.json')
        with open(ov, 'w') as f:
            json.dump({'Replace': {os.path.join(REPO, 'cmd', 'zz-verif-harness', 'main.go'):
                                   os.path.join(VERIF, 'tools', 'harness', 'main.go')}}, f)
        r = subprocess.run(['go', 'build', '-overlay', ov, '-o', out, './cmd/zz-verif-harness'], cwd=REPO,
                           env=self.goenv(), capture_output=True, text=True)
        if r.returncode:
            raise CheckError('building the harness failed:\n' + r.stderr)
        return out

    # -- running ---------------------------------------------------------
    def clutter(self):
        """Settings of environment variables that are none of rtcg's business: usual ones, and whatever in its sources looks like one."""
        if not hasattr(self, '_clutter'):
            names = set('EMAIL DEBEMAIL DEBFULLNAME NAME USER LOGNAME HOSTNAME LANG LANGUAGE EDITOR VISUAL PAGER CI DEBUG VERBOSE QUIET CC CXX CFLAGS CXXFLAGS CPPFLAGS LDFLAGS '
                        'MAKEFLAGS ROS_DISTRO ROS_ROOT ROS_PACKAGE_PATH CMAKE_PREFIX_PATH TZ SOURCE_DATE_EPOCH CDPATH COLUMNS NO_COLOR TERM DESTDIR PREFIX XDG_CONFIG_HOME '
                        'XDG_CACHE_HOME RTCG RTCG_OUTPUT RTCG_CONFIG RTCG_DIR RTCG_HOME RTCG_DEBUG OUTPUT CONFIG'.split())
            for d in ('cmd', 'internal', 'rtcg.sh'):
                p = os.path.join(REPO, d)
                for f in [p] if os.path.isfile(p) else [os.path.join(x, f) for x, _, fs in os.walk(p) for f in fs if not f.endswith('_test.go')]:
                    with open(f, errors='replace') as h:
                        names |= set(re.findall(r'(?<![A-Za-z0-9_])[A-Z][A-Z0-9_]{2,}(?![A-Za-z0-9_])', h.read()))
            names = [n for n in sorted(names) if not re.match(r'(GO[A-Z]*|CGO.*|LD_.*|LC_.*|DYLD.*|PATH|HOME|PWD|OLDPWD|IFS|ENV|SHLVL|TMPDIR|POSIX.*|BASH.*|PS\d)$', n)]
            vals = ['clutter', '7', '/nonexistent/clutter', 'x@y.example', '${NAME}', 'true']
            self._clutter = [n + '=' + vals[k % len(vals)] for k, n in enumerate(names)]
        return self._clutter

    def cluttered(self, jobs):
        """Some of the runs of rtcg get an environment full of other things."""
        mine = {getattr(self, k, None) for k in ('read_traces', 'make_stms', 'gen')}
        for j in jobs:
            if any(a in mine or os.path.basename(str(a)) == 'rtcg.sh' for a in j['argv']) and 'env' not in j:
                self._turn = getattr(self, '_turn', 0) + 1
                if self._turn * 2654435761 >> 7 & 1:
                    j = dict(j, env=self.clutter())
            yield j

    def _runmany(self, jobs, uid):
        jf, rf = self.fresh('jobs'), self.fresh('results')
        with open(jf, 'w') as f:
            for j in jobs:
                j = dict(j)
                if isinstance(j.get('stdin'), str):
                    j['stdin'] = j['stdin'].encode('utf-8', 'surrogateescape')
                j['stdin'] = base64.b64encode(j.get('stdin') or b'').decode()
                j.setdefault('cwd', self.work)
                f.write(json.dumps(j) + '\n')
        r = subprocess.run([self.path('tool-runmany'), jf, rf, str(NPROC), str(uid)], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('runmany failed: ' + r.stderr)
        res = []
        with open(rf) as f:
            for line in f:
                d = json.loads(line)
                d['stdout'] = base64.b64decode(d['stdout'] or '')
                d['stderr'] = base64.b64decode(d['stderr'] or '')
                res.append(d)
        os.remove(jf)
        os.remove(rf)
        return res

    def run(self, jobs):
        """Runs jobs (dicts with argv, stdin, cwd, timeout) as the unprivileged user."""
        res = self._runmany(self.cluttered(jobs), self.uid)
        for j, r in zip(jobs, res):
            if r.get('error'):
                raise CheckError('could not run %r: %s' % (j['argv'], r['error']))
        return res

    def injector(self):
        """A function that gives the words before a command under which its system calls fail, and the file that tells whether one did.
        None if there is no such tool here, or it may not be used."""
        if not hasattr(self, '_injector'):
            d = self.workdir('inject')
            os.chmod(d, 0o777)
            n = [0]

            def inject(calls, what, when='1', path=None):
                n[0] += 1
                log = os.path.join(d, 'log%d' % n[0])
                return ['/usr/bin/strace', '-f', '-qqq', '-o', log] + (['-P', path] if path else []) + ['-e', 'trace=' + calls, '-e', 'inject=%s:%s:when=%s' % (calls, what, when)], log
            with open(os.path.join(d, 'x'), 'w') as f:
                f.write('x')
            w, log = inject('read', 'error=EIO', path=os.path.join(d, 'x'))
            try:
                r = self.run1(w + ['/bin/cat', os.path.join(d, 'x')])
                ok = r['rc'] == 1 and self.injected(log)
            except (OSError, CheckError):
                ok = False
            self._injector = inject if ok else None
            if not ok:
                self.assumptions.append('system calls could not be made to fail here')
        return self._injector

    @staticmethod
    def injected(log):
        """Whether a system call failed as wanted, or the process was stopped at one."""
        if not os.path.exists(log):
            return False
        with open(log, errors='replace') as f:
            t = f.read()
        os.remove(log)
        return '(INJECTED)' in t or 'killed by SIGKILL' in t

    def run1(self, argv, **kw):
        return self.run([dict(argv=argv, **kw)])[0]

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers='auto', timeout=3000, check=True, count=True, heap='12g', extra=()):
        """Runs TLC on spec/<module>.tla with the given configuration text.

        Returns a dict with ok, states (generated), distinct, prints (PrintT lines), out."""
        cf = self.fresh(module) + '.cfg'
        with open(cf, 'w') as f:
            f.write(cfg)
        md = self.fresh('meta')
        e = dict(os.environ)
        e.update(env or {})
        spec = os.path.join(VERIF, 'spec', module + '.tla')
        argv = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + self.root, '-cp', TLA_CP,
                'tlc2.TLC', '-noGenerateSpecTE', '-config', cf, '-workers', str(workers), '-metadir', md, *extra, spec]
        try:
            r = subprocess.run(argv, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.root)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(md, True)
        out = r.stdout
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out):
            pass
        res = {'rc': r.returncode, 'out': out, 'states': int(m.group(2)) if m else 0,
               'generated': int(m.group(1)) if m else 0}
        res['ok'] = r.returncode == 0 and 'No error has been found' in out
        res['prints'] = [l for l in out.splitlines() if l.startswith(('<<"', '"@'))]
        if check and not res['ok']:
            raise CheckError('TLC failed on %s (rc %d):\n%s\n%s' % (module, r.returncode, trim(out), r.stderr[-2000:]))
        if count:
            self.states += res['states']
            self.transitions += res['generated']
        return res

    def model(self, module, cfg, **kw):
        """Design-level model checking: a failure here is an error of the specification, not of the code."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        self.cov.setdefault('models', []).append({'module': module, 'states': r['states'], 'transitions': r['generated']})
        self.log('model %s: %d states, %.1fs' % (module, r['states'], time.time() - t))
        return r

    def prove(self, module):
        """Has the TLA+ proof system check the proofs of a module: what holds of the specification without bounds."""
        t = time.time()
        cache = self.fresh('proof')
        n = 0
        for stretch in ('3', '20'):
            try:
                r = subprocess.run(['tlapm', '--threads', '4', '--stretch', stretch, '--cache-dir', cache,
                                    os.path.join(VERIF, 'spec', module + '.tla')],
                                   capture_output=True, text=True, timeout=200, cwd=self.root, env=dict(os.environ, TMPDIR=self.root))
            except (OSError, subprocess.TimeoutExpired):
                continue
            m = re.search(r'All (\d+) obligations proved', r.stdout + r.stderr)
            if r.returncode == 0 and m:
                n = int(m.group(1))
                break
        shutil.rmtree(cache, True)
        if n:
            self.cov.setdefault('proofs', []).append({'module': module, 'obligations': n})
        else:
            self.assumptions.append('the proofs of %s.tla, which do not depend on the code, were not repeated in this run' % module)
        self.log('proofs %s: %d obligations, %.1fs' % (module, n, time.time() - t))

    def judge(self, module, records, consts='', env=None, spec='Spec', expect=None, **kw):
        """Validates logged records against a trace specification.

        The specification must print <<"REJECT", index, detail>> for every record it does not accept, and reach
        exactly `expect` distinct states otherwise.  Returns the rejected (index, text) pairs."""
        tf = self.fresh('trace') + '.ndjson'
        with open(tf, 'w') as f:
            for rec in records:
                f.write(json.dumps(rec) + '\n')
        t = time.time()
        r = self.tlc(module, 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s' % (spec, consts),
                     env=dict(env or {}, TRACE=tf), **kw)
        rej = parse_rejects(r['out'])
        self.log('judge %s: %d records, %d states, %d rejected, %.1fs'
                 % (module, len(records), r['states'], len(rej), time.time() - t))
        if expect is not None and not rej and r['states'] != expect:
            raise CheckError('%s: expected %d states, TLC found %d: some records were not examined'
                             % (module, expect, r['states']))
        os.remove(tf)
        return rej, r

    # -- reporting -------------------------------------------------------
    def violation(self, what, replay):
        """Records a violation with data from which it can be replayed."""
        self.violations.append({'what': what, 'replay': replay})

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        rp = None
        if self.violations:
            d = os.path.join(OUT, 'replays')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                           'violations': self.violations[:50]}, f, indent=1, default=str)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['(none)']}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        d = os.path.join(OUT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.violations[:5]:
            print('-- ' + v['what'])
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs'
              % (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0

    def known(self, key):
        """The committed known finding with this key for this property, if there is one."""
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    return m.group(3)
        return None


def trim(out, n=4000):
    lines = [l for l in out.splitlines() if not l.startswith(('Parsing file', 'Semantic proc', 'Linting of', 'Computed '))]
    s = '\n'.join(lines)
    return s if len(s) <= n else s[:n // 2] + '\n...\n' + s[-n // 2:]


def parse_rejects(out):
    rej = []
    # TLC may break long values over several lines: join until brackets balance.
    buf = None
    for line in out.splitlines():
        if buf is None:
            if line.startswith('<<"REJECT"') or line.startswith('<< "REJECT"'):
                buf = line
            else:
                continue
        else:
            buf += ' ' + line.strip()
        if buf.count('<<') <= buf.count('>>'):
            m = re.match(r'<<\s*"REJECT",\s*(-?\d+)\s*,?(.*)>>\s*$', buf, re.S)
            if m:
                rej.append((int(m.group(1)), m.group(2).strip()))
            buf = None
    return rej


def cps(s):
    """A string as the list of its code points.  A byte that is no part of UTF-8 is a lone surrogate, as in "surrogateescape"."""
    return [ord(c) for c in s.encode('utf-8', 'surrogateescape').decode('utf-8', 'surrogateescape')]
