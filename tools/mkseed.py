#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds/*.py: applies each planted change to a scratch copy of the repository, checks that
it builds, passes the stable tests and is shown by its demonstration, and (with --check) runs the property's check on it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(VERIF, 'tools', 'seedkit')
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for k, v in m.SEEDS.items():
            assert k not in out, k
            out[k] = v
    return out


def build(repo):
    r = sh(['go', 'build', './...'], repo)
    r2 = sh(['go', 'build', '-o', 'bin/', './cmd/...'], repo)
    return (r.stderr + r2.stderr) if r.returncode or r2.returncode else None


def tests(repo):
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s', './...'], repo)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add(e['Package'] + '/' + e['Test'])
    return [t for t in STABLE if t not in ok]


def demo(repo, dr):
    r = subprocess.run(['bash', os.path.join(dr, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=300,
                       env={k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG')})
    return r.returncode, (r.stdout + r.stderr)[-600:]


def one(sid, s, check):
    top = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        repo = os.path.join(top, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        dr = os.path.join(top, 'demo')
        os.mkdir(dr)
        for f in ['lib.sh'] + (['ros', 'std_msgs'] if 'ros' in s.get('kit', ()) else []):
            src = os.path.join(KIT, f)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(dr, f))
        with open(os.path.join(dr, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + s['demo'].lstrip('\n'))
        os.chmod(os.path.join(dr, 'demo.sh'), 0o755)
        for n, c in s.get('files', {}).items():
            open(os.path.join(dr, n), 'w').write(c)
        err = build(repo)
        if err:
            return 'unpatched build: ' + err
        rc, out = demo(repo, dr)
        if rc:
            return 'demo fails unpatched: %s' % out
        orig = {}
        for f, a, b in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(a) != 1:
                return 'edit of %s matches %d times: %r' % (f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        sh(['gofmt', '-w'] + [os.path.join(repo, f) for f in {e[0] for e in s['edits']} if f.endswith('.go')], repo) \
            if any(e[0].endswith('.go') for e in s['edits']) else None
        patch = sh(['git', 'diff', '--no-color'], repo).stdout
        err = build(repo)
        if err:
            return 'does not build: ' + err
        bad = tests(repo)
        if bad:
            return 'breaks tests: %s' % bad[:5]
        rc, out = demo(repo, dr)
        if rc == 0:
            return 'demo passes with the change: ' + out
        open(os.path.join(dr, 'patch.diff'), 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(dr, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(VERIF, 'seeded', sid)
        shutil.rmtree(dst, True)
        shutil.copytree(dr, dst)
        msg = 'ok (demo: %s)' % out.strip().splitlines()[-1:]
        if check:
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), s['property']], cwd=VERIF,
                               env=dict(os.environ, RTCG_REPO=repo, RTCG_VERIF_OUT=top), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg += '\n    check exit %d %s' % (r.returncode, v[:1] or (r.stdout + r.stderr)[-300:])
        return msg
    finally:
        shutil.rmtree(top, True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '--check' in sys.argv
    for sid, s in seeds().items():
        if not args or any(sid.startswith(a) for a in args):
            print(sid, one(sid, s, check), flush=True)
