#!/usr/bin/env python3
"""Measures the checks: makes small changes to the repository, and sees which of those that the existing tests miss the checks miss
too.  Not a check itself.

usage: run.py survivors OUT.json [FILE...]     changes that build and pass the stable tests
       run.py checks OUT.json LOG [N] [SEED]   runs the checks on (N of) them; the log says what caught each, or MISSED
"""
import concurrent.futures, json, os, random, resource, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, os.path.dirname(HERE))
import mkseed

MAP = [('trace/read', 'C07 C13 C08 C26'), ('testlang/event', 'C07 C13 C21 C09 C26'), ('testlang/channel', 'C07 C13 C21 C12 C26'), ('testlang/value', 'C07 C13 C12 C02 C21 C26'),
       ('trace/expand', 'C09'), ('trace/collapse', 'C09'), ('trace/trace', 'C08 C21'), ('internal/validate', 'C10 C09 C19'), ('testlang/', 'C10 C09 C21 C19 C26'),
       ('structure/', 'C11 C10 C18 C13 C26'), ('rstype', 'C12 C16'), ('stm/', 'C11 C12 C18 C03 C19 C14 C13 C22 C26'), ('strmanip', 'C06 C16'), ('factorise', 'C21'),
       ('gen/catkin', 'C17 C16 C14'), ('config/catkin', 'C17 C26'), ('makefile', 'C16 C14'), ('gen/config', 'C16 C14 C17 C15 C24 C26'),
       ('cpp/embed/templates/animate', 'C20 C16 C25'), ('cpp/embed/templates/base/convert', 'C16 C02'), ('cpp/embed/templates/ros/convert', 'C16 C02'),
       ('cpp/embed/templates/ros', 'C06 C04 C16 C23 C22'), ('cpp/embed', 'C04 C03 C06 C01 C05 C16 C20 C22 C23 C25'), ('gen/cpp', 'C16 C06 C14 C02 C15 C24'), ('gencommon', 'C14 C06 C02 C16 C24'),
       ('internal/gen', 'C14 C15 C19 C16 C24'), ('cli', 'C19 C07 C24'), ('serial', 'C19 C13 C26'), ('rtcg-gen', 'C15 C14 C19'), ('read-traces', 'C19 C07'), ('make-stms', 'C19 C10'),
       ('rtcg.sh', 'C19 C24')]


def checks_of(f):
    return next(c for k, c in MAP if k in f).split()


def copy():
    top = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo', top + '/repo'], check=True)
    return top


def apply(repo, m):
    p = os.path.join(repo, m['file'])
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:m['from']] + m['new'].encode() + b[m['to']:])
    return p, b


def survivors(out, files):
    # Some changes lead to endless allocation.
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    exe = '/tmp/mutate-bin'
    subprocess.run(['go', 'build', '-o', exe, '.'], cwd=HERE, check=True, env=mkseed.ENV)
    if not files:
        files = subprocess.run("find cmd internal -name '*.go' -not -name '*_test.go' -not -name '*_enum.go'", shell=True, cwd='/repo', capture_output=True, text=True).stdout.split()
    gofiles = [f for f in files if f.endswith('.go')]
    ms = [json.loads(l) for l in subprocess.run([exe, *gofiles], cwd='/repo', capture_output=True, text=True).stdout.splitlines()] if gofiles else []
    for f in files:
        if not f.endswith('.go'):
            pos = 0
            for i, l in enumerate(open('/repo/' + f, 'rb').read().splitlines(True)):
                if l.strip() and not l.strip().startswith(b'//'):
                    ms.append({'file': f, 'from': pos, 'to': pos + len(l), 'new': '\n', 'what': 'delete line', 'line': i + 1})
                pos += len(l)
    N = 3
    def work(k):
        top = copy()
        ok = []
        for m in ms[k::N]:
            p, b = apply(top + '/repo', m)
            try:
                if not mkseed.build(top + '/repo') and not mkseed.tests(top + '/repo'):
                    ok.append(m)
                    with open(out + '.part', 'a') as f:
                        f.write(json.dumps(m) + '\n')
            finally:
                open(p, 'wb').write(b)
        shutil.rmtree(top)
        return ok
    with concurrent.futures.ThreadPoolExecutor(N) as ex:
        res = [m for r in ex.map(work, range(N)) for m in r]
    json.dump(res, open(out, 'w'))
    print(len(ms), 'changes', len(res), 'pass the tests')


def run_checks(src, log, n, seed):
    ms = json.load(open(src))
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    f = open(log, 'a')
    # A run may be stopped and taken up again.
    seen = set(open(log + '.seen').read().splitlines()) if os.path.exists(log + '.seen') else set()
    ms = [m for m in ms if json.dumps(m, sort_keys=True) not in seen]
    g = open(log + '.seen', 'a')
    def work(m):
        top = copy()
        line = open('/repo/' + m['file'], 'rb').read().splitlines()[m['line'] - 1].decode().strip()
        old = open('/repo/' + m['file'], 'rb').read()[m['from']:m['to']].decode()
        caught = None
        try:
            apply(top + '/repo', m)
            for c in checks_of(m['file']):
                r = subprocess.run([sys.executable, VERIF + '/check.py', c], cwd=VERIF, env=dict(os.environ, RTCG_REPO=top + '/repo', RTCG_VERIF_OUT=top),
                                   capture_output=True, text=True, timeout=900)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    caught = c
                    break
                if r.returncode not in (0, 1):
                    caught = '?%s exit %d: %s' % (c, r.returncode, (r.stdout + r.stderr)[-300:])
                    break
        except subprocess.TimeoutExpired:
            caught = '?timeout'
        finally:
            shutil.rmtree(top, True)
        f.write('%s %s:%d %s: %r -> %r  in  %s\n' % (caught or 'MISSED', m['file'], m['line'], m['what'], old[:150], m['new'][:150], line[:120]))
        f.flush()
        g.write(json.dumps(m, sort_keys=True) + '\n')
        g.flush()
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('WORKERS', 3))) as ex:
        list(ex.map(work, ms))


if __name__ == '__main__':
    if sys.argv[1] == 'survivors':
        survivors(sys.argv[2], sys.argv[3:])
    else:
        run_checks(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10**6, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
