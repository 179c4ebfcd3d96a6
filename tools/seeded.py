"""Tries planted changes: seeded.py [-c CHECK,...] [-t] ID...   (a development tool; no check uses it)
Each is applied to a scratch copy of /repo; the build, the existing tests (-t) and its demonstration are run there, then the checks
of its property (and CHECK, ...) against the copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'time limit'
    return p.returncode, p.stdout + p.stderr


def main():
    args, checks, tests, demo = sys.argv[1:], [], False, True
    while args and args[0][0] == '-':
        if args[0] == '-c':
            checks = args.pop(1).split(',')
        elif args[0] == '-t':
            tests = True
        elif args[0] == '-d':
            demo = False
        args.pop(0)
    for bug in args:
        d = os.path.join(V, 'seeded', bug)
        prop = json.load(open(d + '/meta.json'))['property']
        w = tempfile.mkdtemp(prefix='sd-')
        r = w + '/repo'
        out = [bug, prop]
        try:
            shutil.copytree('/repo', r, symlinks=True)
            dd = w + '/demo'
            shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            if demo:
                rc, t = sh('bash %s/demo.sh' % dd, r)
                out.append('clean demo %s' % ('ok' if rc == 0 else 'FAILS %s %s' % (rc, t[-600:])))
            rc, t = sh('git apply %s/patch.diff && go build ./...' % d, r)
            if rc:
                print(bug, 'DOES NOT APPLY/BUILD', t)
                continue
            if demo:
                rc, t = sh('bash %s/demo.sh' % dd, r)
                out.append('patched demo %s' % ('ok (fails: %s)' % t.strip().split('\n')[-1][:120] if rc not in (0, 124) else 'PASSES' if rc == 0 else 'HANGS'))
            if tests:
                ok = []
                for n in ('TestSetup', 'TestProveAndVerify', 'TestSetupFromPartedR1CS', 'TestProveFromSplitPK'):
                    rc, t = sh("go test -vet=off -count=1 -run '^%s$' ./test" % n, r)
                    ok.append(rc == 0)
                out.append('tests ok' if all(ok) else 'TESTS FAIL %s' % ok)
            for c in checks or [prop]:
                rc, t = sh('python3 %s/tools/check.py %s quick' % (V, c), V, dict(ENV, ZKV_REPO=r))
                v = [l for l in t.split('\n') if 'VIOLATION' in l]
                n = t.split('\n')
                first = n[n.index(v[0]) + 1][:160] if v else ''
                out.append('%s %s %s' % (c, 'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'BROKEN rc=%s %s' % (rc, t[-400:]), first))
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(' | '.join(out), flush=True)


main()
