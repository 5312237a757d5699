#!/usr/bin/env python3
"""mkseed.py ID...: assembles seeded/<ID>/ from tools/seeds/<ID>.py and confirms it in scratch copies of /repo.

tools/seeds/<ID>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and the function check(sim) of the demonstration.
Confirmed: the patch applies, /repo still builds with it and its stable tests pass, the demonstration tells the two trees apart.
(The build and the tests only work in /repo itself, so a copy is mounted there in a namespace of its own.)"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(sid):
    src = open('%s/tools/seeds/%s.py' % (V, sid)).read()
    ns = {}
    exec(compile(src.split('def check')[0], sid, 'exec'), ns)
    d = '%s/seeded/%s' % (V, sid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    scratch = tempfile.mkdtemp(prefix='mkseed')
    try:
        sh('git clone -q /repo %s/r' % scratch)
        for f, old, new in ns['EDITS']:
            p = '%s/r/%s' % (scratch, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s/r diff' % scratch).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copytree(V + '/sim', d + '/sim', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(V + '/tools/demo/simrun.py', d)
        open(d + '/case.py', 'w').write('from simrun import demo\n' + src[src.index('def check'):].rstrip() + '\ndemo(check)\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = a checkout of jom; simulates it, see case.py\nexec python3 "$(dirname "$0")/case.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        # demonstration
        shutil.copytree(d, scratch + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        bad = sh('bash %s/demo/demo.sh' % scratch, cwd=scratch + '/r')
        good = sh('bash %s/demo/demo.sh' % scratch, cwd='/repo')
        print(sid, 'demo: patched %d (%s), unchanged %d (%s)' % (bad.returncode, bad.stdout.strip()[-300:], good.returncode, good.stdout.strip()[-300:]))
        # build and tests: in a copy of /repo that is mounted over it
        sh('cp -a /repo %s/c' % scratch)
        r = sh('git -C %s/c checkout -q -- . && git -C %s/c apply %s/patch.diff' % (scratch, scratch, d))
        assert r.returncode == 0, r.stdout
        t = sh("unshare -Urm bash -c 'mount --bind %s/c /repo && cd /repo && bash /opt/vp/test.sh %s/t.json'" % (scratch, scratch))
        try: p = set(json.load(open(scratch + '/t.json'))['passed'])
        except Exception: p = set(); print(t.stdout[-1000:])
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        print(sid, 'tests: %d of %d stable pass' % (len(p & st), len(st)), sorted(st - p)[:5])
        ok = bad.returncode not in (0, 2) and good.returncode == 0 and st <= p
        print(sid, 'CONFIRMED' if ok else 'NOT CONFIRMED')
        return ok
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
if __name__ == '__main__':
    r = [main(s) for s in sys.argv[1:]]
    sys.exit(0 if all(r) else 1)
