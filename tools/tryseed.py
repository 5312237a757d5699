#!/usr/bin/env python3
"""tryseed.py [-a] ID...: runs the quick check of the seed's property (-a: all checks) against a scratch clone of /repo with the patch applied."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(sid, allp):
    d = '%s/seeded/%s' % (V, sid)
    pids = [json.load(open(d + '/meta.json'))['property']]
    if allp: pids = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    s = tempfile.mkdtemp(prefix='tryseed')
    try:
        subprocess.run('git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff' % (s, s, d), shell=True, check=True)
        shutil.copytree(V, s + '/v', ignore=shutil.ignore_patterns('.git', '.build', 'seeded', 'evidence', 'replay*'))
        os.makedirs(s + '/v/evidence', exist_ok=True)
        for p in pids:
            t = time.time()
            r = subprocess.run([sys.executable, 'chk/check.py', p], cwd=s + '/v', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SIM_REPO=s + '/r', SIM_BUILD=s + '/b', VERIF_SEED='1', VERIF_TIER='quick'))
            l = [x for x in r.stdout.split('\n') if x.strip()]
            print('%-18s %s exit %d %4.0f s  %s' % (sid, p, r.returncode, time.time() - t, ' | '.join(l[-3:])[:400]), flush=True)
    finally:
        shutil.rmtree(s, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]; allp = '-a' in a
    for s in [x for x in a if x != '-a'] or sorted(os.listdir(V + '/seeded')): main(s, allp)
