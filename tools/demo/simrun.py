"""Runs jom, compiled from the current directory (a checkout of jom), against a simulated Windows; see sim/.

Everything happens in memory and in a scratch directory: the commands of the makefiles are scripted actors."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
scratch = tempfile.mkdtemp(prefix='jomdemo')
os.environ['SIM_REPO'] = os.getcwd(); os.environ['SIM_BUILD'] = scratch + '/b'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as simbuild
CFG = {'cores': 4, 'exit_close_us': 50, 'exit_signal_us': 50, 'notify_us': 50, 'spawn_us': 300, 'tick_us': 5, 'gettick_gran_ms': 16, 'pipe_quota': 1 << 20,
       'max_decisions': 400000, 'max_points': 20000000, 'max_time_us': 1800000000}
class Log:
    def __init__(self, raw):
        self.ev = [json.loads(l) for l in raw.decode('latin-1').split('\n') if l]
        self.status = [e for e in self.ev if e['k'] == 'end'][0].get('status')
        self.exit = {e['p']: e['code'] for e in self.ev if e['k'] == 'exit'}
        self.code = self.exit.get(0)
        self.cmds = []              # (start position, end position, command line, process)
        end = {e['p']: i for i, e in enumerate(self.ev) if e['k'] == 'exit'}
        for i, e in enumerate(self.ev):
            if e['k'] == 'spawn': self.cmds.append((i, end.get(e['p'], 1 << 40), e['cmd'], e['p']))
    def find(self, text): return [c for c in self.cmds if text in c[2]]
    def out(self, s=1, root=0): return ''.join(e['d'] for e in self.ev if e['k'] == 'con' and e['s'] == s and e['root'] == root)
    def all(self, k): return [e for e in self.ev if e['k'] == k]
    def file(self, path):
        l = [e for e in self.ev if e['k'] == 'file' and e['path'] == path]
        return l[-1]['data'] if l else None
    def files(self): return [e['path'] for e in self.ev if e['k'] == 'file']
class Sim:
    def __init__(self):
        self.d = simbuild.build(); self.p = None
    def run(self, files, tools, args, seed=0, sched=None, cfg=None, dirs=(), faults=(), triggers=(), script=None, env=None):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.d + '/sim', self.d, '60'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd='/', env={'PATH': '/usr/bin:/bin', 'LANG': 'C', 'QT_NO_GLIB': '1', 'HOME': '/nonexistent'})
        f = {}
        for k, v in files.items(): f[k] = v if isinstance(v, dict) else {'d': v, 'mt': -2000000000}
        sc = {'seed': seed, 'cfg': dict(CFG, **(cfg or {})), 'sched': sched or {'mode': 'rand', 'gap': 0, 'psync': 1, 'wevent': 1, 'wtime': 0}, 'dirs': ['/w/p'] + list(dirs), 'files': f,
              'tools': {k: (v if v and isinstance(v[0], list) and v[0] and isinstance(v[0][0], list) else [v]) for k, v in tools.items()}, 'faults': list(faults), 'triggers': list(triggers),
              'script': script or [{'op': 'jom', 'cwd': '/w/p', 'args': list(args), 'env': env or {}}]}
        b = json.dumps(sc, ensure_ascii=False, separators=(',', ':')).encode('latin-1')
        self.p.stdin.write(b'%d\n' % len(b)); self.p.stdin.write(b); self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        return Log(self.p.stdout.read(int(h[0])))
def demo(check):
    """check(sim) returns a text if the behaviour is wrong"""
    rc = 2
    try:
        sim = Sim()
        bad = check(sim)
        if bad: print('WRONG: ' + bad); rc = 1
        else: print('ok'); rc = 0
        if sim.p: sim.p.stdin.close(); sim.p.wait(10)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
