"""Talks to the simulator server: one scenario in, one event log out."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sim'))
import build as simbuild

class SimError(Exception):
    pass

class Result:
    __slots__ = ('raw', 'ev', 'status', 'killed', 'overflow', 'wait')
    def __init__(self, raw, wait, killed, overflow):
        self.raw = raw; self.wait = wait; self.killed = killed; self.overflow = overflow
        self.ev = [json.loads(l) for l in raw.decode('latin-1').split('\n') if l]
        self.status = None
        for e in self.ev:
            if e['k'] == 'end': self.status = e['status'] if 'status' in e else e.get('d')
    def all(self, k): return [e for e in self.ev if e['k'] == k]

class Server:
    def __init__(self, bdir, limit=60):
        self.bdir, self.limit, self.p = bdir, limit, None
    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'QT_NO_GLIB': '1', 'HOME': '/nonexistent'}
        self.p = subprocess.Popen([self.bdir + '/sim', self.bdir, str(self.limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
    def run(self, scenario):
        if self.p is None or self.p.poll() is not None: self.start()
        b = json.dumps(scenario, ensure_ascii=False, separators=(',', ':')).encode('latin-1')
        try:
            self.p.stdin.write(b'%d\n' % len(b)); self.p.stdin.write(b); self.p.stdin.flush()
            h = self.p.stdout.readline().split()
            if len(h) != 4: raise SimError('simulator died (%r, rc %r)' % (h, self.p.poll()))
            n = int(h[0]); raw = self.p.stdout.read(n)
        except (BrokenPipeError, OSError) as e:
            raise SimError('simulator died: %s' % e)
        if len(raw) != n: raise SimError('short log')
        return Result(raw, int(h[1]), int(h[2]), int(h[3]))
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill()
            self.p = None
