"""The event log of a simulated run as a history of jom processes and the commands they executed."""
import re
from project import *

class PR:
    """one process"""
    __slots__ = ('idx', 'par', 'cmd', 'cwd', 'spawn', 'spawn_t', 'exit', 'exit_t', 'code', 'jom', 'tag', 'key', 'argv', 'kids', 'killed', 'crashed',
                 'sig', 'sig_t', 'tool', 'targs', 'leaf', 'phase', 'target', 'cidx', 'members', 'root', 'maxh', 'usage', 'envkey', 'run', 'abort', 'started', 'inh', 'ev')
    def __init__(self, idx):
        for s in self.__slots__: setattr(self, s, None)
        self.idx = idx; self.kids = []; self.jom = False; self.killed = False; self.crashed = False; self.abort = False; self.ev = []

TAGA = re.compile(r'(?:^|\s)TAG=(\w+)')
class History:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.pr = {}
        self.roots = []
        self.status = 'killed' if res.killed else res.status
        self.stats = {}
        self.files = {}
        ev = res.ev
        for pos, e in enumerate(ev):
            k = e['k']; p = e.get('p')
            if k == 'root':
                q = self.get(p); q.root = len(self.roots); q.par = None; q.spawn = pos; q.spawn_t = e['t']; self.roots.append(q); q.run = e['op']
            elif k == 'jom':
                q = self.get(p); q.jom = True; q.argv = e['argv']; m = TAGA.search(e['argv']); q.tag = m.group(1) if m else 'r0' if '@' in e['argv'] else '?'; q.envkey = e.get('key', ''); q.started = pos
            elif k == 'spawn':
                q = self.get(p); q.par = self.get(e['par']); q.par.kids.append(q); q.cmd = e['cmd']; q.cwd = e.get('cwd'); q.spawn = pos; q.spawn_t = e['t']
                q.key = key_of(e['cmd']) if not e.get('gc') else '(grandchild)'; q.root = q.par.root; q.inh = e.get('inh')
            elif k == 'tool': q = self.get(p); q.tool = e['id']; q.targs = e['args']
            elif k == 'iargs': q = self.get(p); q.key = (q.tool + ' ' + e['args']).strip()
            elif k == 'exit': q = self.get(p); q.exit = pos; q.exit_t = e['t']; q.code = e['code'] & 0xffffffff
            elif k == 'signaled': q = self.get(p); q.sig = pos; q.sig_t = e['t']
            elif k == 'killed': self.get(p).killed = True
            elif k == 'crash': self.get(p).crashed = e.get('at', '?')
            elif k == 'abort': self.get(p).abort = True
            elif k == 'stats': self.stats = e
            elif k == 'file' and not e['path'].endswith('/err.log'):      # (/X)
                self.files[e['path']] = e
        for q in self.pr.values():
            # a command is a leaf unless a jom runs below it
            q.leaf = not q.jom and not any(x.jom for x in self.below(q))
        self.joms = [q for q in self.pr.values() if q.jom]
        self.joms.sort(key=lambda q: q.started)
        self.problem = None
        for k in ('unsupported', 'simbug'):
            for e in res.ev:
                if e['k'] == k: self.problem = '%s: %s' % (k, e.get('d'))
        if res.killed: self.problem = 'run exceeded the wall clock limit'
        if res.overflow: self.problem = 'log overflow'
    def get(self, p):
        if p not in self.pr: self.pr[p] = PR(p)
        return self.pr[p]
    def below(self, q):
        for c in q.kids:
            yield c
            yield from self.below(c)
    def execs(self, j):
        """the commands a jom started, in order"""
        return [c for c in j.kids if c.key != '(grandchild)']
    def isjomexec(self, q): return not q.leaf
    def con(self, root, stream):
        return ''.join(e['d'] for e in self.res.ev if e['k'] == 'con' and e['root'] == root and e['s'] == stream)
    def end_t(self): return self.res.ev[-1].get('t', 0) if self.res.ev else 0
