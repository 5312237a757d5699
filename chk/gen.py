"""Random builds: makefile projects, tools, initial files, simulator configuration and scheduling parameters."""
import random
from project import *

DEF = dict(nt=(3, 12), jobs=[1, 2, 2, 3, 4, 4, 8], p_dep=0.45, p_pseudo=0.15, p_inf=0.2, batch=0.0, p_multi=0.35, maxcmds=4,
           p_shell=0.2, p_echo=0.08, p_rem=0.05, p_out=0.35, outmax=300, p_sub=0.12, depth=1, p_subj=0.15, p_subvia=0.2,
           fail=0, failcodes=(1, 2, 3, 9, 42, 127, 255), p_failtol=0.0, mods=0.05, inl=0.0, inlkeep=0.2, inlname=0.25, setv=0.0, cd=0.0,
           latin=1, A=0.07, K=0.0, I=0.0, N=0.0, goals=0.2, sync=0.12, group=0.1, split=0.1, excl=0.1, init=('scratch', 'incr', 'mixed'),
           inf_more=0.2, inf_path=0.2, inf_two=0.15, inf_both=0.4, inf_inl=0.12, colons=0.08, semi=0.1, dup=0.05, ruleslast=0.2, clean=0.0, cdfail=0.0, mflags=0.1, defj=0.04, envopts=0.05, spelled=0.05, bom=0.02, mac=.1, cc=.08, com=.06, ats=.08, wild=.04, noise=.05, frc=.05, hdr=.06, infdeps=None, long=.04, absn=.05, ladder=0, nsubt=0, xerr=0.0, newer=.06, S=0.0, Y=0.06, prog=.05, presp=.1, mdir=.08, fmt=.2, crlf=.25, ign=0.0, inlmac=0.2, spell=0.15,
           dur='mixed', ro=0.2, notpar=0.0, stdin=0.05, subdirs=0.15, p_src=0.6, ncol=58, mintargets=1, silent=0.1, wide=0.2, env={}, conv=0)

class Gen:
    def __init__(self, rng, f, sid=''):
        self.sid = sid             # distinguishes the builds of two top-level joms
        self.rng = rng
        self.f = dict(DEF); self.f.update(f)
        self.projects, self.calls, self.tools, self.files = {}, {}, {}, {}
        self.dirs = set()
        self.ncol = 0
        self.nsub = 0
        self.colors = {}           # color -> tool id
        self.expect_inl = {}       # key -> list of contents
        self.nenv = 0
        self.nset = 0
        self.vars = {}             # (makefile, variable) -> targets that assign it

    def p(self, k): return self.rng.random() < self.f[k]

    def dur(self):
        r, d = self.rng, self.f['dur']
        if d == 'zero': return 0
        if d == 'short': return r.choice([0, 0, 100, 1000, 3000])
        if d == 'slow': return r.choice([100000, 4000000, 6000000, 9000000, 20000000])
        if d == 'long': return r.choice([0, 20000, 400000, 1500000, 4000000])
        return r.choice([0, 0, 50, 300, 1000, 5000, 40000, 300000, 1200000])

    def out_steps(self, tid):
        """output with a colour of its own"""
        r = self.rng
        if self.ncol >= self.f['ncol']: return []
        st = []
        both = r.random() < 0.3
        cols = {}
        for s in ([1, 2] if both else [r.choice([1, 1, 2])]):
            if self.ncol >= self.f['ncol']: break
            cols[s] = self.ncol; self.colors[self.ncol] = (tid, s); self.ncol += 1
        for _ in range(r.randint(1, 4)):
            s = r.choice(list(cols))
            st.append(['O', s, cols[s], 1 + int(r.random() ** 3 * self.f['outmax'])])
        return st

    def mk_tool(self, tid, reads, write, code=0, extra=()):
        r = self.rng
        s = []
        if self.p('p_out'): s += self.out_steps(tid)
        body = [['s', self.dur()]] + [['r', x] for x in reads] + list(extra)
        # spread the output over the life of the command
        out = s
        k = r.randint(0, len(out))
        steps = out[:k] + body
        for o in out[k:]:
            if r.random() < 0.4: steps.append(['s', self.dur()])
            steps.append(o)
        if r.random() < self.f['stdin']: steps.insert(0, ['n'])
        if write: steps.append(['w', write])
        if code: steps.append(['x', code])
        self.tools[tid] = [steps]

    # ---------------------------------------------------------------- one makefile
    def project(self, name, dirn, mf, pfx, depth, n=None):
        r, f = self.rng, self.f
        if n is None: n = f['ladder'][0] * f['ladder'][1] + 1 if f['ladder'] else r.randint(*f['nt'])
        if r.random() < f['mdir']: mf = 'mkd%s/%s' % (pfx, mf); self.dirs.add(dirn + '/mkd' + pfx)      # a makefile in another directory
        P = {'dir': dirn, 'mf': mf, 'head': [], 'targets': [], 'rules': []}
        self.projects[name] = P
        self.dirs.add(dirn)
        infs = []
        has_rule = f['p_inf'] > 0 and r.random() < 0.7
        batch = has_rule and r.random() < f['batch']
        if has_rule:
            self.rules(P, pfx, batch)
        base = r.random() * 0.9 + 0.1
        if r.random() < f['cc']: P['cc'] = True
        names = []
        ts = []
        # targets are created bottom up: target i may depend on targets j < i
        wide = r.random() < f['wide']
        for i in range(n):
            last = i == n - 1
            kind = 'file'
            if last: kind = r.choice(['pseudo', 'pseudo', 'file'])
            elif has_rule and r.random() < f['p_inf'] * 2: kind = 'inf'
            elif r.random() < f['p_pseudo']: kind = 'pseudo'
            elif r.random() < f['hdr']: kind = 'hdr'
            elif r.random() < f['frc'] and not f['conv']: kind = 'frc'
            sub = ''
            if kind == 'file' and r.random() < f['subdirs']:
                sub = 'd%s/' % pfx; self.dirs.add(dirn + '/d' + pfx)
            rule = None
            if kind == 'inf':
                rule = r.choice(P['rules'])
                if rule['tdir']: sub = rule['tdir'] + '/'
            nm = {'file': '%s%s%02d.out', 'pseudo': '%s%s%02dall', 'hdr': '%s%s%02d.h', 'frc': '%s%s%02dfrc', 'inf': '%s%s%02d.r' + pfx}[kind] % (sub, pfx, i)
            t = {'name': nm, 'kind': kind, 'deps': [], 'cmds': []}
            cand = list(range(i))
            for j in cand:
                pr = f['p_dep'] * base
                if wide: pr = 0.9 if last else 0.08
                elif j == i - 1: pr = min(1, pr * 1.5)
                if f['ladder']: pr = j // f['ladder'][0] == (i - 1 if last else i) // f['ladder'][0] - (not last)
                if r.random() < pr: t['deps'].append(ts[j]['name'])
            if last and not t['deps'] and i: t['deps'].append(ts[i - 1]['name'])
            if f['conv'] and kind == 'pseudo' and not t['deps']:
                kind = t['kind'] = 'file'; t['name'] = nm = '%s%02d.out' % (pfx, i)
            if len(t['deps']) > 7 and not wide: t['deps'] = r.sample(t['deps'], 7)
            r.shuffle(t['deps'])
            if kind == 'frc':
                # neither a file nor commands: whatever depends on it is out of date
                kind = t['kind'] = 'pseudo'; t['frc'] = True
                if r.random() < .7: t['deps'] = []
            side = [x for x in ts if x['kind'] == 'file' and x['cmds'] and x['cmds'][-1]['k'] in ('tool', 'shtool') and not x['cmds'][-1].get('args', '').startswith('<<') and x['name'].count('/') == 0] if kind == 'hdr' and not f['conv'] else []
            if side and r.random() < .6:
                # a file that the command of another target writes as well
                o = r.choice(side); o['side'] = True
                t['name'] = nm = nm[:-2] + '.hh'
                if o['name'] not in t['deps']: t['deps'].append(o['name'])
                st = self.tools[o['cmds'][-1]['id']][0]
                w = next(k for k, x in enumerate(st) if x[0] == 'w')
                st.insert(w + r.choice([0, 1]), ['w', st[w][1][:st[w][1].rfind('/') + 1] + nm])
                if st[w][1] == st[w + 1][1]: raise ValueError
            elif kind == 'hdr':
                # a source file with dependents of its own
                self.files[dirn + '/' + nm] = 'source ' + nm
                if r.random() < .6: s = '%s%02d.hsrc' % (pfx, i); self.files[dirn + '/' + s] = 'source ' + s; t['deps'].append(s)
            if kind == 'file' and (r.random() < f['p_src']):
                s = '%s%02d.src' % (pfx, i)
                self.files[dirn + '/' + s] = 'source ' + s
                t['deps'].insert(r.randint(0, len(t['deps'])), s)
            if kind == 'file' and r.random() < f['wild']:
                # whatever a directory contains
                wd = 'wd%s%02d' % (pfx, i)
                x = r.random()
                if x < .2: wd = dirn + wd               # a directory beside that of the makefile
                elif x < .3: wd = dirn + '/' + wd
                elif x < .4: wd = '../' + dirn.split('/')[-1] + wd
                self.dirs.add(norm(dirn, wd))
                fs = ['%s/%s.c' % (wd, x) for x in r.sample(['a', 'bb', 'c1', 'd2'], r.randint(1, 3))]
                for x in fs: self.files[norm(dirn, x)] = 'source ' + x
                t['deps'] += fs; t['noedit'] = True
                t['wild'] = {'pat': wd + r.choice(['/*.c', '/*', '/?*.c', '/*.*']), 'files': fs}
            if kind == 'inf':
                t['src'] = '%s%s%02d%s' % (rule['fdir'] + '/' if rule['fdir'] else '', pfx, i, rule['from'])
                self.files[dirn + '/' + t['src']] = 'source ' + t['src']
                if len(P['rules']) > 1 and rule['from'] == P['sx'][0] and r.random() < f['inf_both']:
                    # the source of the other rule is there as well: .SUFFIXES decides
                    o = next(x for x in P['rules'] if x is not rule)
                    s2 = t['src'][:-len(rule['from'])] + o['from']
                    self.files[dirn + '/' + s2] = 'source ' + s2
                # batch members with dependents of their own are fine, but mostly there are none
                if r.random() >= f['infdeps'] if f['infdeps'] is not None else r.random() < (0.75 if batch else 0.5): t['deps'] = []
                elif f['infdeps'] and not t['deps'] and ts: t['deps'] = [x['name'] for x in r.sample(ts, min(len(ts), r.choice([1, 1, 2]))) if x['kind'] != 'inf']
                if not t['deps'] and r.random() < 0.5: t['noblock'] = True
                if not batch: self.rule_tools(P, ts, t, rule)
            elif kind != 'hdr' and not t.get('frc'):
                self.block(P, ts, t, pfx, i, depth, last)
                for c in t['cmds']:
                    if c.get('pre') and r.random() < f['presp']: c['presp'] = r.choice([' ', ' ', '\t', '  '])
            ts.append(t)
            P['targets'].append(t)
        # not described inferred targets must be needed by somebody
        needed = {d for t in ts for d in t['deps']}
        for t in ts:
            if t.get('noblock') and t['name'] not in needed: t.pop('noblock')
        # the first described target of the makefile is the default goal
        top = ts[-1]
        P['targets'] = [top] + r.sample(ts[:-1], len(ts) - 1)
        if r.random() < f['sync']: self.add_sync(P, ts)
        if r.random() < f['group']: self.add_group(P, ts, pfx)
        for t in P['targets']:
            if t.get('group') or t['kind'] == 'inf': continue
            nc = len(t['cmds'])
            if t.get('syncafter') is None:
                if r.random() < f['split']: t['split'] = True
                elif r.random() < f['colons'] and len(t['deps']) > 1:
                    t['split'] = True; t['sep'] = '::'
                    t['cmdsplit'] = r.randint(0, nc) if nc else 0
                if r.random() < f['dup'] and not t.get('noedit'): t['dup'] = r.randint(1, 9)
            if r.random() < f['spelled'] and not t.get('noedit'):
                tm = {x['name']: x for x in ts}
                t['spelled'] = {d: r.choice([d.upper(), d.upper(), '"%s"' % d]) for d in t['deps'] if d in tm and not tm[d].get('noblock') and r.random() < .6}
                if not t['spelled']: t.pop('spelled')
            if t['kind'] == 'file' and r.random() < f['ats'] and '/' not in t['name'] and not t.get('noedit'):
                s = t['name'].split('.')[0] + '.src'
                if s in t['deps']: t.setdefault('spelled', {})[s] = r.choice(['$$(@B).src', '$$(@R).src'])
            if t.get('wild') and t.get('syncafter') is None:
                w = t['wild']; t.setdefault('spelled', {})
                for k, x in enumerate(w['files']): t['spelled'][x] = '' if k else w['pat']
            if r.random() < f['mac']: t['mac'] = r.randint(1, 5)
            if r.random() < f['com']: t['com'] = r.choice([1, 2, 2, 3])
            if r.random() < f['semi'] and nc and not t['cmds'][0].get('inl'): t['semi'] = True
        return P

    def rules(self, P, pfx, batch):
        """inference rules; the targets they are for are chosen later"""
        r, f = self.rng, self.f
        two = not batch and r.random() < f['inf_two']
        P['ruleslast'] = r.random() < f['ruleslast']
        fdir = tdir = ''
        if r.random() < f['inf_path']:
            fdir = r.choice(['', 'q' + pfx]); tdir = r.choice(['', 'r' + pfx])
            for d in (fdir, tdir):
                if d: self.dirs.add(P['dir'] + '/' + d)
        sx = []
        for z in 'qs'[:2 if two else 1]:
            x = '.' + z + pfx; sx.append(x)
            R = {'from': x, 'to': '.r' + pfx, 'batch': bool(batch), 'fdir': fdir, 'tdir': tdir, 'dot': r.random() < .5, 'cmds': []}
            n = r.choice([2, 2, 3]) if r.random() < f['inf_more'] else 1
            for k in range(n):
                last = k == n - 1
                kt = '' if k == 0 else chr(96 + k)
                c = {'k': 'tool' if r.random() > f['p_shell'] else 'shtool', 'args': '$<', 'pre': '@' if r.random() < f['silent'] else ''}
                if batch: c['id'] = 'b_%s%s%s' % (pfx, self.sid.upper(), kt)
                else: c['id'] = 'i%s%s%s%s_$(@F)' % (z if z != 'q' else '', pfx, self.sid.upper(), kt)
                if r.random() < f['inf_inl']:
                    c['args'] = '<<'; c['k'] = 'tool'
                    if batch: c['inl'] = [{'lines': r.choice([['$<'], ['$<', '']]), 'keep': False, 'name': ''}]
                    else: c['inl'] = [{'lines': r.choice([['rule $<'], ['$@', '$< x'], ['z' * 300, '$<', 'y'], []]), 'keep': False, 'name': ''}]
                if batch:
                    self.tools[c['id']] = [([['ia', 0]] if c.get('inl') else []) + [['s', self.dur()]] + ([['wa', '.r' + pfx] + ([fdir + '/' if fdir else '', tdir + '/' if tdir else ''] if fdir or tdir else [])] if last else []) + [['s', self.dur()]]]
                if c['pre'] and r.random() < f['presp']: c['presp'] = ' '
                R['cmds'].append(c)
            P['rules'].append(R)
        r.shuffle(sx)
        P['sx'] = sx
        P['head'].append('.SUFFIXES: ' + ' '.join(sx))

    def rule_tools(self, P, ts, t, rule):
        base = t['name'].split('/')[-1]
        for k, c in enumerate(rule['cmds']):
            tid = c['id'].replace('$(@F)', base)
            extra = []
            if c.get('inl'):
                self.expect_inl[tid] = [{'lines': [x.replace('$<', t['src']).replace('$@', t['name']) for x in i['lines']], 'keep': False, 'name': ''} for i in c['inl']]
                extra = [['i', 0], ['s', self.dur()], ['i', 0]]
            self.mk_tool(tid, [t['src']] + self.readable(P, ts, t), t['name'] if k == len(rule['cmds']) - 1 else None, extra=extra)

    def readable(self, P, ts, t):
        kinds = {x['name']: x['kind'] for x in ts}
        return [d for d in t['deps'] if kinds.get(d, 'src') != 'pseudo']

    def block(self, P, ts, t, pfx, i, depth, last):
        """the command block of a target"""
        r, f = self.rng, self.f
        nm = t['name']
        self.cur = P
        P['crlf'] = r.random() < f['crlf']; P['noeol'] = r.random() < .1; P['fmt'] = r.randint(1, 10**6) if r.random() < f['fmt'] else 0
        if r.random() < f['bom']: P['bom'] = r.choice(['utf-8', 'utf-8', 'utf-16'])
        reads = self.readable(P, ts, t)
        if f['conv'] and t['kind'] == 'pseudo':
            # nothing but recursive joms: such a build converges to doing nothing
            if last and depth > 0 and r.random() < f['p_sub'] * 2: self.subjom(P, t, depth)
            return
        if t['kind'] == 'pseudo' and (r.random() < 0.45 and t['deps']): return      # no commands
        nc = 1 if r.random() > f['p_multi'] else r.randint(2, f['maxcmds'])
        if depth > 0 and t['kind'] == 'pseudo' and r.random() < f['p_sub'] * (3 if last else 4):
            self.subjom(P, t, depth)
            nc -= 1
        cwdmoved = False
        moved = ''
        for k in range(nc):
            lastc = k == nc - 1
            tid = '%s%s%02d_%d' % (pfx, self.sid, i, k)
            pre = ''
            if r.random() < f['silent']: pre += '@'
            if r.random() < f['mods']:
                pre += r.choice(['-', '--', '-7'])
                if r.random() < .3: pre = pre.replace('@', '') + r.choice(['@', '@@', ''])
            writer = lastc and t['kind'] == 'file'
            if not writer:
                x = r.random()
                if x < f['p_echo']: t['cmds'].append({'k': 'echo', 'id': tid, 'args': 'hello', 'pre': pre}); continue
                x -= f['p_echo']
                if x < f['p_rem']: t['cmds'].append({'k': 'rem', 'text': r.choice(['rem nothing %s', ':nothing %s']) % tid, 'pre': pre}); continue
            if r.random() < f['setv'] and not writer:
                t['cmds'].append(self.setcmd(P, ts, t, pfx, tid, pre, depth)); continue
            if r.random() < f['cd'] and not writer:
                # a directory deep inside, up again, or a path from the root
                x = r.random()
                if not moved or x < .4 and moved.count('/') < 2:
                    d = r.choice(['e%s%02d', 'e%s%02d', 'e %s%02d', 'E%s.%02d']) % (pfx, i)
                    if r.random() < .2: d += '/deep'
                    new = (moved + '/' + d) if moved else d
                    if r.random() < .15: d = P['dir'] + '/' + new
                elif x < .8 and '/' in moved: d, new = '..', moved[:moved.rindex('/')]
                elif x < .9: d, new = P['dir'], ''
                else: d, new = '/'.join(['..'] * (moved.count('/') + 1)), ''
                parts = (P['dir'] + '/' + new).rstrip('/').split('/')
                for k2 in range(2, len(parts) + 1): self.dirs.add('/'.join(parts[:k2]))
                tx = r.choice(['cd %s', 'cd /d %s', 'cd "%s"', 'CD %s', 'cd /D "%s"', 'cd  %s']) % d
                t['cmds'].append({'k': 'cd', 'to': d, 'text': tx, 'pre': pre})
                moved = new
                continue
            if r.random() < f['cdfail']:
                nw = r.choice(['nowhere_', 'no/where_']) + tid
                if r.random() < .3: nw = 'f_' + tid; self.files[P['dir'] + '/' + nw] = 'no directory'; nw = r.choice(['', P['dir'] + '/']) + nw
                t['cmds'].append({'k': 'cd', 'to': nw, 'fails': 1, 'text': r.choice(['cd ', 'cd /d ']) + nw, 'pre': pre})
                if r.random() < .7: continue
            rel = '../' * (moved.count('/') + 1) if moved else ''
            c = {'k': 'shtool' if r.random() < f['p_shell'] else 'tool', 'id': tid, 'pre': pre}
            if c['k'] == 'tool' and r.random() < f['prog']: c['prog'] = r.choice(['tool.exe', 'TOOL', '"tool"', 'bin\\tool', 'remtool', 'settool', 'cdtool', 'echotool', 'copytool', 'callTool'])
            if c['k'] == 'tool' and r.random() < f['p_shell'] * 0.5: c['suffix'] = r.choice([' >nul', ' 2>&1'])
            extra = []
            if f.get('envsteps'): extra += [['e', v] for v in f['envsteps']]
            if r.random() < f['inl']: self.add_inline(t, c, extra, tid, moved)
            elif not writer and t['deps'] and r.random() < f['excl'] and not moved and not reads == [] and t['kind'] != 'inf' and not t.get('wild') \
                    and len(reads) == len(t['deps']):
                c['pre'] += '!'; c['args'] = '$**'
                self.mk_tool(tid, [], None, extra=[['ra']])
                t['cmds'].append(c); t['noedit'] = True
                continue
            elif r.random() < 0.15 and reads and not moved and not t.get('wild') and len(reads) == len(t['deps']): c['args'] = r.choice(['$**', '$@']); t['noedit'] = True
            elif r.random() < f['long']: c['args'] = 'L' * r.choice([250, 1000, 3000])
            elif r.random() < 0.3: c['args'] = r.choice(['a b', '"q r"', 'x=1', '%%y'])
            if c.get('args') in ('"q r"', '%%y'): c['args'] = 'plain'
            if writer and r.random() < f['newer'] and reads and not moved and not t.get('wild') and not c.get('inl') and not c.get('args') and not c.get('suffix') and len(reads) == len(t['deps']):
                c['args'] = 'Q= $?'; t['noedit'] = True
                self.mk_tool(tid, [], nm, extra=extra + [['ra']])
                t['cmds'].append(c)
                continue
            self.mk_tool(tid, [rel + x for x in reads] if (lastc or r.random() < 0.3) else [], (rel + nm) if writer else None, extra=extra)
            t['cmds'].append(c)

    def setcmd(self, P, ts, t, pfx, tid, pre, depth):
        """a new variable, or another value for one that was assigned earlier in the sequential order"""
        r = self.rng
        e = {x['name']: x['deps'] for x in ts}; e[t['name']] = t['deps']
        before = closure(e, t['name']) | {t['name']}
        old = [k for k, who in self.vars.items() if k[0] == P['mf'] and who <= before]
        if old and r.random() < .45: v = r.choice(old)[1]
        else:
            v = 'V%s%s%d' % (pfx.upper(), self.sid, self.nenv); self.nenv += 1
        if self.f['env'] and r.random() < .1:
            w = r.choice(sorted(self.f['env']))
            if self.vars.get((P['mf'], w), set()) <= before: v = w
        self.vars.setdefault((P['mf'], v), set()).add(t['name'])
        self.nset += 1
        raw, val = r.choice([('%s', '%s'), ('%s', '%s'), ('%s a b', '%s a b'), ('x=%s=y', 'x=%s=y'), ('50%%%%%s', '50%%%s'), ('"%s q"', '"%s q"'), ('$$%s', '$%s'), ('%s;c:/x', '%s;c:/x'), ('%s  a   b', '%s  a   b'), ('', '')])
        if depth and '$' in raw: raw, val = '%s', '%s'    # inherited values are expanded like macros, on purpose
        if raw: raw, val = raw % ('val_%s_%d' % (tid, self.nset)), val % ('val_%s_%d' % (tid, self.nset))
        name = v if r.random() < .75 else r.choice([v.lower(), v.capitalize()])
        asg = name + '=' + raw
        if r.random() < .15: asg = '"%s"' % asg
        return {'k': 'set', 'text': r.choice(['set ', 'set ', 'SET ', 'set  ']) + asg, 'var': v, 'val': val, 'pre': pre, 'seq': self.nset}

    def add_inline(self, t, c, extra, tid, moved):
        r, f = self.rng, self.f
        n = 1 if r.random() < 0.8 else 2
        c['inl'] = []; args = []
        exp = []
        for j in range(n):
            mac = r.random() < f['inlmac'] and t['kind'] != 'inf' and not t.get('wild')
            lines = ['inline %s %d line %d %s' % (tid, j, q, 'z' * r.choice([0, 0, 10, 200, 2000])) for q in range(r.choice([0, 1, 2, 3, 12]))]
            # what means something elsewhere in a makefile is nothing but text here
            for _ in range(r.choice([0, 0, 1, 2, 3])): lines.insert(r.randint(0, len(lines)), r.choice(['', '', ' ', '\t', '\tindented  ', '# no remark', 'a : b', 'X = y', 'c:\\dir\\', 'caret ^', '.SUFFIXES:', ' <<', 'x << y', '@echo off'] + ['K\xe4se \xdf\x85 \x80\xff'] * f['latin']))
            named = r.random() < f['inlname'] and not moved
            keep = r.random() < f['inlkeep']
            nm = ('n_%s_%d.inl' % (tid, j)) if named else ''
            args.append('<<' + nm)
            c['inl'].append({'lines': lines, 'keep': keep, 'name': nm})
            if mac:
                # macros, evaluated when the makefile is read or when the target is built
                t['noedit'] = True
                raw, val = r.choice([('$@', t['name']), ('$**', ' '.join(t['deps'])), ('$(IMAC)', 'inline macro value'), ('$$x', '$x'), ('100%', '100%'), ('a;b # c', 'a;b # c'), ('$(@F)', t['name'].split('/')[-1])])
                if 'IMAC' in raw and 'IMAC = inline macro value' not in self.cur['head']: self.cur['head'].insert(0, 'IMAC = inline macro value')
                c['inl'][-1] = {'lines': lines + ['m %s n' % raw], 'keep': keep, 'name': nm}
                lines = lines + ['m %s n' % val]
            exp.append({'lines': lines, 'keep': keep, 'name': nm})
            extra.append(['i', j])
        c['args'] = ' '.join(args)
        extra.append(['s', self.dur()])
        for j in range(n): extra.append(['i', j])
        self.expect_inl[tid] = exp

    def subjom(self, P, t, depth):
        r, f = self.rng, self.f
        self.nsub += 1
        k = self.nsub
        tag = 'j%d%s' % (k, self.sid)
        name = 'S%d%s' % (k, self.sid)
        pfx = 'uvwxyzabcdefgh'[k % 14] + (str(k // 14) if k >= 14 else 'k')
        own = r.random() < f['p_subvia']
        dirn = P['dir'] + '/sub%d' % k if own else P['dir']
        mf = 'sub%d.mk' % k
        opts = set(o for o in self.ropts if o in 'KIA')
        J = None
        if r.random() < f['mflags'] and self.curopts is not None and 'N' not in self.ropts:
            # the options of the calling jom
            opts = set(self.curopts); J = self.curJ
            args = r.choice([' /$(MAKEFLAGS)', ' -$(MAKEFLAGS)']) + ' /F ' + '@MF@'
        else:
            if r.random() < 0.1: opts ^= {'K'} if f['K'] else set()
            args = ''.join(' /' + o for o in sorted(opts)) + ' /F @MF@'
            if r.random() < f['p_subj']: J = -1
        if J == -1:
            J = r.choice(f['jobs'])
            args += ' /J%d' % J if r.random() < 0.5 else ' /J %d' % J
        opts |= set(o for o in self.envopts if o != 'J')
        saved = self.curtag, self.curopts, self.curJ, self.cur
        self.curtag, self.curopts, self.curJ = tag, sorted(opts), J
        Q = self.project(name, dirn, mf, pfx, depth - 1, r.randint(*f['nsubt']) if f['nsubt'] else r.randint(2, max(3, f['nt'][1] // 2)))
        self.curtag, self.curopts, self.curJ, self.cur = saved
        args = args.replace('@MF@', Q['mf'])
        goals = []
        if r.random() < f['goals'] and len(Q['targets']) > 1:
            goals = [x['name'] for x in r.sample(Q['targets'], r.choice([1, 1, 2])) if not x.get('noblock')]
            args += ''.join(' ' + g for g in goals)
        self.calls[tag] = {'project': name, 'opts': sorted(opts), 'goals': goals, 'J': J, 'parent': self.curtag}
        t['cmds'].append({'k': 'jom', 'id': tag, 'args': args.strip(), 'via': ('cd sub%d && ' % k) if own else ''})

    def add_sync(self, P, ts):
        r = self.rng
        c = [t for t in P['targets'] if len([d for d in t['deps']]) >= 2 and t['kind'] != 'inf' and not t.get('noedit')]
        if not c: return
        t = r.choice(c)
        kinds = {x['name']: x['kind'] for x in ts}
        if any(kinds.get(d) == 'inf' for d in t['deps']): return     # .SYNC does not order targets of inference rules
        deps = [d for d in t['deps'] if d in kinds]
        rest = [d for d in t['deps'] if d not in kinds]
        if len(deps) < 2: return
        # keep it acyclic: what comes later must not be needed by what comes earlier
        e = edges(P); memo = {}
        order = []
        pend = list(deps)
        while pend:
            k = next(x for x in pend if not (closure(e, x, memo) & set(pend) - {x}))
            order.append(k); pend.remove(k)
        k = r.randint(1, len(order) - 1)
        tm = {x['name']: x for x in ts}
        if any(tm[x].get('noedit') for x in order[k:]): return
        t['deps'] = rest + order
        t['syncafter'] = k + len(rest)
        x = r.random()
        if x < .25: t['sync2'] = len(rest) + r.randint(k, len(order) - 1)       # a second one, maybe right behind the first one
        elif x < .35 and rest:
            # only plain files between the two
            t['deps'] = order[:k] + rest + order[k:]
            t['syncafter'] = k; t['sync2'] = k + len(rest)

    def add_group(self, P, ts, pfx):
        """several targets sharing one description block"""
        r = self.rng
        c = [t for t in P['targets'][1:] if t['kind'] == 'file' and len(t['cmds']) == 1 and t['cmds'][0]['k'] == 'tool' and not t['cmds'][0].get('inl') and not t.get('side')
             and t.get('syncafter') is None and not t.get('group') and '$' not in t['cmds'][0].get('args', '') and t['name'].count('/') == 0]
        if len(c) < 2: return
        a, b = r.sample(c, 2)
        e = edges(P); memo = {}
        if b['name'] in closure(e, a['name'], memo) or a['name'] in closure(e, b['name'], memo): return
        allowed = list(a['deps'])
        # b takes over a's dependents when that keeps the graph acyclic
        for d in allowed:
            if d == b['name'] or b['name'] in closure(e, d, memo): return
        used = [t for t in P['targets'] if b['name'] in t['deps'] and t['name'] in closure(e, a['name'], memo)]
        if used: return
        b['deps'] = list(a['deps'])
        b.pop('split', None); a.pop('split', None)
        gid = 'm%s%s' % (pfx, self.sid)
        for t in (a, b):
            t['group'] = gid
            tid = '%s_%s' % (gid, t['name'])
            self.mk_tool(tid, self.readable(P, ts, t), t['name'])
            self.tools.pop(t['cmds'][0]['id'], None)
            t['cmds'] = [{'k': 'tool', 'id': tid, 'pre': ''}]
            t['gcmds'] = [{'k': 'tool', 'id': gid + '_$@', 'pre': ''}]

    # ---------------------------------------------------------------- the whole build
    def build(self):
        r, f = self.rng, self.f
        self.ropts = [o for o in 'AKINSY' if r.random() < f[o]]
        self.curtag = self.rtag = 'r0' if not self.sid else 'r1'
        self.J = r.choice(f['jobs'])
        if r.random() < f['defj']: self.J = None
        self.spelled = {}; self.envopts = []; self.env = dict(f['env'])
        if r.random() < f['envopts']:
            # options from the environment: they reach every jom of the tree
            self.envopts = [o for o in self.ropts if o in 'KIASY']
            v = ''.join(o if r.random() < .7 else o.lower() for o in self.envopts)
            if self.J and not f['conv'] and r.random() < .5:
                if r.random() < .5: v += '%s%d' % (r.choice('jJ'), self.J); self.envopts.append('J')
                else: v += '%s%d' % (r.choice('jJ'), r.choice([1, 2, 3, 5, 7]))        # overridden on the command line
            if v:
                self.env[r.choice(['MAKEFLAGS', 'JOMFLAGS'])] = r.choice(['', '-']) + v
                if 'JOMFLAGS' in self.env and r.random() < .3: self.env['MAKEFLAGS'] = r.choice(['I', 'N', '-A', 'J1'])
        self.curopts, self.curJ = [o for o in self.ropts if o in 'KIASY'], self.J
        P = self.project('R' + self.sid, '/w/p' + self.sid, 'Makefile', 't', f['depth'] if f['p_sub'] else 0)
        goals = []
        if r.random() < f['goals']:
            cand = [t['name'] for t in P['targets'] if not t.get('noblock')]
            goals = r.sample(cand, min(len(cand), r.choice([1, 2, 2, 3])))
        if r.random() < f['clean']: goals = self.add_clean(P, goals)
        for p in self.projects.values():
            if r.random() > f['absn'] or '/' in p['mf']: continue
            # targets with absolute names, but dependents without
            g = [x for c in self.calls.values() if self.projects[c['project']] is p for x in c['goals']] + list(goals)
            for t in p['targets'][1:] if any(t.get('frc') for t in p['targets'][:1]) else p['targets']:
                if not t.get('noedit') and not t.get('noblock') and t['kind'] != 'inf' and not t.get('group') and t['name'] not in g and r.random() < .5: t['absn'] = True
        if r.random() < f['notpar']: P['head'].append('.NOTPARALLEL:') ; P['notparallel'] = True
        if r.random() < f['spelled']: self.spelled = {x: x.upper() for x in goals if r.random() < .6}
        self.calls[self.rtag] = {'project': 'R' + self.sid, 'opts': list(self.ropts), 'goals': goals, 'J': self.J, 'parent': None, 'env': self.envopts, 'spelled': self.spelled}
        if self.J and r.random() < .08: self.calls[self.rtag]['J1'] = r.choice([1, 2, 3, 6, 9])      # the last number counts
        if r.random() < f['xerr']: self.calls[self.rtag].setdefault('noise', []).extend(r.choice([['/X', 'err.log'], ['/Xerr.log'], ['-x', '/w/tmp/err.log']]))
        elif r.random() < f['noise']: self.calls[self.rtag]['noise'] = r.sample(['/L', '/G', '/W', '/D', '/U', '/E', '/P'] + ['/R', '-r'] * (not self.nsub), r.randint(1, 2))
        if f['fail']: self.add_failures()
        for p in self.projects.values():
            if r.random() < f['ign']: self.add_ignore(p)
        self.initial()

    def add_clean(self, P, goals):
        """a goal that removes files the other goals need"""
        r = self.rng
        files = [t['name'] for t in P['targets'] if t['kind'] in ('file', 'inf')]
        if not files: return goals
        cand = [t['name'] for t in P['targets'] if not t.get('noblock')]
        tid = 't%sclean' % self.sid
        self.tools[tid] = [[['s', self.dur()]] + [['d', x] for x in r.sample(files, r.randint(1, len(files)))]]
        t = {'name': tid, 'kind': 'pseudo', 'deps': [], 'cmds': [{'k': 'tool', 'id': tid, 'pre': ''}]}
        P['targets'].insert(r.randint(1, len(P['targets'])), t)
        goals = goals or r.sample(cand, r.choice([0, 1, 1]) if len(cand) else 0)
        cand = [x for x in cand if x not in goals]      # a goal given twice is built once
        return goals + [tid] + r.sample(cand, min(len(cand), r.choice([1, 1, 2])))

    def add_ignore(self, p):
        """.IGNORE: holds from where it is written on"""
        r = self.rng
        ts = [t for t in p['targets'] if not t.get('noblock')]
        k = r.randint(0, len(ts) - 1)
        if any(t.get('group') or t.get('sep') for t in ts): return
        ts[k]['ignfrom'] = 1
        for t in ts[k:]:
            for c in t['cmds'] + t.get('gcmds', []): c['ignored'] = 1
        if p.get('ruleslast'):
            for x in p['rules']: x['ignored'] = 1

    def add_failures(self):
        r, f = self.rng, self.f
        cand = []
        for pn, p in self.projects.items():
            for t in p['targets']:
                for c in t.get('cmds', ()):
                    if c['k'] in ('tool', 'shtool'): cand.append((p, t, c))
                if t['kind'] == 'inf' and not p['rules'][0]['batch']:
                    rule = next(x for x in p['rules'] if t['src'].endswith(x['from']))
                    c = r.choice(rule['cmds'])
                    cand.append((p, t, dict(c, id=c['id'].replace('$(@F)', t['name'].split('/')[-1]), inferred=1)))
                elif t['kind'] == 'inf' and r.random() < .3: cand.append((p, t, r.choice(p['rules'][0]['cmds'])))
        if not cand: return
        n = f['fail'] if isinstance(f['fail'], int) else r.randint(*f['fail'])
        for p, t, c in r.sample(cand, min(n, len(cand))):
            st = self.tools[c['id']][0]
            if st and st[-1][0] == 'x': continue
            code = r.choice(f['failcodes'])
            if st and st[-1][0] == 'w' and r.random() < 0.5: st.pop()
            st.append(['x', code])
            if r.random() < f['p_failtol'] and not t.get('group') and not c.get('inferred'):
                j = judged(code)
                c['pre'] = c.get('pre', '').replace('-7', '').replace('-', '') + r.choice(['-', '-%d' % j, '-%d' % (j + 3), '-%d' % max(0, j - 1), '--%d' % j, '-0'])

    def initial(self):
        """files that exist before the build: sources, and results of an earlier build with some of them damaged"""
        r, f = self.rng, self.f
        init = r.choice(f['init'])
        fs = FS()
        for pth, d in self.files.items(): fs.f[pth] = (d, 0)
        self.init = {k: [v, 0] for k, v in self.files.items()}
        if init == 'scratch': return
        clean = {k: [[s for s in run if s[0] != 'x'] for run in runs] for k, runs in self.tools.items()}
        fs.clock = 0
        m = Model(self.projects, {k: dict(c, opts=[o for o in c['opts'] if o != 'N']) for k, c in self.calls.items()}, clean, fs)
        m.run(self.rtag)
        src = list(self.files)
        res = [k for k in fs.f if k not in self.files]
        out = {k: [d, t] for k, (d, t) in fs.f.items()}
        top = fs.clock + 1
        pk = 0.15 if init == 'incr' else 0.5
        for k in res:
            x = r.random()
            if x < pk * 0.6: out.pop(k)
            elif x < pk * 0.8: out[k] = ['old ' + k, -5]
        for k in src:
            if r.random() < pk:
                out[k] = ['edited ' + k, top]; top += r.choice([0, 1])
        self.init = out

# ---------------------------------------------------------------- scenario assembly
def mt_us(t): return -2000000000 + t * 1000000

def sched_params(r, strict_time=False):
    mode = r.choices(['default', 'rand', 'pct'], [1, 6, 3])[0]
    s = {'mode': mode}
    if mode == 'rand':
        s['gap'] = r.choice([0, 0, 5000, 500, 60]); s['psync'] = r.choice([1, 1, 0.3, 0.05]); s['wevent'] = r.choice([1, 1, 0.2, 5])
        s['wtime'] = 0 if strict_time else r.choice([0, 0.02, 0.02, 0.1])
    elif mode == 'pct':
        s['pct_d'] = r.choice([2, 3, 5, 8]); s['pct_len'] = r.choice([300, 2000, 10000]); s['gap'] = r.choice([0, 500, 60])
        s['wtime'] = 0 if strict_time else r.choice([0, 0.02])
    else: s['wtime'] = 0
    return s

def cfg_params(r, **kw):
    c = {'cores': r.choice([1, 2, 4, 8]), 'exit_close_us': r.choice([0, 50, 50, 2000, 30000]), 'exit_signal_us': r.choice([0, 50, 50, 2000, 30000]),
         'notify_us': r.choice([0, 50, 50, 2000, 20000]), 'spawn_us': r.choice([0, 300, 300, 5000, 20000]), 'tick_us': r.choice([1, 5, 20]),
         'gettick_gran_ms': r.choice([1, 16, 16, 64]), 'pipe_quota': r.choice([1 << 20, 1 << 20, 65536, 4096, 512]), 'max_decisions': 200000, 'max_points': 8000000, 'max_time_us': 1800000000}
    c.update(kw)
    return c

def root_args(call, p, tag, extra=()):
    a = []
    if call.get('J') is not None and 'J' not in call.get('env', ()): a += (['/J', str(call['J1'])] if call.get('J1') else []) + ['/J', str(call['J'])]
    a += ['/' + o for o in call['opts'] if o not in call.get('env', ())] + ['/NOLOGO', 'TAG=' + tag]
    if p['mf'] != 'Makefile': a += ['/F', p['mf']]
    a += call.get('noise', [])
    return a + list(extra) + [call.get('spelled', {}).get(x, x) for x in call['goals']]

def scenario(g, r, cfg=None, sched=None, extra_args=(), script=None, faults=(), triggers=()):
    files = {}
    for k, (d, t) in g.init.items(): files[k] = {'d': d, 'mt': mt_us(t)}
    for p in g.projects.values(): files[p['dir'] + '/' + p['mf']] = {'d': encoded(p), 'mt': mt_us(-100)}
    call = g.calls['r0']
    if script is None:
        script = [{'op': 'jom', 'cwd': '/w/p', 'args': root_args(call, g.projects['R'], 'r0', extra_args), 'pipe': r.random() < 0.3, 'env': dict(g.env)}]
    return {'seed': r.randrange(1 << 30), 'cfg': cfg or cfg_params(r), 'sched': sched or sched_params(r), 'dirs': sorted(g.dirs),
            'files': files, 'tools': g.tools, 'faults': list(faults), 'triggers': list(triggers), 'script': script}

def case_of(g, sc, fam, **meta):
    meta.setdefault('defj', 4)    # sched.cpp: the cores seen while jom's static objects are made
    return {'family': fam, 'projects': g.projects, 'calls': g.calls, 'init': {k: list(v) for k, v in g.init.items()}, 'inl': g.expect_inl,
            'colors': {str(k): list(v) for k, v in g.colors.items()}, 'meta': meta, 'scenario': sc}
