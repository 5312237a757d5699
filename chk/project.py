"""Abstract makefile projects: rendering to makefile text and the sequential reference semantics.

A project is a plain dict (it is stored in replay files):
  dir      directory the makefile lives in and is run from
  mf       makefile name
  head     extra text at the top (dot directives, macros)
  targets  list of dicts: name, deps, cmds, kind
             kind 'file'   the last command writes the file `name`
                  'pseudo' no file of that name is ever written
                  'inf'    built by an inference rule from `src` (no commands of its own)
           optional: 'sep' '::', 'group' (several targets share one block), 'noblock' (not described), 'sync'
  rules    inference rules: from, to, batch, cmds (templates)
  cmds     dicts: k (tool|shtool|echo|rem|set|cd|jom|raw), id, pre (prefix characters), args (text after the id), ...
"""
import re, collections, random

MASK = (1 << 64) - 1
BASIS = 1469598103934665603
def fnv(s, h=BASIS):
    for c in s.encode('latin-1'):
        h = ((h ^ c) * 1099511628211) & MASK
    return h
def hex16(v): return '%016x' % v

FORCE = float('inf')
UINT_MAX = 0xffffffff

# ------------------------------------------------------------------ rendering
def pretext(c):
    """command modifiers may be separated by spaces and tabs"""
    pre = c.get('pre', '')
    return ''.join(x + c['presp'] for x in re.findall(r'-+\d*|[@!]', pre)) if pre and c.get('presp') else pre
def cmd_text(c):
    k = c['k']
    if k in ('tool', 'shtool'): t = (c.get('prog') or k) + ' ' + c['id'] + ((' ' + c['args']) if c.get('args') else '')
    elif k == 'echo': t = 'echo ' + c['id'] + ((' ' + c['args']) if c.get('args') else '')
    elif k == 'jom': t = (c.get('via') or '') + '$(MAKE) /NOLOGO TAG=' + c['id'] + ((' ' + c['args']) if c.get('args') else '')
    else: t = c['text']
    if c.get('suffix'): t += c['suffix']
    return pretext(c) + t

def render_cmds(cmds, p=None):
    out = []
    # the same block, laid out in another way
    fmt = random.Random('%s %s' % (p['fmt'], cmds[0].get('id') or cmds[0].get('text'))) if cmds and p and p.get('fmt') else None
    for i, c in enumerate(cmds):
        if fmt and fmt.random() < .6:
            t = cmd_text(c); x = fmt.random()
            if x < .15 and i: out += fmt.choice([[''], ['# remark'], ['', '#', '']])
            elif x < .3: out += fmt.choice([['!if 0', '\ttool never', '!endif'], ['!ifdef NOSUCHMACRO', '\ttool never a', '!else', '!endif'], ['!if "a" == "b"', '\ttool never', '!elseif 1', '!endif']])
            w = t.split(' ')
            if c['k'] in ('tool', 'shtool') and not c.get('suffix') and '"' not in t and not c.get('inl') and len(w) > 2 and fmt.random() < .4:
                k = fmt.randint(2, len(w) - 1)
                t = ' '.join(w[:k]) + ' \\\n' + fmt.choice(['\t', '\t\t', '    ', '\t  ']) + ' '.join(w[k:])
            if fmt.random() < .3: t += fmt.choice([' ', '\t', '  ']) if c['k'] in ('tool', 'cd', 'jom') and not c.get('inl') else ''
            t = fmt.choice(['\t', '\t', '\t\t', ' ', '    ', ' \t']) + t
            out += ['!if 1', t, '!endif'] if 0.3 < x < .4 and not c.get('inl') else [t]
            for inl in c.get('inl', ()):
                out += inl['lines'] + ['<<KEEP' if inl.get('keep') else '<<NOKEEP' if inl.get('nokeep') else '<<']
            continue
        t = cmd_text(c)
        if p and p.get('cc') and c['k'] in ('tool', 'shtool') and not c.get('prog'): n = len(pretext(c)); t = t[:n] + '$(' + c['k'].upper() + '_)' + t[n + len(c['k']):]
        out.append('\t' + t)
        for inl in c.get('inl', ()):
            for l in inl['lines']: out.append(l)
            out.append('<<KEEP' if inl.get('keep') else '<<NOKEEP' if inl.get('nokeep') else '<<')
    return out

def spelled(t, d):
    """target names are not case sensitive, and they may be quoted"""
    sp = t.get('spelled') or {}
    return [x for x in (sp.get(x, x) for x in d) if x]

def via_macros(t, d):
    """definitions of macros, and the dependents with some of them in macros"""
    if not t.get('mac') or len(d) < 2 or '.SYNC' in d or any('$' in x for x in d): return [], d
    n = 'D_' + re.sub(r'\W', '_', t['name'])
    m = t['mac']
    if m == 1: return ['%s = %s' % (n, ' '.join(d))], ['$(%s)' % n]
    if m == 2: return ['%s=%s' % (n, ' '.join(d[1:]))], [d[0], '$(%s)' % n]
    if m == 3: return ['%s = %s \\' % (n, d[0]), '    ' + ' '.join(d[1:])], ['$(%s)' % n]
    if m == 4 and all(x.endswith('.out') for x in d): return ['%s = %s' % (n, ' '.join(x[:-4] + '.in' for x in d))], ['$(%s:.in=.out)' % n]
    return ['%s1 = %s' % (n, d[0]), '%s = $(%s1) %s' % (n, n, ' '.join(d[1:]))], ['$(%s)' % n]

def render(p):
    out = []
    out += p.get('head', [])
    if p.get('cc'): out += ['TOOL_ = tool', 'SHTOOL_=shtool']
    def rules():
        for r in p.get('rules', ()):
            fd, td = r.get('fdir', ''), r.get('tdir', '')
            if r.get('ignfrom'): out.append('.IGNORE:')
            out.append('%s%s%s%s:%s' % ('{%s}' % fd if fd else '', r['from'], '{%s}' % td if td else '{.}' if fd and r.get('dot') else '', r['to'], ':' if r.get('batch') else ''))
            out.extend(render_cmds(r['cmds'], p))
            out.append('')
    if not p.get('ruleslast'): rules()
    done = set()
    for t in p['targets']:
        if t.get('noblock') or t['name'] in done: continue
        g = t.get('group')
        names = [x['name'] for x in p['targets'] if g and x.get('group') == g] if g else [t['name']]
        done.update(names)
        if t.get('absn'): names = [p['dir'] + '/' + t['name']]
        deps = list(t['deps'])
        if t.get('ignfrom'): out.append('.IGNORE:'); out.append('')
        cmds = t.get('gcmds') or t.get('cmds') or []
        line = ' '.join(names) + (' ' if len(names[-1]) == 1 else '') + t.get('sep', ':')
        if t.get('split') and len(deps) > 1:
            # the same target described in two blocks
            h = len(deps) // 2
            out.append(line + ' ' + ' '.join(spelled(t, deps[:h])))
            # with '::' every block may have commands of its own
            if t.get('sep') == '::' and t.get('cmdsplit'): out += render_cmds(cmds[:t['cmdsplit']], p); cmds = cmds[t['cmdsplit']:]
            out.append('')
            deps = deps[h:]
        if t.get('syncafter') is not None and t['syncafter'] < len(deps):
            k = t['syncafter']
            k2 = t.get('sync2')
            if k2 is None or k2 >= len(deps): d = deps[:k] + ['.SYNC'] + deps[k:]
            else: d = deps[:k] + ['.SYNC'] + deps[k:k2] + ['.SYNC'] + deps[k2:]
        else: d = deps
        if t.get('dup') and d and t.get('syncafter') is None: d = d + [d[t['dup'] % len(d)]]
        d = spelled(t, d)
        defs, d = via_macros(t, d)
        out += defs
        s = line + (' ' + ' '.join(d) if d else '')
        if t.get('semi') and cmds and not cmds[0].get('inl'):
            # the first command behind the dependents
            out.append(s + ' ; ' + cmd_text(cmds[0]))
            out += render_cmds(cmds[1:], p); out.append('')
            continue
        if len(s) > 70 and len(d) > 2:
            h = len(d) // 2
            s = line + ' ' + ' '.join(d[:h]) + ' \\\n    ' + ' '.join(d[h:])
        if t.get('com') == 1: s += ' # remark: $(NOTHING) ' + t['name']
        out.append(s)
        if t.get('com') == 2: out.append('# a remark, not a command')
        cs = render_cmds(cmds, p)
        # a line of its own between two commands
        if t.get('com') == 3 and not p.get('fmt') and len(cmds) > 1 and not any(c.get('inl') for c in cmds): cs.insert(1, '#\tanother remark')
        out += cs
        out.append('')
    if p.get('ruleslast'): rules()
    return '\n'.join(out + p.get('tail', [])) + '\n'

# ------------------------------------------------------------------ graph
def tmap(p): return {t['name']: t for t in p['targets']}

def fulldeps(p):
    """name -> dependents (targets and plain files), those implied by .SYNC included"""
    sync = {}
    for t in p['targets']:
        for k in (t.get('syncafter'), t.get('sync2') if t.get('syncafter') is not None else None):
            if k is not None and k < len(t['deps']):
                for d in t['deps'][k:]: sync.setdefault(d, []).extend(t['deps'][:k])
    r = {}
    for t in p['targets']:
        d = []
        for x in list(t['deps']) + sync.get(t['name'], []):
            if x not in d: d.append(x)
        r[t['name']] = d
    return r

def edges(p):
    """name -> ordered list of the targets it depends on; the source of an inferred target is a plain file"""
    tm = tmap(p)
    return {n: [x for x in d if x in tm] for n, d in fulldeps(p).items()}

def closure(e, n, memo=None):
    memo = {} if memo is None else memo
    if n in memo: return memo[n]
    s = set()
    memo[n] = s
    for d in e.get(n, ()):
        s.add(d); s |= closure(e, d, memo)
    return s

# ------------------------------------------------------------------ keys: what identifies one executed command line
TOOL = re.compile(r'(?i)\b\w{0,4}tool(?:\.exe)?"?\s+(.*?)\s*(?:$|&&|\|\||\d?>|[&"])')
TAGRE = re.compile(r'\bTAG=(\w+)')
ECHO = re.compile(r'\becho\s+(.*?)\s*$')
def argkey(c):
    a = c.get('args', '').split()
    if 'Q=' in a: a = ['Q=']
    return ' '.join([c['id']] + ['<<' if x == '<<' else x.lstrip('<') for x in a])
def key_of(text):
    m = TAGRE.search(text)
    if m: return 'jom ' + m.group(1)
    m = TOOL.search(text)
    if m:
        w = m.group(1).split()
        if 'Q=' in w: w = w[:w.index('Q=') + 1]        # which dependents are newer is no part of the identity
        return ' '.join('<<' if (x.endswith('.jom') and '/' in x) else x for x in w)
    m = ECHO.search(text)
    if m: return 'echo ' + m.group(1)
    return '? ' + text

def tolerance(p, c, opts):
    """largest tolerated exit code"""
    mx = UINT_MAX if ('I' in opts or p.get('ignoreall') or c.get('ignored')) else 0
    pre = c.get('pre', '')
    i = 0
    while i < len(pre):
        if pre[i] == '-':
            while i < len(pre) and pre[i] == '-': i += 1
            j = i
            while j < len(pre) and pre[j].isdigit(): j += 1
            mx = int(pre[i:j]) if j > i else UINT_MAX
            i = j
        else: i += 1
    return mx

def judged(code):
    """the exit code jom judges: a crash counts as 2"""
    c = code & 0xffffffff
    if c == 0xf291 or c >= 0x80000000: return 2
    return c

# ------------------------------------------------------------------ reference execution
class FS:
    def __init__(self, files=None):
        self.f = dict(files or {})          # path -> (content, mtime)
        self.clock = 10 ** 15
    def copy(self):
        n = FS(self.f); n.clock = self.clock; return n
    def write(self, path, data):
        self.clock += 1
        self.f[path] = (data, self.clock)
    def mtime(self, path): return self.f[path][1] if path in self.f else None

def norm(cwd, p):
    if not p.startswith('/'): p = cwd + '/' + p
    parts = []
    for x in p.split('/'):
        if x in ('', '.'): continue
        if x == '..':
            if parts: parts.pop()
        else: parts.append(x)
    return '/' + '/'.join(parts)

class Exec:
    __slots__ = ('tag', 'phase', 'target', 'idx', 'key', 'code', 'failed', 'batch')
    def __init__(self, tag, phase, target, idx, key, code, failed, batch=None):
        self.tag, self.phase, self.target, self.idx, self.key, self.code, self.failed, self.batch = tag, phase, target, idx, key, code, failed, batch

class Model:
    """Sequential execution of a jom run and, recursively, of its sub-joms."""
    def __init__(self, projects, calls, tools, fs, counters=None):
        self.projects, self.calls, self.tools, self.fs = projects, calls, tools, fs
        self.count = dict(counters or {})
        self.execs = []             # in sequential order
        self.results = {}           # tag -> exit code
        self.all_states = collections.defaultdict(list)
        self.all_results = collections.defaultdict(list)
        self.states = {}            # tag -> list per phase of {target: state}
        self.fd = {}
        self.builtin_failed = False
        self.printed = []           # commands in dry-run order: (tag, text id)

    # -- one command's process
    def run_tool(self, tid, args, cwd):
        n = self.count.get(tid, 0)
        self.count[tid] = n + 1
        runs = self.tools.get(tid) or [[]]
        steps = runs[min(n, len(runs) - 1)]
        acc = fnv(tid)
        fs = self.fs
        for s in steps:
            op = s[0]
            if op == 'r':
                q = norm(cwd, s[1])
                if q not in fs.f: return 9
                acc = fnv(fs.f[q][0], acc ^ 0x9e37)
            elif op == 'ra':
                for x in args:
                    if x == 'Q=': continue
                    q = norm(cwd, x)
                    if q not in fs.f: return 9
                    acc = fnv(fs.f[q][0], acc ^ 0x9e37)
            elif op == 'w': fs.write(norm(cwd, s[1]), tid + ':' + hex16(acc))
            elif op == 'wt': fs.write(norm(cwd, s[1]), s[2])
            elif op == 'wa':
                for x in args:
                    q = norm(cwd, x)
                    if q not in fs.f: return 9
                    if len(s) > 2: x = s[3] + x[len(s[2]):]
                    a = fnv(fs.f[q][0], fnv(tid) ^ 0x9e37)
                    fs.write(norm(cwd, x[:x.rfind('.')] + s[1]), tid + ':' + hex16(a))
            elif op == 'd': fs.f.pop(norm(cwd, s[1]), None)
            elif op == 'x': return s[1] & 0xffffffff
        return 0

    def run(self, tag):
        call = self.calls[tag]
        p = self.projects[call['project']]
        opts = call['opts']
        keep = 'K' in opts and 'I' not in opts
        goals = call['goals'] or ([p['targets'][0]['name']] if p['targets'] else [])
        tm = tmap(p)
        e = edges(p)
        self.fd[call['project']] = fulldeps(p)
        failedAny = False
        self.states[tag] = []; self.all_states[tag].append(self.states[tag])
        for ph, goal in enumerate(goals):
            st = {}         # name -> dict(eff, res)
            self.states[tag].append(st)
            stop = self.visit(tag, call, p, tm, e, goal, ph, st, opts, keep)
            if any(s['res'] == 'failed' for s in st.values()):
                failedAny = True
                if not keep:
                    self.results[tag] = 2; self.all_results[tag].append(2)
                    return 2
        self.results[tag] = 1 if failedAny else 0; self.all_results[tag].append(self.results[tag])
        return self.results[tag]

    def visit(self, tag, call, p, tm, e, name, ph, st, opts, keep):
        if name in st: return
        t = tm[name]
        fs = self.fs
        cwd = p['dir']
        st[name] = None
        for d in e[name]:
            self.visit(tag, call, p, tm, e, d, ph, st, opts, keep)
        if any(st[d]['res'] in ('failed', 'unbuildable') for d in e[name]):
            st[name] = {'res': 'unbuildable', 'eff': FORCE, 'why': 'dep'}
            return
        path = norm(cwd, name)
        exists = path in fs.f
        mt = fs.mtime(path)
        deps = list(self.fd[call['project']][name])
        inf = t['kind'] == 'inf'
        if inf and t['src'] not in deps: deps.append(t['src'])
        def eff(d):
            if d in st and st[d] is not None: return st[d]['eff']
            m = fs.mtime(norm(cwd, d))
            return FORCE if m is None else m
        latest = max([eff(d) for d in deps]) if deps else None
        cmds = self.commands(p, t)
        if not deps: ood = not exists
        else: ood = not exists or latest > mt
        if 'A' in opts: ood = True
        if not cmds:
            # nothing to run; the time stamp of a target without commands is the latest one it depends on
            if exists: ef = mt
            elif deps: ef = latest
            else: ef = FORCE
            st[name] = {'res': 'empty' if ood else 'uptodate', 'eff': ef}
            return
        if not ood:
            st[name] = {'res': 'uptodate', 'eff': mt}
            return
        newer = [d for d in t['deps'] if (mt if exists else -FORCE) <= (fs.mtime(norm(cwd, d)) if norm(cwd, d) in fs.f else -FORCE)]
        failed = False
        cd = cwd
        dry = 'N' in opts
        for i, c in enumerate(cmds):
            code = 0
            key = None
            k = c['k']
            self.printed.append((tag, name, c))
            if dry: continue
            if k in ('rem', 'set'): pass
            elif k == 'cd':
                if c.get('fails'): code = 1
                else: cd = norm(cd, c['to'])
            elif k == 'jom':
                key = 'jom ' + c['id']
                rec = Exec(tag, ph, name, i, key, 0, False)
                self.execs.append(rec)
                code = self.run(c['id'])
                rec.code = code
            elif k == 'echo': key = ('echo ' + c['id'] + ' ' + c.get('args', '')).strip()
            elif k in ('tool', 'shtool'):
                args = c.get('args', '').split()
                if 'Q=' in args:
                    # $? stands for the dependents that were not older than the target when its first command was prepared
                    key = c['id'] + ' Q='
                    args = ['Q='] + newer
                else: key = ' '.join([c['id']] + ['<<' if x.startswith('<<') and x == '<<' else x.lstrip('<') for x in args])
                code = self.run_tool(c['id'], list(args), cd)
                if c.get('batch'): key = None
            if key is not None and k != 'jom':
                rec = Exec(tag, ph, name, i, key, code, False)
                self.execs.append(rec)
            elif c.get('batch'):
                rec = Exec(tag, ph, name, i, c['id'] + ' ' + t['src'], code, False, batch=(c['id'], t['src']))
                self.execs.append(rec)
            if judged(code) > tolerance(p, c, opts):
                if key is not None or c.get('batch'): rec.failed = True
                else: self.builtin_failed = True
                failed = True
                break
        if failed: st[name] = {'res': 'failed', 'eff': FORCE, 'cmd': i}
        else:
            m = fs.mtime(path)
            st[name] = {'res': 'built', 'eff': FORCE if (not exists or m is None or dry) else m}

    def commands(self, p, t):
        """the command lines of a target, with inference rules and '!' applied"""
        cmds = t.get('cmds') or []
        if t['kind'] == 'inf':
            r = next(r for r in p['rules'] if r['from'] == t['src'][t['src'].rfind('.'):] and r['to'] == t['name'][t['name'].rfind('.'):])
            cmds = []
            for c in r['cmds']:
                d = dict(c)
                if 'id' in c: d['id'] = c['id'].replace('$(@F)', t['name'].split('/')[-1])
                if r.get('ignored'): d['ignored'] = 1
                if c.get('args'): d['args'] = c['args'].replace('$<', t['src']).replace('$@', t['name'])
                if r.get('batch') and ('$<' in c.get('args', '') or any('$<' in x for i in c.get('inl', ()) for x in i['lines'])):
                    d['batch'] = True; d['args'] = t['src']
                cmds.append(d)
        out = []
        for c in cmds:
            if '!' in c.get('pre', ''):
                for d in t['deps']:
                    n = dict(c); n['pre'] = c['pre'].replace('!', ''); n['args'] = c.get('args', '').replace('$**', d)
                    out.append(n)
            elif '$' in c.get('args', ''):
                n = dict(c); n['args'] = c['args'].replace('$**', ' '.join(t['deps'])).replace('$@', t['name']); out.append(n)
            else: out.append(c)
        return out

def encoded(p):
    t = render(p)
    if p.get('noeol'): t = t.rstrip('\n')
    if p.get('crlf'): t = t.replace('\n', '\r\n')
    if p.get('bom') == 'utf-8': return '\xef\xbb\xbf' + t.encode('utf-8').decode('latin-1')
    if p.get('bom') == 'utf-16': return ('\ufeff' + t).encode('utf-16-le').decode('latin-1')
    return t
