"""The properties as predicates over a history. Every oracle returns a list of violation texts (empty: held)."""
import collections, re
from project import *
from history import *

SEC = 1000000
TERM_US = 20 * SEC          # P05: time to end after the last command ended
START_US = 3 * SEC          # P06/P07: bound for starting, noticing

# ------------------------------------------------------------------ expectation
class Expect:
    """the sequential reference run of one top-level call, with batches taken from the history"""
    def __init__(self, case, files, counters=None, tag='r0'):
        fs = FS(files)
        self.m = Model(case['projects'], case['calls'], case['scenario']['tools'], fs, counters)
        self.code = self.m.run(tag)
        self.execs = self.m.execs
        self.keys = collections.Counter((e.tag, e.key) for e in self.execs if e.key)

def init_files(case):
    f = {k: (v[0], v[1]) for k, v in case['init'].items()}
    for p in case['projects'].values(): f[p['dir'] + '/' + p['mf']] = (encoded(p), -100)
    return f

def is_batch(key): return key.startswith('b_')
def split_batch(key):
    w = key.split()
    return [w[0] + ' ' + x for x in w[1:]] if is_batch(key) else [key]

def actual_keys(h, run=None):
    c = collections.Counter()
    for j in h.joms:
        if run is not None and j.root != run: continue
        for x in h.execs(j):
            if is_batch(x.key) and '<<' in x.key: continue      # it never read its inline file
            for k in split_batch(x.key): c[(j.tag, k)] += 1
    return c

class Bind:
    """attaches every executed command to the target, command index and goal phase it belongs to"""
    def __init__(self, case, h):
        self.case, self.h = case, h
        self.unknown = []
        for j in h.joms:
            call = case['calls'].get(j.tag)
            if not call: continue
            p = case['projects'][call['project']]
            tab = self.table(p)
            goals = call['goals'] or [p['targets'][0]['name']]
            e = edges(p); memo = {}
            reach = [{g} | closure(e, g, memo) for g in goals]
            seen = collections.Counter()
            for x in h.execs(j):
                ms = []
                for k in split_batch(x.key):
                    if k not in tab: self.unknown.append((j, x, k)); continue
                    ms.append((k,) + tab[k])
                if not ms: x.members = []; continue
                x.members = []
                for k, t, i in ms:
                    # the n-th execution of a command belongs to the n-th goal that needs the target
                    phs = [q for q, s in enumerate(reach) if t in s]
                    n = seen[k]; seen[k] += 1
                    x.members.append((t, i, n))
                x.target, x.cidx = ms[0][1], ms[0][2]
    @staticmethod
    def table(p):
        m = Model({}, {}, {}, FS())
        tab = {}
        for t in p['targets']:
            for i, c in enumerate(m.commands(p, t)):
                if c['k'] in ('rem', 'set', 'cd'): continue
                if c['k'] == 'jom': k = 'jom ' + c['id']
                elif c['k'] == 'echo': k = ('echo ' + c['id'] + ' ' + c.get('args', '')).strip()
                elif c.get('batch'): k = c['id'] + ' ' + t['src']
                else: k = argkey(c)
                tab[k] = (t['name'], i)
        return tab

def failed_exec(case, j, x):
    """did this command fail its target?"""
    if x.code is None: return False
    call = case['calls'][j.tag]; p = case['projects'][call['project']]
    t = tmap(p).get(x.target)
    if t is None: return False
    c = Model({}, {}, {}, FS()).commands(p, t)[x.cidx]
    return judged(x.code) > tolerance(p, c, set(call['opts']))

def failing_builtin(case, tag):
    """target -> index of the first 'cd' that fails it"""
    call = case['calls'][tag]; p = case['projects'][call['project']]
    r = {}
    for t in p['targets']:
        for i, c in enumerate(t.get('cmds') or ()):
            if c.get('fails') and tolerance(p, c, set(call['opts'])) < 1: r[t['name']] = i; break
    return r

# ------------------------------------------------------------------ P01
def p01(case, h):
    v = []
    b = Bind(case, h)
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call: continue
        p = case['projects'][call['project']]
        e = edges(p); memo = {}
        xs = [x for x in h.execs(j) if x.members]
        ngoals = len(call['goals'])
        for x in xs:
            for t, i, n in x.members:
                need = closure(e, t, memo)
                for y in xs:
                    if y is x or not y.members: continue
                    late = y.exit is None or y.exit > x.spawn
                    if not late: continue
                    for u, k, m in y.members:
                        same = u == t and m == n and k < i
                        if same:
                            v.append("command %r of target '%s' was started before its earlier command %r had ended" % (x.key, t, y.key))
                        if u in need and u != t:
                            # with several goals a dependent may be built again later; only its first run counts then
                            if ngoals > 1 and (y.spawn > x.spawn): continue
                            v.append("target '%s' was started (%r) before its dependent '%s' was done (%r)" % (t, x.key, u, y.key))
    return v

# ------------------------------------------------------------------ P02
def p02(case, h, exp=None):
    v = []
    exp = exp or Expect(case, init_files(case))
    r = h.roots[0]
    got = actual_keys(h)
    extra = got - exp.keys; missing = exp.keys - got
    if extra: v.append('executed more often than a sequential build does: %s' % fmtkeys(extra))
    if exp.code == 0 and r.code != 0 and h.status == 'done': v.append('a build that must succeed ended with exit code %s' % code_s(r.code))
    if r.code == 0:
        if missing: v.append('reported success without executing: %s' % fmtkeys(missing))
        for path, (d, t) in exp.m.fs.f.items():
            a = h.files.get(path)
            if a is None: v.append('after success %s does not exist' % path)
            elif a['data'] != d[:4096]: v.append('after success %s contains %r instead of %r' % (path, a['data'][:60], d[:60]))
        for path in h.files:
            if path not in exp.m.fs.f and not path.startswith('/w/tmp/') and not path.endswith('.inl') and path not in case['scenario']['files']:
                v.append('unexpected file %s' % path)
    return v

def loose_tags(case, exp):
    """joms below a failing jom without /K: what they still build depends on the order"""
    loose = set()
    for t, c in case['calls'].items():
        a = t
        while a is not None:
            o = set(case['calls'][a]['opts'])
            if ('K' not in o or 'I' in o) and any(exp.m.all_results[a]): loose.add(t); break
            a = case['calls'][a]['parent']
    return loose

def code_s(c): return 'none' if c is None else str(c if c < 1 << 31 else c - (1 << 32))
def fmtkeys(c): return ', '.join('[%s] %s%s' % (k[0], k[1], ' x%d' % n if n > 1 else '') for k, n in sorted(c.items())[:6])

# ------------------------------------------------------------------ pools
def pools(case):
    """call tag -> (pool owner's tag, N)"""
    r = {}
    def go(tag):
        if tag in r: return r[tag]
        c = case['calls'][tag]
        if c['parent'] is None: r[tag] = (tag, c['J'] or case['meta'].get('defj', 1))
        else:
            o, n = go(c['parent'])
            r[tag] = (tag, c['J']) if c.get('J') is not None and c['J'] != n else (o, n)
        return r[tag]
    for t in case['calls']: go(t)
    return r

def p03(case, h):
    v = []
    pl = pools(case)
    names = {}
    for e in h.res.ev:
        if e['k'] == 'sem' and e['op'] == 'new' and e['p'] in h.pr:
            j = h.pr[e['p']]
            if e['name'] in names.values(): v.append('two job servers share the pool %s' % e['name'])
            names[j.idx] = e['name']
    groups = collections.defaultdict(list)
    for j in h.joms:
        if j.tag not in pl: continue
        owner, n = pl[j.tag]
        # two top-level runs have pools of their own
        o = j
        while o.par is not None and not (o.tag == owner and o.jom):
            o = o.par
        groups[(o.idx, n)].append(j)
    for (oi, n), js in groups.items():
        ev = []
        for j in js:
            for x in h.execs(j):
                if not x.leaf: continue
                ev.append((x.spawn, 1, x)); ev.append((x.exit if x.exit is not None else 1 << 60, -1, x))
        live = {}
        for pos, d, x in sorted(ev, key=lambda z: z[:2]):
            if d > 0:
                live[x.idx] = x
                if len(live) > n:
                    v.append('%d commands run at once in a pool of %d: %s' % (len(live), n, ' | '.join(y.key for y in live.values()))); break
            else: live.pop(x.idx, None)
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if call and case['projects'][call['project']].get('notparallel'):
            xs = sorted(h.execs(j), key=lambda x: x.spawn)
            for a, b in zip(xs, xs[1:]):
                if a.exit is None or a.exit > b.spawn: v.append('.NOTPARALLEL makefile runs %r and %r at once' % (a.key, b.key)); break
    return v

def ended_by_itself(j): return j.exit is not None and not j.killed and not j.crashed and not j.abort

def p02_bad(case, h):
    """a goal, a dependent or an order that does not exist: success must not be reported"""
    v = []
    Bind(case, h)
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call or not ended_by_itself(j): continue
        p = case['projects'][call['project']]
        fd = fulldeps(p); goals = call['goals'] or [p['targets'][0]['name']]
        state = {}; bad = set()
        def visit(n):
            if n == 'nowhere.src': bad.add('the dependent nowhere.src is missing')
            if n in state:
                if state[n] == 1: bad.add('a cycle')
                return
            state[n] = 1
            for d in fd.get(n, ()): visit(d)
            state[n] = 2
        for g in goals:
            if g == 'nosuchgoal': bad.add('the goal does not exist')
            visit(g)
        if not bad: continue
        if j.code == 0: v.append('jom [%s] reports success: %s' % (j.tag, ', '.join(sorted(bad))))
        for x in h.execs(j):
            if bad != {'the dependent nowhere.src is missing'}: v.append('jom [%s] runs %r: %s' % (j.tag, x.key, ', '.join(sorted(bad)))); break
            if x.members and any('nowhere.src' in fd.get(t, ()) for t, i, n in x.members): v.append("jom [%s] runs %r without its dependent nowhere.src" % (j.tag, x.key)); break
    return v

def p04(case, h):
    """conservation of tokens, and: commands running <= 1 + tokens held, at every moment"""
    v = []
    held = collections.Counter(); live = collections.Counter()
    name_init = {}
    # a token that a failing semaphore operation does not deliver cannot be returned either
    first_kill = min([e0 for e0, e in enumerate(h.res.ev) if e['k'] in ('killed', 'crash', 'abort') or (e['k'] == 'fault' and e['site'] == 'SemAcquire') or (e['k'] == 'trigger' and e['d'] != 'clock')] or [1 << 60])
    def over(p, why):
        if live[p] > held[p] + 1: v.append('jom [%s] %s %d commands with %d job tokens besides its own' % (h.pr[p].tag, why, live[p], held[p]))
    for pos, e in enumerate(h.res.ev):
        if e['k'] == 'sem':
            if e['op'] == 'new': name_init[e['name']] = e['v']
            elif e['op'] == 'acq': held[e['p']] += 1
            elif e['op'] == 'rel':
                held[e['p']] -= 1
                if held[e['p']] < -1: v.append('jom [%s] returned a job token it had not taken' % h.pr[e['p']].tag)
                over(e['p'], 'returned a job token while running')
        elif e['k'] == 'spawn' and e['par'] in h.pr and h.pr[e['par']].jom and not e.get('gc'):
            live[e['par']] += 1; over(e['par'], 'runs')
        elif e['k'] == 'exit' and e['p'] in h.pr:
            q = h.pr[e['p']]
            if q.par is not None and q.par.jom and q.key != '(grandchild)': live[q.par.idx] -= 1
            if not q.jom: continue
            if held[e['p']] != 0 and ended_by_itself(q) and pos < first_kill:
                v.append('jom [%s] ended with exit code %s and %s %d job token(s)' % (q.tag, code_s(q.code), 'kept' if held[e['p']] > 0 else 'returned a surplus of', abs(held[e['p']])))
        elif e['k'] == 'semdrop' and pos < first_kill:
            if e['name'] in name_init and e['v'] != name_init[e['name']]:
                v.append('the pool %s ends with %d tokens instead of %d' % (e['name'], e['v'], name_init[e['name']]))
    return v

def p05(case, h):
    v = []
    if h.status in ('deadlock', 'timecap', 'stepcap'):
        left = [q for q in h.pr.values() if q.exit is None]
        if not any(not q.jom and q.leaf for q in left) or h.status == 'deadlock':
            v.append('the build never ends (%s): %s still running; %s' % (h.status, ', '.join('jom [%s]' % q.tag if q.jom else repr(q.key) for q in left[:5]), threads_s(h)))
        return v
    for j in h.joms:
        if j.exit is None: continue
        last = max([j.spawn_t or 0] + [x.sig_t or x.exit_t or 0 for x in h.below(j) if x.key != '(grandchild)' and not x.jom])
        if j.exit_t - last > TERM_US + case['meta'].get('slack_us', 0):
            v.append('jom [%s] ended %.1f s after its last command' % (j.tag, (j.exit_t - last) / 1e6))
    for j in h.joms:
        if j.crashed: v.append('jom [%s] crashed (%s)' % (j.tag, j.crashed))
        elif j.abort: v.append('jom [%s] aborted' % j.tag)
    return v

def threads_s(h):
    return ' '.join('p%d/thread%d in %s' % (e['p'], e['role'], e['in']) for e in h.res.ev if e['k'] == 'thread')

# ------------------------------------------------------------------ P06
def p06(case, h, exp=None, keep=False):
    """a ready target, a free slot and a free token (or nothing running at all) must lead to a start soon"""
    v = []
    exp = exp or Expect(case, init_files(case))
    b = Bind(case, h)
    pl = pools(case)
    bound = START_US
    nth = collections.Counter()
    ntag = collections.Counter(j.tag for j in h.joms)
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call or j.tag not in exp.m.states: continue
        # a sub-jom may be started more than once
        if ntag[j.tag] != len(exp.m.all_states[j.tag]): continue
        states = exp.m.all_states[j.tag][nth[j.tag]]
        nth[j.tag] += 1
        # without /K nothing is started after a failure
        if 'K' not in call['opts'] and any(x and x['res'] == 'failed' for st in states for x in st.values()): continue
        p = case['projects'][call['project']]
        if p.get('notparallel'): n = 1
        else: n = pl[j.tag][1]
        e = edges(p); memo = {}
        goals = call['goals'] or [p['targets'][0]['name']]
        if len(goals) != len(states): continue
        xs = sorted([x for x in h.execs(j) if x.members], key=lambda x: x.spawn)
        tab = Bind.table(p)
        ncmd = collections.Counter(t for t, i in tab.values())
        # targets each phase builds, with their number of command lines that start a process
        plan = []
        for ph, st in enumerate(states):
            plan.append({t: s for t, s in st.items() if s and s['res'] in ('built', 'failed')})
        last_exit = {}
        spans = [collections.OrderedDict() for _ in plan]
        cnt = collections.Counter()
        for x in xs:
            for t, i, k in x.members:
                phs = [ph for ph in range(len(plan)) if t in plan[ph]]
                if not phs: continue
                if any('!' in c.get('pre', '') for c in tmap(p)[t].get('cmds', ())): continue
                ph = phs[min(k, len(phs) - 1)]
                s = spans[ph].setdefault(t, [x.spawn_t, 0])
                s[1] = max(s[1], x.exit_t if x.exit_t is not None else 1 << 60)
        # semaphore value over time, as seen from this jom
        name = j.envkey
        for ev in h.res.ev:
            if ev['k'] == 'sem' and ev['p'] == j.idx and ev['op'] == 'new': name = ev['name']
        # the pool has to have N tokens less the one every jom starts with, whatever it was created with
        made = [ev['v'] for ev in h.res.ev if ev['k'] == 'sem' and ev.get('name') == name and ev['op'] == 'new']
        lack = pl[j.tag][1] - 1 - made[0] if made else 0
        steps = [(ev['t'], ev['v'] + lack) for ev in h.res.ev if ev['k'] == 'sem' and ev.get('name') == name and 'v' in ev and ev['op'] != 'want']
        # tokens this jom took minus tokens it returned; below 0 it lent the one it starts with
        held = []; hv = 0
        for ev in h.res.ev:
            if ev['k'] == 'sem' and ev['p'] == j.idx and ev['op'] in ('acq', 'rel'):
                hv += 1 if ev['op'] == 'acq' else -1
                held.append((ev['t'], hv))
        started = [ev['t'] for ev in h.res.ev if ev['k'] == 'jom' and ev['p'] == j.idx][0]
        t0 = started
        jend = j.exit_t if j.exit_t is not None else h.end_t()
        for ph, tg in enumerate(plan):
            sp = spans[ph]
            # commands not bound (prefix '!') make the spans unknown: skip such phases
            if any(t in tg and any('!' in c.get('pre', '') for c in tmap(p)[t].get('cmds', ())) for t in tg): break
            starts = sorted(sp.values())
            ready_at = {}
            for t in tg:
                deps = [d for d in closure(e, t, memo) if d in tg and ncmd[d]]
                if not ncmd[t]: continue
                if all(d in sp and sp[d][1] < 1 << 60 for d in deps):
                    ready_at[t] = max([t0] + [sp[d][1] for d in deps])
            for t, ra in ready_at.items():
                st = sp[t][0] if t in sp else jend
                if st - ra <= bound: continue
                # was there an interval of `bound` in which a slot and a token were free all the time?
                pts = sorted({ra, st} | {a for a, _ in sp.values() if ra < a < st} | {b_ for _, b_ in sp.values() if ra < b_ < st} | {tt for tt, _ in steps + held if ra < tt < st})
                free_since = None
                for a in pts[:-1]:
                    running = sum(1 for s, f in sp.values() if s <= a < f)
                    value = 0
                    for tt, vv in steps:
                        if tt <= a: value = vv
                        else: break
                    own = 0
                    for tt, vv in held:
                        if tt <= a: own = vv
                        else: break
                    # a token it took and does not use is as good as one in the pool
                    free = running < n and (value > 0 or own >= running)
                    if not free: free_since = None; continue
                    if free_since is None: free_since = a
                    nxt = pts[pts.index(a) + 1]
                    if nxt - free_since > bound:
                        v.append("target '%s' [%s] was ready at %.3f s but not started until %.3f s although %s (%d running)" %
                                 (t, j.tag, ra / 1e6, st / 1e6, 'nothing was running' if running == 0 else '%d job token(s) were free' % max(value, own + 1 - running), running))
                        break
            if sp: t0 = max(b_ for _, b_ in sp.values())
            if t0 >= 1 << 60: break
    return v

# ------------------------------------------------------------------ P07
ERR = re.compile(r'jom: (\S+) \[([^\]]*)\] Error (\d+)')
def errs_of(case, text):
    """(target, exit code) of every failure named in the text"""
    r = []
    for _, t, c in ERR.findall(text):
        for p in case['projects'].values():
            if t.startswith(p['dir'] + '/') and t[len(p['dir']) + 1:] in tmap(p): t = t[len(p['dir']) + 1:]; break
        r.append((t, int(c)))
    return r
def errors_of(h, root): return ERR.findall(h.con(h.roots[root].idx, 2))

def ascii_only(s): return ''.join(c for c in s if c < '\x80')

def p07(case, h):
    v = []
    Bind(case, h)
    exp = Expect(case, init_files(case))
    r = h.roots[0]
    if h.status == 'done' and r.exit is not None and exp.code:
        if r.code != exp.code: v.append('the build ended with %s instead of %s' % (code_s(r.code), code_s(exp.code)))
        if not ERR.search(ascii_only(h.con(r.idx, 2))): v.append('no failed target is named')
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call or j.exit is None: continue
        opts = set(call['opts'])
        p = case['projects'][call['project']]
        bad = [x for x in h.execs(j) if x.members and x.exit is not None and failed_exec(case, j, x)]
        if 'K' in opts or 'I' in opts: 
            if bad and 'K' in opts and j.code == 0: v.append("jom [%s] ended with 0 although a command of '%s' failed" % (j.tag, bad[0].target))
            continue
        if not bad: continue
        bad.sort(key=lambda x: x.exit)
        f = bad[0]
        if j.code != 2: v.append("jom [%s] ended with %s although %r of target '%s' failed with %s" % (j.tag, code_s(j.code), f.key, f.target, code_s(f.code)))
        e = edges(p); memo = {}
        starts = {}
        for x in h.execs(j):
            for t, i, n in x.members or ():
                for y in bad:
                    if y is x: continue
                    if t in [m[0] for m in y.members] and n == y.members[0][2] and x.spawn > y.exit: v.append("command %r of target '%s' was started after %r of it had failed" % (x.key, t, y.key))
                    if any(m[0] in closure(e, t, memo) for m in y.members) and x.spawn > y.exit: v.append("target '%s' was started although its dependent '%s' had failed" % (t, y.target))
                if i == min([k for (u, k) in Bind.table(p).values() if u == t]) or (t, n) not in starts:
                    starts.setdefault((t, n), x)
        for (t, n), x in starts.items():
            if x.spawn > f.exit and x.spawn_t - (f.sig_t or f.exit_t) > START_US and x is not f:
                v.append("target '%s' was started %.1f s after %r of target '%s' had failed" % (t, (x.spawn_t - f.exit_t) / 1e6, f.key, f.target))
        if j.par is None:
            errs = errs_of(case, ascii_only(h.con(j.idx, 2)))
            if not any(t == f.target for t, c in errs):
                # several commands may fail at about the same time; each one noticed must be named
                if not any(t == y.target for y in bad for t, c in errs): v.append("the failure of target '%s' (%r) is not reported" % (f.target, f.key))
            # position of the first report of this jom against later starts
            acc = ''
            pos = None
            for q, ev in enumerate(h.res.ev):
                if ev['k'] == 'con' and ev['root'] == j.idx and ev['s'] == 2:
                    acc += ascii_only(ev['d'])
                    if any(('%s [%s] Error' % (p['mf'], y.target)) in acc for y in bad): pos = q; break
            if pos is not None:
                for (t, n), x in starts.items():
                    if x.spawn > pos: v.append("target '%s' was started after jom had reported the failure of '%s'" % (t, f.target))
    return v

# ------------------------------------------------------------------ P08: /K
def p08(case, h, exp=None):
    v = []
    exp = exp or Expect(case, init_files(case))
    r = h.roots[0]
    if r.exit is None: return v
    got = actual_keys(h)
    extra = got - exp.keys; missing = exp.keys - got
    loose = loose_tags(case, exp)
    for k in list(missing):
        if k[0] in loose: del missing[k]
    if extra: v.append('with /K started although it must not be: %s' % fmtkeys(extra))
    if missing: v.append('with /K not built although it does not depend on a failure: %s' % fmtkeys(missing))
    ntag = collections.Counter(j.tag for j in h.joms)
    for j in h.joms:
        if ntag[j.tag] > 1 or len(exp.m.all_results[j.tag]) > 1: continue
        if j.tag in exp.m.results and j.exit is not None and j.code != exp.m.results[j.tag] and not extra and not missing:
            v.append('jom [%s] /K ended with exit code %s instead of %d' % (j.tag, code_s(j.code), exp.m.results[j.tag]))
    return v

# ------------------------------------------------------------------ P09
def p09(case, h, exp=None):
    v = []
    exp = exp or Expect(case, init_files(case))
    Bind(case, h)
    r = h.roots[0]
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call or j.exit is None: continue
        bad = [x for x in h.execs(j) if x.members and failed_exec(case, j, x)]
        opts = set(call['opts'])
        allended = all(x.exit is not None for x in h.execs(j))
        if not bad and j.code != 0 and allended and not failing_builtin(case, j.tag): v.append('jom [%s] ended with %s although every command line returned a tolerated exit code' % (j.tag, code_s(j.code)))
        want = 0 if not bad else 1 if 'K' in opts and 'I' not in opts else 2
        if bad and j.code != want: v.append("jom [%s] ended with %s instead of %d although %r returned %s" % (j.tag, code_s(j.code), want, bad[0].key, code_s(bad[0].code)))
    # messages: exactly the failing targets, with their exit codes
    if r.code is not None:
        want = collections.Counter()
        for j in h.joms:
            for x in h.execs(j):
                if x.members and x.exit is not None and failed_exec(case, j, x):
                    want[(x.target, judged(x.code) if not (x.code >= 1 << 31) else 2)] += 1
        got = collections.Counter(errs_of(case, ascii_only(h.con(r.idx, 2))))
        for k in list(got):
            # a directory that does not exist
            if k[1] == 1 and any(k[0] in failing_builtin(case, j.tag) for j in h.joms if j.tag in case['calls']): got[k] = min(got[k], want[k])
            if got[k] > want[k]: v.append("reported: target '%s' Error %d, which no command of it returned" % k)
        for k in want:
            if got[k] < want[k]: v.append("target '%s' failed with %d but this is not reported" % k)
        if r.code != exp.code and h.status == 'done': v.append('the build ended with %s instead of %s' % (code_s(r.code), code_s(exp.code)))
    if exp.code == 0 and r.code == 0:
        miss = exp.keys - actual_keys(h)
        loose = loose_tags(case, exp)
        for k in list(miss):
            if k[0] in loose: del miss[k]
        if miss: v.append('not executed after a tolerated exit code: %s' % fmtkeys(miss))
    return v

# ------------------------------------------------------------------ P10
def pattern_bytes(color, pos, n):
    return [0x80 + 2 * color + PAT[(color * 7919 + pos + i) % 65521] for i in range(n)]
def _pat():
    st = 12345; r = []
    for _ in range(65521):
        st = (st * 1103515245 + 12345) & 0xffffffff; r.append((st >> 16) & 1)
    return r
PAT = _pat()

def p10(case, h):
    v = []
    r = h.roots[0]
    if r.exit is None: return v
    written = collections.defaultdict(lambda: collections.defaultdict(int))     # (color, stream) -> process -> bytes
    order = collections.defaultdict(list)
    cut = set()
    text = collections.Counter()
    for e in h.res.ev:
        if e['k'] == 'out':
            if e.get('tag') == -1: continue
            if 'col' in e:
                k = (e['col'], e['s'])
                if e['p'] not in written[k]: order[k].append(e['p'])
                written[k][e['p']] += e['n']
        elif e['k'] in ('epipe', 'killed'): cut.add(e['p'])
    for s in (1, 2):
        con = h.con(r.idx, s)
        got = collections.defaultdict(list)
        for i, ch in enumerate(con):
            o = ord(ch)
            if o >= 0x80: got[(o - 0x80) >> 1].append(o)
        for (c, st), per in written.items():
            if st != s: continue
            want = []
            for p in order[(c, st)]: want += pattern_bytes(c, 0, per[p])
            g = got.pop(c, [])
            if g != want:
                who = case['colors'].get(str(c), ['?'])[0]
                k = 0
                while k < min(len(g), len(want)) and g[k] == want[k]: k += 1
                v.append("output of %s on stream %d: %d bytes written, %d shown, first difference at byte %d" % (who, s, len(want), len(g), k))
        for c, g in got.items():
            who = case['colors'].get(str(c), ['?'])[0]
            v.append("stream %d shows %d bytes of %s that were not written there" % (s, len(g), who))
    # the lines jom prints itself: every command line of every jom exactly once
    t = ascii_only(h.con(r.idx, 1))
    if '/P' not in case['calls']['r0'].get('noise', ()):     # /P shows the makefile itself
        Bind(case, h)
        want = collections.Counter(); loose = set()
        for j in h.joms:
            for x in h.execs(j):
                if x.members is None: continue
                call = case['calls'][j.tag]; p = case['projects'][call['project']]
                c = Model({}, {}, {}, FS()).commands(p, tmap(p)[x.target])[x.cidx]
                if '@' in c.get('pre', '') or 'S' in call['opts']: continue
                cmd = x.cmd
                if cmd.startswith('cmd.exe /C '):
                    cmd = cmd[11:]
                    if cmd[:1] == '"' and cmd[-1:] == '"': cmd = cmd[1:-1]      # put around a command line with quotation marks for cmd.exe
                want['\t' + cmd.rstrip()] += 1
                # a line of a sub-jom comes through a pipe: it may arrive in parts, with other output in between
                if j is not r and any(x2 is not j and x2.spawn < (j.exit or 1 << 60) and (x2.exit or 1 << 60) > j.spawn for x2 in h.execs(r)): loose.add('\t' + cmd.rstrip())
        # a part of a line of a sub-jom may stand before the tab character
        have = collections.Counter('\t' + y.rstrip() for x in t.split('\n') for y in x.split('\t')[1:])
        for k in want:
            if have[k] > want[k] or have[k] < want[k] and k not in loose: v.append('the command line %r is shown %d times instead of %d' % (k[:70], have[k], want[k])); break
    return v

SPECIAL = [0, 10, 13, 26, 9, 32, 0xff, 37, 27, 8, 97, 0xc3]
def binary_bytes(seed, n):
    r = []
    for _ in range(n):
        seed = (seed * 1103515245 + 12345) & 0xffffffff
        v = (seed >> 16) & 0x7fff
        r.append(SPECIAL[(v >> 1) % 12] if v & 1 else (v >> 1) & 0xff)
    return r
def p10_binary(case, h):
    """silent builds whose commands write bytes of all kinds and nothing else does"""
    v = []
    r = h.roots[0]
    if r.exit is None: return v
    if r.code != 0: return ['a build that must succeed ended with %s' % code_s(r.code)]
    for s in (1, 2):
        per = collections.defaultdict(list)
        for e in h.res.ev:
            if e['k'] == 'out' and e['s'] == s and 'bin' in e and e.get('tag') != -1: per[e['p']] += binary_bytes(e['bin'], e['n'])
        got = [ord(c) for c in h.con(r.idx, s)]
        if len(per) == 1:
            want = list(per.values())[0]
            if got != want:
                k = 0
                while k < min(len(got), len(want)) and got[k] == want[k]: k += 1
                v.append('stream %d: %d bytes written, %d shown, first difference at byte %d: %s instead of %s' % (s, len(want), len(got), k, bytes(got[k:k + 8]), bytes(want[k:k + 8])))
        else:
            a, b = collections.Counter(got), collections.Counter(x for w in per.values() for x in w)
            if a != b: v.append('stream %d: %d bytes written, %d shown; differences: %s' % (s, sum(b.values()), len(got), ['%02x: %+d' % (x, a[x] - b[x]) for x in sorted(set(a) | set(b)) if a[x] != b[x]][:6]))
    return v

# ------------------------------------------------------------------ P11
def writers(h, r):
    """(colour, stream) -> [(command directly below the root, number of bytes)] in the order written; a sub-jom is one command"""
    w = collections.defaultdict(list)
    for e in h.res.ev:
        if e['k'] == 'out' and 'col' in e and e.get('tag') != -1:
            q = h.pr.get(e['p'])
            while q is not None and q.par is not None and q.par is not r: q = q.par
            if q is None: continue
            l = w[(e['col'], e['s'])]
            if l and l[-1][0] is q: l[-1][1] += e['n']
            else: l.append([q, e['n']])
    return w
def writer(w, col, s, cnt):
    n = cnt[col]; cnt[col] += 1
    l = w.get((col, s))
    if not l: return None
    for q, k in l:
        if n < k: return q
        n -= k
    return l[-1][0]

def p11(case, h):
    """on each stream, private bytes of concurrently running commands are not mixed ABAB"""
    v = []
    r = h.roots[0]
    exe = writers(h, r)
    for s in (1, 2):
        seq = []
        cnt = collections.Counter()
        for ch in h.con(r.idx, s):
            o = ord(ch)
            if o >= 0x80:
                q = writer(exe, (o - 0x80) >> 1, s, cnt)
                if q is not None and (not seq or seq[-1] is not q): seq.append(q)
        idx = collections.defaultdict(list)
        for i, q in enumerate(seq): idx[q.idx].append(i)
        keys = list(idx)
        for a in range(len(keys)):
            for b in range(a + 1, len(keys)):
                A, B = h.pr[keys[a]], h.pr[keys[b]]
                if A.spawn > B.spawn: A, B = B, A
                if A.exit is not None and A.exit < B.spawn: continue     # not concurrent
                m = sorted([(i, 0) for i in idx[A.idx]] + [(i, 1) for i in idx[B.idx]])
                runs = 1 + sum(1 for x, y in zip(m, m[1:]) if x[1] != y[1])
                if runs >= 4: v.append('output of the concurrently running %r and %r is mixed on stream %d (%d alternations)' % (A.key, B.key, s, runs))
    return v

def p11_live(case, h):
    """while commands run that have all written something, exactly one of them is shown live"""
    v = []
    r = h.roots[0]
    col = {}
    for e in h.res.ev:
        if e['k'] == 'out' and 'col' in e:
            q = h.pr.get(e['p'])
            while q is not None and q.par is not None and q.par is not r: q = q.par
            if q is not None: col[e['col']] = q
    seen = {}           # command -> position where its output first appeared
    for pos, e in enumerate(h.res.ev):
        if e['k'] == 'con' and e['root'] == r.idx:
            for ch in set(e['d']):
                o = ord(ch)
                if o >= 0x80:
                    q = col.get((o - 0x80) >> 1)
                    if q is not None: seen.setdefault(q.idx, pos)
    xs = [x for x in h.execs(r) if x.exit is not None]
    # a command is live while it runs when its output appears before its end
    live = [x for x in xs if x.idx in seen and seen[x.idx] < x.exit]
    for i, a in enumerate(live):
        for b in live[i + 1:]:
            if a.exit > b.spawn and b.exit > a.spawn:
                # both shown while both were running
                t = max(seen[a.idx], seen[b.idx])
                if t < a.exit and t < b.exit: v.append('%r and %r are both shown live' % (a.key, b.key))
    return v

# ------------------------------------------------------------------ P12
def p12(case, h, faults=False):
    v = []
    Bind(case, h)
    inl = case['inl']
    user = {}
    for e in h.res.ev:
        if e['k'] == 'inl':
            q = h.pr[e['p']]
            ex = inl.get(q.tool)
            if not ex or e['arg'] >= len(ex): continue
            want = '\r\n'.join(ex[e['arg']]['lines'])
            want2 = want + '\r\n'
            if not e['ok']: v.append('%s: its inline file %s does not exist while it runs' % (q.tool, e['path']))
            elif e['d'].replace('\r\n', '\n').rstrip('\n') != want.replace('\r\n', '\n').rstrip('\n'):
                v.append('%s: its inline file %s contains %r... (%d bytes) instead of %r... (%d bytes)' % (q.tool, e['path'], e['d'][:30], len(e['d']), want[:30], len(want)))
            if not ex[e['arg']]['name']: user.setdefault(e['path'], set()).add(q)
        elif e['k'] == 'iargs':
            # the inline file of a batch rule lists the sources of the batch
            q = h.pr[e['p']]
            if not e['ok']: v.append('%s: its inline file %s does not exist while it runs' % (q.tool, e['path']))
            known = {t['src'] for p in case['projects'].values() for t in p['targets'] if t.get('src')}
            bad = [x for x in e['args'].split(' ') if x and x not in known]
            if bad or not e['args']: v.append('%s: its inline file %s lists %s' % (q.tool, e['path'], 'what is no source: %r' % bad[0] if bad else 'nothing'))
    for path, qs in user.items():
        qs = sorted(qs, key=lambda q: q.spawn)
        for a, b in zip(qs, qs[1:]):
            ja, jb = a.par, b.par
            ta, tb = a.tool.split('_')[0], b.tool.split('_')[0]
            if (a.exit is None or a.exit > b.spawn) : v.append('%s and %s use the inline file %s at the same time' % (a.tool, b.tool, path))
    if any(j.exit is None for j in h.joms) or any(j.killed or j.crashed or j.abort for j in h.joms): return v
    kept = collections.Counter()
    for x in h.files:
        if x.startswith('/w/tmp/') and x.endswith('.jom'): kept[x] += 1
    # what may remain: files of inline blocks marked KEEP
    allowed = {}
    ran = set()
    for q in h.pr.values():
        if q.tool in inl: ran.add(q.tool)
    keepable = collections.Counter()
    for t, ex in inl.items():
        for j_, d in enumerate(ex):
            if d['keep'] and not d['name']: keepable[t] += 1
    for x in kept:
        body = h.files[x]['data'].replace('\r\n', '\n').rstrip('\n')
        ok = any(d['keep'] and not d['name'] and '\n'.join(d['lines']).rstrip('\n')[:4000] == body[:4000] for ex in inl.values() for d in ex)
        if not ok and not (faults and any(d['keep'] for ex in inl.values() for d in ex)): v.append('the inline file %s (%r...) is left over' % (x, body[:40]))
    for t in ran:
        tk = [d for d in inl[t] if d['keep'] or d['name']]
        for d in tk:
            if d['name']:
                path = next((p['dir'] for p in case['projects'].values() for tt in p['targets'] for c in tt.get('cmds', ()) if c.get('id') == t), '/w/p') + '/' + d['name']
                if not d['keep'] and path in h.files: v.append('the inline file %s is left over' % path)
                if d['keep'] and path not in h.files: v.append('the inline file %s is marked KEEP but gone' % path)
            else:
                body = '\n'.join(d['lines']).rstrip('\n')[:4000]
                if not any(h.files[x]['data'].replace('\r\n', '\n').rstrip('\n')[:4000] == body for x in kept): v.append('an inline file of %s marked KEEP is gone' % t)
    return v

# ------------------------------------------------------------------ P13
def p13(case, h):
    v = []
    for j in h.joms:
        if not ended_by_itself(j): continue
        for x in h.execs(j):
            if x.exit is None or x.exit > j.exit:
                v.append('jom [%s] ended (exit code %s) while its command %r was still running' % (j.tag, code_s(j.code), x.key))
    return v

# ------------------------------------------------------------------ P14
def p14(case, h):
    v = []
    Bind(case, h)
    # working directories
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call: continue
        p = case['projects'][call['project']]
        m = Model({}, {}, {}, FS())
        for x in h.execs(j):
            if not x.members: continue
            t = tmap(p)[x.target]
            cwd = p['dir']
            for c in m.commands(p, t)[:x.cidx]:
                if c['k'] == 'cd' and not c.get('fails'): cwd = norm(cwd, c['to'])
            if (x.cwd or '').rstrip('/') != cwd: v.append("%r of target '%s' runs in %s instead of %s" % (x.key, x.target, x.cwd, cwd))
    # variables: a 'set' line has been executed once the next command line of its block was started
    again = set()
    known = {}          # (jom, var) -> [(order, value, position from which it must be visible)]
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call: continue
        p = case['projects'][call['project']]
        ed, memo = edges(p), {}
        for t in p['targets']:
            if t['kind'] == 'inf': continue
            for i, c in enumerate(Model({}, {}, {}, FS()).commands(p, t)):
                if c['k'] != 'set': continue
                own = any(x.members and x.target == t['name'] for x in h.execs(j))     # else it may be up to date
                nxt = [x.spawn for x in h.execs(j) if x.members and (x.target == t['name'] and x.cidx > i or own and t['name'] in closure(ed, x.target, memo))]
                known.setdefault((j.idx, c['var']), []).append((c['seq'], c['val'], min(nxt) if nxt else None))
        # with several goals a block may run more than once: then the order of the assignments is another one
        if any(m[2] for x in h.execs(j) for m in x.members or ()): again.add(j.idx)
    for k in known.values(): k.sort()
    pre = {n: x for n, x in case['meta'].get('pre', {}).items()}
    def lookup(q, var):
        """values the process q may see: of every jom above it the last assignment made before the next process on the way was started, or a later one"""
        ok = set()
        child = q
        a = q.par
        while a is not None:
            if a.jom:
                k = known.get((a.idx, var), [])
                last = max([i for i, x in enumerate(k) if x[2] is not None and x[2] <= child.spawn], default=None)
                ok |= {x[1] for x in k[last or 0:]}
                if last is not None: return ok if a.idx not in again else {x[1] for x in k}
            child = a if a.jom else child if not a.jom and a.par is not None and not a.par.jom else a
            a = a.par
        return ok | {pre.get(var)}
    for e in h.res.ev:
        if e['k'] == 'env':
            q = h.pr[e['p']]
            ok = lookup(q, e['n'])
            val = e['v'] if e['set'] else None
            # a variable that is set to nothing may be gone
            if val is None and '' in ok: continue
            if val not in ok: v.append('%s sees %s=%r instead of %s' % (q.tool, e['n'], val, ' or '.join(repr(x) for x in sorted(ok, key=str))))
    return v

# ------------------------------------------------------------------ P16
def p16(case, h):
    v = []
    for j in h.joms:
        us = [e for e in h.res.ev if e['k'] == 'exit' and e['p'] == j.idx]
        if not us: continue
        u = us[0]
        n = case['calls'][j.tag].get('J') or pools(case)[j.tag][1]
        lim = 14 + 6 * n
        if u['maxh'] > lim: v.append('jom [%s] held %d handles at once with %d job slots and %d commands' % (j.tag, u['maxh'], n, len(h.execs(j))))
        if u['thr'] > 12: v.append('jom [%s] used %d threads' % (j.tag, u['thr']))
        dur = max(1, (j.exit_t - (j.spawn_t or 0)))
        polls = u['pt']
        plim = 40 + dur / 1e6 * 8 * (n + 2) + 6 * len(h.execs(j))
        if polls > plim: v.append('jom [%s] woke up %d times for timers in %.1f s' % (j.tag, polls, dur / 1e6))
    for e in h.res.ev:
        if e['k'] == 'spawn' and e.get('inh', 0) > 3 and h.pr[e['par']].jom:
            v.append('the command %r inherits %d handles' % (e['cmd'], e['inh']))
            break
    return v

# ------------------------------------------------------------------ P15: histories of builds
def runs_of(h):
    """per 'jom' operation: snapshot of the files, start and end position, disturbed?"""
    ev = h.res.ev
    script = h.case['scenario']['script']
    snap = {}; cur = {}
    runs = []
    for pos, e in enumerate(ev):
        k = e['k']
        if k == 'file': cur[e['path']] = (e['data'], e['mt'])
        elif k == 'op' and e['op'] == 'dump': snap = cur; cur = {}
        elif k == 'root': runs.append({'root': h.pr[e['p']], 'files': snap, 'start': pos, 'end': len(ev), 'i': e['op']})
        if k == 'root' and len(runs) > 1: runs[-2]['end'] = pos
    for a in runs:
        a['disturbed'] = any(ev[q]['k'] == 'trigger' and ev[q]['d'] != 'clock' for q in range(a['start'], a['end']))
    return runs, snap

def p15(case, h):
    v = []
    if h.status != 'done': return v
    runs, last = runs_of(h)
    ev = h.res.ev
    counters = collections.Counter()
    pos = 0
    mfs = {p['dir'] + '/' + p['mf'] for p in case['projects'].values()}
    srcs = {k for k in case['scenario']['files']}
    okruns = 0
    for n, a in enumerate(runs):
        while pos < a['start']:
            if ev[pos]['k'] == 'tool': counters[ev[pos]['id']] += 1
            pos += 1
        exp = Expect(case, a['files'], counters)
        got = actual_keys(h, a['root'].root)
        extra = got - exp.keys; missing = exp.keys - got
        what = 'build %d of %d' % (n + 1, len(runs))
        if extra: v.append('%s executes what is up to date: %s' % (what, fmtkeys(extra)))
        if a['disturbed']: continue
        if a['root'].code != exp.code: v.append('%s, not disturbed, ends with %s instead of %d' % (what, code_s(a['root'].code), exp.code))
        if exp.code == 0 and missing: v.append('%s does not execute: %s' % (what, fmtkeys(missing)))
        b = runs[n - 1] if n else None
        edited = n == 0 or any(ev[q]['k'] == 'edit' or ev[q]['k'] == 'd' and ev[q]['p'] == -1 for q in range(b['start'], a['start']))
        if n and not edited and not b['disturbed'] and b['root'].code == 0:
            if a['root'].code != 0: v.append('%s ends with %s' % (what, code_s(a['root'].code)))
            leaf = [k for k in got if not k[1].startswith('jom ')]
            if leaf: v.append('%s still executes %s' % (what, fmtkeys(got)))
    # the files are those of a build from scratch
    if runs[-1]['disturbed'] or runs[-1]['root'].code != 0: return v
    fs = {}
    for k, (d, t) in last.items():
        if is_src(k) or k in mfs: fs[k] = (d, -10)
    full = Expect(case, fs, {t: 99 for t in case['scenario']['tools']})
    for path, (d, t) in full.m.fs.f.items():
        if path not in last: v.append('at the end %s does not exist' % path)
        elif last[path][0] != d[:4096]: v.append('at the end %s contains %r; a build from scratch produces %r' % (path, last[path][0][:50], d[:50]))
    return v
def is_src(k): return k.endswith(('.src', '.hsrc', '.h', '.c')) or re.search(r'\.q\w+$', k) is not None

# ------------------------------------------------------------------ P17
def ascii_err(h, r): return ascii_only(h.con(r.idx, 2)).strip()
def p17(case, h):
    v = []
    who, path = case['meta']['who'], case['meta']['path']
    fs = [pos for pos, e in enumerate(h.res.ev) if e['k'] == 'fault']
    if not fs: return v
    # an error that goes away: reading again may have got everything
    if case['scenario']['faults'][0]['count'] == 1 and h.roots[0].exit is not None:
        exp = Expect(case, init_files(case))
        got = actual_keys(h)
        if got == exp.keys and h.roots[0].code == exp.code: return v
    hit = set()
    for pos in fs: hit.add(h.res.ev[pos]['p'])
    root = h.roots[0]
    for idx in hit:
        j = h.pr.get(idx)
        if j is None or not j.jom: continue
        n = len(h.execs(j))
        if n: v.append('jom [%s] executes %d commands (%r) although %s could not be read completely' % (j.tag, n, h.execs(j)[0].key, path))
        if j.exit is not None and j.code == 0: v.append('jom [%s] ends with 0 although %s could not be read completely' % (j.tag, path))
        if j.exit is None: v.append('jom [%s] does not end after %s could not be read' % (j.tag, path))
        if j is root and j.exit is not None and not ascii_err(h, root) and not ascii_only(h.con(root.idx, 1)).strip(): v.append('jom reports nothing although %s could not be read completely' % path)
        if j.crashed or j.abort: v.append('jom [%s] crashed when %s could not be read' % (j.tag, path))
        q = j.par
        while q is not None:
            if q.jom and q.exit is not None and q.code == 0: v.append('jom [%s] ends with 0 although %s of its sub-jom could not be read' % (q.tag, path))
            q = q.par
    return v

# ------------------------------------------------------------------ P18
INT_END_US = 5 * SEC
def p18(case, h):
    v = []
    tr = [(pos, e) for pos, e in enumerate(h.res.ev) if e['k'] == 'trigger' and e['d'] == 'ctrlc']
    if not tr: return v
    pos0, t0 = tr[0][0], tr[0][1]['t']
    root = h.roots[0]
    if root.exit is not None and root.exit < pos0: return v
    Bind(case, h)
    for j in h.joms:
        if j.started > pos0 + 0 and (j.spawn or 0) > pos0: 
            # started while the interrupt was on its way
            if j.exit is None: v.append('jom [%s], started during the interrupt, never ends' % j.tag)
            continue
        if j.exit is not None and j.exit < pos0: continue
        if j.exit is None: v.append('jom [%s] does not end after Ctrl-C: %s' % (j.tag, threads_s(h))); continue
        if j.exit_t - t0 > INT_END_US: v.append('jom [%s] ends %.1f s after Ctrl-C' % (j.tag, (j.exit_t - t0) / 1e6))
        if j.crashed: v.append('jom [%s] crashed after Ctrl-C (%s)' % (j.tag, j.crashed)); continue
        if j.abort: v.append('jom [%s] aborted after Ctrl-C' % j.tag); continue
        idle = all(x.exit is not None and x.exit < pos0 for x in h.execs(j))
        # it may have ended by itself before the interrupt was delivered
        natural = j.code == 1 or j.code == 0 and not any(x.members and failed_exec(case, j, x) for x in h.execs(j))
        if j.code not in (2, 0xC000013A) and not idle and not natural: v.append('jom [%s] ends with %s after Ctrl-C' % (j.tag, code_s(j.code)))
        if j is root and j.code == 2 and not ascii_err(h, root): v.append('no message after Ctrl-C')
        for x in h.execs(j):
            if x.spawn_t - t0 > 2 * SEC: v.append('jom [%s] starts %r %.1f s after Ctrl-C' % (j.tag, x.key, (x.spawn_t - t0) / 1e6))
    left = [k for k in h.files if k.startswith('/w/tmp/') and k.endswith('.jom')]
    if left and not v: v.append('the inline file %s is left over after Ctrl-C' % left[0])
    return v

# ------------------------------------------------------------------ P19
def p19(case, h):
    v = []
    if h.status != 'done': return ['jom does not end (%s)' % h.status] if h.status in ('deadlock', 'timecap', 'stepcap') else v
    kind = case['meta']['kind']
    root = h.roots[0]
    n = sum(1 for e in h.res.ev if e['k'] in ('spawn', 'spawnfail'))
    if n: v.append('/%s executes %r' % (kind, next(e['cmd'] for e in h.res.ev if e['k'] in ('spawn', 'spawnfail'))))
    if root.code != 0: v.append('/%s ends with %s' % (kind, code_s(root.code)))
    init = case['scenario']['files']
    for e in h.res.ev:
        if e['k'] in ('fopenw', 'unlink') and not e['path'].startswith('/w/tmp/'): v.append('/%s writes or removes %s' % (kind, e['path'])); break
    for k, e in h.files.items():
        if k not in init and not k.startswith('/w/tmp/') and not k.startswith('/w/bin') : v.append('/%s creates %s' % (kind, k))
        elif k in init and e['data'] != init[k]['d'][:4096]: v.append('/%s changes %s' % (kind, k))
    for k in init:
        if k not in h.files: v.append('/%s removes %s' % (kind, k))
    if kind == 'N' and not v:
        exp = Expect(case, init_files(case))
        p = case['projects'][case['calls']['r0']['project']]
        def key(c):
            if c['k'] == 'jom': return 'jom ' + c['id']
            if c['k'] == 'echo': return ('echo ' + c['id'] + ' ' + c.get('args', '')).strip()
            if c['k'] in ('tool', 'shtool'): return argkey(c)
            return '? ' + c['text']
        want = collections.Counter(); owner = {}
        for tag, name, c in exp.m.printed:
            want[key(c)] += 1; owner.setdefault(key(c), name)
        lines = [x.rstrip('\r')[1:] for x in ascii_only(h.con(root.idx, 1)).split('\n') if x.startswith('\t')]
        keys = [key_of(x) for x in lines]
        have = collections.Counter(keys)
        for k in want:
            if have[k] != want[k]: v.append('/N prints %r %d times instead of %d' % (k, have[k], want[k]))
        for k in have:
            if k not in want: v.append('/N prints %r, which a real build does not execute' % k)
        if not v and len(exp.m.states['r0']) == 1:
            e = edges(p); memo = {}
            for i, k in enumerate(keys):
                if want[k] > 1: continue
                for m in keys[i + 1:]:
                    if want[m] == 1 and owner[m] in closure(e, owner[k], memo): v.append('/N prints %r of %s before %r of its dependent %s' % (k, owner[k], m, owner[m])); break
    return v

# ------------------------------------------------------------------ P20
def p20(case, h):
    v = []
    fired = [e for e in h.res.ev if e['k'] == 'fault']
    if not fired: return v
    root = h.roots[0]
    if h.status in ('deadlock', 'timecap', 'stepcap'): return ['jom never ends after a failing %s (%s): %s' % (fired[0]['site'], h.status, threads_s(h))]
    for j in h.joms:
        if j.crashed: v.append('jom [%s] crashed after a failing %s (%s)' % (j.tag, fired[0]['site'], j.crashed))
        elif j.abort: v.append('jom [%s] aborted after a failing %s' % (j.tag, fired[0]['site']))
    if root.exit is None: return v + ['jom does not end']
    for j in h.joms:
        if j.exit is None: continue
        last = max([j.spawn_t or 0] + [x.sig_t or x.exit_t or 0 for x in h.below(j) if x.key != '(grandchild)' and not x.jom])
        if j.exit_t - last > TERM_US: v.append('jom [%s] ended %.1f s after its last command' % (j.tag, (j.exit_t - last) / 1e6))
    # a refused job semaphore ends the jom that asked for it
    for e in fired:
        j = h.pr.get(e['p'])
        if e['site'] in ('CreateSemaphore', 'SemAcquire') and j is not None and j.jom and j.exit is not None and j.code == 0: v.append('jom [%s] ends with 0 although its job semaphore was refused (%s)' % (j.tag, e['site'])); break
    exp = Expect(case, init_files(case))
    got = actual_keys(h)
    missing = exp.keys - got; extra = got - exp.keys
    # the injected failure is over when a later goal needs the same target again
    if extra and not any(len(c['goals']) > 1 for c in case['calls'].values()): v.append('executed more often than a sequential build does: %s' % fmtkeys(extra))
    if root.code == 0 and missing: v.append('reports success without having executed %s' % fmtkeys(missing))
    if root.code == 0 and not missing:
        for path, (d, t) in exp.m.fs.f.items():
            a = h.files.get(path)
            if a is None or a['data'] != d[:4096]: v.append('reports success but %s is wrong' % path)
    if root.code != 0 and not ascii_err(h, root) and not ascii_only(h.con(root.idx, 1)).strip(): v.append('jom ends with %s without a message' % code_s(root.code))
    # dependents of what was not built
    Bind(case, h)
    ntag = collections.Counter(j.tag for j in h.joms)
    for j in h.joms:
        call = case['calls'].get(j.tag)
        if not call or len(call['goals']) > 1 or ntag[j.tag] > 1: continue
        p = case['projects'][call['project']]
        need = collections.defaultdict(set)
        for x in exp.execs:
            if x.tag == j.tag: need[x.target].add(x.key)
        e = edges(p); memo = {}
        done = {}
        for x in h.execs(j):
            for k in split_batch(x.key): done[k] = x
        for x in h.execs(j):
            for t, i, n in x.members or ():
                for u in closure(e, t, memo):
                    for k in need[u]:
                        y = done.get(k)
                        if y is None or y.spawn > x.spawn: v.append("target '%s' is built although %r of its dependent '%s' was not executed" % (t, k, u))
                        elif y.exit is not None and y.exit < x.spawn and failed_exec(case, j, y): v.append("target '%s' is built although its dependent '%s' failed" % (t, u))
    # a direct start that fails is followed by exactly one attempt through the shell
    att = collections.defaultdict(list)
    for pos, e in enumerate(h.res.ev):
        if e['k'] == 'spawnfail': att[(e['p'], e['cmd'][11:] if e['cmd'].startswith('cmd.exe /C ') else e['cmd'])].append((pos, 'shell' if e['cmd'].startswith('cmd.exe /C ') else 'direct', False))
        elif e['k'] == 'spawn' and e['par'] in h.pr and h.pr[e['par']].jom:
            att[(e['par'], e['cmd'][11:] if e['cmd'].startswith('cmd.exe /C ') else e['cmd'])].append((pos, 'shell' if e['cmd'].startswith('cmd.exe /C ') else 'direct', True))
    multi = any(len(c['goals']) > 1 for c in case['calls'].values())
    for (p, cmd), l in att.items():
        if multi: break
        s = [(a, ok) for _, a, ok in sorted(l)]
        if ('direct', False) in s and s not in ([('direct', False), ('shell', True)], [('direct', False), ('shell', False)]):
            if not (s == [('direct', False)] and other_fault(h)): v.append('%r: attempts to start it were %s' % (cmd, ', '.join('%s %s' % (a, 'ok' if ok else 'failed') for a, ok in s)))
        elif len(s) > 1 and ('direct', False) not in s: v.append('%r was started %d times' % (cmd, len(s)))
    v += p13(case, h)
    return v
def other_fault(h): return any(e['k'] == 'fault' and e['site'] != 'CreateProcess' for e in h.res.ev)
def p12f(case, h):
    v = p12(case, h, True)
    w = [e for e in h.res.ev if e['k'] == 'fault' and e['site'] in ('write', 'open_w')]
    for e in w:
        q = h.pr.get(e['p'])
        while q is not None:
            if q.jom and q.exit is not None and q.code == 0 and 'I' not in case['calls'][q.tag]['opts']: v.append('jom [%s] ends with 0 although the inline file %s could not be written' % (q.tag, e['path'])); break
            q = q.par
    return v
