"""Families of simulated runs: which workload, faults and schedules decide which property, and the oracle applied to the history."""
import random
from gen import *
import oracles as O
from oracles import Expect, init_files

# ---------------------------------------------------------------- helpers
def build(r, feat, fam, strict=False, cfgkw=None, args=(), faults=(), triggers=(), post=None, sched=None, **meta):
    g = Gen(r, feat); g.build()
    if post: post(g, r)
    cfg = cfg_params(r, **(cfgkw or {}))
    sc = scenario(g, r, cfg, sched or sched_params(r, strict), extra_args=args, faults=faults, triggers=triggers)
    return case_of(g, sc, fam, **meta)

def swarm(r, feat, *opts):
    """a random subset of optional features per run"""
    f = dict(feat)
    for o in opts:
        if r.random() < 0.5: f.update(o)
    return f

MIXED = [dict(batch=.5), dict(sync=.4), dict(group=.3), dict(setv=.08, cd=.08), dict(inl=.15), dict(p_sub=.25, depth=2), dict(A=.3), dict(goals=.6),
         dict(p_inf=.4), dict(outmax=20), dict(p_out=.05), dict(dur='zero'), dict(dur='long'), dict(nt=(8, 20)), dict(wide=.8), dict(p_pseudo=.35), dict(excl=.4),
         dict(p_inf=.4, inf_more=.6, inf_path=.5), dict(p_inf=.4, inf_two=.6), dict(p_inf=.4, inf_inl=.5, batch=.4), dict(p_inf=.8, inf_inl=1, batch=.7, nt=(8, 20)), dict(colons=.4, semi=.4, dup=.3), dict(clean=.4)]

def seq(case, h, run):
    return Expect(case, init_files(case))

def plain(r, **feat):
    return build(r, swarm(r, dict(p_sub=.08, **feat), *MIXED), 'plain')
def plain_ascii(r): return plain(r, latin=0)        # bytes from 0x80 are what p10 tells the commands' outputs by
def small(r):
    """few targets: the schedule matters more than the graph"""
    return build(r, dict(nt=(2, 5), jobs=[2, 2, 3], p_sub=0, p_inf=r.choice([0, .4]), dur=r.choice(['zero', 'short', 'mixed']), p_out=r.choice([0, .5])), 'small')
def failing(r, feat=None, **kw):
    f = swarm(r, dict(p_sub=.15, fail=(1, 3), K=0, cdfail=r.choice([0, 0, .05]), **(feat or {})), *MIXED)
    return build(r, f, 'failing', **kw)
def failing_k(r):
    f = swarm(r, dict(p_sub=.1, fail=(1, 4), K=1, p_failtol=r.choice([0, .3]), cdfail=r.choice([0, 0, .05])), *MIXED)
    if r.random() < .25: f.update(p_inf=.35, batch=1, infdeps=.8, nt=(6, 16), p_dep=.3, fail=(2, 6), jobs=[1, 1, 2, 3])
    return build(r, f, 'failing_k')
def ladder(r):
    """layers of targets, each of which depends on the whole layer below: few targets, but a huge number of paths"""
    f = dict(ladder=r.choice([(2, 21), (2, 18), (3, 12), (4, 9)]), jobs=[1, 2, 3, 4], p_sub=0, p_inf=0, hdr=0, frc=0, wild=0, p_multi=0, p_src=.1, p_out=0, sync=0, excl=0, goals=0, mods=0, K=r.choice([0, 1, 1, 1]), fail=r.choice([0, 1, 1, 2]), dur=r.choice(['zero', 'short']))
    return build(r, f, 'ladder', post=fail_low)
def fail_low(g, r):
    P = g.projects['R']
    if not g.f['fail'] or r.random() < .3: return
    for t in P['targets'][:3]:
        c = [c for c in t['cmds'] if c['k'] == 'tool']
        if c and not any(s[0] == 'x' for s in g.tools[c[0]['id']][0]): g.tools[c[0]['id']][0].append(['x', 1]); return
def small_fail(r):
    """few targets, some of them fail in a builtin command, in the first place of all"""
    return build(r, dict(nt=(2, 6), jobs=[2, 2, 3], p_sub=r.choice([0, .2]), cdfail=r.choice([.1, .3]), fail=r.choice([0, 0, 1]), K=r.choice([0, 0, 1]), wide=.6, p_pseudo=.1, dur=r.choice(['zero', 'short', 'mixed']), init=('scratch',)), 'small_fail')
def exitcodes(r):
    f = swarm(r, dict(p_sub=.08, fail=(2, 6), K=r.choice([0, 0, 1]), I=r.choice([0, 0, 0, 1]), p_failtol=r.choice([.5, .9, 1]), mods=.2, ign=r.choice([0, .2]), cdfail=r.choice([0, 0, .08]),
                      failcodes=(0x10000, 0x1000000, 0x7f000000, 1, 2, 3, 8, 9, 42, 127, 128, 255, 256, 259, 0x7fffffff, 0xffffffff, 0xc0000005, 0xc0000100, 0xf291, 0xfffffffe)), *MIXED[3:])
    return build(r, f, 'exitcodes', post=ignoreall)
def ignoreall(g, r):
    for p in g.projects.values():
        if r.random() < .12: p['head'].append('.IGNORE:'); p['ignoreall'] = True

def subtree(r):
    f = swarm(r, dict(p_sub=.7, depth=r.choice([1, 2, 2, 3]), jobs=[1, 2, 2, 3, 4, 6], p_subj=r.choice([0, .2, .5]), nt=(3, 8), wide=.7, p_pseudo=.4, notpar=.08,
                      dur=r.choice(['short', 'mixed', 'long']), p_out=.1), dict(mflags=.4), dict(envopts=.3), *MIXED[:3])
    return build(r, f, 'subtree', post=notpar_subs)
def notpar_subs(g, r):
    for n, p in g.projects.items():
        if n[0] == 'S' and r.random() < .08: p['head'].append('.NOTPARALLEL:'); p['notparallel'] = True
def subtree_fail(r):
    f = swarm(r, dict(p_sub=.6, depth=r.choice([1, 2]), jobs=[2, 2, 3, 4, 6], p_subj=r.choice([0, .2]), nt=(3, 8), wide=.6, p_pseudo=.4, fail=(1, 3), K=r.choice([0, 0, .5]),
                      dur=r.choice(['short', 'mixed', 'long']), p_out=.1), *MIXED[:3])
    # failing while others wait for tokens as well
    if r.random() < .3: f.update(p_sub=.9, depth=1, wide=.9, p_pseudo=.6, p_multi=.2, dur='long', nt=(4, 8), jobs=[2, 2, 3], p_subj=0, K=r.choice([0, 0, .5]))
    return build(r, f, 'subtree_fail')

def two_tops(r, feat=None):
    """two unrelated top-level joms at the same time"""
    f = dict(nt=(2, 7), p_sub=.1, init=('scratch',), jobs=[1, 2, 3, 4], ncol=24, p_src=.5, goals=0)
    f.update(feat or {})
    g = Gen(r, f); g.build()
    g2 = Gen(random.Random(r.getrandbits(40)), f, 'b'); g2.build()
    g2.colors = {}
    return merged(r, g, g2, 'two_tops')
def merged(r, g, g2, fam):
    for n, runs in g2.tools.items():
        for run in runs: run[:] = [s for s in run if s[0] != 'O']
    sc = scenario(g, r)
    sc['tools'].update(g2.tools); sc['dirs'] = sorted(set(sc['dirs']) | g2.dirs)
    for k, (d, t) in g2.init.items(): sc['files'][k] = {'d': d, 'mt': mt_us(t)}
    for p in g2.projects.values(): sc['files'][p['dir'] + '/' + p['mf']] = {'d': encoded(p), 'mt': mt_us(-100)}
    sc['script'][0]['nowait'] = 1
    if r.random() < .5: sc['script'].append({'op': 'advance', 'us': r.choice([0, 100, 1000, 20000])})
    sc['script'].append({'op': 'jom', 'cwd': '/w/pb', 'args': root_args(g2.calls['r1'], g2.projects['Rb'], 'r1'), 'env': dict(g2.env)})
    sc['script'].append({'op': 'waitall'})
    g.projects.update(g2.projects); g.calls.update(g2.calls); g.expect_inl.update(g2.expect_inl); g.init.update(g2.init)
    return case_of(g, sc, fam)

def nasty_ascii(r): return nasty(r, latin=0)
def nasty(r, **feat):
    """commands that close their output early, leave a grandchild with the pipe, read stdin, exit with odd codes, write a lot"""
    f = swarm(r, dict(p_sub=.1, stdin=.2, p_out=.6, outmax=r.choice([50, 3000, 20000]), fail=r.choice([0, 0, (1, 2)]), K=r.choice([0, .5]),
                      failcodes=(1, 2, 259, 0xffffffff, 0xf291), **feat), *MIXED)
    return build(r, f, 'nasty', post=make_nasty, triggers=clock_jumps(r) if r.random() < .3 else (), slack_us=40 * O.SEC)
def make_nasty(g, r):
    for tid, runs in g.tools.items():
        st = runs[0]
        x = r.random()
        if x < .12: st.insert(r.randint(0, len(st)), ['c', r.choice([1, 2])]); 
        elif x < .22: st.insert(r.randint(0, len(st)), ['g', r.choice([100, 5000, 300000, 2000000, 30000000])])
        elif x < .27: st.insert(0, ['c', 1]); st.insert(1, ['c', 2])
    # output after the close of a stream goes nowhere
def clock_jumps(r):
    return [{'on': r.choice(['spawn', 'exit', 'out', 'rd', 'acq']), 'n': r.randint(1, 8), 'do': 'clock', 'us': r.choice([-3600, -1, 1, 60, 86400]) * O.SEC} for _ in range(r.choice([1, 2]))]

def missing_dep(g, r):
    """a dependent that does not exist and cannot be made: known only when the goal phase begins"""
    ps = [p for p in g.projects.values()]
    p = r.choice(ps)
    ts = [t for t in p['targets'] if t['kind'] != 'inf' and not t.get('group') and not t.get('noedit') and not any('$' in c.get('args', '') for c in t['cmds'])]
    if not ts: return
    t = r.choice(ts); t['deps'] = t['deps'] + ['nowhere.src']
    if 'syncafter' in t: t['syncafter'] = None
def bad_goal(g, r):
    c = g.calls['r0']
    c['goals'] = c['goals'] + ['nosuchgoal']
def cycle(g, r):
    p = r.choice(list(g.projects.values()))
    e = edges(p)
    ts = [t for t in p['targets'] if t['kind'] != 'inf' and not t.get('group') and not t.get('noedit') and not any('$' in c.get('args', '') for c in t['cmds'])]
    ups = [(t, a) for t in ts for a in e if a == t['name'] or t['name'] in closure(e, a)]
    if not ups: return
    t, a = r.choice(ups); t['deps'] = t['deps'] + [a]
    if 'syncafter' in t: t['syncafter'] = None
def badgraph(r):
    """a dependent that nothing makes, a goal that does not exist, a cycle"""
    f = swarm(r, dict(p_sub=.3, depth=r.choice([1, 2]), goals=.7, jobs=[1, 2, 3, 4], nt=(2, 8), p_pseudo=.3, K=r.choice([0, .3]), wide=.5), *MIXED)
    return build(r, f, 'badgraph', post=r.choice([missing_dep, missing_dep, bad_goal, cycle]))
def mk_errors(r):
    """joms that end because of an error of their own"""
    f = swarm(r, dict(p_sub=.5, depth=r.choice([1, 2]), goals=.7, inl=r.choice([0, .3]), jobs=[1, 2, 3, 4], nt=(2, 8), p_pseudo=.3, K=r.choice([0, .4]), wide=.5), *MIXED[:2])
    kind = r.choice(['dep', 'dep', 'inl_open', 'inl_write', 'spawn', 'nomf', 'sem'])
    faults = []
    if kind == 'inl_open': f['inl'] = .5; faults = [{'site': 'open_w', 'path': r.choice(['.jom', '.inl']), 'nth': r.randint(0, 3), 'count': 1}]
    elif kind == 'inl_write': f['inl'] = .5; faults = [{'site': 'write', 'path': r.choice(['.jom', '.inl']), 'nth': r.randint(0, 3), 'count': 1, 'off': r.choice([0, 1, 10])}]
    elif kind == 'spawn': faults = [{'site': 'CreateProcess', 'nth': r.randint(0, 5), 'count': r.choice([1, 2, 2, 4])}]
    elif kind == 'sem': faults = [{'site': r.choice(['CreateSemaphore', 'SemAcquire']), 'nth': r.randint(0, 3), 'count': 1}]
    elif kind == 'nomf': faults = [{'site': 'open_r', 'path': '.mk', 'nth': r.randint(0, 2), 'count': r.choice([1, 9])}]
    return build(r, f, 'mk_errors', faults=faults, post=missing_dep if kind == 'dep' else None, kind=kind)

def parallel(r):
    f = swarm(r, dict(p_sub=.1, dur=r.choice(['long', 'slow']), wide=.6, jobs=[2, 3, 4, 6], goals=.4, K=r.choice([0, 0, 1]), fail=r.choice([0, 0, (1, 2)]), outmax=100), *(MIXED[:5] + MIXED[6:10]))
    if f['fail']: f['K'] = 1
    return build(r, f, 'parallel', strict=True, post=lambda g, r: [p['head'].append('.NOTPARALLEL:') or p.update(notparallel=True) for n, p in g.projects.items() if r.random() < .04])
def parallel_sub(r):
    f = swarm(r, dict(p_sub=.6, depth=2, dur=r.choice(['long', 'slow']), wide=.6, jobs=[2, 3, 4, 6], p_subj=.1, nt=(3, 9), K=r.choice([0, 0, 1]), fail=0, outmax=50), dict(fail=(1, 2), K=1), dict(goals=.5), dict(nsubt=(5, 10), jobs=[3, 5, 6, 8], p_sub=.3, depth=1, p_dep=.15))
    if f['fail']: f['K'] = 1
    return build(r, f, 'parallel_sub', strict=True, post=notpar_top)
def notpar_top(g, r):
    if r.random() < .2: g.projects['R']['head'].append('.NOTPARALLEL:'); g.projects['R']['notparallel'] = True

def chatty_clock(r): return chatty(r, .3)
def chatty(r, pclock=0):
    f = swarm(r, dict(p_out=.95, outmax=r.choice([20, 400, 5000, 60000]), jobs=[1, 2, 2, 3, 4, 6], p_sub=r.choice([0, .2]), nt=(2, 8), wide=.6, K=r.choice([0, .3]), fail=r.choice([0, 0, (1, 2)]),
                      dur=r.choice(['zero', 'short', 'mixed'])), dict(setv=.1), dict(silent=.6), dict(p_multi=.8), dict(stdin=.2), dict(xerr=.3))
    cfg = {}
    if r.random() < .2: cfg['console_max'] = r.choice([5000, 30000])
    faults = []
    if r.random() < .25: faults = [{'site': 'stall', 'nth': r.randint(0, 10), 'count': r.choice([1, 3, 20]), 'off': r.choice([1000, 50000, 1000000])}]
    return build(r, f, 'chatty', cfgkw=cfg, faults=faults, triggers=clock_jumps(r) if r.random() < pclock else ())
def binary(r):
    """output of all kinds of bytes"""
    f = dict(p_out=0, p_echo=0, p_shell=r.choice([0, .2]), S=1, noise=0, p_sub=0, mflags=0, envopts=0, xerr=0, hdr=0, silent=0, dup=0, stdin=0, mods=0, jobs=[1, 2, 2, 3, 4], nt=(2, 7), wide=.6,
             dur=r.choice(['zero', 'short', 'mixed', 'long']))
    cfg = {}
    if r.random() < .2: cfg['console_max'] = r.choice([5000, 30000])
    return build(r, f, 'binary', cfgkw=cfg, post=write_binary)
def write_binary(g, r):
    ids = sorted(g.tools)
    for tid in r.sample(ids, min(len(ids), r.choice([1, 1, 1, 2, 3]))):
        for st in g.tools[tid]:
            for _ in range(r.randint(1, 4)):
                at = r.randint(0, len(st))
                st.insert(at, ['B', r.choice([1, 1, 2]), r.getrandbits(30), r.choice([1, 2, 30, 300, 5000, 12000])])
                if r.random() < .4: st.insert(at, ['s', r.choice([0, 50, 5000, 300000])])
def chatty_fail(r):
    f = dict(p_out=.95, xerr=r.choice([0, 0, 0, 1]), outmax=r.choice([20, 400, 5000]), jobs=[2, 3, 4, 6], p_sub=r.choice([0, .2]), nt=(3, 8), wide=.6, fail=(1, 3), dur=r.choice(['zero', 'short', 'mixed']))
    return build(r, f, 'chatty_fail')
def chatty_long(r):
    """many commands that write for a long time"""
    f = dict(p_out=1, xerr=r.choice([0, 0, 0, 0, 1]), outmax=r.choice([20, 200, 3000]), jobs=[2, 3, 4, 6, 8], p_sub=r.choice([0, 0, .2]), nt=(3, 10), wide=.9, p_multi=.5, dur=r.choice(['short', 'mixed', 'long']), silent=r.choice([.1, 1]))
    return build(r, f, 'chatty_long')

def inline(r):
    f = swarm(r, dict(bom=.08, inl=.6, p_sub=r.choice([0, .2]), p_multi=.6, inlkeep=.3, goals=.5, nt=(2, 8), wide=.5, p_out=.1, fail=r.choice([0, 0, 0, (1, 2)]), K=r.choice([0, .5])), dict(cd=.1), dict(init=('scratch',)), dict(dur='long'), dict(dur='zero'), dict(p_inf=.8, inf_inl=1, batch=.7, nt=(6, 20)))
    return build(r, f, 'inline')
def inline_two(r):
    return two_tops(r, dict(inl=.7, nt=(1, 4), inlkeep=.2, inlname=0, dur=r.choice(['short', 'mixed'])))
def inline_fault(r):
    f = swarm(r, dict(inl=.7, p_sub=r.choice([0, .2]), p_multi=.6, inlkeep=.2, goals=.3, nt=(2, 7), wide=.5, p_out=.1, K=r.choice([0, .5])))
    x = r.random()
    if x < .45: fl = {'site': 'write', 'path': r.choice(['.jom', '.inl']), 'nth': r.randint(0, 5), 'count': r.choice([1, 1, 2]), 'off': r.choice([0, 1, 10, 100])}
    elif x < .8: fl = {'site': 'open_w', 'path': r.choice(['.jom', '.inl']), 'nth': r.randint(0, 5), 'count': r.choice([1, 1, 2])}
    else: fl = {'site': 'CreateProcess', 'nth': r.randint(0, 5), 'count': r.choice([1, 2])}
    return build(r, f, 'inline_fault', faults=[fl], post=missing_dep if r.random() < .1 else None)

def shell_state(r):
    f = dict(setv=r.choice([.3, .5]), cd=r.choice([.2, .4]), p_multi=.8, maxcmds=6, nt=(2, 7), wide=.5, p_sub=r.choice([0, .3]), p_subvia=.4, p_out=.1, p_shell=.3, init=('scratch',), goals=r.choice([0, .4]), depth=2, group=0, cdfail=r.choice([0, 0, .1]), K=r.choice([0, .3]), mods=.15, inl=r.choice([0, 0, .2]))
    envs = ['V%s%d' % (x, i) for x in ('T', 'VK', 'WK', 'XK') for i in range(6)] + ['PREA', 'PREB']
    f['envsteps'] = envs
    f['env'] = {'PREA': 'alpha', 'PREB': 'b b=c'}
    return build(r, f, 'shell_state', pre=f['env'])

def longrun(r):
    """many short commands through few job slots"""
    kind = r.choice(['out', 'fast', 'mixed', 'spawnfail', 'slowexit', 'failing', 'pipes'])
    f = dict(nt=(12, 26), jobs=[1, 1, 2, 3], p_multi=.9, maxcmds=7, p_sub=0, wide=.5, p_dep=.2, dur='zero' if kind != 'mixed' else 'mixed', p_out=.9 if kind == 'out' else .3,
             outmax=r.choice([50, 9000]), A=.5, p_shell=r.choice([0, .5, 1]), K=r.choice([0, 1]), ncol=60)
    cfg = {}
    faults = []
    if kind == 'spawnfail':
        faults = [{'site': 'CreateProcess', 'nth': r.randint(0, 4), 'count': r.choice([1, 1, 1])} for _ in range(r.randint(1, 6))]
        # direct starts fail again and again, the shell works
        if r.random() < .7: faults = [{'site': 'CreateProcess', 'path': '^tool', 'nth': r.choice([0, 3]), 'count': 1000}]
    if kind in ('failing', 'pipes'): f.update(K=1, wide=.9, p_dep=.1)
    if kind == 'failing': f.update(fail=(8, 40), p_failtol=r.choice([0, .7, 1]), failcodes=(1, 2, 255, 259, 0xc0000005, 0xf291))
    if kind == 'pipes': faults = [{'site': r.choice(['CreateFile', 'CreateNamedPipe', 'ReadFile']), 'nth': r.randint(0, 6), 'count': r.choice([1, 3, 10, 50]), 'err': r.choice([0, 8])} for _ in range(r.randint(1, 3))]
    if kind == 'slowexit': cfg.update(exit_signal_us=r.choice([30000, 2000000]), exit_close_us=r.choice([0, 50]))
    return build(r, f, 'longrun', faults=faults, cfgkw=cfg)


# ---------------------------------------------------------------- histories of several builds (P15)
def mtgran(r): return r.choice([1, 1000, 16000, 2000000])
def history(r):
    gran = mtgran(r)
    f = swarm(r, dict(A=0, conv=1, newer=0, p_pseudo=.2, p_sub=r.choice([0, 0, .3]), p_echo=0, p_rem=0, p_multi=.3, p_out=.1, silent=.1, goals=0, nt=(2, 9), fail=0, p_src=.8, mods=0, dur=r.choice(['short', 'mixed', 'long'])),
              dict(batch=.3), dict(sync=.3), dict(inl=.15, inlkeep=0), dict(p_inf=.5))
    g = Gen(r, f); g.build()
    # a damaged result that looks up to date is no concern of jom
    g.init = {k: v for k, v in g.init.items() if not v[0].startswith('old ')}
    cfg = cfg_params(r, mtime_gran_us=gran, max_time_us=2000000 * O.SEC)
    script = []
    # time stamps differ in their lower or in their upper half
    step = max(gran, 20000) * 2 if r.random() < .6 else r.choice([100, 430, 900, 40000]) * O.SEC + r.randint(0, O.SEC)
    # failing runs: a command fails the first time(s) it is executed
    tools = [t for t in g.tools if not t.startswith('b_')]
    for _ in range(r.choice([0, 0, 1, 2]) if tools else 0):
        t = r.choice(tools)
        ok = g.tools[t][0]
        bad = [s for s in ok if s[0] != 'w'] + [['x', r.choice([1, 2, 5])]] if r.random() < .7 else list(ok) + [['x', 3]]
        k = r.choice([1, 1, 2])
        pre = [ok] * r.choice([0, 0, 1])
        g.tools[t] = pre + [bad] * k + [ok]
    call = g.calls['r0']
    def jom(**kw): return dict({'op': 'jom', 'cwd': '/w/p', 'args': root_args(dict(call, J=r.choice([1, 2, 3, 4])), g.projects['R'], 'r0'), 'pipe': r.random() < .3, 'env': dict(g.env)}, **kw)
    srcs = sorted(g.files)
    trig = []
    n = r.choice([1, 2, 2, 3, 4])
    for i in range(n):
        x = r.random()
        if x < .65:
            trig.append({'on': r.choice(['spawn', 'exit', 'out', 'rd', 'acq', 'rel', 'con', 'w']), 'n': r.randint(1, 6 * (i + 1)), 'delay': r.choice([0, 0, 0, 50, 1000, 100000]),
                         'do': r.choice(['kill', 'killtree', 'ctrlc', 'kill'])})
        script += [{'op': 'dump'}, jom(), {'op': 'quiesce'}, {'op': 'advance', 'us': step}]
        for _ in range(r.choice([0, 0, 1, 2])):
            if srcs:
                s = r.choice(srcs)
                script += [{'op': 'write', 'path': s, 'data': 'edit %d of %s' % (len(script), s)}]
        # somebody removes a result
        if r.random() < .15:
            outs = [t['name'] for t in g.projects['R']['targets'] if t['kind'] in ('file', 'inf')]
            if outs: script += [{'op': 'del', 'path': '/w/p/' + r.choice(outs)}]
        script += [{'op': 'advance', 'us': step}]
    script += [{'op': 'dump'}, jom(final=1), {'op': 'quiesce'}, {'op': 'advance', 'us': step}]
    nfail = max([len(v) - 1 for v in g.tools.values()] or [0])
    # runs that may still fail because of the commands themselves
    for _ in range(nfail * 3): script += [{'op': 'dump'}, jom(), {'op': 'quiesce'}, {'op': 'advance', 'us': step}]
    script += [{'op': 'dump'}, jom(), {'op': 'quiesce'}, {'op': 'advance', 'us': step}, {'op': 'dump'}, jom(), {'op': 'quiesce'}, {'op': 'dump'}]
    sc = scenario(g, r, cfg, script=script, triggers=trig)
    return case_of(g, sc, 'history', n=n)

# ---------------------------------------------------------------- read faults (P17)
def readfault(r):
    f = swarm(r, dict(fmt=0, p_sub=r.choice([0, .4]), p_out=.05, nt=(2, 8), K=r.choice([0, 0, 0, 1]), init=('scratch',), dur='short', p_multi=.5), dict(nt=(15, 40)))
    g = Gen(r, f); g.build()
    files = {}
    targets = []
    for n, p in g.projects.items():
        text = render(p); path = p['dir'] + '/' + p['mf']
        blocks = text.split('\n\n')
        if r.random() < .5 and len(blocks) > 2:
            # part of the makefile lives in an included file
            a = r.randint(0, len(blocks) - 1); b = r.randint(a + 1, len(blocks))
            inc = '%s/inc_%s.mk' % (path.rsplit('/', 1)[0], n)
            incs = '\n\n'.join(blocks[a:b]) + '\n'
            if r.random() < .3 and b - a > 1:
                inc2 = '%s/inc2_%s.mk' % (path.rsplit('/', 1)[0], n)
                m = r.randint(a + 1, b - 1)
                files[inc2] = '\n\n'.join(blocks[m:b]) + '\n'; targets.append((n, inc2))
                incs = '\n\n'.join(blocks[a:m]) + '\n!include inc2_%s.mk\n' % n
            files[inc] = incs; targets.append((n, inc))
            dire = r.choice(['!include inc_%s.mk', '!INCLUDE inc_%s.mk', '! include "inc_%s.mk"']) % n
            if r.random() < .3: dire = r.choice(['!if 1\n%s\n!endif', '!ifndef NOINC\n%s\n!else\n!error no\n!endif', '!if "$(TAG)" == ""\n!error no\n!else\n!if 2 > 1\n%s\n!endif\n!endif']) % dire
            text = '\n\n'.join(blocks[:a] + [dire] + blocks[b:])
        if r.random() < .3: text = '# ' + 'x' * r.choice([10, 3000, 20000]) + '\n' + text
        files[path] = text; targets.append((n, path))
    if r.random() < .3:
        for k in files: files[k] = files[k].replace('\n', '\r\n')
    if r.random() < .3:
        # another encoding
        for k in files:
            if r.random() < .7: files[k] = '\xef\xbb\xbf' + files[k].encode('utf-8').decode('latin-1') if r.random() < .6 else ('\ufeff' + files[k]).encode('utf-16-le').decode('latin-1')
    call = g.calls['r0']
    a = root_args(call, g.projects['R'], 'r0')
    if r.random() < .3:
        k = r.randint(0, len(a) - 1)
        while a[k - 1] in ('/J', '/F'): k -= 1
        if not any(x in ('/J', '/F') for x in a[k - 1:k]):
            files['/w/p/cmds.txt'] = r.choice([' ', '\n', '\r\n', '\t ']).join(a[k:]) + r.choice(['', '\n', '\r\n'])
            a = a[:k] + ['@cmds.txt']; targets.append(('R', '/w/p/cmds.txt'))
    who, path = r.choice(targets)
    x = r.random()
    size = len(files[path])
    if x < .25: fl = {'site': 'open_r', 'path': path, 'nth': r.choice([0, 0, 0, 1]), 'count': 99}
    else: fl = {'site': 'read', 'path': path, 'off': r.choice([0, 1, r.randrange(size), r.randrange(size), size - 1, size]), 'count': r.choice([1, 99])}
    # a read that delivers a part of the byte order mark and works when it is repeated is none Windows knows
    if 0 < fl.get('off', 0) < 3: fl['count'] = 99
    script = [{'op': 'jom', 'cwd': '/w/p', 'args': a, 'pipe': r.random() < .3, 'env': dict(g.env)}]
    sc = scenario(g, r, script=script, faults=[fl])
    for pth, t in files.items(): sc['files'][pth] = {'d': t, 'mt': mt_us(-100)}
    return case_of(g, sc, 'readfault', who=who, path=path)

# ---------------------------------------------------------------- interrupts (P18)
def interrupt(r):
    f = swarm(r, dict(p_sub=r.choice([0, .3, .6]), depth=r.choice([1, 2]), p_out=.4, inl=r.choice([0, .3, .6]), inlkeep=0, inlname=.2, goals=.3, nt=(2, 9), wide=.5, K=r.choice([0, .3]), fail=r.choice([0, 0, (1, 2)]),
                      jobs=[1, 2, 3, 4, 6]), dict(dur='long'), dict(dur='zero'), dict(setv=.2), dict(p_multi=.9))
    t = [{'on': r.choice(['spawn', 'out', 'rd', 'con', 'exit', 'acq', 'rel', 'fopenw', 'fclosew', 'w']), 'n': r.choice([1, 1, 2, 3, 4, 6, 9, 14]), 'delay': r.choice([0, 0, 0, 0, 10, 100, 1000, 30000, 400000]), 'do': 'ctrlc'}]
    if r.random() < .2: t.append(dict(t[0], delay=t[0]['delay'] + r.choice([0, 50, 2000, 200000])))
    return build(r, f, 'interrupt', triggers=t)

# ---------------------------------------------------------------- query modes (P19)
def query(r):
    kind = r.choice(['N', 'N', 'N', 'N', 'DUMPGRAPH', 'DUMPGRAPHDOT', 'VERSION', 'H', '?'])
    f = swarm(r, dict(p_sub=.15, inl=.15, setv=.05, cd=.05, K=r.choice([0, .3]), A=.15, p_out=.05, cdfail=r.choice([0, .1]), nt=(2, 12), fail=r.choice([0, (1, 2)]), N=1 if kind == 'N' else 0, noise=0), *MIXED[1:])
    f['batch'] = 0
    g = Gen(r, f); g.build()
    cfg = cfg_params(r)
    sc = scenario(g, r, cfg, extra_args=['/' + kind] if kind != 'N' else ())
    sc['script'].append({'op': 'dump'})
    return case_of(g, sc, 'query', kind=kind)

# ---------------------------------------------------------------- failing system calls (P20)
def sysfault(r):
    f = swarm(r, dict(p_sub=.15, nt=(2, 8), wide=.5, jobs=[1, 2, 2, 3, 4], K=r.choice([0, 0, 0, 1]), inl=r.choice([0, 0, .4]), inlkeep=0, p_out=.4, goals=.3, fail=0, p_failtol=0, mods=0, cd=0), dict(p_shell=.6), dict(dur='long'), dict(dur='zero'))
    sites = ['CreateProcess', 'CreateProcess', 'CreateProcess', 'CreateNamedPipe', 'CreateNamedPipe', 'CreateFile', 'ReadFile', 'CreateIoCompletionPort', 'GetExitCodeProcess', 'pthread_create', 'CreateSemaphore', 'SemAcquire', 'open_w', 'write', 'rand_s']
    fl = []
    for _ in range(r.choice([1, 1, 1, 2])):
        s = r.choice(sites)
        d = {'site': s, 'nth': r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 9, 12]), 'count': r.choice([1, 1, 2, 2, 3])}
        if s == 'CreateProcess':
            x = r.random()
            if x < .4: d.update(nth=r.randint(0, 6), count=2)
            elif x < .6: d.update(path='^tool', nth=r.randint(0, 4), count=r.choice([1, 99]))
            elif x < .75: d.update(path='^cmd.exe', nth=r.randint(0, 4), count=r.choice([1, 99]))
            elif x < .8: d.update(path='^/w/bin/jom', nth=0, count=r.choice([1, 2]))
            d['err'] = r.choice([0, 2, 5, 8, 1455])
        elif s == 'CreateNamedPipe': d['err'] = r.choice([8, 8, 231, 5]); 
        elif s in ('write', 'open_w'): d['path'] = r.choice(['.jom', '.inl', '/w/tmp'])
        elif s == 'SemAcquire': d['count'] = r.choice([1, 99])
        if s == 'CreateNamedPipe' and d['err'] == 231: d['count'] = r.choice([1, 5, 999, 1001])
        if s == 'pthread_create': d['proc'] = r.choice([0, 0, -1]); d['nth'] = r.choice([0, 1, 2])
        fl.append(d)
    return build(r, f, 'sysfault', faults=fl)

def sysfault_read(r):
    """reads of a command's output fail while the command goes on writing"""
    f = swarm(r, dict(p_sub=r.choice([0, .3]), nt=(2, 6), wide=.5, jobs=[1, 2, 3, 4], K=r.choice([0, 0, 1]), inl=0, p_out=1, outmax=r.choice([400, 5000, 20000]), fail=0, p_failtol=0, mods=0, cd=0), dict(p_multi=.6), dict(dur='long'))
    fl = [{'site': r.choice(['ReadFile', 'ReadFile', 'ReadComplete']), 'nth': r.choice([0, 1, 2, 3, 4, 5, 7, 9, 12, 20]), 'count': r.choice([1, 1, 2, 3, 8]), 'err': r.choice([0, 8, 1450, 1784])} for _ in range(r.choice([1, 1, 2, 4]))]
    return build(r, f, 'sysfault_read', faults=fl)

FAM = {
    'P01': [(5, plain, O.p01), (3, small, O.p01), (1, failing, O.p01), (1, failing_k, O.p01), (1, subtree, O.p01), (.1, ladder, O.p01)],
    'P02': [(.7, badgraph, O.p02_bad), (6, plain, O.p02), (3, small, O.p02), (1, subtree, O.p02), (1, failing, O.p02), (1, chatty, O.p02)],
    'P03': [(5, subtree, O.p03), (2, subtree_fail, O.p03), (1, plain, O.p03), (1, two_tops, O.p03)],
    'P04': [(1, small_fail, O.p04), (3, subtree, O.p04), (4, subtree_fail, O.p04), (3, mk_errors, O.p04), (1, failing_k, O.p04), (1, two_tops, O.p04), (2, sysfault, O.p04)],
    'P05': [(2, small_fail, O.p05), (3, nasty, O.p05), (2, failing, O.p05), (2, subtree_fail, O.p05), (1, small, O.p05), (1, exitcodes, O.p05), (1, longrun, O.p05), (.4, ladder, O.p05)],
    'P06': [(3, parallel, O.p06), (2, parallel_sub, O.p06)],
    'P07': [(1, small_fail, O.p07), (4, failing, O.p07), (2, subtree_fail, O.p07), (2, exitcodes, O.p07), (1, chatty_fail, O.p07)],
    'P08': [(5, failing_k, O.p08), (1, small_fail, O.p08), (.15, ladder, O.p08)],
    'P09': [(1, exitcodes, O.p09)],
    'P10': [(3, chatty, O.p10), (2, chatty_long, O.p10), (1.2, binary, O.p10_binary), (1, chatty_clock, O.p10), (2, chatty_fail, O.p10), (1, nasty_ascii, O.p10), (1, plain_ascii, O.p10)],
    'P11': [(3, chatty_long, O.p11), (2, chatty, O.p11), (1, chatty_fail, O.p11)],
    'P12': [(4, inline, O.p12), (1, inline_two, O.p12), (2, inline_fault, O.p12f)],
    'P13': [(1, small_fail, O.p13), (2, failing, O.p13), (2, subtree_fail, O.p13), (2, mk_errors, O.p13), (1, sysfault, O.p13), (1, plain, O.p13)],
    'P14': [(1, shell_state, O.p14)],
    'P15': [(1, history, O.p15)],
    'P16': [(1, longrun, O.p16)],
    'P17': [(1, readfault, O.p17)],
    'P18': [(1, interrupt, O.p18)],
    'P19': [(1, query, O.p19)],
    'P20': [(4, sysfault, O.p20), (1, sysfault_read, O.p20)],
}
def make_case(pid, seed, index):
    r = random.Random('%s/%s/%d' % (pid, seed, index))
    fams = FAM[pid]
    w, fn, orc = r.choices(fams, [x[0] for x in fams])[0]
    return fn(r), orc, fn.__name__
def oracle_of(pid, fam):
    for w, fn, orc in FAM[pid]:
        if fn.__name__ == fam: return orc
    raise KeyError(fam)
