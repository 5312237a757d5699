#!/usr/bin/env python3
"""Decides one property: seeded search over simulated runs of jom.

  check.py P07 [--tier quick|thorough] [--seed N] [--seconds S] [--from I]
  check.py --replay FILE      runs the recorded schedule and faults again (exit 1: the violation shows up again)

Case i of property P with seed S is a function of (P, S, i) only: a generated project, a fault plan and the
seed of the scheduler. One case is one deterministic run of the simulator."""
import argparse, collections, copy, hashlib, json, multiprocessing, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import simclient
from history import History
import families

QUICK_S, THOROUGH_S = 24, 1500
PROCS = int(os.environ.get('VERIF_PROCS', '8'))

REAL = ['all of src/jomlib and src/app compiled from the working tree (parser, preprocessor, dependency graph, executor, process and pipe handling, job server and client, console handler)',
        'Qt 5 core of the sandbox: event loop, signals, timers, threads, QFile, QSystemSemaphore, QMutex']
STUB = ['Win32 API used by jom (processes, named pipes, completion ports, console, Ctrl-C): model in sim/win32.cpp',
        'build tools, cmd.exe and the console: scripted actors (sim/actors.cpp)', 'file system and file times: in-memory model (sim/vfs.cpp)',
        'clock, threads scheduling, System V semaphores, random numbers: simulator (sim/sched.cpp)']

# ---------------------------------------------------------------- what counts as a run that exercised the property
def overlap(h):
    xs = sorted((x.spawn_t, x.sig_t or x.exit_t or 1 << 60) for j in h.joms for x in h.execs(j))
    end = -1
    for a, b in xs:
        if a < end: return True
        end = max(end, b)
    return False
def ncmds(h): return sum(len(h.execs(j)) for j in h.joms)
def has(h, *ks): return any(e['k'] in ks for e in h.res.ev)
def fired(h): return has(h, 'fault', 'trigger')
def failed(h): return any(x.code for j in h.joms for x in h.execs(j))
NONTRIV = {
    'P01': ('at least two commands ran at the same time', overlap), 'P02': ('at least two commands were executed', lambda h: ncmds(h) >= 2),
    'P03': ('at least two commands ran at the same time', overlap),
    'P04': ('a job token was taken', lambda h: any(e['k'] == 'sem' and e['op'] == 'acq' for e in h.res.ev)),
    'P05': ('at least two commands were executed', lambda h: ncmds(h) >= 2), 'P06': ('at least two commands ran at the same time', overlap),
    'P07': ('a command failed while others ran or waited', lambda h: failed(h) and ncmds(h) >= 2), 'P08': ('a command failed', failed),
    'P09': ('a command returned an exit code other than 0', failed), 'P10': ('a command wrote output', lambda h: has(h, 'out')),
    'P11': ('commands that ran at the same time wrote output', lambda h: overlap(h) and has(h, 'out')),
    'P12': ('a command got an inline file, or a fault hit one', lambda h: has(h, 'inl', 'fault')),
    'P13': ('at least two commands were executed', lambda h: ncmds(h) >= 2), 'P14': ('a command saw its environment and directory', lambda h: has(h, 'env')),
    'P15': ('a build was interrupted, or files changed between builds', lambda h: has(h, 'trigger', 'edit')),
    'P16': ('at least ten commands were executed', lambda h: ncmds(h) >= 10), 'P17': ('a read or open failed', lambda h: has(h, 'fault')),
    'P18': ('Ctrl-C arrived', lambda h: has(h, 'trigger')), 'P19': ('the query got an answer', lambda h: has(h, 'con')),
    'P20': ('a system call failed', lambda h: has(h, 'fault')),
}

def judge(pid, case, oracle, res):
    h = History(case, res)
    if h.problem: return h, None
    return h, oracle(case, h)

def known_findings():
    f = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else {'known': [], 'fixed': []}
def known_of(pid, case, msgs, known):
    """entries that explain every message; None if one is not explained"""
    hit = []
    for m in msgs:
        k = [e for e in known if e['property'] == pid and re.search(e['message'], m) and (not e.get('makefile') or any(re.search(e['makefile'], f['d'] if isinstance(f, dict) else f) for f in case['scenario']['files'].values()))]
        if not k: return None
        hit.append(k[0]['id'])
    return hit

# ---------------------------------------------------------------- workers
def worker(w, n, bdir, pid, seed, start, deadline, maxruns, q, known):
    agg = {'runs': 0, 'nontrivial': 0, 'sim_us': 0, 'faults': collections.Counter(), 'status': collections.Counter(), 'fam': collections.Counter(), 'inter': set(),
           'ev': 0, 'decisions': 0, 'points': 0, 'switches': 0, 'jumps': 0, 'procs': 0, 'problems': collections.Counter(), 'known': collections.Counter(), 'samples': [], 'last': 0, 'oracle_errors': []}
    srv = simclient.Server(bdir, 60)
    i = start + w
    try:
        while time.time() < deadline and (not maxruns or i < start + maxruns):
            try:
                case, oracle, fam = families.make_case(pid, seed, i)
                res = srv.run(case['scenario'])
                h, v = judge(pid, case, oracle, res)
            except simclient.SimError as e:
                agg['problems']['simulator: %s' % e] += 1; srv.close(); i += n; continue
            agg['runs'] += 1; agg['fam'][fam] += 1; agg['status'][h.status] += 1; agg['last'] = i
            s = h.stats
            agg['sim_us'] += s.get('sim_us', 0); agg['decisions'] += s.get('decisions', 0); agg['points'] += s.get('points', 0); agg['switches'] += s.get('switches', 0)
            agg['jumps'] += s.get('time_jumps', 0); agg['procs'] += s.get('jom_processes', 0) + s.get('tool_processes', 0)
            for k, x in s.items():
                if k.startswith('fault.') or k.startswith('trigger.') or k in ('pipe_full', 'time_jumps', 'mem_preemption_points', 'grandchildren', 'timer_wakeups'): agg['faults'][k] += x
            if h.problem: agg['problems'][h.problem[:80]] += 1
            else:
                if NONTRIV[pid][1](h):
                    key = (s.get('inter'), s.get('trace'))
                    if key not in agg['inter']: agg['inter'].add(key); agg['nontrivial'] += 1
                    if len(agg['samples']) < 1 and w == 0:
                        agg['samples'].append({'index': i, 'family': fam, 'makefiles': {k: f['d'][:1500] for k, f in case['scenario']['files'].items() if k in [p['dir'] + '/' + p['mf'] for p in case['projects'].values()]},
                                               'script': case['scenario']['script'][:3], 'cfg': case['scenario']['cfg'], 'sched': case['scenario']['sched'], 'faults': case['scenario']['faults'], 'triggers': case['scenario']['triggers'],
                                               'commands_started': ncmds(h), 'simulated_ms': s.get('sim_us', 0) / 1000, 'status': h.status})
                if v:
                    k = known_of(pid, case, v, known)
                    if k is not None:
                        for x in set(k): agg['known'][x] += 1
                    else: q.put(('viol', i, fam, v[:5]))
            i += n
    except Exception:
        agg['oracle_errors'].append('case %d: %s' % (i, traceback.format_exc()))
    srv.close()
    agg['inter'] = list(agg['inter'])
    q.put(('done', w, agg))

# ---------------------------------------------------------------- confirming and minimising
def kind_of(msg):
    """what a message says, without the particulars"""
    return re.sub(r"'[^']*'|\"[^\"]*\"|\[[^\]]*\]|\S*\d\S*|/\S+", '', msg.split(':')[0])[:60].strip()
def run_once(bdir, case, limit=60):
    srv = simclient.Server(bdir, limit)
    try: return srv.run(case['scenario'])
    finally: srv.close()
def confirm(bdir, pid, case, oracle):
    """the same run twice, in fresh simulators; runs that were cut short get more room"""
    a = run_once(bdir, case); h, v = judge(pid, case, oracle, a)
    if not v: return None
    if h.status in ('stepcap', 'timecap'):
        c2 = copy.deepcopy(case); cfg = c2['scenario']['cfg']
        cfg['max_decisions'] = cfg.get('max_decisions', 200000) * 6; cfg['max_points'] = cfg.get('max_points', 8000000) * 6
        cfg['max_time_us'] = cfg.get('max_time_us', 1800000000) * 3
        r2 = run_once(bdir, c2, 200); h2, v2 = judge(pid, c2, oracle, r2)
        if h2.problem or not v2: return None
        case = c2; a = r2; v = v2
    b = run_once(bdir, case, 200)
    if a.raw != b.raw: return None
    return case, a, v
def with_tape(case, res):
    """the schedule written out: only the decisions that differ from the default"""
    t = [e for e in res.ev if e['k'] == 'tape']
    if not t: return None
    c = copy.deepcopy(case)
    c['scenario']['tape'] = t[0]['v']
    return c
def minimise(bdir, pid, case, oracle, res, msgs, seconds):
    """fewer deviations from the default schedule, fewer faults, as long as the same kind of violation shows"""
    t_end = time.time() + seconds
    want = kind_of(msgs[0])
    srv = simclient.Server(bdir, 60)
    tries = 0
    def bad(c):
        nonlocal tries
        tries += 1
        try: h, v = judge(pid, c, oracle, srv.run(c['scenario']))
        except Exception: srv.close(); return None
        if v and any(kind_of(m) == want for m in v): return v
        return None
    cur = with_tape(case, res)
    if cur is None or not bad(cur): srv.close(); return case, tries
    sc = cur['scenario']
    for key in ('faults', 'triggers'):
        k = 0
        while k < len(sc[key]) and time.time() < t_end:
            c = copy.deepcopy(cur); del c['scenario'][key][k]
            if bad(c): cur = c; sc = cur['scenario']
            else: k += 1
    c = copy.deepcopy(cur); c['scenario']['tape'] = []
    if bad(c): cur = c
    else:
        n = 2
        while time.time() < t_end:
            tape = cur['scenario']['tape']
            if not tape: break
            n = min(n, len(tape)); size = -(-len(tape) // n); hit = False
            for k in range(0, len(tape), size):
                if time.time() >= t_end: break
                c = copy.deepcopy(cur); c['scenario']['tape'] = tape[:k] + tape[k + size:]
                if bad(c): cur = c; hit = True; break
            if hit: n = max(2, n - 1)
            elif size == 1: break
            else: n *= 2
    srv.close()
    return cur, tries

def story(case, res, msgs, limit=120):
    out = ['violation: ' + m for m in msgs[:5]]
    for e in res.ev:
        if e['k'] in ('jom', 'spawn', 'exit', 'fault', 'trigger', 'killed', 'sem', 'mainreturn', 'unlink', 'fopenw', 'crash', 'end', 'spawnfail'):
            out.append('%10.3f ms  %s' % (e['t'] / 1000, ' '.join('%s=%s' % (k, x) for k, x in e.items() if k not in ('t', 'maxh', 'polls', 'pt', 'thr', 'maxthr', 'inh'))))
    return out[:limit]

def replay_file(pid, seed, index, fam, case, msgs, res, tries):
    d = os.path.join(ROOT, 'replays'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s-%s.json' % (pid, seed, index))
    json.dump({'property': pid, 'seed': seed, 'index': index, 'family': fam, 'message': msgs, 'log_sha256': hashlib.sha256(res.raw).hexdigest(), 'minimisation_runs': tries,
               'deviations_from_default_schedule': len(case['scenario'].get('tape') or []), 'story': story(case, res, msgs), 'case': case}, open(f, 'w'), indent=1)
    return f

def replay(path):
    r = json.load(open(path))
    bdir = simclient.simbuild.build()
    oracle = families.oracle_of(r['property'], r['family'])
    res = run_once(bdir, r['case'], 200)
    h, v = judge(r['property'], r['case'], oracle, res)
    for l in story(r['case'], res, v or []): print(l)
    same = hashlib.sha256(res.raw).hexdigest() == r['log_sha256']
    print('the log is %s the recorded one' % ('identical to' if same else 'different from'))
    if v:
        print('VIOLATION property=%s replay=%s' % (r['property'], path)); return 1
    print('the property holds in this run'); return 0

# ---------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--seconds', type=float); ap.add_argument('--runs', type=int, default=0); ap.add_argument('--from', dest='start', type=int, default=0)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    pid = a.property
    t0 = time.time()
    bdir = simclient.simbuild.build()
    tb = time.time() - t0
    kf = known_findings()
    mine = [e for e in kf.get('known', []) if e['property'] == pid]
    secs = a.seconds or (THOROUGH_S if a.tier == 'thorough' else QUICK_S)
    q = multiprocessing.Queue()
    deadline = time.time() + secs
    t1 = time.time()
    ps = [multiprocessing.Process(target=worker, args=(w, PROCS, bdir, pid, a.seed, a.start, deadline, a.runs, q, mine)) for w in range(PROCS)]
    for p in ps: p.start()
    viol, aggs, unconfirmed, dropped = [], [], 0, []
    found = None
    tried = collections.Counter()
    while len(aggs) < PROCS:
        try: m = q.get(timeout=120)
        except Exception:
            if not any(p.is_alive() for p in ps): break
            continue
        if m[0] == 'done': aggs.append(m[2])
        else:
            viol.append(m[1:])
            fam = m[2]
            if found is None and sum(tried.values()) < 60:
                tried[fam] += 1
                case, oracle, _ = families.make_case(pid, a.seed, m[1])
                c = confirm(bdir, pid, case, oracle)
                if c is None: unconfirmed += 1; dropped.append('case %d (%s): %s' % (m[1], fam, m[3][0]))
                else:
                    found = (m[1], fam, oracle) + c
                    break
    if found:
        for p in ps: p.terminate()
    for p in ps: p.join()
    wall = time.time() - t1
    rc = 0
    errors = [e for g in aggs for e in g['oracle_errors']]
    total = {k: sum(g[k] for g in aggs) for k in ('runs', 'sim_us', 'decisions', 'points', 'switches', 'procs')}
    cnt = lambda k: dict(sum((collections.Counter(g[k]) for g in aggs), collections.Counter()))
    known = cnt('known')
    for e in mine:
        print('KNOWN-FINDING: property=%s %s (%d of the explored runs)' % (pid, e['what'], known.get(e['id'], 0)))
    if found:
        index, fam, oracle, case, res, msgs = found
        mini, tries = minimise(bdir, pid, case, oracle, res, msgs, 25 if a.tier == 'quick' else 120)
        r2 = run_once(bdir, mini, 200); h2, v2 = judge(pid, mini, oracle, r2)
        if not v2: mini, r2, v2 = case, res, msgs
        f = replay_file(pid, a.seed, index, fam, mini, v2, r2, tries)
        print('case %d (%s): %s' % (index, fam, v2[0]))
        print('replay with: python3 chk/check.py --replay %s' % os.path.relpath(f, ROOT))
        print('VIOLATION property=%s replay=%s' % (pid, f))
        rc = 1
    inter = set(tuple(x) for g in aggs for x in g['inter'])
    runs = total['runs']
    prob = cnt('problems')
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': 'exploration',
          'coverage': {
              'evaluations': runs, 'distinct_nontrivial': len(inter),
              'rule': 'one evaluation is one simulated run of a generated project (families below) under a seeded schedule and fault plan; it counts if %s; two are the same if their schedule traces (hash of every scheduling decision and of the switches between threads) are equal' % NONTRIV[pid][0],
              'samples': [x for g in aggs for x in g['samples']][:2],
              'runs_per_hour': int(runs / wall * 3600) if wall else 0, 'seeds_per_hour': int(runs / wall * 3600) if wall else 0,
              'simulated_hours': round(total['sim_us'] / 3.6e9, 3), 'faults_and_triggers_fired': cnt('faults'), 'run_endings': cnt('status'), 'families': cnt('fam'),
              'scheduling_decisions': total['decisions'], 'preemption_points_passed': total['points'], 'thread_switches': total['switches'], 'simulated_processes': total['procs'],
              'distinct_interleavings': len(inter), 'discarded_runs': prob, 'unconfirmed_reports': unconfirmed, 'real_code': REAL, 'stubs': STUB,
              'known_findings_met': known},
          'assumptions': ['the Win32 model behaves like Windows where jom looks (sim/win32.cpp, DESIGN.md)', 'the reference model of nmake semantics in chk/project.py is right', 'search is random: it shows the presence of violations, not their absence'],
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if rc == 0:
        if errors: print('\n'.join(errors)); return 3
        if runs < 50 and not a.runs or sum(prob.values()) > runs * .2 + 10:
            print('only %d usable runs: %r' % (runs, prob)); return 3
        print('%s: %d runs (%d distinct, non-trivial) in %.0f s, build %.0f s; no violation' % (pid, runs, len(inter), wall, tb))
        if unconfirmed: print('%d reports did not repeat and were dropped: %s' % (unconfirmed, dropped[0]))
    return rc

if __name__ == '__main__':
    sys.exit(main())
