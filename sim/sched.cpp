// Threads, scheduling, clock, event queue, pthread interposition.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

extern char **environ;

namespace sim {

Thread *cur = nullptr;
__thread Thread *self_t = nullptr;
i64 now_us = 0, wall_off_us = 0;
u64 points = 0, next_point = ~0ULL;
bool finished = false;
u64 decisions = 0;
std::vector<Thread *> threads;
Config cfg;

static volatile int controller_go = 0;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static void baton_wait(volatile int *go)
{
    while (!__atomic_load_n(go, __ATOMIC_ACQUIRE))
        raw_syscall(SYS_futex, (long)go, FUTEX_WAIT_PRIVATE, 0, 0);
    *go = 0;
}
static void baton_give(volatile int *go)
{
    __atomic_store_n(go, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)go, FUTEX_WAKE_PRIVATE, 1);
}

// ------------------------------------------------------------------ PRNG
static u64 rng_s[2];
static u64 splitmix(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void rng_seed(u64 s) { rng_s[0] = splitmix(s); rng_s[1] = splitmix(s); }
u64 rnd()
{
    u64 s1 = rng_s[0], s0 = rng_s[1];
    rng_s[0] = s0; s1 ^= s1 << 23;
    rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return rng_s[1] + s0;
}
double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

// ------------------------------------------------------------------ events
static u64 evseq = 0;
static std::map<std::pair<i64, u64>, Event> evq;      // ordered by (t, seq)
static std::map<u64, i64> evtime;
u64 at(i64 t, Proc *owner, std::function<void()> fn)
{
    if (t < now_us) t = now_us;
    u64 id = ++evseq;
    evq[{t, id}] = Event{t, id, std::move(fn), owner};
    evtime[id] = t;
    return id;
}
void cancel_event(u64 id)
{
    auto it = evtime.find(id);
    if (it == evtime.end()) return;
    evq.erase({it->second, id});
    evtime.erase(it);
}

// ------------------------------------------------------------------ tape
bool replay_mode = false;
std::vector<std::pair<u64, int>> tape_in, tape_out;
static size_t tape_pos = 0;
static u64 next_mem_point = ~0ULL;
static double env_prio = 0, time_prio = 0;
static std::vector<u64> pct_changes;
static double low_prio = -1;
u64 trace_hash = 1469598103934665603ULL, inter_hash = 1469598103934665603ULL;
static inline void hash_mix(u64 &h, u64 v) { h ^= v; h *= 1099511628211ULL; }

static void draw_gap()
{
    if (replay_mode || cfg.gap <= 0) { next_mem_point = ~0ULL; }
    else {
        double u = rnd01();
        // geometric-like gap
        double g = -cfg.gap * __builtin_log(1 - u * 0.999999);
        next_mem_point = points + 1 + (u64)g;
    }
    u64 n = next_mem_point;
    if (replay_mode && tape_pos < tape_in.size()) n = std::min(n, tape_in[tape_pos].first);
    n = std::min(n, cfg.max_points);
    next_point = n;
}
struct Freeze { int role; int proc; u64 from, to; };
static std::vector<Freeze> freezes;

void sched_init()
{
    if (!replay_mode && cfg.mode == "pct") {
        env_prio = rnd01(); time_prio = rnd01() * 0.5;
        for (int i = 0; i < cfg.pct_d; ++i) pct_changes.push_back(rnd() % cfg.pct_len);
        std::sort(pct_changes.begin(), pct_changes.end());
    }
    draw_gap();
}
void sched_add_freeze(int proc, int role, u64 from, u64 to) { freezes.push_back({role, proc, from, to}); }

static inline bool is_ready(Thread *t)
{
    if (t->st == T_READY) return true;
    if (t->st != T_BLOCKED) return false;
    if (t->woken || (t->pred && t->pred())) return true;
    if (t->deadline >= 0 && now_us >= t->deadline) return true;
    return false;
}

struct Opt { int kind; Thread *t; u64 ev; i64 evt; };   // 0 thread 1 event 2 time
enum { MAXOPT = 64 };

static int choose(Opt *o, int n, bool mem)
{
    ++decisions;
    ++points;
    if (n == 1) return 0;
    int c = 0;
    if (replay_mode) {
        while (tape_pos < tape_in.size() && tape_in[tape_pos].first < points) ++tape_pos;
        if (tape_pos < tape_in.size() && tape_in[tape_pos].first == points) { c = tape_in[tape_pos].second; ++tape_pos; if (c >= n) c = n - 1; }
        return c;
    }
    if (cfg.mode == "default") return 0;
    double w[MAXOPT];
    if (cfg.mode == "pct") {
        while (!pct_changes.empty() && decisions >= pct_changes.front()) {
            pct_changes.erase(pct_changes.begin());
            if (o[0].kind == 0) o[0].t->prio = low_prio;
            else if (o[0].kind == 1) env_prio = low_prio;
            low_prio -= 0.01;
        }
        double best = -1e18;
        for (int i = 0; i < n; ++i) {
            double p = o[i].kind == 0 ? o[i].t->prio : o[i].kind == 1 ? env_prio : -1e9;
            if (o[i].kind == 2) p = (rnd01() < cfg.wtime) ? 1e9 : -1e9;
            else if (rnd01() < 0.02) p += rnd01();    // a little noise keeps PCT fair
            if (p > best) { best = p; c = i; }
        }
        if (o[c].kind == 1) {       // any of the due events
            int k = 0, idx[MAXOPT]; for (int i = 0; i < n; ++i) if (o[i].kind == 1) idx[k++] = i;
            c = idx[rnd() % k];
        }
    } else {
        double sum = 0;
        int nev = 0; for (int i = 0; i < n; ++i) nev += o[i].kind == 1;
        for (int i = 0; i < n; ++i) {
            if (o[i].kind == 0) {
                w[i] = o[i].t->weight;
                for (auto &f : freezes)
                    if (f.role == o[i].t->role && (f.proc < 0 || f.proc == o[i].t->proc->inst) && decisions >= f.from && decisions < f.to) w[i] *= 0.0005;
                if (i == 0 && !mem && o[i].t == cur) w[i] *= cfg.psync;      // stickiness
            } else if (o[i].kind == 1) w[i] = cfg.wevent / nev;
            else w[i] = cfg.wtime;
            sum += w[i];
        }
        double r = rnd01() * sum;
        for (c = 0; c < n - 1; ++c) { r -= w[c]; if (r < 0) break; }
    }
    if (c) tape_out.emplace_back(points, c);
    return c;
}

void proc_switch_env(Proc *p)
{
    static Proc *last = nullptr;
    if (p == last) return;
    last = p;
    static char *empty[1] = {nullptr};
    environ = p && !p->envArr.empty() ? p->envArr.data() : empty;
}

// The scheduler. Runs on whichever thread holds the baton. If `me` is null or not runnable any more, never
// returns before someone gives the baton back (never, for a dead thread).
bool in_event = false;
static void schedule(Thread *me, bool mem)
{
    for (;;) {
        if (finished) {
            baton_give(&controller_go);
            if (!me) return;
            cur = nullptr;
            for (;;) { static volatile int never = 0; baton_wait(&never); }
        }
        Opt o[MAXOPT];
        int n = 0;
        bool meReady = me && is_ready(me);
        if (meReady) o[n++] = {0, me, 0, 0};
        for (Thread *t : threads) {
            if (t == me || n >= MAXOPT - 12) continue;
            if (is_ready(t)) o[n++] = {0, t, 0, 0};
        }
        bool anyThread = n > 0;
        int nev = 0;
        i64 nextTimed = -1;
        for (auto &e : evq) {
            if (e.first.first > now_us) { nextTimed = e.first.first; break; }
            if (nev < 8) { o[n++] = {1, nullptr, e.first.second, e.first.first}; ++nev; }
        }
        for (Thread *t : threads)
            if (t->st == T_BLOCKED && t->deadline > now_us && (nextTimed < 0 || t->deadline < nextTimed)) nextTimed = t->deadline;
        if (n == 0) {
            if (nextTimed < 0) { finish_run("deadlock"); continue; }
            now_us = nextTimed;
            if (now_us > cfg.max_time_us) finish_run("timecap");
            ++decisions;
            if (decisions > cfg.max_decisions) finish_run("stepcap");
            continue;
        }
        if (nextTimed >= 0 && cfg.wtime > 0 && nextTimed - now_us <= cfg.max_jump_us && (anyThread || nev)) o[n++] = {2, nullptr, 0, nextTimed};
        int c = choose(o, n, mem);
        mem = false;
        if (decisions > cfg.max_decisions || points >= cfg.max_points) { finish_run("stepcap"); continue; }
        if (o[c].kind == 2) { now_us = o[c].evt; stat("time_jumps"); if (now_us > cfg.max_time_us) finish_run("timecap"); continue; }
        now_us += cfg.tick_us;
        if (o[c].kind == 1) {
            auto it = evq.find({o[c].evt, o[c].ev});
            Event e = std::move(it->second);
            evq.erase(it); evtime.erase(e.seq);
            Thread *save = cur;
            hash_mix(trace_hash, e.seq * 2 + 1);
            in_event = true;
            e.fn();
            in_event = false;
            cur = save;
            continue;
        }
        Thread *t = o[c].t;
        if (t->st == T_BLOCKED) {
            t->timedOut = !(t->woken || (t->pred && t->pred()));
            t->st = T_READY; t->pred = nullptr; t->deadline = -1; t->woken = false;
        }
        if (t != me) {
            hash_mix(trace_hash, points * 64 + t->id);
            stat("switches");
            hash_mix(inter_hash, (u64)t->id * 1000003 + (u64)(t->waitWhat ? t->waitWhat[0] : 0));
        }
        draw_gap();
        if (t == me) { cur = me; proc_switch_env(me->proc); return; }
        cur = t;
        proc_switch_env(t->proc);
        volatile int *mygo = me ? &me->go : nullptr;
        baton_give(&t->go);
        if (!mygo) { baton_wait(&controller_go); continue; }
        baton_wait(mygo);
        // we have the baton again; `cur` was set by the giver
        return;
    }
}

void run_controller()
{
    schedule(nullptr, false);
}

void finish_run(const char *status)
{
    if (finished) return;
    finished = true;
    log_begin("end", nullptr); log_s("status", status); log_end();
}

void point_slow()
{
    if (!self_t || cur != self_t || finished) {
        if (self_t && cur == self_t && finished) schedule(self_t, true);
        return;
    }
    if (self_t->nopreempt) { draw_gap(); return; }
    if (replay_mode && tape_pos < tape_in.size() && tape_in[tape_pos].first > points && points < cfg.max_points) { draw_gap(); return; }
    --points;           // choose() counts it
    stat("mem_preemption_points");
    schedule(self_t, true);
}

void sched_point(const char *what)
{
    Thread *t = self_t;
    if (!t || t != cur || t->nopreempt) return;
    t->waitWhat = what;
    schedule(t, false);
}

bool block(const char *what, std::function<bool()> pred, i64 deadline)
{
    Thread *t = self_t;
    if (!t || t != cur) { sim_bug("block(%s) outside of a simulated thread", what); return true; }
    t->waitWhat = what;
    t->pred = std::move(pred);
    t->deadline = deadline;
    t->timedOut = false;
    t->st = T_BLOCKED;
    schedule(t, false);
    return !t->timedOut;
}

void thread_exit_self()
{
    Thread *t = self_t;
    if (t->st != T_DEAD) t->st = T_DONE;
    schedule(t, false);
    abort();
}

void kill_thread(Thread *t)
{
    if (t->st != T_DONE) t->st = T_DEAD;
    t->pred = nullptr;
}

// ------------------------------------------------------------------ threads
static pthread_key_t exit_key;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static const size_t STACK = 1 << 20;
static char *stack_base = (char *)0x300000000000ULL;

static void exit_key_dtor(void *p)
{
    Thread *t = (Thread *)p;
    if (++t->exitRound < 3) { pthread_setspecific(exit_key, t); return; }
    thread_exit_self();
}
void threads_init()
{
    pthread_key_create(&exit_key, exit_key_dtor);
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
}
static void *tramp(void *p)
{
    Thread *t = (Thread *)p;
    self_t = t;
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = (char *)t->stackLow; ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    baton_wait(&t->go);
    pthread_setspecific(exit_key, t);
    t->retval = t->fn(t->arg);
    return t->retval;       // continues in exit_key_dtor, still holding the baton
}
Thread *new_thread(Proc *p, void *(*fn)(void *), void *arg)
{
    Thread *t = new Thread;
    t->id = (int)threads.size();
    t->proc = p; t->fn = fn; t->arg = arg;
    t->role = p ? (int)p->thr.size() : 0;
    if (!replay_mode && cfg.mode != "default") {
        t->prio = rnd01();
        double u = rnd01();
        t->weight = u < 0.15 ? 0.05 : u < 0.3 ? 8 : 1;
    }
    char *lo = stack_base + (size_t)t->id * (STACK + 65536 * 2);
    // [altstack 64K][guard 64K][stack]
    mmap(lo, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    mmap(lo + 65536, 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    mmap(lo + 131072, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    t->stackLow = lo;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, lo + 131072, STACK);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    threads.push_back(t);
    if (p) p->thr.push_back(t);
    Thread *saveSelf = self_t;
    int r = real_create(&t->pt, &a, tramp, t);
    self_t = saveSelf;
    pthread_attr_destroy(&a);
    if (r) sim_bug("pthread_create failed %d", r);
    stat("threads");
    return t;
}

// pthread state that lives in the simulator
struct CondWaiter { Thread *t; };
static std::map<void *, std::deque<Thread *>> conds;
static std::map<void *, std::deque<Thread *>> futexes;

static void drop_dead(std::deque<Thread *> &q)
{
    q.erase(std::remove_if(q.begin(), q.end(), [](Thread *t) { return t->st == T_DEAD || t->st == T_DONE; }), q.end());
}

} // namespace sim

using namespace sim;

#define REAL(name) static decltype(&name) real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {

int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (!insim()) {
        if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
        return real_create(th, attr, fn, arg);
    }
    if (Fault *f = fault_check("pthread_create", cur->proc)) { (void)f; return EAGAIN; }
    Thread *t = new_thread(cur->proc, fn, arg);
    if (attr) { int d = 0; pthread_attr_getdetachstate(attr, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
    *th = (pthread_t)t->pt;
    sched_point("create");
    return 0;
}
static Thread *find_thread(pthread_t pt)
{
    for (Thread *t : threads) if (t->pt == pt) return t;
    return nullptr;
}
int pthread_join(pthread_t th, void **ret)
{
    if (!insim()) { REAL(pthread_join); return real(th, ret); }
    Thread *t = find_thread(th);
    if (!t) return ESRCH;
    block("join", [t] { return t->st == T_DONE || t->st == T_DEAD; });
    if (ret) *ret = t->retval;
    return 0;
}
int pthread_detach(pthread_t th) { if (!insim()) { REAL(pthread_detach); return real(th); } return 0; }
int pthread_cancel(pthread_t th) { if (!insim()) { REAL(pthread_cancel); return real(th); } if (Thread *t = find_thread(th)) { kill_thread(t); if (t == self_t) thread_exit_self(); } return 0; }

// mutexes: the sim keeps ownership in the mutex memory itself (only one thread runs at a time)
static inline unsigned *simMtx(pthread_mutex_t *m) { return (unsigned *)&m->__data.__lock; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!insim()) { REAL(pthread_mutex_lock); return real(m); }
    sched_point("mutex");
    int me = self_t->id + 1;
    if (*simMtx(m) && m->__data.__owner == me) {
        int kind = m->__data.__kind & 3;
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++m->__data.__count; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    while (*simMtx(m)) block("mutex", [m] { return *simMtx(m) == 0; });
    *simMtx(m) = 1; m->__data.__owner = me; m->__data.__count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!insim()) { REAL(pthread_mutex_trylock); return real(m); }
    sched_point("mutex");
    if (*simMtx(m)) {
        if (m->__data.__owner == self_t->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++m->__data.__count; return 0; }
        return EBUSY;
    }
    *simMtx(m) = 1; m->__data.__owner = self_t->id + 1; m->__data.__count = 1;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!insim()) { REAL(pthread_mutex_timedlock); return real(m, ts); }
    i64 d = (i64)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 - wall_us() + now_us;
    while (*simMtx(m)) if (!block("mutex", [m] { return *simMtx(m) == 0; }, d)) return ETIMEDOUT;
    *simMtx(m) = 1; m->__data.__owner = self_t->id + 1; m->__data.__count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!insim()) { REAL(pthread_mutex_unlock); return real(m); }
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__count > 1) { --m->__data.__count; return 0; }
    *simMtx(m) = 0; m->__data.__owner = 0; m->__data.__count = 0;
    sched_point("unlock");
    return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline)
{
    Thread *t = self_t;
    int cnt = m->__data.__count;
    conds[c].push_back(t);
    t->woken = false;
    *simMtx(m) = 0; m->__data.__owner = 0;
    if (cfg.spurious && !deadline) {}
    bool ok = block("cond", [] { return false; }, deadline);
    auto &q = conds[c];
    q.erase(std::remove(q.begin(), q.end(), t), q.end());
    while (*simMtx(m)) block("mutex", [m] { return *simMtx(m) == 0; });
    *simMtx(m) = 1; m->__data.__owner = t->id + 1; m->__data.__count = cnt;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!insim()) { REAL(pthread_cond_wait); return real(c, m); }
    return cond_wait(c, m, -1);
}
static i64 abs_deadline(const struct timespec *ts, bool mono)
{
    i64 v = (i64)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
    return mono ? std::max<i64>(0, v) : std::max<i64>(0, v - wall_us() + now_us);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!insim()) { REAL(pthread_cond_timedwait); return real(c, m, ts); }
    // clock id is kept in __data.__wrefs bit 1 by glibc (CLOCK_MONOTONIC)
    bool mono = c->__data.__wrefs & 2;
    return cond_wait(c, m, abs_deadline(ts, mono));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts)
{
    if (!insim()) { REAL(pthread_cond_clockwait); return real(c, m, id, ts); }
    return cond_wait(c, m, abs_deadline(ts, id == CLOCK_MONOTONIC));
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!insim()) { REAL(pthread_cond_signal); return real(c); }
    auto it = conds.find(c);
    if (it != conds.end()) {
        drop_dead(it->second);
        if (!it->second.empty()) { it->second.front()->woken = true; it->second.pop_front(); }
    }
    sched_point("signal");
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!insim()) { REAL(pthread_cond_broadcast); return real(c); }
    auto it = conds.find(c);
    if (it != conds.end()) {
        drop_dead(it->second);
        for (Thread *t : it->second) t->woken = true;
        it->second.clear();
    }
    sched_point("broadcast");
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    if (!insim()) { REAL(pthread_once); return real(o, fn); }
    int *s = (int *)o;
    if (*s == 2) return 0;
    while (*s == 7) block("once", [s] { return *s != 7; });
    if (*s == 2) return 0;
    *s = 7; fn(); *s = 2;
    return 0;
}
int sched_yield() { if (!insim()) { REAL(sched_yield); return real(); } sched_point("yield"); return 0; }

long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (insim() && n == SYS_futex) {
        int *addr = (int *)a; int op = int(b) & 127;
        switch (op) {
        case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
            if (*(volatile int *)addr != (int)c) { errno = EAGAIN; return -1; }
            i64 dl = -1;
            if (d) {
                const struct timespec *ts = (const struct timespec *)d;
                i64 v = (i64)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
                dl = op == FUTEX_WAIT ? now_us + v : (b & FUTEX_CLOCK_REALTIME) ? v - wall_us() + now_us : v;
            }
            auto &q = futexes[addr];
            q.push_back(self_t); self_t->woken = false;
            bool ok = block("futex", [] { return false; }, dl);
            auto &q2 = futexes[addr];
            q2.erase(std::remove(q2.begin(), q2.end(), self_t), q2.end());
            if (!ok) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
            long k = 0;
            auto it = futexes.find(addr);
            if (it != futexes.end()) {
                drop_dead(it->second);
                while (k < c && !it->second.empty()) { it->second.front()->woken = true; it->second.pop_front(); ++k; }
            }
            sched_point("fwake");
            return k;
        }
        case FUTEX_WAKE_OP: {
            int *addr2 = (int *)e;
            unsigned enc = (unsigned)f; int opc = enc >> 28 & 7, cmp = enc >> 24 & 15, oparg = (int)(enc << 8) >> 20, cmparg = (int)(enc << 20) >> 20;
            int old = *addr2;
            if (enc >> 31) oparg = 1 << oparg;
            switch (opc) { case 0: *addr2 = oparg; break; case 1: *addr2 += oparg; break; case 2: *addr2 |= oparg; break; case 3: *addr2 &= ~oparg; break; case 4: *addr2 ^= oparg; break; }
            bool t2 = cmp == 0 ? old == cmparg : cmp == 1 ? old != cmparg : cmp == 2 ? old < cmparg : cmp == 3 ? old <= cmparg : cmp == 4 ? old > cmparg : old >= cmparg;
            long k = 0;
            for (int r = 0; r < 2; ++r) {
                if (r && !t2) break;
                auto it = futexes.find(r ? (void *)addr2 : (void *)addr);
                long lim = r ? d : c, kk = 0;
                if (it != futexes.end()) { drop_dead(it->second); while (kk < lim && !it->second.empty()) { it->second.front()->woken = true; it->second.pop_front(); ++kk; } }
                k += kk;
            }
            sched_point("fwake");
            return k;
        }
        default: note_unsupported("futex op"); errno = ENOSYS; return -1;
        }
    }
    if (insim() && n == SYS_gettid) return 1000 + self_t->id;
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------------ clocks
static void to_ts(i64 us, struct timespec *ts) { ts->tv_sec = us / 1000000; ts->tv_nsec = us % 1000000 * 1000; }
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!insim()) { long r = raw_syscall(SYS_clock_gettime, id, (long)ts); if (r < 0) { errno = -r; return -1; } return 0; }
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) to_ts(wall_us(), ts); else to_ts(now_us, ts);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!insim()) { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    i64 w = wall_us(); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0;
}
time_t time(time_t *t)
{
    time_t v;
    if (!insim()) { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); v = ts.tv_sec; } else v = wall_us() / 1000000;
    if (t) *t = v;
    return v;
}
int nanosleep(const struct timespec *rq, struct timespec *rm)
{
    if (!insim()) { long r = raw_syscall(SYS_nanosleep, (long)rq, (long)rm); if (r < 0) { errno = -r; return -1; } return 0; }
    block("sleep", [] { return false; }, now_us + (i64)rq->tv_sec * 1000000 + (rq->tv_nsec + 999) / 1000);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm)
{
    if (!insim()) return -(int)raw_syscall(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm);
    i64 v = (i64)rq->tv_sec * 1000000 + (rq->tv_nsec + 999) / 1000;
    block("sleep", [] { return false; }, flags & TIMER_ABSTIME ? (id == CLOCK_REALTIME ? v - wall_us() + now_us : v) : now_us + v);
    return 0;
}
int usleep(useconds_t us) { struct timespec ts; ts.tv_sec = us / 1000000; ts.tv_nsec = us % 1000000 * 1000; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts; ts.tv_sec = s; ts.tv_nsec = 0; nanosleep(&ts, nullptr); return 0; }
long sysconf(int name)
{
    // jom's default number of jobs is set by a static initialiser, before there is a scenario
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return insim() ? cfg.cores : 4;
    REAL(sysconf);
    return real(name);
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set)
{
    int n = insim() ? cfg.cores : 4;
    memset(set, 0, sz);
    for (int i = 0; i < n; ++i) __CPU_SET_S(i, sz, set);
    return 0;
}

} // extern "C"
