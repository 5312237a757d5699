// Simulator core: threads, scheduler, clock, processes, virtual kernel objects, event log.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <pthread.h>
#include "json.h"

namespace sim {

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;

struct Proc;
struct Thread;
struct Actor;

// ---------------------------------------------------------------- threads & scheduling
enum TState { T_READY, T_BLOCKED, T_DONE, T_DEAD };

struct Thread {
    int id = 0;
    Proc *proc = nullptr;
    TState st = T_READY;
    volatile int go = 0;
    std::function<bool()> pred;         // T_BLOCKED: runnable when this holds ...
    i64 deadline = -1;                  // ... or when now >= deadline (if >= 0)
    bool timedOut = false;
    bool woken = false;                 // for explicit wake-ups (futex, condition variables)
    const char *waitWhat = "";
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *retval = nullptr;
    void *stackLow = nullptr;
    pthread_t pt = 0;
    u32 lastError = 0;
    int nopreempt = 0;
    int exitRound = 0;
    bool detached = false;
    double weight = 1;
    double prio = 0;
    int role = 0;                       // n-th thread of its process
};

extern Thread *cur;                     // thread that holds the baton
extern __thread Thread *self_t;         // simulated thread this OS thread is (or null)
inline bool insim() { return self_t != nullptr; }

extern i64 now_us;                      // simulated monotonic clock
extern i64 wall_off_us;                 // wall clock = epoch + now + wall_off
extern u64 points;                      // preemption points passed
extern u64 next_point;

void point_slow();                      // a memory access preemption point is due
inline void point() { if (++points >= next_point) point_slow(); }
void sched_point(const char *what);     // a synchronisation operation
bool block(const char *what, std::function<bool()> pred, i64 deadline = -1);   // false: timed out
Thread *new_thread(Proc *p, void *(*fn)(void *), void *arg);
[[noreturn]] void thread_exit_self();   // current thread never runs again
void kill_thread(Thread *t);
extern bool in_event;                    // an event is executed, not a thread
extern std::vector<Thread *> threads;

// ---------------------------------------------------------------- events
struct Event {
    i64 t;
    u64 seq;
    std::function<void()> fn;
    Proc *owner;
};
u64 at(i64 t_us, Proc *owner, std::function<void()> fn);    // returns id
inline u64 after(i64 dt_us, Proc *owner, std::function<void()> fn) { return at(now_us + dt_us, owner, std::move(fn)); }
void cancel_event(u64 id);
void finish_run(const char *status);    // ends the simulation; returns only to the scheduler loop
extern bool finished;
extern u64 decisions;

// ---------------------------------------------------------------- log
void log_begin(const char *kind, Proc *p);
void log_i(const char *key, i64 v);
void log_s(const char *key, const std::string &v);
void log_end();
void logev(const char *kind, Proc *p, const std::string &s = std::string());
extern std::map<std::string, i64> stats;
inline void stat(const char *name, i64 n = 1) { stats[name] += n; }
void sim_bug(const char *fmt, ...);     // the simulator itself is wrong: error exit
void note_unsupported(const char *what);

// ---------------------------------------------------------------- kernel objects
enum OType { O_PIPE_R, O_PIPE_W, O_IOCP, O_PROC, O_THREAD, O_SEM, O_EVENT, O_MUTEX, O_FILE, O_CONSOLE };
struct Pipe;
struct Iocp;
struct Node;

struct Obj {
    OType type;
    int refs = 0;
    explicit Obj(OType t) : type(t) {}
    virtual ~Obj() {}
    virtual bool signaled() { return false; }
    virtual void consume() {}
};

struct PendingRead {
    void *buf = nullptr;
    u32 len = 0;
    void *ovl = nullptr;            // OVERLAPPED*
    Proc *proc = nullptr;
    bool active = false;
};

struct Pipe {
    std::string name;
    std::string data;               // bytes in the pipe
    u64 written = 0, read = 0;
    size_t quota = 1 << 20;
    int readers = 0, writers = 0;   // handles (over all processes)
    bool clientOpened = false;
    bool listed = false;            // the name still accepts clients
    PendingRead rd;                 // the oldest pending read; later ones queue up behind it
    std::deque<PendingRead> more;
    Iocp *iocp = nullptr;           // association of the read side
    u64 key = 0;
    int tag = 0;                    // id for the log
    std::vector<std::function<void()>> onSpace;
    std::vector<std::function<void()>> onEof;
};
void pipe_space_event(Pipe *p);

struct PipeObj : Obj {
    Pipe *p;
    bool overlapped = false;
    PipeObj(OType t, Pipe *pp) : Obj(t), p(pp) {}
};

struct Packet { u32 bytes; u64 key; void *ovl; u32 err; };
struct Iocp : Obj {
    std::deque<Packet> q;
    Iocp() : Obj(O_IOCP) {}
};

struct ProcObj : Obj {
    Proc *p;
    explicit ProcObj(Proc *pp) : Obj(O_PROC), p(pp) {}
    bool signaled() override;
};
struct ThreadObj : Obj {
    Thread *t; Proc *p;
    ThreadObj(Thread *tt, Proc *pp) : Obj(O_THREAD), t(tt), p(pp) {}
    bool signaled() override;
};
struct SemObj : Obj {
    std::string name;
    int value, max;
    int tag = 0;
    SemObj(const std::string &n, int v, int m) : Obj(O_SEM), name(n), value(v), max(m) {}
    bool signaled() override { return value > 0; }
    void consume() override { --value; }
};
struct EventObj : Obj {
    bool set, manual;
    EventObj(bool s, bool m) : Obj(O_EVENT), set(s), manual(m) {}
    bool signaled() override { return set; }
    void consume() override { if (!manual) set = false; }
};
struct MutexObj : Obj {
    Thread *owner = nullptr; int count = 0;
    MutexObj() : Obj(O_MUTEX) {}
    bool signaled() override { return !owner || owner == cur; }
    void consume() override { owner = cur; ++count; }
};
struct ConsoleObj : Obj {
    int stream;                     // 1 stdout, 2 stderr
    int root;                       // which top-level run it belongs to
    ConsoleObj(int s, int r) : Obj(O_CONSOLE), stream(s), root(r) {}
};
struct FileObj : Obj {
    Node *node; size_t pos = 0; bool append = false, readable = true, writable = false; bool overlapped = false;
    std::string path;
    Obj *con = nullptr;     // the console stream this file stands for (/X)
    explicit FileObj(Node *n) : Obj(O_FILE), node(n) {}
};

struct HandleEntry { Obj *o; bool inherit; };
struct CaseLess { bool operator()(const std::string &a, const std::string &b) const; };
typedef std::map<std::string, std::string, CaseLess> EnvMap;

enum PKind { P_JOM, P_ACTOR };
struct CrtStream {
    Obj *o = nullptr;               // where it goes (console, pipe, file)
    std::string buf;
    int mode = 0x4000;              // _O_TEXT
    bool buffered = false;
    bool error = false;
    Thread *owner = nullptr; int depth = 0;
};
struct Proc {
    int pid = 0, idx = 0;
    PKind kind = P_ACTOR;
    Proc *parent = nullptr;
    int root = 0;                   // index of the top-level run (script op) it belongs to
    bool alive = true;              // not yet exiting
    bool closed = false;            // handles closed
    bool signaled = false;          // process object signaled
    u32 exitCode = 259;
    u32 finalCode = 259;
    std::string cmdline, cwd;
    EnvMap env;
    std::vector<char *> envArr;
    std::map<u64, HandleEntry> handles;
    std::vector<u64> freeHandles;
    u64 nextHandle = 4;
    int maxHandles = 0;
    CrtStream out, err;
    Obj *in = nullptr;
    std::vector<Thread *> thr;
    std::vector<Proc *> children;
    Actor *actor = nullptr;
    // jom
    int inst = -1;
    std::vector<std::string> argv;
    std::vector<char *> argvC;
    void *dl = nullptr;
    std::vector<void *> ctrlHandlers;
    bool ignoreCtrlC = false;
    std::map<std::string, int> faultCount;
    i64 startTick = 0;
    bool crashed = false;
    i64 polls = 0, pollTimeouts = 0;
    int liveThreads = 0, maxThreads = 0;
    bool inCtrl = false;
    Thread *waitThread = nullptr;
};
extern std::vector<Proc *> procs;
extern int next_pid;

u64 handle_add(Proc *p, Obj *o, bool inherit);
Obj *handle_get(Proc *p, u64 h);
bool handle_close(Proc *p, u64 h);
void obj_ref(Obj *o);
void obj_unref(Obj *o, Proc *who);
void proc_begin_exit(Proc *p, u32 code);            // stop executing; close handles and signal via events
Proc *proc_new(PKind k, Proc *parent);
void proc_switch_env(Proc *p);
void env_sync(Proc *p);

// faults: true = this call must fail
struct Fault {
    std::string site, path; int proc = -1; int nth = 0, count = 1; u32 err = 0; int hits = 0; i64 off = -1; int calls = 0;
    int fired = 0;
};
extern std::vector<Fault> faults;
Fault *fault_check(const char *site, Proc *p, const std::string &path = std::string());

// pipes
void pipe_pump(Pipe *p);                              // completes a pending read if possible
size_t pipe_space(Pipe *p);
// win32.cpp
void iocp_post(Iocp *q, Packet k, const char *why);
void ovl_set(void *ovl, u32 err, u32 bytes);
void ovl_pending(void *ovl);
bool win_create_process(Proc *parent, const std::string &cmdline, const EnvMap *env, const std::string &cwd,
                        Obj *in, Obj *out, Obj *err, bool inherit, Proc **res, u32 *error);
void ctrl_event(Proc *p);                             // deliver Ctrl-C to one process
// actors
void actor_start(Proc *p, const std::string &cmdline);
void actor_ctrl(Proc *p);
bool tool_known(const std::string &name);
// jom instances
void jom_start(Proc *p);
// vfs
struct Node {
    bool dir = false;
    std::string name, data;
    i64 mtime = 0;                  // wall us
    std::map<std::string, Node *, CaseLess> kids;
    Node *up = nullptr;
    int readonly = 0;
    u64 gen = 0;
};
std::string vfs_abs(const std::string &cwd, const std::string &path);
Node *vfs_find(const std::string &abs);
Node *vfs_create(const std::string &abs, bool dir);
bool vfs_remove(const std::string &abs);
void vfs_touch(Node *n);
i64 wall_us();
bool vfs_handles(const std::string &path, const std::string &cwd);
void vfs_dump();
void vfs_init();
// stdio
void crt_write(Proc *p, int fd, const char *s, size_t n);
void crt_flush(Proc *p, int fd);
void crt_init(Proc *p);
void obj_write_blocking(Proc *p, Obj *o, const char *s, size_t n);
void console_write(ConsoleObj *c, Proc *p, const std::string &bytes);

// config
struct Config {
    int cores = 4;
    i64 tick_us = 5;
    i64 gettick_gran_ms = 16;
    i64 mtime_gran_us = 1;
    i64 epoch_us = 1700000000LL * 1000000;
    size_t pipe_quota = 1 << 20;
    size_t console_max = 0;
    i64 exit_close_us = 50, exit_signal_us = 50, notify_us = 50, io_us = 0;
    i64 max_time_us = 3600LL * 1000000;
    u64 max_points = 400000000ULL;
    u64 max_decisions = 3000000;
    // scheduling
    std::string mode = "default";
    double gap = 0, psync = 1, wevent = 1, wtime = 0.02;
    int pct_d = 3; u64 pct_len = 2000;
    bool spurious = false;
    bool stickyTime = false;
    std::string tempdir = "/w/tmp/";
    i64 spawn_us = 300;
    i64 max_jump_us = 50000;             // longest time a ready thread is made to starve by one step of the clock
};
extern Config cfg;
extern Json scenario;
u64 rnd();                               // scheduling PRNG
double rnd01();
i64 jitter(i64 max_us);                   // environment PRNG
u64 ernd();
void script_step();
void proc_exited_hook(Proc *p);
void trigger_hook(const char *kind, Proc *p);

// real libc
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
void enter_run_arena();

} // namespace sim
