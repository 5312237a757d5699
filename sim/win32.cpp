// The Win32 API as jom sees it, on simulated kernel objects.
#define NOMINMAX
#include "core.h"
#include <windows.h>
#include <cstdio>
#include <cstring>
#include <algorithm>

namespace sim {
std::vector<Proc *> procs;
int next_pid = 1000;
std::vector<Fault> faults;
static std::map<std::string, Pipe *> pipes;
static std::map<std::string, SemObj *> sems;
static int next_tag = 1;

std::string narrow(const WCHAR *w) { std::string s; while (w && *w) s += (char)*w++; return s; }
static void seterr(u32 e) { if (cur) cur->lastError = e; }

Fault *fault_check(const char *site, Proc *p, const std::string &path)
{
    for (auto &f : faults) {
        if (f.site != site) continue;
        if (f.proc >= 0 && f.proc != p->idx) continue;
        if (!f.path.empty() && (f.path[0] == '^' ? path.compare(0, f.path.size() - 1, f.path, 1, std::string::npos) != 0 : path.find(f.path) == std::string::npos)) continue;
        int k = f.calls++;
        if (k >= f.nth && k < f.nth + f.count) {
            ++f.fired;
            stats[std::string("fault.") + site]++;
            log_begin("fault", p); log_s("site", site); log_s("path", path); log_i("err", f.err); log_end();
            return &f;
        }
    }
    return nullptr;
}

// ------------------------------------------------------------------ objects and handles
void obj_ref(Obj *o) { ++o->refs; }
void ovl_set(void *ov, u32 err, u32 bytes)
{
    if (!ov) return;
    OVERLAPPED *o = (OVERLAPPED *)ov;
    o->Internal = err == 0 ? 0 : err == ERROR_BROKEN_PIPE ? 0xC000014BUL : err == ERROR_OPERATION_ABORTED ? 0xC0000120UL : 0xC0000001UL;
    o->InternalHigh = bytes;
    if (o->hEvent) { Obj *e = cur ? handle_get(cur->proc, (u64)o->hEvent & ~1ULL) : nullptr; if (e && e->type == O_EVENT) ((EventObj *)e)->set = true; }
}
void ovl_pending(void *ov) { if (ov) { ((OVERLAPPED *)ov)->Internal = 0x103; ((OVERLAPPED *)ov)->InternalHigh = 0; } }
static u32 ovl_err(OVERLAPPED *o) { switch ((u32)o->Internal) { case 0: return 0; case 0x103: return ERROR_IO_INCOMPLETE; case 0xC000014B: return ERROR_BROKEN_PIPE; case 0xC0000120: return ERROR_OPERATION_ABORTED; default: return ERROR_GEN_FAILURE; } }
void iocp_post(Iocp *q, Packet k, const char *) { if (q) { q->q.push_back(k); stat("packets"); } }
size_t pipe_space(Pipe *p)
{
    size_t q = p->quota;
    return p->data.size() >= q ? 0 : q - p->data.size();
}
void pipe_space_event(Pipe *p)
{
    std::vector<std::function<void()>> v; v.swap(p->onSpace);
    for (auto &f : v) at(now_us, nullptr, f);
}
static void complete_read(Pipe *p, u32 bytes, u32 err)
{
    PendingRead r = p->rd;
    p->rd.active = false;
    if (!p->more.empty()) { p->rd = p->more.front(); p->more.pop_front(); }
    ovl_set(r.ovl, err, bytes);
    if (p->iocp && !((u64)((OVERLAPPED *)r.ovl ? ((OVERLAPPED *)r.ovl)->hEvent : 0) & 1)) iocp_post(p->iocp, Packet{bytes, p->key, r.ovl, err}, "read");
    log_begin("rd", r.proc); log_i("tag", p->tag); log_i("n", bytes); log_i("err", err); log_end();
    trigger_hook("rd", r.proc);
}
static bool in_readfile;
void pipe_pump(Pipe *p)
{
    while (p->rd.active) {
    if (!p->data.empty()) {
        if (!in_readfile && p->iocp)
            if (Fault *f = fault_check("ReadComplete", p->rd.proc)) { complete_read(p, 0, f->err ? f->err : ERROR_NOT_ENOUGH_MEMORY); continue; }
        u32 k = (u32)std::min<size_t>(p->data.size(), p->rd.len);
        memcpy(p->rd.buf, p->data.data(), k);
        p->data.erase(0, k); p->read += k;
        pipe_space_event(p);
        complete_read(p, k, 0);
    } else if (p->writers == 0 && p->clientOpened) complete_read(p, 0, ERROR_BROKEN_PIPE);
    else return;
    }
}
void obj_unref(Obj *o, Proc *who)
{
    if (--o->refs > 0) return;
    switch (o->type) {
    case O_PIPE_W: {
        Pipe *p = ((PipeObj *)o)->p;
        --p->writers;
        pipe_pump(p);
        { std::vector<std::function<void()>> v; v.swap(p->onEof); for (auto &f : v) at(now_us, nullptr, f); }
        break;
    }
    case O_PIPE_R: {
        Pipe *p = ((PipeObj *)o)->p;
        --p->readers;
        pipe_space_event(p);
        if (!p->data.empty() && p->iocp) { log_begin("lostbytes", who); log_i("tag", p->tag); log_i("n", (i64)p->data.size()); log_end(); }
        while (p->rd.active) complete_read(p, 0, ERROR_OPERATION_ABORTED);
        if (p->listed) { p->listed = false; pipes.erase(p->name); }
        break;
    }
    case O_SEM: {
        SemObj *s = (SemObj *)o;
        if (!s->name.empty()) {
            log_begin("semdrop", who); log_s("name", s->name); log_i("v", s->value); log_end();
            sems.erase(s->name);
        }
        break;
    }
    default: break;
    }
}
u64 handle_add(Proc *p, Obj *o, bool inherit)
{
    u64 h;
    if (!p->freeHandles.empty()) { h = p->freeHandles.back(); p->freeHandles.pop_back(); }
    else { h = p->nextHandle; p->nextHandle += 4; }
    obj_ref(o);
    p->handles[h] = HandleEntry{o, inherit};
    if ((int)p->handles.size() > p->maxHandles) p->maxHandles = (int)p->handles.size();
    return h;
}
Obj *handle_get(Proc *p, u64 h)
{
    auto it = p->handles.find(h);
    return it == p->handles.end() ? nullptr : it->second.o;
}
bool handle_close(Proc *p, u64 h)
{
    auto it = p->handles.find(h);
    if (it == p->handles.end()) return false;
    Obj *o = it->second.o;
    p->handles.erase(it);
    p->freeHandles.push_back(h);
    obj_unref(o, p);
    return true;
}
bool ProcObj::signaled() { return p->signaled; }
bool ThreadObj::signaled() { return p->signaled || (t && (t->st == T_DONE || t->st == T_DEAD)); }

// ------------------------------------------------------------------ processes
Proc *proc_new(PKind k, Proc *parent)
{
    Proc *p = new Proc;
    p->idx = (int)procs.size();
    p->pid = next_pid; next_pid += 4 + (int)(ernd() % 3) * 4;
    p->kind = k; p->parent = parent;
    p->startTick = now_us;
    p->root = parent ? parent->root : p->idx;
    if (parent) parent->children.push_back(p);
    procs.push_back(p);
    stat(k == P_JOM ? "jom_processes" : "tool_processes");
    return p;
}
static void do_signal(Proc *p)
{
    if (p->signaled) return;
    p->exitCode = p->finalCode;
    p->signaled = true;
    proc_exited_hook(p);
}
static void do_close(Proc *p)
{
    if (p->closed) return;
    p->closed = true;
    if (ernd() & 1) p->exitCode = p->finalCode;
    for (auto *c : {&p->out, &p->err}) if (c->o) { Obj *o = c->o; c->o = nullptr; obj_unref(o, p); }
    if (p->in) { Obj *o = p->in; p->in = nullptr; obj_unref(o, p); }
    std::vector<u64> hs; for (auto &h : p->handles) hs.push_back(h.first);
    for (u64 h : hs) handle_close(p, h);
    at(now_us + jitter(cfg.exit_signal_us), nullptr, [p] { do_signal(p); });
}
void proc_begin_exit(Proc *p, u32 code)
{
    if (!p->alive) return;
    p->alive = false;
    p->finalCode = code;
    if ((ernd() & 3) == 0) p->exitCode = code;      // visible before the handles are gone
    log_begin("exit", p); log_i("code", (i64)(int32_t)code); log_i("handles", (i64)p->handles.size()); log_i("maxh", p->maxHandles);
    log_i("polls", p->polls); log_i("pt", p->pollTimeouts); log_i("thr", (i64)p->thr.size()); log_i("maxthr", p->maxThreads); log_end();
    for (Thread *t : p->thr) if (t != cur || in_event) kill_thread(t);
    trigger_hook("exit", p);
    at(now_us + jitter(cfg.exit_close_us), nullptr, [p] { do_close(p); });
}
void env_sync(Proc *p)
{
    for (char *c : p->envArr) free(c);
    p->envArr.clear();
    for (auto &e : p->env) p->envArr.push_back(strdup((e.first + "=" + e.second).c_str()));
    p->envArr.push_back(nullptr);
    if (cur && cur->proc == p) { proc_switch_env(nullptr); proc_switch_env(p); }
}
static std::string first_token(const std::string &cmd)
{
    size_t i = 0; std::string t;
    while (i < cmd.size() && cmd[i] == ' ') ++i;
    if (i < cmd.size() && cmd[i] == '"') { ++i; while (i < cmd.size() && cmd[i] != '"') t += cmd[i++]; }
    else while (i < cmd.size() && cmd[i] != ' ' && cmd[i] != '\t') t += cmd[i++];
    return t;
}
std::string base_name(std::string t)
{
    for (char &c : t) if (c == '\\') c = '/';
    size_t k = t.rfind('/'); if (k != std::string::npos) t = t.substr(k + 1);
    for (char &c : t) c = (char)tolower(c);
    if (t.size() > 4 && t.compare(t.size() - 4, 4, ".exe") == 0) t.resize(t.size() - 4);
    return t;
}
bool win_create_process(Proc *parent, const std::string &cmdline, const EnvMap *env, const std::string &cwd,
                        Obj *in, Obj *out, Obj *err, bool inherit, Proc **res, u32 *error)
{
    std::string prog = first_token(cmdline), base = base_name(prog);
    std::string dir = cwd.empty() ? parent->cwd : vfs_abs(parent->cwd, cwd);
    if (Fault *f = fault_check("CreateProcess", parent, cmdline)) { *error = f->err ? f->err : ERROR_NOT_ENOUGH_MEMORY; return false; }
    bool jom = base == "jom", cmd = base == "cmd";
    // remtool, settool and the like: programs whose names begin like builtins of the command interpreter
    if (!jom && !cmd && (base.size() < 4 || base.compare(base.size() - 4, 4, "tool") || base == "shtool")) { *error = ERROR_FILE_NOT_FOUND; return false; }
    Node *d = vfs_find(dir);
    if (!d || !d->dir) { *error = ERROR_DIRECTORY; return false; }
    Proc *p = proc_new(jom ? P_JOM : P_ACTOR, parent);
    p->cmdline = cmdline; p->cwd = dir;
    p->env = env ? *env : parent->env;
    if (inherit)
        for (auto &h : parent->handles)
            if (h.second.inherit) { obj_ref(h.second.o); p->handles[h.first] = h.second; p->nextHandle = std::max(p->nextHandle, h.first + 4); }
    if (in) { obj_ref(in); p->in = in; }
    if (out) { obj_ref(out); p->out.o = out; }
    if (err) { obj_ref(err); p->err.o = err; }
    p->out.buffered = !(out && out->type == O_CONSOLE);
    p->err.buffered = false;
    log_begin("spawn", p); log_i("par", parent->idx); log_i("pid", p->pid); log_s("cmd", cmdline); log_s("cwd", dir);
    if (out && out->type == O_PIPE_W) log_i("otag", ((PipeObj *)out)->p->tag);
    log_i("inh", (i64)p->handles.size());
    log_end();
    *res = p;
    trigger_hook("spawn", p);
    at(now_us + jitter(cfg.spawn_us), p, [p, jom] { if (!p->alive) return; if (jom) jom_start(p); else actor_start(p, p->cmdline); });
    return true;
}
static void *ctrl_thread(void *a)
{
    Proc *p = (Proc *)a;
    if (p->inCtrl) block("ctrl", [p] { return !p->inCtrl; });
    p->inCtrl = true;
    typedef BOOL (WINAPI *H)(DWORD);
    for (size_t i = p->ctrlHandlers.size(); i-- > 0; )
        if (((H)p->ctrlHandlers[i])(CTRL_C_EVENT)) { p->inCtrl = false; return nullptr; }
    proc_begin_exit(p, 0xC000013A);
    thread_exit_self();
    return nullptr;
}
void ctrl_event(Proc *p)
{
    if (!p->alive) return;
    stat("ctrlc_deliveries");
    if (p->kind == P_ACTOR) { actor_ctrl(p); return; }
    if (p->ignoreCtrlC) return;
    new_thread(p, ctrl_thread, p);
}
static void ctrl_all(Proc *from)
{
    (void)from;
    for (Proc *p : procs) if (p->alive) at(now_us + jitter(200), nullptr, [p] { ctrl_event(p); });
}
void ctrl_c_console() { ctrl_all(nullptr); }
} // namespace sim
using namespace sim;

static inline Obj *H(HANDLE h) { return handle_get(cur->proc, (u64)h); }
#define BADH() do { seterr(ERROR_INVALID_HANDLE); return FALSE; } while (0)

extern "C" {
// ---- seams used by the Qt replacements
int sim_sem_open(const char *key, int initial, u64 *h)
{
    if (Fault *f = fault_check("CreateSemaphore", cur->proc)) return f->err ? (int)f->err : ERROR_NOT_ENOUGH_MEMORY;
    sched_point("sem");
    SemObj *&s = sems[key];
    bool fresh = !s;
    if (!s) { s = new SemObj(key, initial, 0x7fffffff); s->tag = next_tag++; }
    *h = handle_add(cur->proc, s, false);
    log_begin("sem", cur->proc); log_s("op", fresh ? "new" : "open"); log_s("name", key); log_i("v", s->value); log_end();
    return 0;
}
int sim_sem_acquire(u64 h)
{
    Obj *o = handle_get(cur->proc, h);
    if (!o || o->type != O_SEM) return ERROR_INVALID_HANDLE;
    SemObj *s = (SemObj *)o;
    if (Fault *f = fault_check("SemAcquire", cur->proc)) return f->err ? (int)f->err : ERROR_GEN_FAILURE;
    log_begin("sem", cur->proc); log_s("op", "want"); log_s("name", s->name); log_i("v", s->value); log_end();
    block("semaphore", [s] { return s->value > 0; });
    --s->value;
    log_begin("sem", cur->proc); log_s("op", "acq"); log_s("name", s->name); log_i("v", s->value); log_end();
    trigger_hook("acq", cur->proc);
    return 0;
}
int sim_sem_release(u64 h, int n)
{
    Obj *o = handle_get(cur->proc, h);
    if (!o || o->type != O_SEM) return ERROR_INVALID_HANDLE;
    SemObj *s = (SemObj *)o;
    sched_point("release");
    s->value += n;
    log_begin("sem", cur->proc); log_s("op", "rel"); log_s("name", s->name); log_i("v", s->value); log_end();
    trigger_hook("rel", cur->proc);
    sched_point("released");
    return 0;
}
void sim_close(u64 h) { handle_close(cur->proc, h); }
struct Watch { void *cookie; Obj *o; void (*cb)(void *); i64 due; };
static std::map<Proc *, std::vector<Watch>> watches;
static Watch *due_watch(Proc *p)
{
    for (auto &w : watches[p]) if (w.o->signaled()) { if (w.due < 0) w.due = now_us + jitter(cfg.notify_us); if (now_us >= w.due) return &w; }
    return nullptr;
}
static i64 watch_deadline(Proc *p)
{
    i64 d = -1;
    for (auto &w : watches[p]) if (w.o->signaled() && w.due >= 0 && (d < 0 || w.due < d)) d = w.due;
    return d;
}
static void *wait_thread(void *a)
{
    Proc *p = (Proc *)a;
    self_t->nopreempt = 0;
    for (;;) {
        Watch *w = due_watch(p);
        if (!w) {
            i64 d = watch_deadline(p);
            block("notifier", [p, d] { if (d >= 0) return due_watch(p) != nullptr; for (auto &w : watches[p]) if (w.o->signaled()) return true; return false; }, d);
            continue;
        }
        void *c = w->cookie; void (*cb)(void *) = w->cb;
        Obj *o = w->o;
        watches[p].erase(watches[p].begin() + (w - watches[p].data()));
        cb(c);              // posts an event; no preemption in between
        obj_unref(o, p);
        sched_point("notified");
    }
    return nullptr;
}
void sim_notifier_add(void *cookie, u64 h, void (*cb)(void *))
{
    Proc *p = cur->proc;
    Obj *o = handle_get(p, h);
    if (!o) return;
    obj_ref(o);
    watches[p].push_back(Watch{cookie, o, cb, -1});
    if (!p->waitThread) { p->waitThread = new_thread(p, wait_thread, p); }
}
void sim_notifier_remove(void *cookie)
{
    auto &v = watches[cur->proc];
    for (size_t i = 0; i < v.size(); ++i) if (v[i].cookie == cookie) { Obj *o = v[i].o; v.erase(v.begin() + (long)i); obj_unref(o, cur->proc); return; }
}

// ---- errors and handles
DWORD WINAPI GetLastError() { return cur ? cur->lastError : 0; }
void WINAPI SetLastError(DWORD e) { seterr(e); }
BOOL WINAPI CloseHandle(HANDLE h)
{
    sched_point("close");
    if (!handle_close(cur->proc, (u64)h)) { log_begin("badclose", cur->proc); log_i("h", (i64)(u64)h); log_end(); BADH(); }
    return TRUE;
}
BOOL WINAPI DuplicateHandle(HANDLE, HANDLE h, HANDLE, LPHANDLE r, DWORD, BOOL inh, DWORD opt)
{
    Obj *o = H(h); if (!o) BADH();
    *r = (HANDLE)handle_add(cur->proc, o, inh);
    if (opt & DUPLICATE_CLOSE_SOURCE) handle_close(cur->proc, (u64)h);
    return TRUE;
}
BOOL WINAPI SetHandleInformation(HANDLE h, DWORD mask, DWORD flags)
{
    auto it = cur->proc->handles.find((u64)h);
    if (it == cur->proc->handles.end()) BADH();
    if (mask & HANDLE_FLAG_INHERIT) it->second.inherit = flags & HANDLE_FLAG_INHERIT;
    return TRUE;
}
BOOL WINAPI GetHandleInformation(HANDLE h, LPDWORD f)
{
    auto it = cur->proc->handles.find((u64)h);
    if (it == cur->proc->handles.end()) BADH();
    *f = it->second.inherit ? HANDLE_FLAG_INHERIT : 0;
    return TRUE;
}
HANDLE WINAPI GetCurrentProcess() { return (HANDLE)-1; }
DWORD WINAPI GetCurrentProcessId() { return (DWORD)cur->proc->pid; }
DWORD WINAPI GetCurrentThreadId() { return (DWORD)(4000 + cur->id); }
BOOL WINAPI CompareObjectHandles(HANDLE a, HANDLE b) { return H(a) && H(a) == H(b); }

// ---- completion ports
HANDLE WINAPI CreateIoCompletionPort(HANDLE f, HANDLE port, ULONG_PTR key, DWORD)
{
    if (Fault *ft = fault_check("CreateIoCompletionPort", cur->proc)) { seterr(ft->err ? ft->err : ERROR_NOT_ENOUGH_MEMORY); return NULL; }
    sched_point("iocp");
    Iocp *q; HANDLE ph = port;
    if (!port) { q = new Iocp; ph = (HANDLE)handle_add(cur->proc, q, false); }
    else { Obj *o = H(port); if (!o || o->type != O_IOCP) { seterr(ERROR_INVALID_HANDLE); return NULL; } q = (Iocp *)o; }
    if (f != INVALID_HANDLE_VALUE) {
        Obj *o = H(f);
        if (!o || o->type != O_PIPE_R) { seterr(ERROR_INVALID_HANDLE); return NULL; }
        Pipe *p = ((PipeObj *)o)->p;
        if (p->iocp) { seterr(ERROR_INVALID_PARAMETER); return NULL; }
        p->iocp = q; p->key = key; obj_ref(q);
    }
    return ph;
}
BOOL WINAPI GetQueuedCompletionStatus(HANDLE port, LPDWORD n, PULONG_PTR key, LPOVERLAPPED *ov, DWORD ms)
{
    Obj *o = H(port);
    if (!o || o->type != O_IOCP) { *ov = NULL; BADH(); }
    Iocp *q = (Iocp *)o;
    Proc *p = cur->proc;
    sched_point("gqcs");
    bool ok = block("iocp", [q, p, port] { return !q->q.empty() || !handle_get(p, (u64)port); }, ms == INFINITE ? -1 : now_us + (i64)ms * 1000);
    if (!ok) { *ov = NULL; seterr(WAIT_TIMEOUT); return FALSE; }
    if (q->q.empty()) { *ov = NULL; seterr(735 /* ERROR_ABANDONED_WAIT_0 */); return FALSE; }
    Packet k = q->q.front(); q->q.pop_front();
    *n = k.bytes; *key = k.key; *ov = (LPOVERLAPPED)k.ovl;
    if (k.err) { seterr(k.err); return FALSE; }
    return TRUE;
}
BOOL WINAPI PostQueuedCompletionStatus(HANDLE port, DWORD n, ULONG_PTR key, LPOVERLAPPED ov)
{
    Obj *o = H(port);
    if (!o || o->type != O_IOCP) BADH();
    iocp_post((Iocp *)o, Packet{n, key, ov, 0}, "post");
    sched_point("pqcs");
    return TRUE;
}

// ---- pipes and files
HANDLE WINAPI CreateNamedPipeW(LPCWSTR name, DWORD mode, DWORD, DWORD maxInst, DWORD, DWORD inbuf, DWORD, LPSECURITY_ATTRIBUTES sa)
{
    sched_point("pipe");
    std::string n = narrow(name);
    if (Fault *f = fault_check("CreateNamedPipe", cur->proc)) { seterr(f->err ? f->err : ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    if (pipes.count(n)) { stat("pipe_name_clash"); seterr(maxInst == 1 ? ERROR_PIPE_BUSY : ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    Pipe *p = new Pipe;
    p->name = n; p->listed = true; p->tag = next_tag++;
    if (inbuf) p->quota = std::min<size_t>(inbuf, cfg.pipe_quota); else p->quota = std::min<size_t>(4096, cfg.pipe_quota);
    pipes[n] = p;
    PipeObj *o = new PipeObj(O_PIPE_R, p);
    o->overlapped = mode & FILE_FLAG_OVERLAPPED;
    p->readers = 1;
    return (HANDLE)handle_add(cur->proc, o, sa && sa->bInheritHandle);
}
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD access, DWORD, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD flags, HANDLE)
{
    sched_point("createfile");
    std::string n = narrow(name);
    if (Fault *f = fault_check("CreateFile", cur->proc, n)) { seterr(f->err ? f->err : ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    if (n.compare(0, 9, "\\\\.\\pipe\\") == 0) {
        auto it = pipes.find(n);
        if (it == pipes.end()) { seterr(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
        Pipe *p = it->second;
        if (p->clientOpened) { seterr(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
        p->clientOpened = true; p->writers = 1;
        PipeObj *o = new PipeObj(O_PIPE_W, p);
        o->overlapped = flags & FILE_FLAG_OVERLAPPED;
        return (HANDLE)handle_add(cur->proc, o, sa && sa->bInheritHandle);
    }
    std::string a = vfs_abs(cur->proc->cwd, n);
    Node *nd = vfs_find(a);
    if (!nd && (disp == OPEN_EXISTING || disp == TRUNCATE_EXISTING)) { seterr(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    if (nd && disp == CREATE_NEW) { seterr(ERROR_FILE_EXISTS); return INVALID_HANDLE_VALUE; }
    if (!nd) nd = a.compare(0, 3, "/w/") == 0 ? vfs_create(a, false) : nullptr;
    if (!nd) { seterr(ERROR_PATH_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    if (disp == CREATE_ALWAYS || disp == TRUNCATE_EXISTING) { nd->data.clear(); vfs_touch(nd); }
    FileObj *f = new FileObj(nd);
    f->readable = access & (GENERIC_READ | FILE_READ_DATA); f->writable = access & (GENERIC_WRITE | FILE_WRITE_DATA); f->path = a;
    return (HANDLE)handle_add(cur->proc, f, sa && sa->bInheritHandle);
}
BOOL WINAPI CreatePipe(PHANDLE r, PHANDLE w, LPSECURITY_ATTRIBUTES sa, DWORD size)
{
    Pipe *p = new Pipe; p->tag = next_tag++; p->clientOpened = true; p->readers = p->writers = 1; p->quota = size ? size : 4096;
    *r = (HANDLE)handle_add(cur->proc, new PipeObj(O_PIPE_R, p), sa && sa->bInheritHandle);
    *w = (HANDLE)handle_add(cur->proc, new PipeObj(O_PIPE_W, p), sa && sa->bInheritHandle);
    return TRUE;
}
BOOL WINAPI ConnectNamedPipe(HANDLE h, LPOVERLAPPED)
{
    Obj *o = H(h);
    if (!o || o->type != O_PIPE_R) BADH();
    Pipe *p = ((PipeObj *)o)->p;
    if (p->clientOpened) { seterr(p->writers ? ERROR_PIPE_CONNECTED : ERROR_NO_DATA); return FALSE; }
    block("connect", [p] { return p->clientOpened; });
    return TRUE;
}
BOOL WINAPI DisconnectNamedPipe(HANDLE h) { Obj *o = H(h); if (!o) BADH(); return TRUE; }
BOOL WINAPI PeekNamedPipe(HANDLE h, LPVOID buf, DWORD n, LPDWORD rd, LPDWORD avail, LPDWORD left)
{
    Obj *o = H(h);
    if (!o || o->type != O_PIPE_R) BADH();
    sched_point("peek");
    Pipe *p = ((PipeObj *)o)->p;
    if (p->data.empty() && p->writers == 0) { seterr(ERROR_BROKEN_PIPE); return FALSE; }
    u32 k = buf ? (u32)std::min<size_t>(n, p->data.size()) : 0;
    if (k) memcpy(buf, p->data.data(), k);
    if (rd) *rd = k;
    if (avail) *avail = (u32)p->data.size();
    if (left) *left = 0;
    return TRUE;
}
BOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD n, LPDWORD rd, LPOVERLAPPED ov)
{
    Obj *o = H(h);
    sched_point("readfile");
    o = H(h);
    if (!o) BADH();
    if (o->type == O_FILE) {
        FileObj *f = (FileObj *)o;
        size_t a = f->pos < f->node->data.size() ? f->node->data.size() - f->pos : 0; u32 k = (u32)std::min<size_t>(a, n);
        memcpy(buf, f->node->data.data() + f->pos, k); f->pos += k; if (rd) *rd = k; return TRUE;
    }
    if (o->type != O_PIPE_R) BADH();
    PipeObj *po = (PipeObj *)o;
    Pipe *p = po->p;
    if (Fault *f = fault_check("ReadFile", cur->proc)) { seterr(f->err ? f->err : ERROR_NOT_ENOUGH_MEMORY); return FALSE; }
    if (!p->clientOpened) { seterr(ERROR_PIPE_LISTENING); return FALSE; }
    if (ov && po->overlapped) {
        if (p->data.empty() && p->writers == 0) { seterr(ERROR_BROKEN_PIPE); ovl_set(ov, ERROR_BROKEN_PIPE, 0); return FALSE; }
        ovl_pending(ov);
        if (p->rd.active) {
            log_begin("tworeads", cur->proc); log_i("tag", p->tag); log_end();
            p->more.push_back(PendingRead{buf, n, ov, cur->proc, true});
        } else p->rd = PendingRead{buf, n, ov, cur->proc, true};
        in_readfile = true; pipe_pump(p); in_readfile = false;
        if (((OVERLAPPED *)ov)->Internal == 0x103) { seterr(ERROR_IO_PENDING); return FALSE; }
        if (rd) *rd = (DWORD)((OVERLAPPED *)ov)->InternalHigh;
        return TRUE;
    }
    block("readpipe", [p] { return !p->data.empty() || p->writers == 0; });
    if (p->data.empty()) { if (rd) *rd = 0; seterr(ERROR_BROKEN_PIPE); return FALSE; }
    u32 k = (u32)std::min<size_t>(n, p->data.size());
    memcpy(buf, p->data.data(), k); p->data.erase(0, k); p->read += k; pipe_space_event(p);
    if (rd) *rd = k;
    return TRUE;
}
BOOL WINAPI WriteFile(HANDLE h, LPCVOID buf, DWORD n, LPDWORD wr, LPOVERLAPPED)
{
    Obj *o = (u64)h == 0xfffff001ULL ? cur->proc->out.o : (u64)h == 0xfffff002ULL ? cur->proc->err.o : H(h);
    if (!o) BADH();
    sched_point("writefile");
    obj_write_blocking(cur->proc, o, (const char *)buf, n);
    if (wr) *wr = n;
    return TRUE;
}
BOOL WINAPI FlushFileBuffers(HANDLE) { return TRUE; }
HANDLE WINAPI GetStdHandle(DWORD n) { return n == STD_OUTPUT_HANDLE ? (HANDLE)0xfffff001ULL : n == STD_ERROR_HANDLE ? (HANDLE)0xfffff002ULL : (HANDLE)0xfffff000ULL; }
DWORD WINAPI GetFileType(HANDLE h)
{
    Obj *o = (u64)h == 0xfffff001ULL ? cur->proc->out.o : (u64)h == 0xfffff002ULL ? cur->proc->err.o : H(h);
    if (!o) return FILE_TYPE_UNKNOWN;
    return o->type == O_CONSOLE ? FILE_TYPE_CHAR : o->type == O_FILE ? FILE_TYPE_DISK : FILE_TYPE_PIPE;
}
BOOL WINAPI CancelIoEx(HANDLE h, LPOVERLAPPED ov)
{
    Obj *o = H(h);
    if (!o || o->type != O_PIPE_R) BADH();
    Pipe *p = ((PipeObj *)o)->p;
    sched_point("cancelio");
    bool any = false;
    if (ov) for (size_t i = 0; i < p->more.size(); ++i) if (p->more[i].ovl == ov) { std::swap(p->rd, p->more[i]); break; }
    while (p->rd.active && (!ov || p->rd.ovl == ov)) { any = true; complete_read(p, 0, ERROR_OPERATION_ABORTED); }
    if (!any) { seterr(ERROR_NOT_FOUND); return FALSE; }
    return TRUE;
}
BOOL WINAPI CancelIo(HANDLE h) { CancelIoEx(h, NULL); return TRUE; }
BOOL WINAPI CancelSynchronousIo(HANDLE) { seterr(ERROR_NOT_FOUND); return FALSE; }
BOOL WINAPI GetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD n, BOOL wait)
{
    (void)h;
    sched_point("gor");
    if (ov->Internal == 0x103) {
        if (!wait) { seterr(ERROR_IO_INCOMPLETE); return FALSE; }
        block("overlapped", [ov] { return ov->Internal != 0x103; });
    }
    if (n) *n = (DWORD)ov->InternalHigh;
    u32 e = ovl_err(ov);
    if (e) { seterr(e); return FALSE; }
    return TRUE;
}

// ---- processes
static EnvMap parse_env(void *block_, bool wide)
{
    EnvMap m;
    if (wide) { const WCHAR *w = (const WCHAR *)block_; while (*w) { std::string s = narrow(w); size_t k = s.find('=', 1); if (k != std::string::npos) m[s.substr(0, k)] = s.substr(k + 1); while (*w) ++w; ++w; } }
    else { const char *w = (const char *)block_; while (*w) { std::string s = w; size_t k = s.find('=', 1); if (k != std::string::npos) m[s.substr(0, k)] = s.substr(k + 1); w += s.size() + 1; } }
    return m;
}
BOOL WINAPI CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL inherit, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi)
{
    sched_point("createprocess");
    std::string c = cmd ? narrow(cmd) : narrow(app);
    EnvMap em; if (env) em = parse_env(env, flags & CREATE_UNICODE_ENVIRONMENT);
    Proc *me = cur->proc;
    Obj *in, *out, *err;
    if (si && (si->dwFlags & STARTF_USESTDHANDLES)) {
        auto get = [me](HANDLE h) -> Obj * {
            if ((u64)h == 0xfffff001ULL) return me->out.o; if ((u64)h == 0xfffff002ULL) return me->err.o;
            auto it = me->handles.find((u64)h); return it != me->handles.end() && it->second.inherit ? it->second.o : nullptr; };
        in = get(si->hStdInput); out = get(si->hStdOutput); err = get(si->hStdError);
    } else { in = me->in; out = me->out.o; err = me->err.o; }
    Proc *p = nullptr; u32 e = 0;
    if (!win_create_process(me, c, env ? &em : nullptr, cwd ? narrow(cwd) : std::string(), in, out, err, inherit, &p, &e)) {
        log_begin("spawnfail", me); log_s("cmd", c); log_i("err", e); log_end();
        seterr(e); return FALSE;
    }
    pi->hProcess = (HANDLE)handle_add(me, new ProcObj(p), false);
    pi->hThread = (HANDLE)handle_add(me, new ThreadObj(nullptr, p), false);
    pi->dwProcessId = (DWORD)p->pid; pi->dwThreadId = (DWORD)p->pid + 1;
    sched_point("created");
    return TRUE;
}
BOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD code)
{
    Obj *o = H(h);
    sched_point("exitcode");
    o = H(h);
    if (!o || o->type != O_PROC) { log_begin("badexitcode", cur->proc); log_end(); BADH(); }
    if (fault_check("GetExitCodeProcess", cur->proc)) { seterr(ERROR_ACCESS_DENIED); return FALSE; }
    *code = ((ProcObj *)o)->p->exitCode;
    return TRUE;
}
BOOL WINAPI TerminateProcess(HANDLE h, UINT code)
{
    Proc *p = nullptr;
    if (h == (HANDLE)-1) p = cur->proc; else { Obj *o = H(h); if (o && o->type == O_PROC) p = ((ProcObj *)o)->p; }
    if (!p) BADH();
    log_begin("terminate", cur->proc); log_i("t", p->idx); log_end();
    if (!p->alive) { seterr(ERROR_ACCESS_DENIED); return FALSE; }
    proc_begin_exit(p, code);
    if (p == cur->proc) thread_exit_self();
    return TRUE;
}
void WINAPI ExitProcess(DWORD code) { proc_begin_exit(cur->proc, code); thread_exit_self(); }
HANDLE WINAPI OpenProcess(DWORD, BOOL inh, DWORD pid)
{
    for (Proc *p : procs) if (p->pid == (int)pid && !p->signaled) return (HANDLE)handle_add(cur->proc, new ProcObj(p), inh);
    seterr(ERROR_INVALID_PARAMETER); return NULL;
}
DWORD WINAPI GetProcessId(HANDLE h) { Obj *o = H(h); return o && o->type == O_PROC ? (DWORD)((ProcObj *)o)->p->pid : 0; }
BOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE fn, BOOL add)
{
    Proc *p = cur->proc;
    if (!fn) { p->ignoreCtrlC = add; return TRUE; }
    if (add) p->ctrlHandlers.push_back((void *)fn);
    else { auto &v = p->ctrlHandlers; auto it = std::find(v.begin(), v.end(), (void *)fn); if (it == v.end()) { seterr(ERROR_INVALID_PARAMETER); return FALSE; } v.erase(it); }
    return TRUE;
}
BOOL WINAPI GenerateConsoleCtrlEvent(DWORD, DWORD) { logev("genctrl", cur->proc); ctrl_all(cur->proc); sched_point("ctrl"); return TRUE; }

// ---- waits and synchronisation objects
static DWORD wait_many(DWORD n, const HANDLE *h, bool all, DWORD ms)
{
    std::vector<Obj *> v;
    for (DWORD i = 0; i < n; ++i) { Obj *o = H(h[i]); if (!o) { seterr(ERROR_INVALID_HANDLE); return WAIT_FAILED; } v.push_back(o); }
    auto ready = [v, all] { for (Obj *o : v) { bool s = o->signaled(); if (s && !all) return true; if (!s && all) return false; } return all; };
    sched_point("wait");
    if (ms == 0) { if (!ready()) return WAIT_TIMEOUT; }
    else if (!block("wait", ready, ms == INFINITE ? -1 : now_us + (i64)ms * 1000)) return WAIT_TIMEOUT;
    if (all) { for (Obj *o : v) o->consume(); return WAIT_OBJECT_0; }
    for (DWORD i = 0; i < n; ++i) if (v[i]->signaled()) { v[i]->consume(); return WAIT_OBJECT_0 + i; }
    return WAIT_FAILED;
}
DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD ms) { return wait_many(1, &h, false, ms); }
DWORD WINAPI WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return wait_many(1, &h, false, ms); }
DWORD WINAPI WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms) { return wait_many(n, h, all, ms); }
HANDLE WINAPI CreateEventW(LPSECURITY_ATTRIBUTES sa, BOOL manual, BOOL init, LPCWSTR) { return (HANDLE)handle_add(cur->proc, new EventObj(init, manual), sa && sa->bInheritHandle); }
BOOL WINAPI SetEvent(HANDLE h) { Obj *o = H(h); if (!o || o->type != O_EVENT) BADH(); ((EventObj *)o)->set = true; sched_point("setevent"); return TRUE; }
BOOL WINAPI ResetEvent(HANDLE h) { Obj *o = H(h); if (!o || o->type != O_EVENT) BADH(); ((EventObj *)o)->set = false; return TRUE; }
HANDLE WINAPI CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL own, LPCWSTR) { MutexObj *m = new MutexObj; if (own) m->consume(); return (HANDLE)handle_add(cur->proc, m, false); }
BOOL WINAPI ReleaseMutex(HANDLE h) { Obj *o = H(h); if (!o || o->type != O_MUTEX) BADH(); MutexObj *m = (MutexObj *)o; if (--m->count == 0) m->owner = nullptr; sched_point("releasemutex"); return TRUE; }
HANDLE WINAPI CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG init, LONG, LPCWSTR name)
{
    if (!name) return (HANDLE)handle_add(cur->proc, new SemObj("", init, 0x7fffffff), false);
    u64 h = 0; int e = sim_sem_open(narrow(name).c_str(), init, &h);
    if (e) { seterr((u32)e); return NULL; }
    return (HANDLE)h;
}
HANDLE WINAPI OpenSemaphoreW(DWORD, BOOL, LPCWSTR name) { auto it = sems.find(narrow(name)); if (it == sems.end()) { seterr(ERROR_FILE_NOT_FOUND); return NULL; } return (HANDLE)handle_add(cur->proc, it->second, false); }
BOOL WINAPI ReleaseSemaphore(HANDLE h, LONG n, PLONG prev) { Obj *o = H(h); if (!o || o->type != O_SEM) BADH(); if (prev) *prev = ((SemObj *)o)->value; sim_sem_release((u64)h, n); return TRUE; }

// ---- environment, time, files
DWORD WINAPI GetEnvironmentVariableW(LPCWSTR n, LPWSTR b, DWORD sz)
{
    auto it = cur->proc->env.find(narrow(n));
    if (it == cur->proc->env.end()) { seterr(ERROR_ENVVAR_NOT_FOUND); return 0; }
    const std::string &v = it->second;
    if (v.size() + 1 > sz) return (DWORD)v.size() + 1;
    for (size_t i = 0; i < v.size(); ++i) b[i] = (unsigned char)v[i];
    b[v.size()] = 0;
    seterr(0);
    return (DWORD)v.size();
}
DWORD WINAPI GetEnvironmentVariableA(LPCSTR n, LPSTR b, DWORD sz)
{
    auto it = cur->proc->env.find(n);
    if (it == cur->proc->env.end()) { seterr(ERROR_ENVVAR_NOT_FOUND); return 0; }
    const std::string &v = it->second;
    if (v.size() + 1 > sz) return (DWORD)v.size() + 1;
    memcpy(b, v.c_str(), v.size() + 1);
    return (DWORD)v.size();
}
BOOL WINAPI SetEnvironmentVariableW(LPCWSTR n, LPCWSTR v)
{
    Proc *p = cur->proc;
    if (v) p->env[narrow(n)] = narrow(v); else p->env.erase(narrow(n));
    env_sync(p);
    return TRUE;
}
BOOL WINAPI SetEnvironmentVariableA(LPCSTR n, LPCSTR v) { Proc *p = cur->proc; if (v) p->env[n] = v; else p->env.erase(n); env_sync(p); return TRUE; }
DWORD WINAPI GetTempPathW(DWORD n, LPWSTR b)
{
    const std::string &v = cfg.tempdir;
    if (v.size() + 1 > n) return (DWORD)v.size() + 1;
    for (size_t i = 0; i < v.size(); ++i) b[i] = (unsigned char)v[i];
    b[v.size()] = 0;
    return (DWORD)v.size();
}
// A thread that spins until the tick changes (unique names) is put to sleep after a while: otherwise it uses up the decisions of the run.
static u64 tick_value()
{
    static thread_local u64 last; static thread_local int same;
    sched_point("tick");
    auto value = [] { i64 ms = 5000000 + now_us / 1000; return (u64)(ms / cfg.gettick_gran_ms * cfg.gettick_gran_ms); };
    u64 v = value();
    if (v != last) { last = v; same = 0; return v; }
    if (++same < 40) return v;
    same = 0;
    block("tick", [] { return false; }, ((i64)(v + cfg.gettick_gran_ms) - 5000000) * 1000);
    return last = value();
}
DWORD WINAPI GetTickCount() { return (DWORD)tick_value(); }
ULONGLONG WINAPI GetTickCount64() { return tick_value(); }
BOOL WINAPI QueryPerformanceCounter(LARGE_INTEGER *c) { c->QuadPart = now_us * 10; return TRUE; }
BOOL WINAPI QueryPerformanceFrequency(LARGE_INTEGER *c) { c->QuadPart = 10000000; return TRUE; }
void WINAPI Sleep(DWORD ms) { if (ms == INFINITE) block("sleep", [] { return false; }); else block("sleep", [] { return false; }, now_us + (i64)ms * 1000); }
DWORD WINAPI SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
BOOL WINAPI SwitchToThread() { sched_point("yield"); return TRUE; }
static const i64 EPOCH_DIFF = 11644473600LL * 1000000;
static void us_to_ft(i64 us, FILETIME *f) { u64 t = (u64)(us + EPOCH_DIFF) * 10; f->dwLowDateTime = (DWORD)t; f->dwHighDateTime = (DWORD)(t >> 32); }
static i64 ft_to_us(const FILETIME *f) { return (i64)((((u64)f->dwHighDateTime << 32) | f->dwLowDateTime) / 10) - EPOCH_DIFF; }
LONG WINAPI CompareFileTime(const FILETIME *a, const FILETIME *b)
{
    u64 x = ((u64)a->dwHighDateTime << 32) | a->dwLowDateTime, y = ((u64)b->dwHighDateTime << 32) | b->dwLowDateTime;
    return x < y ? -1 : x > y ? 1 : 0;
}
static void us_to_st(i64 us, SYSTEMTIME *s)
{
    i64 secs = us / 1000000, days = secs / 86400, r = secs % 86400;
    s->wMilliseconds = (WORD)(us % 1000000 / 1000); s->wHour = (WORD)(r / 3600); s->wMinute = (WORD)(r / 60 % 60); s->wSecond = (WORD)(r % 60);
    s->wDayOfWeek = (WORD)((days + 4) % 7);
    i64 z = days + 719468, era = z / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    s->wYear = (WORD)(yoe + era * 400 + (m <= 2)); s->wMonth = (WORD)m; s->wDay = (WORD)d;
}
static i64 st_to_us(const SYSTEMTIME *s)
{
    i64 y = s->wYear; unsigned m = s->wMonth, d = s->wDay; y -= m <= 2;
    i64 era = y / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    i64 days = era * 146097 + (i64)doe - 719468;
    return ((days * 86400 + s->wHour * 3600 + s->wMinute * 60 + s->wSecond) * 1000 + s->wMilliseconds) * 1000;
}
void WINAPI GetSystemTime(LPSYSTEMTIME s) { us_to_st(wall_us(), s); }
void WINAPI GetLocalTime(LPSYSTEMTIME s) { us_to_st(wall_us(), s); }
void WINAPI GetSystemTimeAsFileTime(LPFILETIME f) { us_to_ft(wall_us(), f); }
void WINAPI GetSystemTimePreciseAsFileTime(LPFILETIME f) { us_to_ft(wall_us(), f); }
BOOL WINAPI SystemTimeToFileTime(const SYSTEMTIME *s, LPFILETIME f) { us_to_ft(st_to_us(s), f); return TRUE; }
BOOL WINAPI FileTimeToSystemTime(const FILETIME *f, LPSYSTEMTIME s) { us_to_st(ft_to_us(f), s); return TRUE; }
BOOL WINAPI SystemTimeToTzSpecificLocalTime(const TIME_ZONE_INFORMATION *, const SYSTEMTIME *a, LPSYSTEMTIME b) { *b = *a; return TRUE; }
BOOL WINAPI GetFileAttributesExW(LPCWSTR name, GET_FILEEX_INFO_LEVELS, LPVOID out)
{
    sched_point("attr");
    std::string a = vfs_abs(cur->proc->cwd, narrow(name));
    WIN32_FILE_ATTRIBUTE_DATA *d = (WIN32_FILE_ATTRIBUTE_DATA *)out;
    Node *n = vfs_find(a);
    if (!n) { seterr(ERROR_FILE_NOT_FOUND); return FALSE; }
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = n->dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
    us_to_ft(n->mtime, &d->ftLastWriteTime); d->ftCreationTime = d->ftLastAccessTime = d->ftLastWriteTime;
    d->nFileSizeLow = (DWORD)n->data.size();
    return TRUE;
}
DWORD WINAPI GetFileAttributesW(LPCWSTR name)
{
    Node *n = vfs_find(vfs_abs(cur->proc->cwd, narrow(name)));
    if (!n) { seterr(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES; }
    return n->dir ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_NORMAL;
}
BOOL WINAPI DeleteFileW(LPCWSTR name) { std::string a = vfs_abs(cur->proc->cwd, narrow(name)); Node *n = vfs_find(a); if (!n || n->dir) { seterr(ERROR_FILE_NOT_FOUND); return FALSE; } vfs_remove(a); log_begin("unlink", cur->proc); log_s("path", a); log_end(); return TRUE; }
DWORD WINAPI GetCurrentDirectoryW(DWORD n, LPWSTR b) { const std::string &v = cur->proc->cwd; if (v.size() + 1 > n) return (DWORD)v.size() + 1; for (size_t i = 0; i <= v.size(); ++i) b[i] = (unsigned char)v.c_str()[i]; return (DWORD)v.size(); }
BOOL WINAPI SetCurrentDirectoryW(LPCWSTR d) { std::string a = vfs_abs(cur->proc->cwd, narrow(d)); Node *n = vfs_find(a); if (!n || !n->dir) { seterr(ERROR_PATH_NOT_FOUND); return FALSE; } cur->proc->cwd = a; return TRUE; }
DWORD WINAPI GetModuleFileNameW(HMODULE, LPWSTR b, DWORD n) { const char *s = "/w/bin/jom.exe"; size_t k = strlen(s); if (k + 1 > n) return n; for (size_t i = 0; i <= k; ++i) b[i] = (WCHAR)s[i]; return (DWORD)k; }
void WINAPI OutputDebugStringW(LPCWSTR) {}
BOOL WINAPI SetConsoleTitleW(LPCWSTR) { return TRUE; }
UINT WINAPI SetErrorMode(UINT) { return 0; }
void WINAPI GetSystemInfo(LPSYSTEM_INFO s) { memset(s, 0, sizeof *s); s->dwNumberOfProcessors = (DWORD)cfg.cores; s->dwPageSize = 4096; }
}
