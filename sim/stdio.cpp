// The C runtime as a Windows program sees it: stdout/stderr of each simulated process, text mode, exit.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#undef stdin
#undef stdout
#undef stderr
extern "C" { extern FILE *stdin, *stdout, *stderr; }

namespace sim {
int vfs_open(const std::string &path, int flags);
ssize_t vfs_write(int fd, const void *buf, size_t n);
ssize_t vfs_read(int fd, void *buf, size_t n);
int vfs_close(int fd);

struct SimFile { u64 magic; int fd; bool eof, err; std::string in; size_t pos; bool text; std::string out; bool wr; int pushed; };
static const u64 SFMAGIC = 0x73696d66696c6521ULL;
static std::set<void *> simfiles;
static SimFile *as_sim(FILE *f) { return simfiles.count(f) ? (SimFile *)f : nullptr; }
enum { TEXT = 0x4000, BIN = 0x8000 };

static std::string translate(const std::string &s, int mode)
{
    if (mode != TEXT) return s;
    std::string r; r.reserve(s.size() + 16);
    for (char c : s) { if (c == '\n') r += '\r'; r += c; }
    return r;
}
// returns 0 or errno
static int obj_write(Proc *p, Obj *o, const char *s, size_t n)
{
    if (!o) return EBADF;
    switch (o->type) {
    case O_CONSOLE: {
        ConsoleObj *c = (ConsoleObj *)o;
        if (Fault *f = fault_check("stall", p)) { i64 until = now_us + (f->off > 0 ? f->off : 100000); block("stall", [] { return false; }, until); }
        if (cfg.console_max && n > cfg.console_max) { stat("fault.console_enomem"); return ENOMEM; }
        console_write(c, p, std::string(s, n));
        return 0;
    }
    case O_PIPE_W: {
        Pipe *pp = ((PipeObj *)o)->p;
        size_t off = 0;
        while (off < n) {
            if (pp->readers == 0) return EINVAL;
            size_t sp = pipe_space(pp);
            if (!sp) { stat("pipe_full"); block("pipe", [pp] { return pp->readers == 0 || pipe_space(pp) > 0; }); continue; }
            size_t k = std::min(sp, n - off);
            pp->data.append(s + off, k); pp->written += k;
            off += k;
            pipe_pump(pp);
        }
        return 0;
    }
    case O_FILE: {
        FileObj *f = (FileObj *)o;
        if (Fault *ft = fault_check("write", p, f->path)) return ft->err ? (int)ft->err : ENOSPC;
        f->node->data.append(s, n); vfs_touch(f->node);
        if (f->con) console_write((ConsoleObj *)f->con, p, std::string(s, n));
        return 0;
    }
    default: return EBADF;
    }
}
void obj_write_blocking(Proc *p, Obj *o, const char *s, size_t n) { obj_write(p, o, s, n); }

static CrtStream *stream(FILE *f) { return f == stdout ? &cur->proc->out : f == stderr ? &cur->proc->err : nullptr; }
static void lock(CrtStream *s)
{
    if (s->owner == cur) { ++s->depth; return; }
    sched_point("stdio");
    if (s->owner) block("stdio", [s] { return !s->owner; });
    s->owner = cur; s->depth = 1;
}
static void unlock(CrtStream *s) { if (--s->depth == 0) s->owner = nullptr; }
static int flush(CrtStream *s)
{
    if (s->buf.empty()) return 0;
    std::string t = translate(s->buf, s->mode);
    s->buf.clear();
    int e = obj_write(cur->proc, s->o, t.data(), t.size());
    if (e) { s->error = true; errno = e; return -1; }
    return 0;
}
static size_t put(CrtStream *s, const char *d, size_t n)
{
    lock(s);
    size_t r = n;
    if (s->buffered) {
        s->buf.append(d, n);
        if (s->buf.size() >= 4096 && flush(s)) r = 0;
    } else if (n) {
        std::string t = translate(std::string(d, n), s->mode);
        int e = obj_write(cur->proc, s->o, t.data(), t.size());
        if (e) { s->error = true; errno = e; r = 0; }
    }
    unlock(s);
    return r;
}
void crt_write(Proc *, int fd, const char *s, size_t n) { put(fd == 2 ? &cur->proc->err : &cur->proc->out, s, n); }
void crt_flush(Proc *, int fd) { CrtStream *s = fd == 2 ? &cur->proc->err : &cur->proc->out; lock(s); flush(s); unlock(s); }

static size_t sf_put(SimFile *f, const char *d, size_t n)
{
    std::string t(d, n);
    if (f->text) t = translate(t, TEXT);
    f->out += t;
    return n;
}
static int sf_flush(SimFile *f)
{
    if (f->out.empty()) return 0;
    std::string t; t.swap(f->out);
    if (vfs_write(f->fd, t.data(), t.size()) < 0) { f->err = true; return EOF; }
    return 0;
}
static int sf_getc(SimFile *f)
{
    if (f->pushed >= 0) { int c = f->pushed; f->pushed = -1; return c; }
    for (;;) {
        if (f->pos >= f->in.size()) {
            char b[4096];
            ssize_t k = vfs_read(f->fd, b, sizeof b);
            if (k < 0) { f->err = true; return EOF; }
            if (k == 0) { f->eof = true; return EOF; }
            f->in.assign(b, (size_t)k); f->pos = 0;
        }
        int c = (unsigned char)f->in[f->pos++];
        if (f->text && c == '\r') {
            if (f->pos >= f->in.size()) { char b; if (vfs_read(f->fd, &b, 1) == 1) { f->in.assign(1, b); f->pos = 0; } }
            if (f->pos < f->in.size() && f->in[f->pos] == '\n') continue;
        }
        if (f->text && c == 26) { f->eof = true; return EOF; }
        return c;
    }
}
static FILE *sf_open(const std::string &name, const std::string &mode)
{
    bool w = mode.find('w') != std::string::npos, a = mode.find('a') != std::string::npos, plus = mode.find('+') != std::string::npos;
    int fl = w ? O_WRONLY | O_CREAT | O_TRUNC : a ? O_WRONLY | O_CREAT | O_APPEND : O_RDONLY;
    if (plus) fl = (fl & ~O_ACCMODE) | O_RDWR;
    std::string abs = vfs_abs(cur->proc->cwd, name);
    if (abs.compare(0, 3, "/w/")) { errno = ENOENT; return nullptr; }
    int fd = vfs_open(abs, fl);
    if (fd < 0) return nullptr;
    SimFile *f = new SimFile{SFMAGIC, fd, false, false, "", 0, mode.find('b') == std::string::npos, "", w || a || plus, -1};
    simfiles.insert(f);
    return (FILE *)f;
}
void win_exit(Proc *p, u32 code, bool flushing);
} // namespace sim
using namespace sim;

#define REALSYM(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" {
static int emit(FILE *f, const char *s, size_t n)
{
    if (SimFile *sf = as_sim(f)) { sf_put(sf, s, n); return (int)n; }
    CrtStream *c = stream(f);
    if (!c) { note_unsupported("write to an unknown FILE"); return -1; }
    return put(c, s, n) == n ? (int)n : -1;
}
int vfprintf(FILE *f, const char *fmt, va_list ap)
{
    if (!insim()) { REALSYM(int, vfprintf, FILE *, const char *, va_list); return real(f, fmt, ap); }
    va_list a2; va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2);
    std::string s((size_t)n + 1, 0);
    vsnprintf(&s[0], (size_t)n + 1, fmt, ap);
    return emit(f, s.data(), (size_t)n);
}
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int __fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int __printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int __vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) { return vfprintf(f, fmt, ap); }
int fputs(const char *s, FILE *f) { if (!insim()) { REALSYM(int, fputs, const char *, FILE *); return real(s, f); } return emit(f, s, strlen(s)) < 0 ? EOF : 1; }
int puts(const char *s) { if (!insim()) { REALSYM(int, puts, const char *); return real(s); } std::string t = std::string(s) + "\n"; return emit(stdout, t.data(), t.size()) < 0 ? EOF : 1; }
int fputc(int c, FILE *f) { if (!insim()) { REALSYM(int, fputc, int, FILE *); return real(c, f); } char ch = (char)c; return emit(f, &ch, 1) < 0 ? EOF : (unsigned char)ch; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void *d, size_t sz, size_t n, FILE *f)
{
    if (!insim()) { REALSYM(size_t, fwrite, const void *, size_t, size_t, FILE *); return real(d, sz, n, f); }
    int r = emit(f, (const char *)d, sz * n);
    return r < 0 ? 0 : n;
}
int fflush(FILE *f)
{
    if (!insim()) { REALSYM(int, fflush, FILE *); return real(f); }
    if (!f) { crt_flush(cur->proc, 1); crt_flush(cur->proc, 2); return 0; }
    if (SimFile *sf = as_sim(f)) return sf_flush(sf);
    CrtStream *c = stream(f);
    if (!c) return 0;
    lock(c); int r = flush(c); unlock(c);
    return r;
}
FILE *fopen(const char *n, const char *m)
{
    if (!insim()) { REALSYM(FILE *, fopen, const char *, const char *); return real(n, m); }
    return sf_open(n, m);
}
FILE *fopen64(const char *n, const char *m)
{
    if (!insim()) { REALSYM(FILE *, fopen64, const char *, const char *); return real(n, m); }
    return sf_open(n, m);
}
int fclose(FILE *f)
{
    if (!insim()) { REALSYM(int, fclose, FILE *); return real(f); }
    if (SimFile *sf = as_sim(f)) { int r = sf_flush(sf); vfs_close(sf->fd); simfiles.erase(sf); delete sf; return r; }
    if (stream(f)) return fflush(f);
    return 0;
}
size_t fread(void *d, size_t sz, size_t n, FILE *f)
{
    if (!insim()) { REALSYM(size_t, fread, void *, size_t, size_t, FILE *); return real(d, sz, n, f); }
    SimFile *sf = as_sim(f);
    if (!sf) return 0;
    size_t k = 0; char *o = (char *)d;
    while (k < sz * n) { int c = sf_getc(sf); if (c == EOF) break; o[k++] = (char)c; }
    return sz ? k / sz : 0;
}
int fgetc(FILE *f)
{
    if (!insim()) { REALSYM(int, fgetc, FILE *); return real(f); }
    SimFile *sf = as_sim(f);
    return sf ? sf_getc(sf) : EOF;
}
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { if (!insim()) { REALSYM(int, ungetc, int, FILE *); return real(c, f); } if (SimFile *sf = as_sim(f)) { sf->pushed = c; sf->eof = false; } return c; }
char *fgets(char *b, int n, FILE *f)
{
    if (!insim()) { REALSYM(char *, fgets, char *, int, FILE *); return real(b, n, f); }
    SimFile *sf = as_sim(f); int k = 0;
    if (!sf) return nullptr;
    while (k < n - 1) { int c = sf_getc(sf); if (c == EOF) break; b[k++] = (char)c; if (c == '\n') break; }
    b[k] = 0;
    return k ? b : nullptr;
}
int ferror(FILE *f) { if (!insim()) { REALSYM(int, ferror, FILE *); return real(f); } if (SimFile *sf = as_sim(f)) return sf->err; CrtStream *c = stream(f); return c && c->error; }
int feof(FILE *f) { if (!insim()) { REALSYM(int, feof, FILE *); return real(f); } if (SimFile *sf = as_sim(f)) return sf->eof; return 0; }
void clearerr(FILE *f) { if (!insim()) { REALSYM(void, clearerr, FILE *); real(f); return; } if (SimFile *sf = as_sim(f)) { sf->err = sf->eof = false; } else if (CrtStream *c = stream(f)) c->error = false; }
int fileno(FILE *f) { if (!insim()) { REALSYM(int, fileno, FILE *); return real(f); } return f == stdout ? 1 : f == stderr ? 2 : f == stdin ? 0 : as_sim(f) ? as_sim(f)->fd : -1; }
int setvbuf(FILE *f, char *b, int mode, size_t n)
{
    if (!insim()) { REALSYM(int, setvbuf, FILE *, char *, int, size_t); return real(f, b, mode, n); }
    if (CrtStream *c = stream(f)) { fflush(f); c->buffered = mode != _IONBF; }
    return 0;
}
void setbuf(FILE *f, char *b) { setvbuf(f, b, b ? _IOFBF : _IONBF, 4096); }
FILE *freopen(const char *n, const char *m, FILE *f)
{
    if (!insim()) { REALSYM(FILE *, freopen, const char *, const char *, FILE *); return real(n, m, f); }
    CrtStream *c = stream(f);
    if (!c) return nullptr;
    fflush(f);
    std::string abs = vfs_abs(cur->proc->cwd, n);
    if (fault_check("open_w", cur->proc, abs)) { errno = EACCES; return nullptr; }
    Node *nd = vfs_create(abs, false);
    if (!nd || abs.compare(0, 3, "/w/")) { errno = ENOENT; return nullptr; }
    if (*m == 'w') { nd->data.clear(); vfs_touch(nd); }
    FileObj *fo = new FileObj(nd); fo->path = abs; fo->writable = true; obj_ref(fo);
    if (c->o && c->o->type == O_CONSOLE) fo->con = c->o;
    else if (c->o) obj_unref(c->o, cur->proc);
    c->o = fo; c->buffered = true; c->mode = strchr(m, 'b') ? BIN : TEXT;
    return f;
}
void perror(const char *s) { if (!insim()) { REALSYM(void, perror, const char *); real(s); return; } fprintf(stderr, "%s: %s\n", s, strerror(errno)); }
int sim_crt_fileno(FILE *f) { return fileno(f); }
int sim_crt_setmode(int fd, int mode)
{
    CrtStream *c = fd == 1 ? &cur->proc->out : fd == 2 ? &cur->proc->err : nullptr;
    if (!c) return -1;
    sched_point("setmode");
    int old = c->mode; c->mode = mode;
    return old;
}
static std::string narrow(const unsigned short *w) { std::string s; while (w && *w) s += (char)*w++; return s; }
FILE *sim_crt_wfopen(const unsigned short *n, const unsigned short *m) { return fopen(narrow(n).c_str(), narrow(m).c_str()); }
FILE *sim_crt_wfreopen(const unsigned short *n, const unsigned short *m, FILE *f) { return freopen(narrow(n).c_str(), narrow(m).c_str(), f); }
int sim_crt_write(int fd, const void *p, unsigned n)
{
    CrtStream *c = fd == 1 ? &cur->proc->out : fd == 2 ? &cur->proc->err : nullptr;
    if (!c) { if (fd >= 1000) return (int)vfs_write(fd, p, n); errno = EBADF; return -1; }
    sched_point("_write");
    std::string t = translate(std::string((const char *)p, n), c->mode);
    int e = obj_write(cur->proc, c->o, t.data(), t.size());
    if (e) { errno = e; return -1; }
    return (int)n;
}
static u32 rs = 1;
int sim_crt_rand_s(unsigned *v)
{
    if (fault_check("rand_s", cur->proc)) return EINVAL;
    // small range: names collide now and then
    rs = rs * 1664525u + 1013904223u;
    *v = (rs >> 8) % 5000u;
    return 0;
}
int rand() { if (insim()) { rs = rs * 1664525u + 1013904223u; return (int)(rs >> 17); } REALSYM(int, rand, void); return real(); }

[[noreturn]] void exit(int code)
{
    if (insim()) {
        crt_flush(cur->proc, 1); crt_flush(cur->proc, 2);
        Proc *p = cur->proc;
        proc_begin_exit(p, (u32)code);
        thread_exit_self();
    }
    static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    real(code);
    __builtin_unreachable();
}
[[noreturn]] void _exit(int code)
{
    if (insim()) { proc_begin_exit(cur->proc, (u32)code); thread_exit_self(); }
    raw_syscall(231 /* exit_group */, code);
    __builtin_unreachable();
}
[[noreturn]] void abort()
{
    if (insim() && cur && cur->proc) {
        logev("abort", cur->proc);
        proc_begin_exit(cur->proc, 3);
        thread_exit_self();
    }
    raw_syscall(231, 134);
    __builtin_unreachable();
}
int system(const char *cmd)
{
    if (!insim()) { REALSYM(int, system, const char *); return real(cmd); }
    // preprocessor shell expressions: a child that runs to completion
    fflush(nullptr);
    Proc *p = cur->proc, *c = nullptr; u32 err = 0;
    std::string cl = std::string("cmd.exe /C ") + cmd;
    if (!win_create_process(p, cl, nullptr, "", p->in, p->out.o, p->err.o, true, &c, &err)) return -1;
    block("system", [c] { return c->signaled; });
    return (int)c->exitCode;
}
char *getenv(const char *n)
{
    if (insim()) {
        if (!strcmp(n, "QT_NO_GLIB")) return (char *)"1";
        if (!strcmp(n, "QT_HASH_SEED")) return (char *)"0";
        Proc *p = cur ? cur->proc : nullptr;
        if (!p || !strncmp(n, "QT_", 3) || !strncmp(n, "LC_", 3) || !strcmp(n, "LANG") || !strcmp(n, "TZ")) return nullptr;
        auto it = p->env.find(n);
        return it == p->env.end() ? nullptr : (char *)it->second.c_str();
    }
    if (!strcmp(n, "QT_NO_GLIB")) return (char *)"1";
    if (!strcmp(n, "QT_HASH_SEED")) return (char *)"0";
    REALSYM(char *, getenv, const char *); return real(n);
}
}
