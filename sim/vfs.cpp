// Virtual file system under /w plus the libc file, eventfd and poll calls that Qt makes.
#include "core.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <unistd.h>

namespace sim {
static Node *root;
bool CaseLess::operator()(const std::string &a, const std::string &b) const { return strcasecmp(a.c_str(), b.c_str()) < 0; }
i64 wall_us() { return cfg.epoch_us + now_us + wall_off_us; }

std::string vfs_abs(const std::string &cwd, const std::string &path0)
{
    std::string path = path0;
    for (char &c : path) if (c == '\\') c = '/';
    if (path.compare(0, 4, "//?/") == 0) path.erase(0, 4);
    if (path.empty()) return std::string();
    if (path.size() > 1 && path[1] == ':') path.erase(0, 2);
    if (path.empty() || path[0] != '/') path = cwd + "/" + path;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < path.size()) {
        size_t j = path.find('/', i);
        if (j == std::string::npos) j = path.size();
        std::string s = path.substr(i, j - i);
        if (s == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!s.empty() && s != ".") parts.push_back(s);
        i = j + 1;
    }
    std::string r;
    for (auto &s : parts) r += "/" + s;
    return r.empty() ? "/" : r;
}
static Node *walk(const std::string &abs, bool parent, std::string *last)
{
    Node *n = root;
    size_t i = 1;
    if (abs.empty() || abs[0] != '/') return nullptr;
    while (i < abs.size()) {
        size_t j = abs.find('/', i);
        if (j == std::string::npos) j = abs.size();
        std::string s = abs.substr(i, j - i);
        if (parent && j >= abs.size()) { if (last) *last = s; return n->dir ? n : nullptr; }
        if (!n->dir) return nullptr;
        auto it = n->kids.find(s);
        if (it == n->kids.end()) return nullptr;
        n = it->second;
        i = j + 1;
    }
    return parent ? nullptr : n;
}
Node *vfs_find(const std::string &abs) { return walk(abs, false, nullptr); }
void vfs_touch(Node *n) { i64 w = wall_us(); n->mtime = w / cfg.mtime_gran_us * cfg.mtime_gran_us; ++n->gen; }
Node *vfs_create(const std::string &abs, bool dir)
{
    std::string last;
    Node *p = walk(abs, true, &last);
    if (!p) return nullptr;
    auto it = p->kids.find(last);
    if (it != p->kids.end()) return it->second->dir == dir ? it->second : nullptr;
    Node *n = new Node;
    n->dir = dir; n->name = last; n->up = p;
    vfs_touch(n);
    p->kids[last] = n;
    return n;
}
bool vfs_remove(const std::string &abs)
{
    std::string last;
    Node *p = walk(abs, true, &last);
    if (!p) return false;
    auto it = p->kids.find(last);
    if (it == p->kids.end()) return false;
    if (it->second->dir && !it->second->kids.empty()) return false;
    it->second->up = nullptr;       // open files keep the node
    p->kids.erase(it);
    return true;
}
void vfs_init()
{
    root = new Node; root->dir = true;
    vfs_create("/w", true); vfs_create("/w/tmp", true); vfs_create("/w/bin", true);
}
static void dump(Node *n, const std::string &path)
{
    for (auto &k : n->kids) {
        std::string p = path + "/" + k.second->name;
        if (k.second->dir) dump(k.second, p);
        else { log_begin("file", nullptr); log_s("path", p); log_i("mt", k.second->mtime - cfg.epoch_us); log_s("data", k.second->data.size() > 4096 ? k.second->data.substr(0, 4096) : k.second->data); log_end(); }
    }
}
void vfs_dump() { dump(root, ""); }

// ------------------------------------------------------------------ descriptors
struct SFd { int kind; Node *n; size_t pos; int flags; u64 counter; Proc *p; std::string path; bool open; };
static std::vector<SFd> fds;
enum { FDBASE = 1000 };
static int fd_new(int kind) { for (size_t i = 0; i < fds.size(); ++i) if (!fds[i].open) { fds[i] = SFd{kind, nullptr, 0, 0, 0, cur->proc, "", true}; return (int)i + FDBASE; }
    fds.push_back(SFd{kind, nullptr, 0, 0, 0, cur->proc, "", true}); return (int)fds.size() - 1 + FDBASE; }
static SFd *fd_get(int fd) { if (fd < FDBASE || fd - FDBASE >= (int)fds.size() || !fds[fd - FDBASE].open) return nullptr; return &fds[fd - FDBASE]; }
static bool in_vfs(const std::string &abs) { return abs == "/w" || abs.compare(0, 3, "/w/") == 0; }
static std::string absp(const char *p) { return vfs_abs(cur->proc->cwd, p); }
static bool host_ok(const std::string &a) { return a.compare(0, 5, "/usr/") == 0 || a.compare(0, 5, "/etc/") == 0; }

int vfs_open(const std::string &path, int flags)
{
    std::string a = vfs_abs(cur->proc->cwd, path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    sched_point("open");
    if (Fault *f = fault_check(wr ? "open_w" : "open_r", cur->proc, a)) { errno = f->err ? (int)f->err : EACCES; return -1; }
    Node *n = vfs_find(a);
    if (!n && (flags & O_CREAT)) { n = vfs_create(a, false); }
    else if (n && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!n) { errno = ENOENT; return -1; }
    if (n->dir && wr) { errno = EISDIR; return -1; }
    if (wr && n->readonly) { errno = EACCES; return -1; }
    if (wr) { log_begin("fopenw", cur->proc); log_s("path", a); log_end(); trigger_hook("fopenw", cur->proc); }
    if (wr && (flags & O_TRUNC)) { n->data.clear(); vfs_touch(n); }
    int fd = fd_new(1);
    SFd *s = fd_get(fd);
    s->n = n; s->flags = flags; s->path = a;
    if (flags & O_APPEND) s->pos = n->data.size();
    return fd;
}
ssize_t vfs_write(int fd, const void *buf, size_t n)
{
    SFd *s = fd_get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind == 2) { if (n == 8) s->counter += *(const u64 *)buf; else s->counter += 1; return (ssize_t)n; }
    sched_point("write");
    s = fd_get(fd);
    if (Fault *f = fault_check("write", cur->proc, s->path)) {
        size_t k = f->off >= 0 && (size_t)f->off < n ? (size_t)f->off : 0;      // torn: a prefix reaches the disk
        if (k) { if (s->n->data.size() < s->pos + k) s->n->data.resize(s->pos + k); s->n->data.replace(s->pos, k, (const char *)buf, k); s->pos += k; vfs_touch(s->n); }
        errno = f->err ? (int)f->err : ENOSPC; return -1;
    }
    if (s->flags & O_APPEND) s->pos = s->n->data.size();
    if (s->n->data.size() < s->pos + n) s->n->data.resize(s->pos + n);
    s->n->data.replace(s->pos, n, (const char *)buf, n);
    s->pos += n;
    vfs_touch(s->n);
    return (ssize_t)n;
}
ssize_t vfs_read(int fd, void *buf, size_t n)
{
    SFd *s = fd_get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->kind == 2) { if (!s->counter) { errno = EAGAIN; return -1; } if (n >= 8) *(u64 *)buf = s->counter; s->counter = 0; return 8; }
    if (s->n->dir) { errno = EISDIR; return -1; }
    size_t avail = s->pos < s->n->data.size() ? s->n->data.size() - s->pos : 0;
    for (auto &f : faults) {
        if (f.site != "read" || f.fired >= f.count) continue;
        if (f.proc >= 0 && f.proc != cur->proc->idx) continue;
        if (!f.path.empty() && s->path.find(f.path) == std::string::npos) continue;
        size_t off = f.off < 0 ? 0 : (size_t)f.off;
        if (s->pos >= off || f.fired) { ++f.fired; stat("fault.read"); log_begin("fault", cur->proc); log_s("site", "read"); log_s("path", s->path); log_end(); errno = EIO; return -1; }
        if (s->pos + n > off) n = off - s->pos;      // short read up to the bad spot
    }
    if (n > avail) n = avail;
    memcpy(buf, s->n->data.data() + s->pos, n);
    s->pos += n;
    return (ssize_t)n;
}
int vfs_close(int fd)
{
    SFd *s = fd_get(fd);
    if (!s) { errno = EBADF; return -1; }
    s->open = false;
    if (s->kind == 1 && (s->flags & O_ACCMODE) != O_RDONLY) {
        log_begin("fclosew", cur->proc); log_s("path", s->path); log_end();
        trigger_hook("fclosew", cur->proc);
    }
    return 0;
}
int vfs_unlink(const std::string &path)
{
    std::string a = vfs_abs(cur->proc->cwd, path);
    sched_point("unlink");
    if (Fault *f = fault_check("unlink", cur->proc, a)) { errno = f->err ? (int)f->err : EACCES; return -1; }
    Node *n = vfs_find(a);
    if (!n) { errno = ENOENT; return -1; }
    if (n->dir) { errno = EISDIR; return -1; }
    vfs_remove(a);
    log_begin("unlink", cur->proc); log_s("path", a); log_end();
    return 0;
}
static void fill(struct stat *st, Node *n)
{
    memset(st, 0, sizeof *st);
    st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | (n->readonly ? 0444 : 0644);
    st->st_ino = (ino_t)(uintptr_t)n; st->st_dev = 7; st->st_nlink = 1; st->st_size = n->dir ? 0 : (off_t)n->data.size(); st->st_blksize = 4096;
    st->st_mtim.tv_sec = n->mtime / 1000000; st->st_mtim.tv_nsec = n->mtime % 1000000 * 1000;
    st->st_atim = st->st_ctim = st->st_mtim;
}
} // namespace sim
using namespace sim;
#define REALSYM(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
static bool host_denied(const std::string &a) { if (host_ok(a)) return false; errno = ENOENT; return true; }

extern "C" {
static int do_open(const char *path, int flags, int mode)
{
    if (insim()) {
        std::string a = absp(path);
        if (in_vfs(a)) return vfs_open(a, flags);
        if ((flags & O_ACCMODE) != O_RDONLY || host_denied(a)) { errno = ENOENT; return -1; }
    }
    long r = raw_syscall(SYS_openat, AT_FDCWD, (long)path, flags, mode);
    if (r < 0) { errno = (int)-r; return -1; }
    return (int)r;
}
int open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(path, flags, m); }
int open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(path, flags, m); }
int __open_2(const char *path, int flags) { return do_open(path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(path, flags, 0); }
ssize_t read(int fd, void *b, size_t n) { if (insim() && fd >= FDBASE) return vfs_read(fd, b, n); long r = raw_syscall(SYS_read, fd, (long)b, n); if (r < 0) { errno = -r; return -1; } return r; }
ssize_t write(int fd, const void *b, size_t n)
{
    if (insim() && fd >= FDBASE) return vfs_write(fd, b, n);
    long r = raw_syscall(SYS_write, fd, (long)b, n); if (r < 0) { errno = -r; return -1; } return r;
}
int close(int fd) { if (insim() && fd >= FDBASE) return vfs_close(fd); long r = raw_syscall(SYS_close, fd); if (r < 0) { errno = -r; return -1; } return 0; }
off64_t lseek64(int fd, off64_t off, int wh)
{
    if (insim() && fd >= FDBASE) {
        SFd *s = fd_get(fd);
        if (!s || s->kind != 1) { errno = ESPIPE; return -1; }
        i64 np = wh == SEEK_SET ? off : wh == SEEK_CUR ? (i64)s->pos + off : (i64)s->n->data.size() + off;
        if (np < 0) { errno = EINVAL; return -1; }
        s->pos = (size_t)np; return np;
    }
    long r = raw_syscall(SYS_lseek, fd, off, wh); if (r < 0) { errno = -r; return -1; } return r;
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
static int do_fstat(int fd, struct stat *st)
{
    if (insim() && fd >= FDBASE) {
        SFd *s = fd_get(fd);
        if (!s) { errno = EBADF; return -1; }
        if (s->kind == 1) fill(st, s->n); else memset(st, 0, sizeof *st);
        return 0;
    }
    long r = raw_syscall(SYS_fstat, fd, (long)st); if (r < 0) { errno = -r; return -1; } return 0;
}
static int do_stat(const char *p, struct stat *st, bool l)
{
    if (insim()) {
        std::string a = absp(p);
        if (in_vfs(a) || a == "/") { Node *n = vfs_find(a); if (!n || !*p) { errno = ENOENT; return -1; } fill(st, n); return 0; }
        if (host_denied(a)) return -1;
    }
    long r = raw_syscall(l ? SYS_lstat : SYS_stat, (long)p, (long)st); if (r < 0) { errno = -r; return -1; } return 0;
}
int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) { return do_stat(p, st, false); }
int stat64(const char *p, struct stat64 *st) { return do_stat(p, (struct stat *)st, false); }
int lstat(const char *p, struct stat *st) { return do_stat(p, st, true); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(p, (struct stat *)st, true); }
int statx(int dirfd, const char *p, int flags, unsigned mask, struct statx *sx)
{
    if (insim()) {
        struct stat st; int r;
        if (p && *p) r = do_stat(p, &st, false); else if (dirfd >= FDBASE) r = do_fstat(dirfd, &st); else { errno = ENOENT; return -1; }
        if (r) return r;
        memset(sx, 0, sizeof *sx);
        sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = (uint16_t)st.st_mode; sx->stx_ino = st.st_ino; sx->stx_nlink = 1; sx->stx_size = st.st_size; sx->stx_blksize = 4096;
        sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_mtime.tv_nsec = (unsigned)st.st_mtim.tv_nsec; sx->stx_atime = sx->stx_ctime = sx->stx_mtime;
        return 0;
    }
    long r = raw_syscall(SYS_statx, dirfd, (long)p, flags, mask, (long)sx); if (r < 0) { errno = -r; return -1; } return 0;
}
int access(const char *p, int mode)
{
    if (insim()) { struct stat st; if (do_stat(p, &st, false)) return -1; if ((mode & W_OK) && !(st.st_mode & 0200)) { errno = EACCES; return -1; } return 0; }
    long r = raw_syscall(SYS_access, (long)p, mode); if (r < 0) { errno = -r; return -1; } return 0;
}
int unlink(const char *p)
{
    if (insim()) { std::string a = absp(p); if (!in_vfs(a)) { errno = EACCES; return -1; } return vfs_unlink(a); }
    long r = raw_syscall(SYS_unlink, (long)p); if (r < 0) { errno = -r; return -1; } return 0;
}
int remove(const char *p) { return unlink(p); }
int rmdir(const char *p)
{
    if (insim()) { std::string a = absp(p); Node *n = vfs_find(a); if (!in_vfs(a) || !n || !n->dir) { errno = ENOENT; return -1; } if (!vfs_remove(a)) { errno = ENOTEMPTY; return -1; } return 0; }
    long r = raw_syscall(SYS_rmdir, (long)p); if (r < 0) { errno = -r; return -1; } return 0;
}
int mkdir(const char *p, mode_t m)
{
    if (insim()) { std::string a = absp(p); if (!in_vfs(a)) { errno = EACCES; return -1; } if (vfs_find(a)) { errno = EEXIST; return -1; } if (!vfs_create(a, true)) { errno = ENOENT; return -1; } return 0; }
    long r = raw_syscall(SYS_mkdir, (long)p, m); if (r < 0) { errno = -r; return -1; } return 0;
}
int rename(const char *o, const char *n)
{
    if (insim()) {
        std::string a = absp(o), b = absp(n);
        Node *x = vfs_find(a);
        if (!in_vfs(a) || !in_vfs(b) || !x || x->dir) { errno = ENOENT; return -1; }
        Node *y = vfs_create(b, false);
        if (!y) { errno = ENOENT; return -1; }
        y->data = x->data; y->mtime = x->mtime;
        if (y != x) vfs_remove(a);
        return 0;
    }
    long r = raw_syscall(SYS_rename, (long)o, (long)n); if (r < 0) { errno = -r; return -1; } return 0;
}
int renameat2(int d1, const char *o, int d2, const char *n, unsigned f)
{
    if (insim()) { if ((f & 1) && vfs_find(absp(n))) { errno = EEXIST; return -1; } return rename(o, n); }
    long r = raw_syscall(SYS_renameat2, d1, (long)o, d2, (long)n, f); if (r < 0) { errno = -r; return -1; } return 0;
}
int chmod(const char *p, mode_t m) { if (insim()) { Node *n = vfs_find(absp(p)); if (!n) { errno = ENOENT; return -1; } n->readonly = !(m & 0200); return 0; }
    long r = raw_syscall(SYS_chmod, (long)p, m); if (r < 0) { errno = -r; return -1; } return 0; }
char *getcwd(char *b, size_t n)
{
    if (insim()) {
        std::string c = cur->proc->cwd;
        if (!b) return strdup(c.c_str());
        if (c.size() + 1 > n) { errno = ERANGE; return nullptr; }
        memcpy(b, c.c_str(), c.size() + 1); return b;
    }
    REALSYM(char *, getcwd, char *, size_t); return real(b, n);
}
int chdir(const char *p)
{
    if (insim()) { std::string a = absp(p); Node *n = vfs_find(a); if (!n || !n->dir) { errno = ENOENT; return -1; } cur->proc->cwd = a; return 0; }
    long r = raw_syscall(SYS_chdir, (long)p); if (r < 0) { errno = -r; return -1; } return 0;
}
char *realpath(const char *p, char *res)
{
    if (insim()) {
        std::string a = absp(p);
        if (!vfs_find(a)) { errno = ENOENT; return nullptr; }
        if (!res) return strdup(a.c_str());
        strcpy(res, a.c_str()); return res;
    }
    REALSYM(char *, realpath, const char *, char *); return real(p, res);
}
ssize_t readlink(const char *p, char *b, size_t n)
{
    if (insim()) { if (!host_ok(absp(p))) { errno = vfs_find(absp(p)) ? EINVAL : ENOENT; return -1; } }
    long r = raw_syscall(SYS_readlink, (long)p, (long)b, n); if (r < 0) { errno = -r; return -1; } return r;
}
struct SimDir { u64 magic; std::vector<std::string> names; std::vector<bool> isdir; size_t i; struct dirent64 e; };
static std::set<void *> simdirs;
DIR *opendir(const char *p)
{
    if (insim()) {
        Node *n = vfs_find(absp(p));
        if (!n || !n->dir) { errno = ENOENT; return nullptr; }
        SimDir *d = new SimDir; d->i = 0;
        d->names = {".", ".."}; d->isdir = {true, true};
        for (auto &k : n->kids) { d->names.push_back(k.second->name); d->isdir.push_back(k.second->dir); }
        simdirs.insert(d);
        return (DIR *)d;
    }
    REALSYM(DIR *, opendir, const char *); return real(p);
}
struct dirent64 *readdir64(DIR *dp)
{
    if (simdirs.count(dp)) {
        SimDir *d = (SimDir *)dp;
        if (d->i >= d->names.size()) return nullptr;
        memset(&d->e, 0, sizeof d->e);
        strncpy(d->e.d_name, d->names[d->i].c_str(), 255); d->e.d_type = d->isdir[d->i] ? DT_DIR : DT_REG; d->e.d_ino = d->i + 1;
        ++d->i; return &d->e;
    }
    REALSYM(struct dirent64 *, readdir64, DIR *); return real(dp);
}
int closedir(DIR *dp) { if (simdirs.count(dp)) { simdirs.erase(dp); delete (SimDir *)dp; return 0; } REALSYM(int, closedir, DIR *); return real(dp); }
int eventfd(unsigned init, int flags)
{
    if (insim()) { int fd = fd_new(2); fd_get(fd)->counter = init; return fd; }
    long r = raw_syscall(SYS_eventfd2, init, flags); if (r < 0) { errno = -r; return -1; } return (int)r;
}
int eventfd_write(int fd, eventfd_t v)
{
    if (fd >= FDBASE && fd_get(fd)) { fd_get(fd)->counter += v; return 0; }
    return raw_syscall(SYS_write, fd, (long)&v, 8) == 8 ? 0 : -1;
}
int eventfd_read(int fd, eventfd_t *v)
{
    if (fd >= FDBASE && fd_get(fd)) { SFd *s = fd_get(fd); if (!s->counter) { errno = EAGAIN; return -1; } *v = s->counter; s->counter = 0; return 0; }
    return raw_syscall(SYS_read, fd, (long)v, 8) == 8 ? 0 : -1;
}
static int do_poll(struct pollfd *p, nfds_t n, i64 deadline)
{
    auto ready = [p, n]() -> bool {
        for (nfds_t i = 0; i < n; ++i) { SFd *s = fd_get(p[i].fd); if (s && s->kind == 2 && s->counter && (p[i].events & POLLIN)) return true; }
        return false;
    };
    for (nfds_t i = 0; i < n; ++i) if (p[i].fd >= 0 && !fd_get(p[i].fd)) note_unsupported("poll on a foreign descriptor");
    Proc *pr = cur->proc;
    ++pr->polls;
    bool ok = true;
    if (deadline < 0 || deadline > now_us) ok = block("poll", ready, deadline); else sched_point("poll");
    if (!ok) { ++pr->pollTimeouts; stat("timer_wakeups"); }
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) { SFd *s = fd_get(p[i].fd); p[i].revents = 0; if (s && s->kind == 2 && s->counter && (p[i].events & POLLIN)) { p[i].revents = POLLIN; ++k; } }
    return k;
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *)
{
    if (!insim()) { REALSYM(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *); return real(p, n, ts, nullptr); }
    return do_poll(p, n, ts ? now_us + (i64)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000 : -1);
}
int poll(struct pollfd *p, nfds_t n, int ms)
{
    if (!insim()) { long r = raw_syscall(SYS_poll, (long)p, n, ms); if (r < 0) { errno = -r; return -1; } return (int)r; }
    return do_poll(p, n, ms < 0 ? -1 : now_us + (i64)ms * 1000);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (insim() && fd >= FDBASE) return 0;
    long r = raw_syscall(SYS_fcntl, fd, cmd, a); if (r < 0) { errno = -r; return -1; } return (int)r;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
    if (insim() && fd >= FDBASE) { errno = ENOTTY; return -1; }
    long r = raw_syscall(SYS_ioctl, fd, req, a); if (r < 0) { errno = -r; return -1; } return (int)r;
}
static int do_trunc(int fd, i64 n)
{
    if (insim() && fd >= FDBASE) { SFd *s = fd_get(fd); if (!s || s->kind != 1) { errno = EBADF; return -1; } s->n->data.resize((size_t)n); vfs_touch(s->n); return 0; }
    long r = raw_syscall(SYS_ftruncate, fd, n); if (r < 0) { errno = -r; return -1; } return 0;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
int fsync(int fd) { if (insim() && fd >= FDBASE) return 0; return (int)raw_syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int flock(int fd, int op) { if (insim() && fd >= FDBASE) return 0; return (int)raw_syscall(SYS_flock, fd, op); }
int isatty(int fd) { if (insim()) { errno = ENOTTY; return 0; } REALSYM(int, isatty, int); return real(fd); }
pid_t getpid() { if (insim()) return cur->proc->pid; return (pid_t)raw_syscall(SYS_getpid); }
int pipe2(int *, int) { errno = ENOSYS; return -1; }
pid_t fork()
{
    if (insim()) { note_unsupported("fork"); errno = ENOSYS; return -1; }
    REALSYM(pid_t, fork, void); return real();
}
int system(const char *c);
}
