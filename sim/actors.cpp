// Simulated tools and the simulated command interpreter.
#include "core.h"
#include <algorithm>
#include <string.h>
#include <strings.h>

namespace sim {
std::string base_name(std::string t);

struct Actor {
    Proc *p;
    std::string id;
    std::vector<std::string> args;          // arguments after the id
    const Json *steps = nullptr;
    size_t pc = 0;
    u64 acc = 1469598103934665603ULL;
    u64 patpos[3] = {0, 0, 0};
    bool ignoreCtrl = false;
    // pending write
    std::string wbuf; size_t woff = 0; int wstream = 0;
    // shell
    bool shell = false;
    struct Cmd { std::string text; char op; };   // op: how it is chained to the previous one
    std::vector<Cmd> cmds; size_t ci = 0; int last = 0;
    Proc *waiting = nullptr;
    FileObj *redir = nullptr;
    u64 ev = 0;
};
static std::map<std::string, int> runs;
static unsigned char pat[65521];
static bool patInit = false;
static u64 fnv(const std::string &s, u64 h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

std::vector<std::string> split_args(const std::string &cmd)
{
    std::vector<std::string> v; std::string t; bool q = false, have = false;
    for (char c : cmd) {
        if (c == '"') { q = !q; have = true; }
        else if (!q && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { if (have || !t.empty()) v.push_back(t); t.clear(); have = false; }
        else t += c;
    }
    if (have || !t.empty()) v.push_back(t);
    return v;
}
static void step(Actor *a);
static void next(Actor *a, i64 dt = -1)
{
    Proc *p = a->p;
    if (!p->alive) return;
    a->ev = after(dt < 0 ? jitter(cfg.spawn_us / 2 + 1) : dt, p, [a] { if (a->p->alive) step(a); });
}
static Obj *stream_obj(Actor *a, int s) { return s == 1 && a->redir ? (Obj *)a->redir : s == 2 ? a->p->err.o : a->p->out.o; }

// returns true when everything is written
static bool pump_write(Actor *a)
{
    Obj *o = stream_obj(a, a->wstream);
    if (!o) { a->wbuf.clear(); return true; }
    if (o->type == O_CONSOLE) { console_write((ConsoleObj *)o, a->p, a->wbuf); a->wbuf.clear(); return true; }
    if (o->type == O_FILE) { FileObj *f = (FileObj *)o; f->node->data += a->wbuf; vfs_touch(f->node); a->wbuf.clear(); return true; }
    if (o->type != O_PIPE_W) { a->wbuf.clear(); return true; }
    Pipe *p = ((PipeObj *)o)->p;
    while (a->woff < a->wbuf.size()) {
        if (!p->readers) { log_begin("epipe", a->p); log_i("s", a->wstream); log_end(); a->wbuf.clear(); return true; }
        size_t sp = pipe_space(p);
        if (!sp) { stat("pipe_full"); p->onSpace.push_back([a] { if (a->p->alive) step(a); }); return false; }
        size_t k = std::min(sp, a->wbuf.size() - a->woff);
        p->data.append(a->wbuf, a->woff, k); p->written += k; a->woff += k;
        pipe_pump(p);
    }
    a->wbuf.clear();
    return true;
}
static void start_write(Actor *a, int s, const std::string &d)
{
    a->wbuf = d; a->woff = 0; a->wstream = s;
}
static std::string pattern(Actor *a, int s, int color, size_t n)
{
    if (!patInit) { unsigned st = 12345; for (unsigned i = 0; i < sizeof pat; ++i) { st = st * 1103515245u + 12345u; pat[i] = (st >> 16) & 1; } patInit = true; }
    std::string r(n, 0);
    u64 base = (u64)color * 7919 + a->patpos[s];
    for (size_t i = 0; i < n; ++i) r[i] = (char)(0x80 + 2 * color + pat[(base + i) % sizeof pat]);
    a->patpos[s] += n;
    return r;
}
// bytes of all kinds: NUL, line ends, ^Z, text, UTF-8 and whatever else
static std::string binary(unsigned seed, size_t n)
{
    static const unsigned char special[] = {0, '\n', '\r', 26, '\t', ' ', 0xff, '%', 27, 8, 'a', 0xc3};
    std::string r(n, 0);
    for (size_t i = 0; i < n; ++i) {
        seed = seed * 1103515245u + 12345u;
        unsigned v = (seed >> 16) & 0x7fff;
        r[i] = (char)(v & 1 ? special[(v >> 1) % sizeof special] : (v >> 1) & 0xff);
    }
    return r;
}
static std::string apath(Actor *a, const std::string &x) { return vfs_abs(a->p->cwd, x); }
static bool do_read(Actor *a, const std::string &path)
{
    std::string ab = apath(a, path);
    Node *n = vfs_find(ab);
    log_begin("r", a->p); log_s("path", ab);
    if (!n || n->dir) { log_s("c", "missing"); log_end(); return false; }
    log_s("c", n->data.size() > 200 ? hex(fnv(n->data)) : n->data); log_end();
    a->acc = fnv(n->data, a->acc ^ 0x9e37);
    return true;
}
static bool do_write(Actor *a, const std::string &path, const std::string &data)
{
    std::string ab = apath(a, path);
    Node *n = vfs_find(ab);
    if (!n) n = vfs_create(ab, false);
    log_begin("w", a->p); log_s("path", ab);
    if (!n || n->dir || n->readonly) { log_s("c", "failed"); log_end(); return false; }
    n->data = data; vfs_touch(n);
    log_s("c", data); log_i("mt", n->mtime - cfg.epoch_us); log_end();
    trigger_hook("w", a->p);
    return true;
}
static void actor_exit(Actor *a, u32 code)
{
    if (a->redir) { obj_unref(a->redir, a->p); a->redir = nullptr; }
    proc_begin_exit(a->p, code);
}
bool tool_known(const std::string &id) { return scenario["tools"].has(id.c_str()); }

static void shell_step(Actor *a);
static void step(Actor *a)
{
    Proc *p = a->p;
    if (!a->wbuf.empty()) {
        if (!pump_write(a)) return;
        next(a);
        return;
    }
    if (a->shell) { shell_step(a); return; }
    if (!a->steps || a->pc >= a->steps->size()) { actor_exit(a, 0); return; }
    const Json &s = (*a->steps)[a->pc++];
    const std::string &op = s[0].str();
    if (op == "O" || op == "o" || op == "B") {
        int st = (int)s[1].num();
        std::string d = op == "O" ? pattern(a, st, (int)s[2].num(), (size_t)s[3].num()) : op == "B" ? binary((unsigned)s[2].num(), (size_t)s[3].num()) : s[2].str();
        log_begin("out", p); log_i("s", st);
        if (op == "B") { log_i("bin", s[2].num()); log_i("n", s[3].num()); }
        else if (op == "O") { log_i("col", s[2].num()); log_i("n", s[3].num()); } else log_s("d", d);
        Obj *o = stream_obj(a, st); log_i("tag", o && o->type == O_PIPE_W ? ((PipeObj *)o)->p->tag : -1);
        log_end();
        trigger_hook("out", p);
        start_write(a, st, d);
        if (!pump_write(a)) return;
        next(a);
    } else if (op == "s") next(a, s[1].num());
    else if (op == "r") { if (!do_read(a, s[1].str())) { actor_exit(a, 9); return; } next(a); }
    else if (op == "ra") { for (auto &x : a->args) if (x != "Q=" && !do_read(a, x)) { actor_exit(a, 9); return; } next(a); }
    else if (op == "w") { do_write(a, s[1].str(), a->id + ":" + hex(a->acc)); next(a); }
    else if (op == "wt") { do_write(a, s[1].str(), s[2].str()); next(a); }
    else if (op == "wa") {          // a batch command: every argument yields base + extension
        for (auto &x : a->args) {
            u64 save = a->acc;
            a->acc = fnv(a->id);
            if (!do_read(a, x)) { actor_exit(a, 9); return; }
            std::string y = s.size() > 2 ? s[3].str() + x.substr(s[2].str().size()) : x;     // sources and results in different directories
            size_t k = y.rfind('.');
            do_write(a, y.substr(0, k) + s[1].str(), a->id + ":" + hex(a->acc));
            a->acc = save;
        }
        next(a);
    }
    else if (op == "d") { std::string ab = apath(a, s[1].str()); log_begin("d", p); log_s("path", ab); log_end(); vfs_remove(ab); next(a); }
    else if (op == "x") actor_exit(a, (u32)s[1].num());
    else if (op == "c") {
        CrtStream &c = s[1].num() == 2 ? p->err : p->out;
        if (c.o) { Obj *o = c.o; c.o = nullptr; for (auto it = p->handles.begin(); it != p->handles.end(); ) { auto h = it++; if (h->second.o == o) handle_close(p, h->first); } obj_unref(o, p); }
        logev("closestream", p);
        next(a);
    } else if (op == "g") {
        Proc *g = proc_new(P_ACTOR, p);
        g->cmdline = "(grandchild)"; g->cwd = p->cwd; g->env = p->env;
        for (auto &h : p->handles) { obj_ref(h.second.o); g->handles[h.first] = h.second; }
        if (p->out.o) { obj_ref(p->out.o); g->out.o = p->out.o; }
        if (p->err.o) { obj_ref(p->err.o); g->err.o = p->err.o; }
        log_begin("spawn", g); log_i("par", p->idx); log_s("cmd", g->cmdline); log_i("gc", 1); log_end();
        after(s[1].num(), g, [g] { if (g->alive) proc_begin_exit(g, 0); });
        stat("grandchildren");
        next(a);
    } else if (op == "i") {
        size_t k = (size_t)s[1].num();
        std::string path = k < a->args.size() ? a->args[k] : "";
        if (!path.empty() && path[0] == '@') path.erase(0, 1);
        std::string ab = apath(a, path);
        Node *n = path.empty() ? nullptr : vfs_find(ab);
        log_begin("inl", p); log_i("arg", (i64)k); log_s("path", ab); log_i("ok", n ? 1 : 0); log_s("d", n ? n->data : ""); log_end();
        next(a);
    } else if (op == "ia") {        // the arguments are in an inline file
        size_t k = (size_t)s[1].num();
        std::string path = k < a->args.size() ? a->args[k] : "";
        if (!path.empty() && path[0] == '@') path.erase(0, 1);
        Node *n = path.empty() ? nullptr : vfs_find(apath(a, path));
        std::string d = n ? n->data : "", w, as;
        a->args.clear();
        for (char c : d + "\n") {
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { if (!w.empty()) { a->args.push_back(w); as += (as.empty() ? "" : " ") + w; } w.clear(); }
            else w += c;
        }
        log_begin("iargs", p); log_s("path", path); log_i("ok", n ? 1 : 0); log_s("args", as); log_end();
        next(a);
    } else if (op == "e") {
        auto it = p->env.find(s[1].str());
        log_begin("env", p); log_s("n", s[1].str()); log_i("set", it != p->env.end()); log_s("v", it == p->env.end() ? "" : it->second); log_end();
        next(a);
    } else if (op == "n") {
        Obj *o = p->in;
        if (o && o->type == O_PIPE_R && ((PipeObj *)o)->p->writers > 0) { --a->pc; ((PipeObj *)o)->p->onEof.push_back([a] { if (a->p->alive) step(a); }); return; }
        logev("stdineof", p);
        next(a);
    } else if (op == "ic") { a->ignoreCtrl = true; next(a); }
    else { sim_bug("unknown tool step %s", op.c_str()); next(a); }
}
static void tool_setup(Actor *a, const std::vector<std::string> &argv)
{
    a->id = argv.size() > 1 ? argv[1] : "?";
    if (argv.size() > 2) a->args.assign(argv.begin() + 2, argv.end());
    const Json &v = scenario["tools"][a->id.c_str()];
    int n = runs[a->id]++;
    if (v.size()) a->steps = &v[(size_t)std::min<size_t>((size_t)n, v.size() - 1)];
    a->acc = fnv(a->id);
    log_begin("tool", a->p); log_s("id", a->id); log_i("n", n);
    std::string as; for (auto &x : a->args) { if (!as.empty()) as += ' '; as += x; }
    log_s("args", as); log_end();
    if (!a->steps) { log_begin("unknowntool", a->p); log_s("id", a->id); log_end(); }
}
// ---- cmd.exe
static std::string trim(const std::string &s) { size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t\r\n"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
static void shell_setup(Actor *a, const std::string &cmdline)
{
    a->shell = true;
    size_t k = 0;
    std::string low = cmdline; for (char &c : low) c = (char)tolower(c);
    k = low.find("/c");
    std::string rest = k == std::string::npos ? "" : trim(cmdline.substr(k + 2));
    if (!rest.empty() && rest[0] == '"') {
        int q = (int)std::count(rest.begin(), rest.end(), '"');
        if (q != 2 || rest.find_first_of("&<>()@^|") != std::string::npos || rest.find(' ') == std::string::npos) {
            size_t e = rest.rfind('"'); rest.erase(e, 1); rest.erase(0, 1);
        }
    }
    std::string t; bool q = false; char op = ';';
    for (size_t i = 0; i < rest.size(); ++i) {
        char c = rest[i];
        if (c == '"') q = !q;
        if (!q && (c == '&' || c == '|') && !(c == '&' && i && rest[i - 1] == '>')) {
            a->cmds.push_back({trim(t), op}); t.clear();
            if (i + 1 < rest.size() && rest[i + 1] == c) { op = c; ++i; } else op = ';';
        } else t += c;
    }
    a->cmds.push_back({trim(t), op});
}
static void shell_msg(Actor *a, int s, const std::string &m) { start_write(a, s, m); }
static void shell_step(Actor *a)
{
    Proc *p = a->p;
    if (a->waiting) return;
    if (a->redir) { obj_unref(a->redir, p); a->redir = nullptr; }
    while (a->ci < a->cmds.size()) {
        auto &c = a->cmds[a->ci];
        if ((c.op == '&' && a->last != 0) || (c.op == '|' && a->last == 0)) { ++a->ci; continue; }
        break;
    }
    if (a->ci >= a->cmds.size()) { actor_exit(a, (u32)a->last); return; }
    std::string text = a->cmds[a->ci++].text;
    // redirection
    bool append = false; std::string file; bool errToOut = false;
    { bool q = false; std::string t;
      for (size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '"') q = !q;
        if (!q && text[i] == '>') {
            if (i && text[i - 1] == '2' && i + 2 < text.size() && text[i + 1] == '&') { t.erase(t.size() - 1); errToOut = true; i += 2; continue; }
            if (i && text[i - 1] == '1') t.erase(t.size() - 1);
            ++i; if (i < text.size() && text[i] == '>') { append = true; ++i; }
            while (i < text.size() && text[i] == ' ') ++i;
            bool qq = false;
            while (i < text.size() && (qq || text[i] != ' ')) { if (text[i] == '"') qq = !qq; else file += text[i]; ++i; }
            --i;
        } else t += text[i];
      }
      text = trim(t); }
    if (!file.empty() && strcasecmp(file.c_str(), "nul")) {
        std::string ab = apath(a, file);
        Node *n = vfs_find(ab); if (!n) n = vfs_create(ab, false);
        if (!n || n->dir) { a->last = 1; shell_msg(a, 2, "The system cannot find the path specified.\r\n"); next(a); if (!a->wbuf.empty()) return; return; }
        if (!append) n->data.clear();
        vfs_touch(n);
        log_begin("w", p); log_s("path", ab); log_s("c", "(redirected)"); log_end();
        a->redir = new FileObj(n); a->redir->path = ab; obj_ref(a->redir);
    }
    (void)errToOut;
    std::vector<std::string> w = split_args(text);
    if (w.empty()) { next(a); return; }
    std::string name = base_name(w[0]);
    std::string restText = trim(text.size() > w[0].size() ? text.substr(w[0].size()) : "");
    logev("sh", p, text);
    if (name == "echo") { a->last = 0; shell_msg(a, 1, restText + "\r\n"); next(a); return; }
    if (name == "exit") { size_t k = w.size() > 1 && w[1] == "/b" ? 2 : 1; actor_exit(a, (u32)(w.size() > k ? atoi(w[k].c_str()) : 0)); return; }
    if (name == "cd" || name == "chdir") {
        size_t k = w.size() > 1 && !strcasecmp(w[1].c_str(), "/d") ? 2 : 1;
        if (w.size() > k) { std::string ab = apath(a, w[k]); Node *n = vfs_find(ab); if (n && n->dir) { p->cwd = ab; a->last = 0; } else { a->last = 1; shell_msg(a, 2, "The system cannot find the path specified.\r\n"); } }
        next(a); return;
    }
    if (name == "rem") { a->last = 0; next(a); return; }
    if (name == "set") { size_t e = restText.find('='); if (e != std::string::npos) { std::string k = restText.substr(0, e), v = restText.substr(e + 1); if (v.empty()) p->env.erase(k); else p->env[k] = v; } a->last = 0; next(a); return; }
    if (name == "del") { a->last = 0; for (size_t i = 1; i < w.size(); ++i) { std::string ab = apath(a, w[i]); log_begin("d", p); log_s("path", ab); log_end(); vfs_remove(ab); } next(a); return; }
    if (name == "md" || name == "mkdir") { a->last = w.size() > 1 && vfs_create(apath(a, w[1]), true) ? 0 : 1; next(a); return; }
    if (name == "type") { Node *n = w.size() > 1 ? vfs_find(apath(a, w[1])) : nullptr; a->last = n && !n->dir ? 0 : 1; if (!a->last) shell_msg(a, 1, n->data); next(a); return; }
    if (name == "copy") { Node *n = w.size() > 2 ? vfs_find(apath(a, w[w.size() - 2])) : nullptr; a->last = n && do_write(a, w.back(), n->data) ? 0 : 1; next(a); return; }
    if ((name.size() >= 4 && !name.compare(name.size() - 4, 4, "tool")) || name == "jom") {
        std::string cl = text;
        if (name == "shtool") cl = "tool " + restText;
        Proc *c = nullptr; u32 err = 0;
        if (win_create_process(p, cl, nullptr, "", p->in, stream_obj(a, 1), p->err.o, true, &c, &err)) { a->waiting = c; return; }
        a->last = 1; shell_msg(a, 2, "cannot start\r\n"); next(a); return;
    }
    a->last = 1;
    shell_msg(a, 2, "'" + w[0] + "' is not recognized as an internal or external command,\r\noperable program or batch file.\r\n");
    next(a);
}
void actor_child_exited(Proc *child)
{
    Proc *p = child->parent;
    if (!p || !p->actor || p->actor->waiting != child || !p->alive) return;
    p->actor->waiting = nullptr;
    p->actor->last = (int)child->exitCode;
    next(p->actor);
}
void actor_start(Proc *p, const std::string &cmdline)
{
    Actor *a = new Actor;
    a->p = p; p->actor = a;
    std::vector<std::string> v = split_args(cmdline);
    std::string name = v.empty() ? "" : base_name(v[0]);
    if (name == "cmd") shell_setup(a, cmdline);
    else tool_setup(a, v);
    next(a);
}
void actor_ctrl(Proc *p)
{
    if (!p->actor) { proc_begin_exit(p, 0xC000013A); return; }
    if (p->actor->ignoreCtrl || p->actor->shell) { if (p->actor->shell && !p->actor->waiting) actor_exit(p->actor, 0xC000013A); return; }
    actor_exit(p->actor, 0xC000013A);
}
} // namespace sim
