#include "sim.h"
#include <sys/uio.h>
#include <sys/resource.h>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <glob.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <regex.h>
#include <fnmatch.h>

extern char **environ;
World *g;
Shared *R;
string *trace_out;
void (*dump_hook)();
Tape tapes[NSTREAM];
bool enabled_fault[FK_COUNT];
u32 fault_den[FK_COUNT];
int faults_left = 1000000;
bool cmd_unmodelled;
const char *fault_name[FK_COUNT] = {
#define X(n) #n,
    FAULT_KINDS(X)
#undef X
};
static const u64 MAX_SEAMS = 3000000;
vector<Scenario> &scenarios() { static vector<Scenario> v; return v; }

/* ------------------------------------------------------------------ PRNG */
static u64 splitmix(u64 &x) {
    u64 z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
u32 draw(Stream s, u32 n) {
    if (n <= 1) return 0;
    Tape &t = tapes[s];
    u32 r = 0;
    if (t.replay) r = t.pos < *t.n ? t.v[t.pos] % n : 0;
    else if (*t.n < TAPE_CAP) { r = (u32)(splitmix(t.st) % n); t.v[(*t.n)++] = r; } /* a run that draws without end goes on with zeros, as its replay does */
    t.pos++;
    return r;
}
bool chance(Stream s, u32 num, u32 den) { return draw(s, den) >= den - num; }
u32 range(Stream s, u32 lo, u32 hi) { return hi <= lo ? lo : lo + draw(s, hi - lo + 1); }
void enable(Fault k, u32 den) { enabled_fault[k] = true; fault_den[k] = den ? den : 1; }
void fault_fired(Fault k, const char *site) { R->faults[k]++; ev("FAULT", "%s %s", fault_name[k], site); }
bool fault(Fault k, const char *site) {
    if (!g || !g->faults_on || !enabled_fault[k] || faults_left <= 0) return false;
    if (!chance(F, 1, fault_den[k])) return false;
    faults_left--;
    fault_fired(k, site);
    return true;
}

/* ------------------------------------------------------------------ log */
u64 fnv(const void *p, size_t n, u64 h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
u64 fnv(const string &s) { return fnv(s.data(), s.size()); }
void ihash_add(u64 v) { R->ihash = fnv(&v, sizeof v, R->ihash ? R->ihash : 1469598103934665603ull); }
void ev(const char *kind, const char *fmt, ...) {
    char b[600];
    int n = 0;
    if (fmt) { va_list ap; va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n < 0) n = 0; if (n >= (int)sizeof b) n = sizeof b - 1; }
    u64 h = R->hash ? R->hash : 1469598103934665603ull;
    h = fnv(kind, strlen(kind), h);
    h = fnv(b, (size_t)n, h);
    R->hash = h;
    if (trace_out && trace_out->size() < 400000) {
        char pre[64]; snprintf(pre, sizeof pre, "[%8.3fms #%ld p%d] ", g ? (double)(g->now_us - g->start_us) / 1000.0 : 0.0, g ? g->seam_no : 0, g && g->cur ? g->cur->pid : 0);
        *trace_out += pre; *trace_out += kind;
        if (n) { *trace_out += ' '; trace_out->append(b, (size_t)n); }
        *trace_out += '\n';
    }
}
void fail(const char *cls, const string &key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->key, sizeof R->key, "%s", key.c_str());
    ev("VIOLATION", "%s %s", cls, key.c_str());
    R->failed = 1; R->done = 1; 
    if (g) { R->seams = (u64)g->seam_no; R->simtime_us = g->now_us - g->start_us; }
    if (dump_hook) dump_hook();
    _exit(0);
}
void probe(const char *name, u64 n) {
    for (u32 i = 0; i < R->probe_n; i++) if (!strcmp(R->probe[i].name, name)) { R->probe[i].n += n; return; }
    if (R->probe_n < 48) { snprintf(R->probe[R->probe_n].name, 40, "%s", name); R->probe[R->probe_n].n = n; R->probe_n++; }
}
void sample(const string &s) { snprintf(R->sample, sizeof R->sample, "%s", s.c_str()); }
string hexq(const string &s, size_t max) {
    string o;
    for (size_t i = 0; i < s.size() && o.size() < max; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    if (o.size() >= max) o += "...";
    return o;
}

/* ------------------------------------------------------------------ SUT heap */
static const size_t ARENA = 6ull << 30;
static char *arena, *arena_p, *arena_end;
struct Hdr { u64 magic; u64 size; };
static const u64 M_LIVE = 0xA11C0C0DEADBEEF1ull, M_FREE = 0xF4EEF4EEF4EEF4EEull;
static const unsigned char CAN = 0xC5;
static const size_t CANLEN = 16;
static Hdr *first_hdr; /* blocks are laid out back to back */
static void arena_init() {
    arena = (char *)mmap((void *)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena == MAP_FAILED) { arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    arena_p = arena; arena_end = arena + ARENA; first_hdr = (Hdr *)arena;
}
static inline bool in_arena(const void *p) { return (const char *)p >= arena && (const char *)p < arena_end; }
static inline size_t blk(size_t n) { return (sizeof(Hdr) + n + CANLEN + 15) & ~(size_t)15; }
static void sched_alloc_point();
static bool alloc_denied() {
    if (!g || !g->alloc_armed) return false;
    g->alloc_seen++;
    if (g->alloc_fail_at >= 0 && g->alloc_seen == g->alloc_fail_at) { fault_fired(FK_ALLOC_FAIL, "malloc"); return true; }
    return false;
}
extern bool sut_threads;
static std::map<size_t, vector<char *>> heap_free; /* freed blocks to be handed out again, by block size */
static void *arena_alloc(size_t n, bool zero) {
    if (n > (1ull << 31)) { errno = ENOMEM; return nullptr; }
    size_t b = blk(n);
    char *at = arena_p; bool ok;
    auto fl = g && g->heap_reuse ? heap_free.find(b) : heap_free.end();
    if (fl != heap_free.end() && !fl->second.empty()) { at = fl->second.back(); fl->second.pop_back(); ok = true; }
    else { ok = at + b <= arena_end; if (ok) arena_p += b; }
    if (!ok) { /* real memory is reused, the arena is not: only what is live at once counts */
        u64 live = 0; for (char *q = arena; q < arena_p;) { Hdr *h = (Hdr *)q; if (h->magic == M_LIVE) live += blk(h->size); q += blk(h->size); }
        if (live < ARENA / 2) { probe("too-large-to-simulate"); R->work = 0; R->done = 1; _exit(0); }
        errno = ENOMEM; return nullptr;
    }
    Hdr *h = (Hdr *)at;
    h->magic = M_LIVE; h->size = n;
    char *p = (char *)(h + 1);
    if (zero) memset(p, 0, n);
    else {
        if (g && g->heap_noise) { static u64 ns = 88172645463325252ull; size_t m = n < 262144 ? n : 262144; for (size_t i = 0; i < m; i += 8) { ns ^= ns << 13; ns ^= ns >> 7; ns ^= ns << 17; memcpy(p + i, &ns, m - i < 8 ? m - i : 8); } }
        else memset(p, 0xAB, n < 65536 ? n : 65536);
    }
    memset(p + n, CAN, blk(n) - sizeof(Hdr) - n);
    return p;
}
static void check_block(Hdr *h, const char *where) {
    unsigned char *p = (unsigned char *)(h + 1);
    size_t tail = blk(h->size) - sizeof(Hdr) - h->size;
    for (size_t i = 0; i < tail; i++) if (p[h->size + i] != CAN) {
        if (g && g->heap_check) fail("heap-overflow", where, "heap block of %zu bytes overrun by at least %zu bytes (%s)", (size_t)h->size, i + 1, where);
        p[h->size + i] = CAN;
    }
}
void heap_audit(const char *where) {
    for (char *q = arena; q < arena_p;) { Hdr *h = (Hdr *)q; if (h->magic == M_LIVE) check_block(h, where); q += blk(h->size); }
}
size_t heap_live(string *what) {
    size_t n = 0;
    for (char *q = arena; q < arena_p;) { Hdr *h = (Hdr *)q; if (h->magic == M_LIVE) { n++; if (what) *what = std::to_string(h->size) + " bytes '" + hexq(string((char *)(h + 1), std::min<size_t>(h->size, 40)), 80) + "'"; } q += blk(h->size); }
    return n;
}
extern "C" {
void *sim_malloc(size_t n) { if (alloc_denied()) { errno = ENOMEM; return nullptr; } sched_alloc_point(); return arena_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) {
    if (b && a > (1ull << 31) / b) { errno = ENOMEM; return nullptr; }
    if (alloc_denied()) { errno = ENOMEM; return nullptr; }
    sched_alloc_point();
    return arena_alloc(a * b, true);
}
void sim_free(void *p) {
    if (!p) return;
    if (!in_arena(p)) { free(p); return; }
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == M_FREE) { if (g && g->heap_check) fail("double-free", "free", "block freed twice"); return; }
    if (h->magic != M_LIVE) { if (g && g->heap_check) fail("bad-free", "free", "free of a pointer that is not a heap block"); return; }
    check_block(h, "free");
    h->magic = M_FREE;
    if (g && g->heap_poison) memset(p, 0xDD, h->size);
    if (g && g->heap_reuse) heap_free[blk(h->size)].push_back((char *)h);
    int e = errno; sched_alloc_point(); errno = e;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!in_arena(p)) return realloc(p, n);
    if (alloc_denied()) { errno = ENOMEM; return nullptr; }
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != M_LIVE) { if (g && g->heap_check) fail("bad-realloc", "realloc", "realloc of a freed or foreign block"); }
    void *q = arena_alloc(n, false);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    sim_free(p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **out, const char *fmt, va_list ap) {
    va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2);
    if (n < 0) return -1;
    char *p = (char *)sim_malloc((size_t)n + 1); if (!p) { *out = nullptr; return -1; }
    vsnprintf(p, (size_t)n + 1, fmt, ap); *out = p; return n;
}
int sim_asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }
ssize_t sim_getdelim(char **lp, size_t *np, int d, FILE *f) {
    size_t len = 0; int c;
    if (!*lp) *np = 0;
    while ((c = fgetc(f)) != EOF) {
        if (len + 2 > *np) { size_t nn = *np ? *np * 2 : 120; char *q = (char *)sim_realloc(*lp, nn); if (!q) return -1; *lp = q; *np = nn; }
        (*lp)[len++] = (char)c;
        if (c == d) break;
    }
    if (!len) return -1;
    (*lp)[len] = 0; return (ssize_t)len;
}
ssize_t sim_getline(char **lp, size_t *np, FILE *f) { return sim_getdelim(lp, np, '\n', f); }
}
string take(char *p) { if (!p) return string(); string s(p); sim_free(p); return s; }
char *sut_strdup(const string &s) { char *p = (char *)arena_alloc(s.size() + 1, false); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }

/* ------------------------------------------------------------------ SUT stack / control */
static const size_t STK = 256ull << 20;
static char *sut_stack;
static ucontext_t main_ctx, sut_ctx;
enum Req { REQ_NONE, REQ_DONE, REQ_EXIT, REQ_FORK, REQ_EXEC, REQ_CEXIT, REQ_CRASH, REQ_KILLED };
static Req req; static int req_val; static int fork_ret;
static std::function<int()> sut_fn;
static bool on_sut = false;
struct ForkRec { Proc *parent, *child; vector<char> stack; char *sp; char ctx[sizeof(ucontext_t)]; vector<string> envs; };
static vector<ForkRec *> forks;
static void sut_entry() { int r = sut_fn(); req = REQ_DONE; req_val = r; swapcontext(&sut_ctx, &main_ctx); abort(); }
[[noreturn]] static void leave(Req r, int v) { if (sut_threads) fail("exited", "thread", "a conversion in a thread ended the process"); req = r; req_val = v; swapcontext(&sut_ctx, &main_ctx); abort(); }
static vector<string> env_save() { vector<string> v; for (char **e = environ; e && *e; e++) v.push_back(*e); return v; }
static void env_restore(const vector<string> &v) {
    clearenv();
    for (auto &s : v) { size_t k = s.find('='); setenv(s.substr(0, k).c_str(), s.c_str() + k + 1, 1); }
}
string env_dump() { vector<string> v = env_save(); std::sort(v.begin(), v.end()); string o; for (auto &s : v) o += s + "\n"; return o; }
void set_env(const char *k, const string &v) { setenv(k, v.c_str(), 1); }
void unset_env(const char *k) { unsetenv(k); }

void seam(const char *what) {
    if (sut_threads) { g->seam_no++; g->now_us += 3; return; } /* threads are switched in Apex's own code and at its allocations and locks, see threads.cc */
    g->seam_no++;
    g->now_us += 3;
    ihash_add((u64)(g->cur ? g->cur->pid : 0) * 131 + fnv(what, strlen(what)) % 1000003);
    if ((u64)g->seam_no > MAX_SEAMS) fail("no-progress", what, "more than %llu simulated operations without finishing", (unsigned long long)MAX_SEAMS);
    if (g->crash_at >= 0 && g->seam_no >= g->crash_at && !g->crashed && on_sut) {
        g->crashed = true; fault_fired(FK_CRASH, what);
        leave(REQ_CRASH, 0);
    }
}

/* ------------------------------------------------------------------ files */
Vfs::Vfs() { root = new Inode; root->type = Inode::DIR_; root->mode = 0755; root->id = next_id++; }
static vector<string> split(const string &p) {
    vector<string> v; string cur;
    for (char c : p) { if (c == '/') { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
string Vfs::abspath(const string &p) {
    string full = (!p.empty() && p[0] == '/') ? p : cwd + "/" + p;
    vector<string> o;
    for (auto &c : split(full)) { if (c == ".") continue; if (c == "..") { if (!o.empty()) o.pop_back(); continue; } o.push_back(c); }
    string r; for (auto &c : o) r += "/" + c;
    return r.empty() ? "/" : r;
}
Inode *Vfs::lookup(const string &path, int *err, bool follow) {
    int dummy; if (!err) err = &dummy;
    if (path.empty()) { *err = ENOENT; return nullptr; }
    string full = path[0] == '/' ? path : cwd + "/" + path;
    if (full.size() > 4096) { *err = ENAMETOOLONG; return nullptr; }
    std::deque<string> todo; for (auto &c : split(full)) todo.push_back(c);
    vector<Inode *> stack{root}; int links = 0;
    bool trail = full.size() > 1 && full.back() == '/';
    while (!todo.empty()) {
        string c = todo.front(); todo.pop_front();
        Inode *d = stack.back();
        if (d->type != Inode::DIR_) { *err = ENOTDIR; return nullptr; }
        if (c.size() > 255) { *err = ENAMETOOLONG; return nullptr; }
        if (c == ".") continue;
        if (c == "..") { if (stack.size() > 1) stack.pop_back(); continue; }
        auto it = d->kids.find(c);
        if (it == d->kids.end()) { *err = ENOENT; return nullptr; }
        Inode *n = it->second;
        if (n->type == Inode::LINK_ && (follow || !todo.empty() || trail)) {
            if (++links > 20) { *err = ELOOP; return nullptr; }
            auto parts = split(n->data);
            if (!n->data.empty() && n->data[0] == '/') stack.assign(1, root);
            for (auto i = parts.rbegin(); i != parts.rend(); ++i) todo.push_front(*i);
            continue;
        }
        stack.push_back(n);
    }
    if (trail && stack.back()->type != Inode::DIR_) { *err = ENOTDIR; return nullptr; }
    return stack.back();
}
Inode *Vfs::parent_of(const string &path, string &leaf, int *err) {
    string p = path; while (p.size() > 1 && p.back() == '/') p.pop_back();
    size_t k = p.rfind('/');
    string dir = k == string::npos ? string(".") : k == 0 ? string("/") : p.substr(0, k);
    leaf = k == string::npos ? p : p.substr(k + 1);
    Inode *d = lookup(dir, err);
    if (d && d->type != Inode::DIR_) { if (err) *err = ENOTDIR; return nullptr; }
    return d;
}
Inode *Vfs::mkdirs(const string &path) {
    Inode *d = root;
    for (auto &c : split(abspath(path))) {
        auto it = d->kids.find(c);
        if (it == d->kids.end()) { Inode *n = new Inode; n->type = Inode::DIR_; n->mode = 0755; n->id = next_id++; d->kids[c] = n; d = n; }
        else { d = it->second; if (d->type == Inode::LINK_) d = lookup("/" + d->data); if (!d || d->type != Inode::DIR_) return nullptr; }
    }
    return d;
}
Inode *Vfs::put(const string &path, const string &data, int mode) {
    string ap = abspath(path); size_t k = ap.rfind('/');
    Inode *d = mkdirs(k == 0 ? "/" : ap.substr(0, k));
    Inode *n = new Inode; n->data = data; n->mode = mode; n->id = next_id++;
    d->kids[ap.substr(k + 1)] = n;
    return n;
}
Inode *Vfs::symlink(const string &path, const string &target) { Inode *n = put(path, target); n->type = Inode::LINK_; return n; }
bool Vfs::remove_tree(const string &path) { string leaf; Inode *d = parent_of(path, leaf); if (!d) return false; return d->kids.erase(leaf) > 0; }
Inode *Vfs::clone_tree(Inode *s) {
    Inode *n = new Inode(*s); n->id = next_id++; n->kids.clear();
    for (auto &k : s->kids) n->kids[k.first] = clone_tree(k.second);
    return n;
}
void Vfs::dump_rec(Inode *i, const string &p, string &out) {
    char b[64];
    if (i->type == Inode::DIR_) { out += "D " + p + "\n"; for (auto &k : i->kids) dump_rec(k.second, p + (p == "/" ? "" : "/") + k.first, out); }
    else { snprintf(b, sizeof b, " %zu %016llx %o\n", i->data.size(), (unsigned long long)fnv(i->data), i->mode & 0111); out += (i->type == Inode::LINK_ ? "L " : "F ") + p + b; }
}
string Vfs::dump(const string &p) { string o; Inode *i = lookup(p); if (!i) return "absent\n"; dump_rec(i, p, o); return o; }

/* ------------------------------------------------------------------ descriptors */
static void drop(OFile *o) {
    if (--o->refs > 0) return;
    if (o->k == OFile::PR) o->p->readers--;
    if (o->k == OFile::PW) o->p->writers--;
}
static int install_fd(Proc *p, OFile *o, int min = 0) { int fd = min; while (p->fds.count(fd)) fd++; p->fds[fd] = o; p->cloexec.erase(fd); return fd; }
static OFile *getf(int fd) { auto it = g->cur->fds.find(fd); if (it == g->cur->fds.end()) { errno = EBADF; return nullptr; } return it->second; }
int open_fd_count() { int n = 0; for (auto &f : g->host->fds) if (f.first > 2) n++; return n; }
int live_children() { int n = 0; for (auto &p : g->procs) if (p.second != g->host && !p.second->helper && !p.second->foreign && !p.second->exited) n++; return n; }
int zombie_children() { int n = 0; for (auto &p : g->procs) if (p.second != g->host && !p.second->helper && !p.second->foreign && p.second->exited && !p.second->reaped) n++; return n; }
void child_close(Proc &p, int fd) { auto it = p.fds.find(fd); if (it == p.fds.end()) return; drop(it->second); p.fds.erase(it); }
void child_exit(Proc &p, int status) {
    if (p.exited) return;
    while (!p.fds.empty()) { drop(p.fds.begin()->second); p.fds.erase(p.fds.begin()); }
    p.exited = true; p.status = status;
    ev("child-exit", "pid=%d status=%x", p.pid, status);
}
long child_read(Proc &p, int fd, string &out, size_t max) {
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return 0;
    OFile *o = it->second;
    if (o->k == OFile::PR) {
        if (o->p->buf.empty()) return o->p->writers ? -1 : 0;
        size_t n = std::min(max, o->p->buf.size());
        out.append(o->p->buf, 0, n); o->p->buf.erase(0, n); return (long)n;
    }
    if (o->k == OFile::SRC) { size_t n = std::min(max, o->src->data.size() - o->src->off); out.append(o->src->data, o->src->off, n); o->src->off += n; return (long)n; }
    if (o->k == OFile::FILE_) { size_t n = o->off < o->ino->data.size() ? std::min(max, o->ino->data.size() - o->off) : 0; out.append(o->ino->data, o->off, n); o->off += n; return (long)n; }
    return 0;
}
long child_write(Proc &p, int fd, const char *d, size_t n) {
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) return (long)n;
    OFile *o = it->second;
    if (o->k == OFile::PW) {
        if (!o->p->readers) return -2;
        size_t room = o->p->cap > o->p->buf.size() ? o->p->cap - o->p->buf.size() : 0;
        if (!room) return -1;
        size_t m = std::min(n, room); o->p->buf.append(d, m); return (long)m;
    }
    if (o->k == OFile::SINK) { o->sink->data.append(d, n); return (long)n; }
    return (long)n;
}
/* ------------------------------------------------------------------ scheduler */
static bool runnable_step(Proc *p) {
    if (!p->prog || p->exited) return false;
    if (p->wake > g->now_us) return false;
    Proc *save = g->cur;
    Prog::R r = p->prog->step(*p);
    g->cur = save;
    if (r == Prog::PROGRESS) { ihash_add((u64)p->pid * 7919 + 17); g->now_us += 5; return true; }
    return false;
}
static bool step_children() { /* give one child, chosen by the seed, one step */
    vector<Proc *> c;
    for (auto &x : g->procs) if (x.second->prog && !x.second->exited && x.second->wake <= g->now_us) c.push_back(x.second);
    if (c.empty()) return false;
    size_t s = c.size() > 1 ? draw(S, (u32)c.size()) : 0;
    for (size_t i = 0; i < c.size(); i++) if (runnable_step(c[(s + i) % c.size()])) return true;
    return false;
}
static bool any_prog() { for (auto &x : g->procs) if (x.second->prog && !x.second->exited) return true; return false; }
static int sched_bias = 4;
void set_sched_bias(int b) { sched_bias = b; }
static void sched_point() {
    if (sut_threads || !any_prog()) return;
    if (sched_bias && !chance(S, 1, (u32)sched_bias)) return;
    u32 k = 1 + draw(S, 6);
    while (k-- && step_children()) {}
}
static u64 next_wake() { u64 w = 0; for (auto &x : g->procs) if (x.second->prog && !x.second->exited && x.second->wake > g->now_us && (!w || x.second->wake < w)) w = x.second->wake; return w; }
/* returns false on deadline */
static bool block_until(const char *what, const std::function<bool()> &ok, u64 deadline = 0) {
    u64 spins = 0;
    while (!ok()) {
        if (++spins > 2000000) fail("no-progress", what, "blocked host never unblocked in %s", what);
        if (step_children()) continue;
        u64 w = next_wake();
        if (deadline && (!w || w >= deadline)) { if (g->now_us < deadline) g->now_us = deadline; return ok(); }
        if (w) { g->now_us = w; continue; }
        string st;
        for (auto &x : g->procs) if (x.second != g->host && !x.second->exited) st += " pid" + std::to_string(x.first);
        ev("DEADLOCK", "%s", what);
        fail("deadlock", what, "apex is blocked for ever in %s: every child is blocked or gone (live:%s)", what, st.c_str());
    }
    return true;
}
/* ------------------------------------------------------------------ new process image */
static FILE *std_files[3];
static vector<std::pair<FILE *, int>> streams; /* every cookie stream and its descriptor */
struct CookieFd { int fd; Proc *p; int pid; bool is_popen; };
static ssize_t io_read(int fd, void *buf, size_t n, bool stdio);
static ssize_t io_write(int fd, const void *buf, size_t n, bool stdio);
static int io_close(int fd, bool stdio);
static ssize_t ck_read(void *c, char *b, size_t n) { return io_read(((CookieFd *)c)->fd, b, n, true); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) { ssize_t r = io_write(((CookieFd *)c)->fd, b + done, n - done, true); if (r <= 0) break; done += (size_t)r; }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    OFile *o = getf(((CookieFd *)c)->fd);
    if (!o) return -1;
    if (o->k != OFile::FILE_) { errno = ESPIPE; return -1; }
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->off : (long)o->ino->data.size();
    long np = base + *off; if (np < 0) { errno = EINVAL; return -1; }
    o->off = (size_t)np; *off = np; return 0;
}
static int ck_close(void *c) {
    CookieFd *k = (CookieFd *)c;
    for (size_t i = 0; i < streams.size(); i++) if (streams[i].second == k->fd) { streams.erase(streams.begin() + (long)i); break; }
    int r = io_close(k->fd, true); return r;
}
static FILE *mkstream(int fd, const char *mode, bool is_popen = false, int pid = 0) {
    CookieFd *c = new CookieFd{fd, g->cur, pid, is_popen};
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(c, mode, io);
    streams.push_back({f, fd});
    return f;
}
static int fd_of(FILE *f) { for (auto &s : streams) if (s.first == f) return s.second; return -1; }
void new_host() {
    Proc *p = new Proc; p->pid = p->pgid = g->next_pid++; p->name = "apex";
    if (g->host) { g->procs.erase(g->host->pid); }
    for (auto it = g->procs.begin(); it != g->procs.end();) it = g->procs.erase(it);
    g->procs[p->pid] = p; g->host = g->cur = p;
    OFile *a = new OFile; a->k = OFile::SRC; a->src = &g->in;
    OFile *b = new OFile; b->k = OFile::SINK; b->sink = &g->out;
    OFile *c = new OFile; c->k = OFile::SINK; c->sink = &g->err;
    p->fds[0] = a; p->fds[1] = b; p->fds[2] = c;
    streams.clear();
    stdin = std_files[0] = mkstream(0, "r");
    stdout = std_files[1] = mkstream(1, "w");
    stderr = std_files[2] = mkstream(2, "w");
    setvbuf(stderr, nullptr, _IONBF, 0);
}
extern char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak));
extern char __start_sutbss[] __attribute__((weak)), __stop_sutbss[] __attribute__((weak));
static char *data_snap;
extern "C" void sut_data_snapshot() {
    if (__start_sutdata) { size_t n = (size_t)(__stop_sutdata - __start_sutdata); data_snap = (char *)malloc(n); memcpy(data_snap, __start_sutdata, n); }
}
void sut_restart() {
    if (__start_sutdata && data_snap) memcpy(__start_sutdata, data_snap, (size_t)(__stop_sutdata - __start_sutdata));
    if (__start_sutbss) memset(__start_sutbss, 0, (size_t)(__stop_sutbss - __start_sutbss));
    locks_reset();
}
void stack_fill(size_t n, bool noise) {
    if (!sut_stack) sut_stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static u64 ns = 0x2545F4914F6CDD1Dull; u64 *q = (u64 *)(sut_stack + STK - n);
    for (size_t i = 0; i < n / 8; i++) { if (noise) { ns ^= ns << 13; ns ^= ns >> 7; ns ^= ns << 17; } q[i] = noise ? ns | 0x2020202020202020ull : 0; }
}
RunResult run_sut(const std::function<int()> &fn) {
    RunResult rr;
    if (!sut_stack) sut_stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sut_fn = fn;
    getcontext(&sut_ctx);
    sut_ctx.uc_stack.ss_sp = sut_stack; sut_ctx.uc_stack.ss_size = STK; sut_ctx.uc_link = nullptr;
    makecontext(&sut_ctx, sut_entry, 0);
    on_sut = true;
    for (;;) {
        swapcontext(&main_ctx, &sut_ctx);
        if (req == REQ_FORK) {
            ForkRec *r = new ForkRec;
            r->parent = g->cur;
            Proc *c = new Proc; c->pid = g->next_pid++; c->name = "child"; c->pgid = g->cur->pgid; c->ppid = g->cur->pid;
            c->fds = g->cur->fds; c->cloexec = g->cur->cloexec; for (auto &f : c->fds) f.second->refs++;
            c->sigpipe_default = g->cur->sigpipe_default; c->sigpipe_blocked = g->cur->sigpipe_blocked;
            g->procs[c->pid] = c; r->child = c;
            char *sp = (char *)sut_ctx.uc_mcontext.gregs[REG_RSP] - 256;
            r->sp = sp; r->stack.assign(sp, sut_stack + STK);
            memcpy(r->ctx, &sut_ctx, sizeof sut_ctx);
            r->envs = env_save();
            forks.push_back(r);
            fork_ret = 0; g->cur = c;
            continue;
        }
        if (req == REQ_EXEC || req == REQ_CEXIT) {
            ForkRec *r = forks.back(); forks.pop_back();
            if (req == REQ_CEXIT) child_exit(*r->child, (req_val & 0xff) << 8);
            memcpy(r->sp, r->stack.data(), r->stack.size());
            memcpy(&sut_ctx, r->ctx, sizeof sut_ctx);
            if (env_save() != r->envs) env_restore(r->envs);
            g->cur = r->parent; fork_ret = r->child->pid;
            delete r;
            continue;
        }
        break;
    }
    on_sut = false;
    if (req == REQ_DONE || req == REQ_EXIT) { rr.exited = req == REQ_EXIT; rr.status = req_val; }
    else if (req == REQ_CRASH) rr.crashed = true;
    else if (req == REQ_KILLED) rr.killed_sigpipe = true;
    return rr;
}
extern "C" int sut_main(int, char **);
RunResult run_cli(const vector<string> &args) {
    g->out.data.clear(); g->err.data.clear();
    sut_restart();
    new_host();
    vector<char *> av; av.push_back(strdup("apex"));
    for (auto &a : args) av.push_back(strdup(a.c_str()));
    av.push_back(nullptr);
    string l; for (auto &a : args) l += " " + a;
    ev("cli", "apex%s", l.c_str());
    int ac = (int)args.size() + 1; char **avp = av.data();
    bool flushed = true;
    RunResult r = run_sut([&] { int rc = sut_main(ac, avp); 
        /* exit(): flush what is still buffered */
        vector<std::pair<FILE *, int>> ss = streams; for (auto &s : ss) fflush(s.first);
        return rc & 0xff; });
    (void)flushed;
    ev("cli-end", "status=%d crashed=%d sigpipe=%d", r.status, r.crashed, r.killed_sigpipe);
    return r;
}

/* ------------------------------------------------------------------ BatchProg */
Prog::R BatchProg::step(Proc &p) {
    if (!ran) { ran = true; rc = fn(p, outbuf); return PROGRESS; }
    if (off < outbuf.size()) {
        size_t left = outbuf.size() - off;
        size_t n = left; u32 m = draw(S, 4);
        if (m == 1) n = 1 + draw(S, 64); else if (m == 2) n = 1 + draw(S, 4096); 
        n = std::min(n, left);
        long r = child_write(p, 1, outbuf.data() + off, n);
        if (r == -1) return BLOCKED;
        if (r == -2) { child_exit(p, SIGPIPE); return PROGRESS; }
        off += (size_t)r; return PROGRESS;
    }
    child_exit(p, rc >= 0 ? (rc & 0xff) << 8 : -rc);
    return PROGRESS;
}

/* ------------------------------------------------------------------ I/O primitives */
static ssize_t sigpipe_or_epipe(const char *what) {
    Proc *p = g->cur;
    if (p->sigpipe_blocked) { p->sigpipe_pending = true; errno = EPIPE; return -1; }
    if (p->sigpipe_default) {
        if (p == g->host && on_sut) { ev("SIGPIPE", "%s", what); leave(REQ_KILLED, SIGPIPE); }
    }
    errno = EPIPE; return -1;
}
static ssize_t io_read(int fd, void *buf, size_t n, bool stdio) {
    seam("read"); sched_point();
    OFile *o = getf(fd); if (!o) return -1;
    if (!n) return 0;
    switch (o->k) {
    case OFile::PR: {
        if (!stdio && fault(FK_READ_EINTR, "pipe")) { errno = EINTR; return -1; }
        if (o->p->buf.empty()) {
            if (!o->p->writers) { ev("read", "fd=%d EOF", fd); return 0; }
            if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            Pipe *pp = o->p;
            block_until("read from child", [pp] { return !pp->buf.empty() || !pp->writers; });
        }
        if (g->pipe_eio_armed && fault(FK_READ_EIO, "pipe")) { errno = EIO; return -1; }
        size_t m = std::min(n, o->p->buf.size());
        if (m > 1) {
            u32 how = draw(S, 4); /* 0: as much as there is */
            if (how == 1) m = 1 + draw(S, (u32)std::min<size_t>(m, 97)); else if (how == 2) m = 1 + draw(S, (u32)m);
            if (how && m < n) R->faults[FK_READ_PARTIAL]++;
        }
        memcpy(buf, o->p->buf.data(), m); o->p->buf.erase(0, m);
        ev("read", "fd=%d pipe=%d n=%zu", fd, o->p->id, m);
        return (ssize_t)m;
    }
    case OFile::SRC: {
        if (!stdio && fault(FK_READ_EINTR, "stdin")) { errno = EINTR; return -1; }
        size_t avail = o->src->data.size() - o->src->off;
        if (o->src->eio_at >= 0 && (long)o->src->off >= o->src->eio_at) { fault_fired(FK_FILE_EIO, "stdin"); errno = EIO; return -1; }
        if (o->src->eio_at >= 0) avail = std::min(avail, (size_t)(o->src->eio_at - (long)o->src->off));
        size_t m = std::min(n, avail);
        if (m > 1 && enabled_fault[FK_READ_PARTIAL] && g->faults_on) { u32 how = draw(S, 4); size_t m0 = m; if (how == 1) m = 1 + draw(S, (u32)std::min<size_t>(m, 97)); else if (how == 2) m = 1 + draw(S, (u32)m); if (m < m0) R->faults[FK_READ_PARTIAL]++; }
        memcpy(buf, o->src->data.data() + o->src->off, m); o->src->off += m;
        ev("read", "fd=%d stdin n=%zu", fd, m);
        return (ssize_t)m;
    }
    case OFile::FILE_: {
        if (o->ino->type == Inode::DIR_) { errno = EISDIR; return -1; }
        if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        size_t sz = o->ino->data.size();
        size_t avail = o->off < sz ? sz - o->off : 0;
        long e = o->spared ? -1 : o->ino->eio_at;
        if (e >= 0) {
            if ((long)o->off >= e) { fault_fired(FK_FILE_EIO, o->path.c_str()); errno = EIO; return -1; }
            avail = std::min(avail, (size_t)(e - (long)o->off));
        }
        if (!stdio && fault(FK_READ_EINTR, "file")) { errno = EINTR; return -1; }
        size_t m = std::min(n, avail);
        if (m > 1 && enabled_fault[FK_READ_PARTIAL] && g->faults_on) { size_t m0 = m; if (draw(S, 3) == 1) m = 1 + draw(S, (u32)m); if (m < m0) R->faults[FK_READ_PARTIAL]++; }
        memcpy(buf, o->ino->data.data() + o->off, m); o->off += m;
        ev("read", "fd=%d %s n=%zu", fd, o->path.c_str(), m);
        return (ssize_t)m;
    }
    case OFile::NULL_: return 0;
    case OFile::DIR_: errno = EISDIR; return -1;
    default: errno = EBADF; return -1;
    }
}
static ssize_t io_write(int fd, const void *buf, size_t n, bool stdio) {
    seam("write");
    OFile *o = getf(fd); if (!o) return -1;
    if (o->k != OFile::SINK || o->sink != &g->err) sched_point();
    if (!n) return 0;
    switch (o->k) {
    case OFile::PW: {
        if (!o->p->readers) return sigpipe_or_epipe("write to child");
        if (!stdio && fault(FK_WRITE_EINTR, "pipe")) { errno = (o->flags & O_NONBLOCK) && draw(F, 2) ? EAGAIN : EINTR; return -1; }
        size_t lim = n;
        if (!stdio && n > 1 && fault(FK_WRITE_PARTIAL, "pipe")) lim = 1 + draw(F, (u32)std::min<size_t>(n - 1, 1u << 30));
        size_t done = 0;
        Pipe *pp = o->p;
        while (done < lim) {
            if (!pp->readers) { if (done) break; return sigpipe_or_epipe("write to child"); }
            size_t room = pp->cap > pp->buf.size() ? pp->cap - pp->buf.size() : 0;
            if ((o->flags & O_NONBLOCK)) {
                if (!room || (lim <= 4096 && room < lim)) { if (done) break; errno = EAGAIN; return -1; }
            } else if (!room || (lim <= 4096 && room < lim)) {
                block_until("write to child", [pp, lim] { size_t r = pp->cap > pp->buf.size() ? pp->cap - pp->buf.size() : 0; return !pp->readers || (r && (lim > 4096 || r >= lim)); });
                continue;
            }
            size_t m = std::min(room, lim - done);
            pp->buf.append((const char *)buf + done, m); done += m;
            if (o->flags & O_NONBLOCK) break;
        }
        ev("write", "fd=%d pipe=%d n=%zu of %zu", fd, pp->id, done, n);
        return (ssize_t)done;
    }
    case OFile::SINK: {
        Sink *s = o->sink;
        if (s == &g->err) { s->data.append((const char *)buf, n); ev("stderr", "%s", hexq(string((const char *)buf, n), 200).c_str()); return (ssize_t)n; }
        size_t m = n;
        if (s->epipe_at >= 0 && (long)s->data.size() >= s->epipe_at) { fault_fired(FK_STDOUT_EPIPE, "stdout"); s->lost = true; return sigpipe_or_epipe("stdout"); }
        if (s->eio_at >= 0 && (long)s->data.size() >= s->eio_at) { fault_fired(FK_WRITE_EIO, "stdout"); s->lost = true; errno = EIO; return -1; }
        if (s->cap >= 0 && (long)s->data.size() >= s->cap) { fault_fired(FK_DISK_FULL, "stdout"); s->lost = true; errno = ENOSPC; return -1; }
        long stop = -1; for (long x : {s->epipe_at, s->eio_at, s->cap}) if (x >= 0 && (stop < 0 || x < stop)) stop = x;
        if (stop >= 0) m = std::min(m, (size_t)(stop - (long)s->data.size()));
        if (m > 1 && fault(FK_WRITE_PARTIAL, "stdout")) m = 1 + draw(F, (u32)(m - 1));
        s->data.append((const char *)buf, m);
        ev("write", "stdout n=%zu of %zu", m, n);
        return (ssize_t)m;
    }
    case OFile::FILE_: {
        if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        if (fault(FK_WRITE_EIO, o->path.c_str())) { errno = EIO; return -1; }
        size_t m = n;
        if (g->fs.space_left >= 0) { if (g->fs.space_left == 0) { fault_fired(FK_DISK_FULL, o->path.c_str()); errno = ENOSPC; return -1; } m = std::min(m, (size_t)g->fs.space_left); }
        if (m > 1 && fault(FK_WRITE_PARTIAL, o->path.c_str())) m = 1 + draw(F, (u32)(m - 1));
        if (g->fs.space_left >= 0) g->fs.space_left -= (long)m;
        if (o->flags & O_APPEND) o->off = o->ino->data.size();
        if (o->ino->data.size() < o->off + m) o->ino->data.resize(o->off + m);
        memcpy(&o->ino->data[o->off], buf, m); o->off += m; o->wrote += (long)m;
        ev("write", "fd=%d %s n=%zu of %zu", fd, o->path.c_str(), m, n);
        return (ssize_t)m;
    }
    case OFile::NULL_: return (ssize_t)n;
    default: errno = EBADF; return -1;
    }
}
static int io_close(int fd, bool) {
    seam("close");
    auto it = g->cur->fds.find(fd);
    if (it == g->cur->fds.end()) { errno = EBADF; return -1; }
    OFile *o = it->second;
    bool wrote = o->k == OFile::FILE_ && o->wrote > 0 && o->refs == 1;
    bool bad = wrote && fault(FK_CLOSE_FAIL, o->path.c_str());
    if (bad) { /* delayed allocation lost the tail */ o->ino->data.resize(o->ino->data.size() / 2); }
    g->cur->fds.erase(it); g->cur->cloexec.erase(fd); drop(o);
    ev("close", "fd=%d", fd);
    if (bad) { errno = EIO; return -1; }
    return 0;
}
static int do_open(const char *path, int flags, int mode) {
    seam("open"); sched_point();
    string p(path);
    if (p == "/dev/null") { OFile *o = new OFile; o->k = OFile::NULL_; return install_fd(g->cur, o); }
    if (p == "/dev/tty") { errno = ENXIO; return -1; }
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (fault(FK_OPEN_FAIL, path)) { static const int es[] = {EACCES, EMFILE, ENFILE, EIO, EINTR}; errno = es[draw(F, 4)]; return -1; }
    int err = 0; Inode *i = g->fs.lookup(p, &err);
    if (!i) {
        if (!(flags & O_CREAT) || err != ENOENT) { errno = err; ev("open", "%s -> errno %d", path, err); return -1; }
        string leaf; Inode *d = g->fs.parent_of(p, leaf, &err);
        if (!d || leaf.empty()) { errno = err ? err : ENOENT; return -1; }
        i = new Inode; i->mode = mode; i->id = g->fs.next_id++; d->kids[leaf] = i;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (i->type == Inode::DIR_ && wr) { errno = EISDIR; return -1; }
    }
    bool spared = i->good_opens > 0 && !wr; if (spared) i->good_opens--;
    if (i->open_errno && !spared) { fault_fired(FK_OPEN_FAIL, path); errno = i->open_errno; return -1; }
    if ((flags & O_TRUNC) && wr && i->type == Inode::FILE_) { if (!i->data.empty()) g->destroyed.push_back("T " + g->fs.abspath(p)); i->data.clear(); }
    OFile *o = new OFile; o->k = OFile::FILE_; o->ino = i; o->spared = spared; o->flags = flags; o->path = g->fs.abspath(p);
    if (!wr && i->type == Inode::FILE_) g->opened.push_back(o->path);
    int fd = install_fd(g->cur, o);
    if (flags & O_CLOEXEC) g->cur->cloexec.insert(fd);
    ev("open", "%s flags=%x -> %d", path, flags & (O_ACCMODE | O_CREAT | O_TRUNC), fd);
    return fd;
}
static void fill_stat(Inode *i, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_mode = (mode_t)((i->type == Inode::DIR_ ? S_IFDIR : i->type == Inode::LINK_ ? S_IFLNK : S_IFREG) | (i->mode & 07777));
    st->st_size = (off_t)i->data.size(); st->st_ino = i->id; st->st_nlink = 1; st->st_blksize = 4096;
}

/* ------------------------------------------------------------------ seams the SUT is linked to */
static vector<string> shell_env_cmds;
static Prog *make_prog(const string &cmd, Proc &p) {
    g->cmds.push_back(cmd);
    for (char **e = environ; e && *e; e++) { string s = *e; size_t k = s.find('='); if (k != string::npos) p.env[s.substr(0, k)] = s.substr(k + 1); }
    Prog *q = g->resolve ? g->resolve(cmd, p) : nullptr;
    if (!q) q = shell_prog(cmd, p);
    return q;
}
static Proc *spawn(const string &cmd, std::map<int, OFile *> fds) {
    Proc *c = new Proc; c->pid = g->next_pid++; c->name = cmd; c->fds = fds; c->pgid = g->cur->pgid; c->ppid = g->cur->pid;
    g->procs[c->pid] = c;
    ev("spawn", "pid=%d %s", c->pid, hexq(cmd, 300).c_str());
    c->prog = make_prog(cmd, *c);
    return c;
}
static int wait_status(Proc *c) { c->reaped = true; int s = c->status; return s; }
static void do_exec(const string &cmd, bool direct, const vector<string> &argv) {
    Proc *c = g->cur;
    seam("exec");
    if (c == g->host) fail("exec-in-host", cmd, "exec called in the apex process itself");
    if (fault(FK_EXEC_FAIL, "exec")) { errno = ENOENT; return; }
    for (int fd : vector<int>(c->cloexec.begin(), c->cloexec.end())) child_close(*c, fd);
    c->name = cmd; ev("exec", "pid=%d %s", c->pid, hexq(cmd, 300).c_str());
    if (direct) { 
        for (char **e = environ; e && *e; e++) { string s = *e; size_t k = s.find('='); if (k != string::npos) c->env[s.substr(0, k)] = s.substr(k + 1); }
        g->cmds.push_back(cmd);
        Prog *q = g->resolve ? g->resolve(cmd, *c) : nullptr; c->prog = q ? q : argv_prog(argv, *c);
    } else c->prog = make_prog(cmd, *c);
    leave(REQ_EXEC, 0);
}
static void exec_v(const char *file, const vector<string> &argv) {
    string f = file; size_t k = f.rfind('/'); string base = k == string::npos ? f : f.substr(k + 1);
    if ((base == "sh" || base == "bash") && argv.size() >= 3 && argv[1] == "-c") { do_exec(argv[2], false, argv); return; }
    string s; for (auto &a : argv) { if (!s.empty()) s += ' '; s += a; }
    do_exec(s, true, argv);
}
bool sut_threads = false;
void thread_tick(long n); void thread_hot();
static void sched_alloc_point() { if (sut_threads) thread_tick(16); }

extern "C" {
int sim_open(const char *p, int flags, ...) { int mode = 0644; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return do_open(p, flags, mode); }
int sim_open64(const char *p, int flags, ...) { int mode = 0644; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return do_open(p, flags, mode); }
int sim_openat(int, const char *p, int flags, ...) { int mode = 0644; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return do_open(p, flags, mode); }
int sim_creat(const char *p, mode_t m) { return do_open(p, O_WRONLY | O_CREAT | O_TRUNC, (int)m); }
int sim_close(int fd) { return io_close(fd, false); }
ssize_t sim_read(int fd, void *b, size_t n) { return io_read(fd, b, n, false); }
ssize_t sim_write(int fd, const void *b, size_t n) { return io_write(fd, b, n, false); }
ssize_t sim_readv(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = io_read(fd, v[i].iov_base, v[i].iov_len, false); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = io_write(fd, v[i].iov_base, v[i].iov_len, false); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t) { return io_read(fd, b, n, false); }
off_t sim_lseek(int fd, off_t off, int wh) {
    OFile *o = getf(fd); if (!o) return -1;
    if (o->k != OFile::FILE_) { errno = ESPIPE; return -1; }
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->off : (long)o->ino->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    o->off = (size_t)(base + off); return (off_t)o->off;
}
int sim_fsync(int fd) { return getf(fd) ? 0 : -1; }
int sim_fdatasync(int fd) { return getf(fd) ? 0 : -1; }
int sim_ftruncate(int fd, off_t n) { OFile *o = getf(fd); if (!o || o->k != OFile::FILE_) return -1; o->ino->data.resize((size_t)n); return 0; }
static int pipe_impl(int f[2], int flags) {
    seam("pipe");
    if (fault(FK_PIPE_FAIL, "pipe")) { errno = EMFILE; return -1; }
    static int pid_ = 0;
    Pipe *p = new Pipe; p->cap = g->pipe_cap; p->id = ++pid_; p->readers = p->writers = 1;
    OFile *a = new OFile; a->k = OFile::PR; a->p = p; OFile *b = new OFile; b->k = OFile::PW; b->p = p;
    a->flags = b->flags = flags & O_NONBLOCK;
    f[0] = install_fd(g->cur, a); f[1] = install_fd(g->cur, b);
    if (flags & O_CLOEXEC) { g->cur->cloexec.insert(f[0]); g->cur->cloexec.insert(f[1]); }
    ev("pipe", "%d %d", f[0], f[1]);
    return 0;
}
int sim_pipe(int f[2]) { return pipe_impl(f, 0); }
int sim_pipe2(int f[2], int flags) { return pipe_impl(f, flags); }
int sim_dup2(int a, int b) {
    seam("dup2");
    OFile *o = getf(a); if (!o) return -1;
    if (a == b) return b;
    auto it = g->cur->fds.find(b); if (it != g->cur->fds.end()) drop(it->second);
    o->refs++; g->cur->fds[b] = o; g->cur->cloexec.erase(b);
    return b;
}
int sim_dup3(int a, int b, int) { return sim_dup2(a, b); }
int sim_dup(int a) { OFile *o = getf(a); if (!o) return -1; o->refs++; return install_fd(g->cur, o); }
pid_t sim_fork(void) {
    seam("fork"); sched_point();
    if (fault(FK_FORK_FAIL, "fork")) { errno = EAGAIN; return -1; }
    req = REQ_FORK;
    swapcontext(&sut_ctx, &main_ctx);
    ev("fork", "-> %d", fork_ret ? fork_ret : 0);
    return fork_ret;
}
pid_t sim_vfork(void) { return sim_fork(); }
void sim__exit(int st) { if (g->cur != g->host) leave(REQ_CEXIT, st); leave(REQ_EXIT, st & 0xff); }
void sim__Exit(int st) { sim__exit(st); }
void sim_exit(int st) {
    if (g->cur != g->host) leave(REQ_CEXIT, st);
    vector<std::pair<FILE *, int>> ss = streams; for (auto &s : ss) fflush(s.first);
    leave(REQ_EXIT, st & 0xff);
}
void sim_abort(void) { fail("abort", "abort", "apex called abort()"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { fail("assert", e, "assertion failed: %s at %s:%u", e, f, l); }
#define COLLECT_ARGS(first) vector<string> argv; { va_list ap; va_start(ap, first); const char *a = first; while (a) { argv.push_back(a); a = va_arg(ap, const char *); } va_end(ap); }
int sim_execl(const char *f, const char *a0, ...) { COLLECT_ARGS(a0); exec_v(f, argv); return -1; }
int sim_execlp(const char *f, const char *a0, ...) { COLLECT_ARGS(a0); exec_v(f, argv); return -1; }
int sim_execv(const char *f, char *const av[]) { vector<string> argv; for (char *const *a = av; *a; a++) argv.push_back(*a); exec_v(f, argv); return -1; }
int sim_execvp(const char *f, char *const av[]) { return sim_execv(f, av); }
int sim_execve(const char *f, char *const av[], char *const ev_[]) { char **old = environ; environ = (char **)ev_; int r = sim_execv(f, av); environ = old; return r; }
int sim_execvpe(const char *f, char *const av[], char *const e[]) { return sim_execve(f, av, e); }
pid_t sim_waitpid(pid_t pid, int *st, int opt) {
    seam("waitpid"); sched_point();
    if (fault(FK_WAIT_EINTR, "waitpid")) { errno = EINTR; return -1; }
    auto find = [pid]() -> Proc * {
        for (auto &x : g->procs) if (x.second != g->host && !x.second->helper && x.second->exited && !x.second->reaped && (pid <= 0 || x.first == pid)) return x.second;
        return nullptr;
    };
    bool any = false;
    for (auto &x : g->procs) if (x.second != g->host && !x.second->helper && !x.second->reaped && (pid <= 0 || x.first == pid)) any = true;
    if (!any) { errno = ECHILD; return -1; }
    Proc *c = find();
    if (!c) {
        if (opt & WNOHANG) return 0;
        block_until("waitpid", [&] { return find() != nullptr; });
        c = find();
    }
    int s = wait_status(c);
    if (st) *st = s;
    ev("waitpid", "-> %d status %x", c->pid, s);
    return c->pid;
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
static bool dies_of(const Proc *p, int sig) { return sig && !p->exited && (sig == SIGKILL || !p->ignore_term) && sig != SIGCHLD && sig != SIGCONT && sig != SIGURG && sig != SIGWINCH; }
int sim_kill(pid_t pid, int sig) {
    seam("kill");
    if (pid < 0) { /* a process group */
        if (pid == -1 || -pid == g->host->pgid) fail("kill-self", "kill", "apex signalled its own process group (%d)", sig);
        bool any = false;
        for (auto &x : g->procs) if (x.second != g->host && x.second->pgid == -pid && !x.second->reaped) { any = true; if (dies_of(x.second, sig)) child_exit(*x.second, sig); }
        if (!any) { errno = ESRCH; return -1; }
        return 0;
    }
    if (pid == g->cur->pid || pid == 0) fail("kill-self", "kill", "apex signalled itself (%d)", sig);
    auto it = g->procs.find(pid);
    if (it == g->procs.end() || it->second->reaped) { errno = ESRCH; return -1; }
    if (it->second->foreign) fail("kill-foreign", "kill", "apex signalled a process that is not its own (%d)", sig);
    if (dies_of(it->second, sig)) child_exit(*it->second, sig);
    return 0;
}
int sim_killpg(pid_t pg, int sig) { return sim_kill(-pg, sig); }
pid_t sim_wait4(pid_t pid, int *st, int opt, struct rusage *ru) { if (ru) memset(ru, 0, sizeof *ru); return sim_waitpid(pid, st, opt); }
pid_t sim_wait3(int *st, int opt, struct rusage *ru) { return sim_wait4(-1, st, opt, ru); }
pid_t sim_getppid(void) { return 1; }
pid_t sim_getpid(void) { return g->cur->pid; }
int sim_setpgid(pid_t pid, pid_t pg) {
    Proc *p = pid == 0 ? g->cur : g->procs.count(pid) ? g->procs[pid] : nullptr;
    if (!p) { errno = ESRCH; return -1; }
    if (p != g->cur && p->prog) { errno = EACCES; return -1; } /* has executed its program already */
    p->pgid = pg ? pg : p->pid; return 0;
}
pid_t sim_getpgid(pid_t pid) { Proc *p = pid == 0 ? g->cur : g->procs.count(pid) ? g->procs[pid] : nullptr; if (!p) { errno = ESRCH; return -1; } return p->pgid; }
pid_t sim_setsid(void) { g->cur->session = true; g->cur->pgid = g->cur->pid; return g->cur->pid; }
typedef void (*hnd)(int);
hnd sim_signal(int sig, hnd h) {
    if (sig != SIGPIPE) return SIG_DFL;
    hnd old = g->cur->sigpipe_default ? SIG_DFL : g->cur->sigpipe_handler ? (hnd)g->cur->sigpipe_handler : SIG_IGN;
    g->cur->sigpipe_default = h == SIG_DFL; g->cur->sigpipe_handler = (h == SIG_IGN || h == SIG_DFL) ? nullptr : (void *)h;
    return old;
}
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
    if (o) { memset(o, 0, sizeof *o); if (sig == SIGPIPE) o->sa_handler = g->cur->sigpipe_default ? SIG_DFL : g->cur->sigpipe_handler ? (hnd)g->cur->sigpipe_handler : SIG_IGN; }
    if (a && sig == SIGPIPE) sim_signal(sig, a->sa_handler);
    return 0;
}
int sim_sigprocmask(int how, const sigset_t *set, sigset_t *old) {
    Proc *p = g->cur;
    if (old) { sigemptyset(old); if (p->sigpipe_blocked) sigaddset(old, SIGPIPE); }
    if (set) {
        bool has = sigismember(set, SIGPIPE);
        if (how == SIG_BLOCK && has) p->sigpipe_blocked = true;
        else if (how == SIG_UNBLOCK && has) p->sigpipe_blocked = false;
        else if (how == SIG_SETMASK) p->sigpipe_blocked = has;
        if (!p->sigpipe_blocked && p->sigpipe_pending) { p->sigpipe_pending = false; if (p->sigpipe_default && p == g->host) { ev("SIGPIPE", "pending"); leave(REQ_KILLED, SIGPIPE); } }
    }
    return 0;
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sim_sigprocmask(how, s, o); }
int sim_sigpending(sigset_t *s) { sigemptyset(s); if (g->cur->sigpipe_pending) sigaddset(s, SIGPIPE); return 0; }
int sim_sigtimedwait(const sigset_t *s, siginfo_t *, const struct timespec *) { if (sigismember(s, SIGPIPE) && g->cur->sigpipe_pending) { g->cur->sigpipe_pending = false; return SIGPIPE; } errno = EAGAIN; return -1; }
int sim_sigwait(const sigset_t *s, int *sig) { if (sigismember(s, SIGPIPE) && g->cur->sigpipe_pending) { g->cur->sigpipe_pending = false; *sig = SIGPIPE; return 0; } return EINVAL; }
static int poll_check(struct pollfd *f, nfds_t n) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
        f[i].revents = 0;
        if (f[i].fd < 0) continue;
        auto it = g->cur->fds.find(f[i].fd);
        if (it == g->cur->fds.end()) { f[i].revents = POLLNVAL; c++; continue; }
        OFile *o = it->second; short r = 0;
        if (o->k == OFile::PR) { if (!o->p->buf.empty()) r |= POLLIN; if (!o->p->writers) r |= POLLHUP; }
        else if (o->k == OFile::PW) { size_t room = o->p->cap > o->p->buf.size() ? o->p->cap - o->p->buf.size() : 0; if (!o->p->readers) r |= POLLERR; if (room >= std::min<size_t>(4096, o->p->cap)) r |= POLLOUT; }
        else r |= POLLIN | POLLOUT;
        r &= (short)(f[i].events | POLLERR | POLLHUP | POLLNVAL);
        f[i].revents = r; if (r) c++;
    }
    return c;
}
int sim_poll(struct pollfd *f, nfds_t n, int ms) {
    seam("poll"); sched_point();
    if (fault(FK_POLL_EINTR, "poll")) { errno = EINTR; return -1; }
    int c = poll_check(f, n);
    if (!c && ms != 0) {
        u64 dl = ms > 0 ? g->now_us + (u64)ms * 1000 : 0;
        u64 tick = g->itimer_us && g->faults_on ? g->now_us + g->itimer_us - (g->now_us - g->start_us) % g->itimer_us : 0;
        if (tick && (!dl || tick < dl)) {
            block_until("poll", [&] { return poll_check(f, n) > 0; }, tick);
            c = poll_check(f, n);
            if (!c) { fault_fired(FK_POLL_EINTR, "timer"); ev("poll", "-> EINTR"); errno = EINTR; return -1; }
        } else {
            block_until("poll", [&] { return poll_check(f, n) > 0; }, dl);
            c = poll_check(f, n);
        }
    }
    ev("poll", "-> %d", c);
    return c;
}
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) { return sim_poll(f, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    vector<struct pollfd> v;
    for (int i = 0; i < nfds; i++) { short evn = 0; if (r && FD_ISSET(i, r)) evn |= POLLIN; if (w && FD_ISSET(i, w)) evn |= POLLOUT; if (evn) v.push_back({i, evn, 0}); }
    int c = sim_poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
    if (c < 0) return c;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    c = 0;
    for (auto &p : v) { if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); c++; } if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } }
    return c;
}
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    OFile *o = getf(fd); if (!o) return -1;
    switch (cmd) {
    case F_GETFL: return o->flags;
    case F_SETFL: o->flags = (o->flags & ~O_NONBLOCK) | ((int)arg & O_NONBLOCK); return 0;
    case F_GETFD: return g->cur->cloexec.count(fd) ? FD_CLOEXEC : 0;
    case F_SETFD: if (arg & FD_CLOEXEC) g->cur->cloexec.insert(fd); else g->cur->cloexec.erase(fd); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: o->refs++; return install_fd(g->cur, o, (int)arg);
    default: return 0;
    }
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
int sim_isatty(int fd) { auto it = g->cur->fds.find(fd); if (it == g->cur->fds.end()) { errno = EBADF; return 0; } OFile *o = it->second; bool t = (o->k == OFile::SRC && o->src->tty) || (o->k == OFile::SINK && o->sink->tty); if (!t) errno = ENOTTY; return t; }
int sim_fileno(FILE *f) { int fd = fd_of(f); if (fd < 0) { errno = EBADF; } return fd; }
int sim_fstat(int fd, struct stat *st) {
    OFile *o = getf(fd); if (!o) return -1;
    if (o->k == OFile::FILE_ || o->k == OFile::DIR_) { fill_stat(o->ino, st); return 0; }
    memset(st, 0, sizeof *st); st->st_mode = o->k == OFile::NULL_ ? S_IFCHR : S_IFIFO; return 0;
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
/* ---- stdio ---- */
FILE *sim_fopen(const char *path, const char *mode) {
    int fl = 0;
    bool plus = strchr(mode, '+') != nullptr;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = do_open(path, fl, 0644);
    if (fd < 0) return nullptr;
    string m; m += mode[0]; if (plus) m += '+';
    return mkstream(fd, m.c_str());
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *mode) { if (!getf(fd)) return nullptr; string m; m += mode[0]; if (strchr(mode, '+')) m += '+'; return mkstream(fd, m.c_str()); }
FILE *sim_freopen(const char *p, const char *mode, FILE *) { return sim_fopen(p, mode); }
FILE *sim_tmpfile(void) { errno = EACCES; return nullptr; }
int sim_mkstemp(char *t) { static int n = 0; size_t L = strlen(t); if (L < 6) { errno = EINVAL; return -1; } char b[8]; snprintf(b, 8, "%06d", ++n); memcpy(t + L - 6, b, 6); return do_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); }
char *sim_mkdtemp(char *t) { static int n = 0; size_t L = strlen(t); char b[8]; snprintf(b, 8, "%06d", ++n); memcpy(t + L - 6, b, 6); string leaf; Inode *d = g->fs.parent_of(t, leaf); if (!d) { errno = ENOENT; return nullptr; } Inode *x = new Inode; x->type = Inode::DIR_; x->mode = 0700; x->id = g->fs.next_id++; d->kids[leaf] = x; return t; }
static std::map<FILE *, Proc *> popens;
FILE *sim_popen(const char *cmd, const char *mode) {
    seam("popen");
    if (fault(FK_POPEN_FAIL, cmd)) { errno = EAGAIN; return nullptr; }
    bool rd = mode[0] == 'r';
    Pipe *p = new Pipe; p->cap = g->pipe_cap; p->id = 1000 + g->next_pid; p->readers = p->writers = 1;
    OFile *a = new OFile; a->k = OFile::PR; a->p = p; OFile *b = new OFile; b->k = OFile::PW; b->p = p;
    std::map<int, OFile *> fds;
    for (int i = 0; i < 3; i++) if (g->cur->fds.count(i) && i != (rd ? 1 : 0)) { fds[i] = g->cur->fds[i]; fds[i]->refs++; }
    fds[rd ? 1 : 0] = rd ? b : a;
    Proc *c = spawn(cmd, fds);
    int fd = install_fd(g->cur, rd ? a : b);
    FILE *f = mkstream(fd, rd ? "r" : "w", true, c->pid);
    popens[f] = c;
    return f;
}
int sim_pclose(FILE *f) {
    seam("pclose");
    auto it = popens.find(f);
    if (it == popens.end()) { errno = ECHILD; return -1; }
    Proc *c = it->second; popens.erase(it);
    fclose(f);
    block_until("pclose", [c] { return c->exited; });
    int s = wait_status(c); ev("pclose", "status=%x", s);
    return s;
}
int sim_system(const char *cmd) {
    seam("system");
    if (!cmd) return 1;
    if (fault(FK_SYSTEM_FAIL, cmd)) { errno = EAGAIN; return -1; }
    std::map<int, OFile *> fds;
    for (int i = 0; i < 3; i++) if (g->cur->fds.count(i)) { fds[i] = g->cur->fds[i]; fds[i]->refs++; }
    Proc *c = spawn(cmd, fds);
    block_until("system", [c] { return c->exited; });
    int s = wait_status(c); ev("system", "status=%x", s);
    return s;
}
/* ---- names ---- */
static int stat_impl(const char *p, struct stat *st, bool follow) {
    seam("stat");
    if (fault(FK_STAT_FAIL, p)) { errno = EACCES; return -1; }
    int err = 0; Inode *i = g->fs.lookup(p, &err, follow);
    if (!i) { errno = err; return -1; }
    if (i->stat_errno) { fault_fired(FK_STAT_FAIL, p); errno = i->stat_errno; return -1; }
    fill_stat(i, st); return 0;
}
int sim_stat(const char *p, struct stat *st) { return stat_impl(p, st, true); }
int sim_lstat(const char *p, struct stat *st) { return stat_impl(p, st, false); }
int sim_stat64(const char *p, struct stat *st) { return stat_impl(p, st, true); }
int sim_lstat64(const char *p, struct stat *st) { return stat_impl(p, st, false); }
int sim_fstatat(int, const char *p, struct stat *st, int) { return stat_impl(p, st, true); }
int sim_access(const char *p, int m) { seam("access"); int err = 0; Inode *i = g->fs.lookup(p, &err); if (!i) { errno = err; return -1; } if ((m & X_OK) && i->type == Inode::FILE_ && !(i->mode & 0111)) { errno = EACCES; return -1; } return 0; }
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_mkdir(const char *p, mode_t m) {
    seam("mkdir");
    if (fault(FK_MKDIR_FAIL, p)) { errno = EACCES; return -1; }
    int err = 0; string leaf; Inode *d = g->fs.parent_of(p, leaf, &err);
    if (!d) { errno = err; return -1; }
    if (d->kids.count(leaf) || leaf.empty() || leaf == "." || leaf == "..") { errno = EEXIST; return -1; }
    Inode *n = new Inode; n->type = Inode::DIR_; n->mode = (int)m; n->id = g->fs.next_id++; d->kids[leaf] = n;
    ev("mkdir", "%s", p);
    return 0;
}
int sim_mkdirat(int, const char *p, mode_t m) { return sim_mkdir(p, m); }
int sim_unlink(const char *p) {
    seam("unlink");
    if (fault(FK_RM_FAIL, p)) { errno = EIO; return -1; }
    int err = 0; string leaf; Inode *d = g->fs.parent_of(p, leaf, &err);
    if (!d || !d->kids.count(leaf)) { errno = d ? ENOENT : err; return -1; }
    if (d->kids[leaf]->type == Inode::DIR_) { errno = EISDIR; return -1; }
    g->destroyed.push_back("R " + g->fs.abspath(p));
    d->kids.erase(leaf); ev("unlink", "%s", p); return 0;
}
int sim_rmdir(const char *p) {
    seam("rmdir"); int err = 0; string leaf; Inode *d = g->fs.parent_of(p, leaf, &err);
    if (!d || !d->kids.count(leaf)) { errno = d ? ENOENT : err; return -1; }
    Inode *x = d->kids[leaf]; if (x->type != Inode::DIR_) { errno = ENOTDIR; return -1; }
    if (!x->kids.empty()) { errno = ENOTEMPTY; return -1; }
    g->destroyed.push_back("R " + g->fs.abspath(p)); d->kids.erase(leaf); return 0;
}
int sim_remove(const char *p) { struct stat st; if (stat_impl(p, &st, false)) return -1; return S_ISDIR(st.st_mode) ? sim_rmdir(p) : sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
    seam("rename");
    if (fault(FK_RENAME_FAIL, a)) { errno = EIO; return -1; }
    int err = 0; string la, lb; Inode *da = g->fs.parent_of(a, la, &err); if (!da || !da->kids.count(la)) { errno = da ? ENOENT : err; return -1; }
    Inode *db = g->fs.parent_of(b, lb, &err); if (!db) { errno = err; return -1; }
    Inode *x = da->kids[la];
    if (db->kids.count(lb)) {
        Inode *y = db->kids[lb];
        if (y->type == Inode::DIR_ && (x->type != Inode::DIR_ || !y->kids.empty())) { errno = x->type == Inode::DIR_ ? ENOTEMPTY : EISDIR; return -1; }
        if (y->type != Inode::DIR_ && x->type == Inode::DIR_) { errno = ENOTDIR; return -1; }
        g->destroyed.push_back("R " + g->fs.abspath(b));
    }
    da->kids.erase(la); db->kids[lb] = x; ev("rename", "%s %s", a, b); return 0;
}
int sim_chmod(const char *p, mode_t m) { seam("chmod"); int err = 0; Inode *i = g->fs.lookup(p, &err); if (!i) { errno = err; return -1; } i->mode = (int)m; return 0; }
int sim_unlinkat(int, const char *p, int fl) { return fl & AT_REMOVEDIR ? sim_rmdir(p) : sim_unlink(p); }
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_symlink(const char *t, const char *p) { seam("symlink"); int err = 0; string leaf; Inode *d = g->fs.parent_of(p, leaf, &err); if (!d) { errno = err; return -1; } if (d->kids.count(leaf)) { errno = EEXIST; return -1; } Inode *n = new Inode; n->type = Inode::LINK_; n->mode = 0777; n->data = t; n->id = g->fs.next_id++; d->kids[leaf] = n; ev("symlink", "%s", p); return 0; }
ssize_t sim_readlink(const char *p, char *b, size_t n) { int err = 0; Inode *i = g->fs.lookup(p, &err, false); if (!i) { errno = err; return -1; } if (i->type != Inode::LINK_) { errno = EINVAL; return -1; } size_t m = std::min(n, i->data.size()); memcpy(b, i->data.data(), m); return (ssize_t)m; }
char *sim_getcwd(char *b, size_t n) {
    seam("getcwd");
    if (g->fs.cwd_broken || fault(FK_CWD_FAIL, "getcwd")) { errno = ENOENT; return nullptr; }
    if (!b) return sim_strdup(g->fs.cwd.c_str());
    if (g->fs.cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
    strcpy(b, g->fs.cwd.c_str()); return b;
}
int sim_chdir(const char *p) { thread_hot(); Inode *i = g->fs.lookup(p); if (!i || i->type != Inode::DIR_) { errno = ENOENT; return -1; } g->fs.cwd = g->fs.abspath(p); return 0; }
char *sim_realpath(const char *p, char *out) {
    seam("realpath");
    int err = 0; if (!g->fs.lookup(p, &err)) { errno = err; return nullptr; }
    string a = g->fs.abspath(p);
    if (!out) return sim_strdup(a.c_str());
    strcpy(out, a.c_str()); return out;
}
struct SimDir { vector<std::pair<string, Inode *>> ents; size_t i = 0; int fail_after = -1; struct dirent de; int fd; };
DIR *sim_opendir(const char *p) {
    seam("opendir");
    if (fault(FK_DIR_FAIL, p)) { errno = EACCES; return nullptr; }
    int err = 0; Inode *d = g->fs.lookup(p, &err);
    if (!d) { errno = err; return nullptr; }
    if (d->type != Inode::DIR_) { errno = ENOTDIR; return nullptr; }
    if (d->open_errno) { errno = d->open_errno; return nullptr; }
    SimDir *s = new SimDir;
    s->ents.push_back({".", d}); s->ents.push_back({"..", d});
    for (auto &k : d->kids) s->ents.push_back(k);
    if (enabled_fault[FK_DIR_ORDER]) { /* directory order is the file system's choice */
        bool moved = false;
        for (size_t i = s->ents.size(); i > 1; i--) { size_t j = draw(S, (u32)i); j = i - 1 - j; if (j != i - 1) { std::swap(s->ents[i - 1], s->ents[j]); moved = true; } }
        if (moved) fault_fired(FK_DIR_ORDER, p);
    }
    s->fail_after = d->readdir_fail_after;
    OFile *o = new OFile; o->k = OFile::DIR_; o->ino = d; s->fd = install_fd(g->cur, o);
    ev("opendir", "%s", p);
    return (DIR *)s;
}
struct dirent *sim_readdir(DIR *dd) {
    seam("readdir");
    SimDir *s = (SimDir *)dd;
    if (s->fail_after >= 0 && (int)s->i >= s->fail_after) { fault_fired(FK_DIR_FAIL, "readdir"); errno = EIO; return nullptr; }
    if (s->i >= s->ents.size()) return nullptr;
    auto &e = s->ents[s->i++];
    memset(&s->de, 0, sizeof s->de); snprintf(s->de.d_name, sizeof s->de.d_name, "%s", e.first.c_str());
    s->de.d_ino = e.second->id; s->de.d_type = e.second->type == Inode::DIR_ ? DT_DIR : e.second->type == Inode::LINK_ ? DT_LNK : DT_REG;
    return &s->de;
}
struct dirent *sim_readdir64(DIR *d) { return sim_readdir(d); }
int sim_closedir(DIR *dd) { SimDir *s = (SimDir *)dd; io_close(s->fd, true); delete s; return 0; }
void sim_rewinddir(DIR *dd) { ((SimDir *)dd)->i = 0; }
int sim_scandir(const char *p, struct dirent ***out, int (*flt)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
    DIR *d = sim_opendir(p); if (!d) return -1;
    vector<struct dirent *> v; struct dirent *e;
    while ((e = sim_readdir(d))) { if (flt && !flt(e)) continue; struct dirent *c = (struct dirent *)sim_malloc(sizeof *c); if (!c) { for (auto *x : v) sim_free(x); sim_closedir(d); errno = ENOMEM; return -1; } memcpy(c, e, sizeof *c); v.push_back(c); }
    sim_closedir(d);
    if (cmp) std::stable_sort(v.begin(), v.end(), [&](struct dirent *a, struct dirent *b) { const struct dirent *x = a, *y = b; return cmp(&x, &y) < 0; });
    *out = (struct dirent **)sim_malloc(sizeof(void *) * (v.size() + 1)); if (!*out) { for (auto *x : v) sim_free(x); errno = ENOMEM; return -1; }
    for (size_t i = 0; i < v.size(); i++) (*out)[i] = v[i];
    return (int)v.size();
}
int sim_glob(const char *pat, int flags, int (*)(const char *, int), glob_t *gl) {
    seam("glob");
    (void)flags;
    /* component-wise match */
    bool abs = pat[0] == '/';
    vector<string> comps = split(pat); vector<string> cur{abs ? "/" : ""};
    for (auto &c : comps) {
        vector<string> nx;
        /* brace alternatives are not part of glob(3) defaults unless GLOB_BRACE */
        vector<string> alts{c};
        if (flags & GLOB_BRACE) {
            size_t a = c.find('{'), b = c.find('}');
            if (a != string::npos && b != string::npos && b > a) { alts.clear(); string in = c.substr(a + 1, b - a - 1); size_t st = 0; for (;;) { size_t k = in.find(',', st); alts.push_back(c.substr(0, a) + in.substr(st, k == string::npos ? string::npos : k - st) + c.substr(b + 1)); if (k == string::npos) break; st = k + 1; } }
        }
        for (auto &alt : alts)
        for (auto &base : cur) {
            if (alt.find_first_of("*?[") == string::npos) { string p = base + (base.empty() || base.back() == '/' ? "" : "/") + alt; if (g->fs.lookup(p)) nx.push_back(p); continue; }
            Inode *d = g->fs.lookup(base.empty() ? "." : base);
            if (!d || d->type != Inode::DIR_) continue;
            for (auto &k : d->kids) if (fnmatch(alt.c_str(), k.first.c_str(), FNM_PERIOD) == 0) nx.push_back(base + (base.empty() || base.back() == '/' ? "" : "/") + k.first);
        }
        cur = nx;
    }
    if (!(flags & GLOB_NOSORT)) std::sort(cur.begin(), cur.end());
    else for (size_t i = cur.size(); i > 1; i--) std::swap(cur[i - 1], cur[draw(S, (u32)i)]);
    gl->gl_pathc = cur.size(); gl->gl_pathv = nullptr;
    if (cur.empty()) { if (flags & GLOB_NOCHECK) cur.push_back(pat); else return GLOB_NOMATCH; gl->gl_pathc = 1; }
    gl->gl_pathv = (char **)sim_calloc(cur.size() + 1, sizeof(char *));
    if (!gl->gl_pathv) return GLOB_NOSPACE;
    for (size_t i = 0; i < cur.size(); i++) gl->gl_pathv[i] = sut_strdup(cur[i]);
    return 0;
}
void sim_globfree(glob_t *gl) { if (gl->gl_pathv) { for (size_t i = 0; i < gl->gl_pathc; i++) sim_free(gl->gl_pathv[i]); sim_free(gl->gl_pathv); gl->gl_pathv = nullptr; } }
/* ---- time ---- */
/* the wall clock may be set forwards or backwards at any moment; the monotonic clock never jumps */
static u64 wall() {
    g->now_us += 1;
    if (fault(FK_CLOCK_JUMP, "clock")) { static const long d[] = {3600, -7200, 86400, 31}; g->wall_off += d[draw(F, 4)] * 1000000; }
    return (u64)((long)g->now_us + g->wall_off);
}
time_t sim_time(time_t *t) { time_t v = (time_t)(wall() / 1000000); if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { u64 w = wall(); tv->tv_sec = (time_t)(w / 1000000); tv->tv_usec = (suseconds_t)(w % 1000000); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { u64 w; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) w = wall(); else { g->now_us += 1; w = g->now_us - g->start_us + 5000000000ull; } ts->tv_sec = (time_t)(w / 1000000); ts->tv_nsec = (long)(w % 1000000) * 1000; return 0; }
clock_t sim_clock(void) { return (clock_t)(g->now_us - g->start_us); }
int sim_usleep(useconds_t u) { seam("sleep"); u64 dl = g->now_us + u; block_until("usleep", [] { return false; }, dl); return 0; }
unsigned sim_sleep(unsigned s) { sim_usleep(s * 1000000u); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { sim_usleep((useconds_t)(a->tv_sec * 1000000 + a->tv_nsec / 1000)); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *r) { if (fl & TIMER_ABSTIME) { struct timespec n; sim_clock_gettime(c, &n); struct timespec d{a->tv_sec - n.tv_sec, a->tv_nsec - n.tv_nsec}; if (d.tv_nsec < 0) { d.tv_nsec += 1000000000; d.tv_sec--; } if (d.tv_sec < 0) return 0; return sim_nanosleep(&d, r); } return sim_nanosleep(a, r); }
uid_t sim_getuid(void) { return 1000; }
uid_t sim_geteuid(void) { return 1000; }
}

/* ------------------------------------------------------------------ JSON helper for oracles */
bool read_json_string_field(const string &j, const string &key, string &out) {
    /* minimal strict-enough scanner over a flat JSON object */
    size_t i = 0; auto ws = [&] { while (i < j.size() && (j[i] == ' ' || j[i] == '\t' || j[i] == '\n' || j[i] == '\r')) i++; };
    auto str = [&](string &o) -> bool {
        if (i >= j.size() || j[i] != '"') return false; i++;
        o.clear();
        while (i < j.size() && j[i] != '"') {
            if ((unsigned char)j[i] < 0x20) return false;
            if (j[i] == '\\') {
                if (++i >= j.size()) return false;
                char c = j[i++];
                switch (c) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case '/': o += '/'; break; case '"': o += '"'; break; case '\\': o += '\\'; break;
                case 'u': { if (i + 4 > j.size()) return false; unsigned v = (unsigned)strtoul(j.substr(i, 4).c_str(), nullptr, 16); i += 4; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); } break; }
                default: return false; }
            } else o += j[i++];
        }
        if (i >= j.size()) return false; i++; return true;
    };
    ws(); if (i >= j.size() || j[i] != '{') return false; i++;
    bool found = false;
    for (;;) {
        ws(); if (i < j.size() && j[i] == '}') { i++; break; }
        string k, v; if (!str(k)) return false;
        ws(); if (i >= j.size() || j[i] != ':') return false; i++; ws();
        if (i < j.size() && j[i] == '"') { if (!str(v)) return false; }
        else { size_t s = i; while (i < j.size() && j[i] != ',' && j[i] != '}' && j[i] != '\n') i++; v = j.substr(s, i - s); while (!v.empty() && (v.back() == ' ')) v.pop_back(); }
        if (k == key) { out = v; found = true; }
        ws(); if (i < j.size() && j[i] == ',') { i++; continue; }
        if (i < j.size() && j[i] == '}') { i++; break; }
        return false;
    }
    ws();
    return found && i == j.size();
}
void sim_init() { arena_init(); }
