/* Deterministic simulator for Apex: everything nondeterministic that the code under
 * test (SUT) can reach is decided here, from one seed. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <sys/types.h>

typedef uint64_t u64;
typedef uint32_t u32;
using std::string;
using std::vector;

/* ---------- seeded choices ---------- */
enum Stream { W = 0 /* workload */, S = 1 /* schedule */, F = 2 /* faults */, NSTREAM = 3 };
static const u32 TAPE_CAP = 1u << 21;
struct Tape {
    u32 *v = nullptr;   /* values drawn (recording) or to replay; shared memory, so it survives a crash */
    u32 *n = nullptr;
    size_t pos = 0;
    bool replay = false;
    u64 st = 0;
};
u32 draw(Stream s, u32 n);                 /* 0..n-1, 0 is the simplest choice */
bool chance(Stream s, u32 num, u32 den);   /* 0 on the tape means false */
u32 range(Stream s, u32 lo, u32 hi);       /* lo..hi inclusive, lo simplest */
template <class T> const T &pick(Stream s, const vector<T> &v) { return v[draw(s, (u32)v.size())]; }

/* ---------- fault kinds ---------- */
#define FAULT_KINDS(X) \
  X(PIPE_FAIL) X(FORK_FAIL) X(EXEC_FAIL) X(WRITE_EINTR) X(WRITE_PARTIAL) X(READ_EINTR) X(READ_PARTIAL) \
  X(READ_EIO) X(WAIT_EINTR) X(POLL_EINTR) X(CHILD_EARLY_EXIT) X(CHILD_KILLED) X(CHILD_NONZERO) \
  X(CHILD_EMPTY) X(CHILD_HANG) X(CHILD_SLOW) X(ALLOC_FAIL) X(OPEN_FAIL) X(FILE_EIO) X(FILE_VANISH) \
  X(DISK_FULL) X(WRITE_EIO) X(CLOSE_FAIL) X(STDOUT_EPIPE) X(DIR_FAIL) X(DIR_ORDER) X(STAT_FAIL) X(CRASH) \
  X(CLOCK_JUMP) X(SYSTEM_FAIL) X(CLONE_FAIL) X(NET_FAIL) X(NET_TRUNCATED) X(MKDIR_FAIL) X(RENAME_FAIL) \
  X(RM_FAIL) X(CP_FAIL) X(STDIN_EOF) X(CWD_FAIL) X(POPEN_FAIL) X(PREEMPT) X(HEAP_NOISE) X(CORRUPT) X(TOOL_MISSING)
enum Fault {
#define X(n) FK_##n,
    FAULT_KINDS(X)
#undef X
    FK_COUNT
};
extern const char *fault_name[FK_COUNT];
bool fault(Fault k, const char *site = "");   /* decide whether to inject now; counts if so */
void fault_fired(Fault k, const char *site = ""); /* count a fault the scenario injected itself */

/* ---------- files ---------- */
struct Inode {
    enum Type { FILE_, DIR_, LINK_ } type = FILE_;
    string data;                 /* file bytes or link target */
    std::map<string, Inode *> kids;
    int mode = 0644;
    u64 id = 0;
    long eio_at = -1;            /* read reaching this offset fails with EIO */
    int open_errno = 0;          /* open fails */
    int good_opens = 0;          /* eio_at and open_errno spare this many opens for reading */
    int stat_errno = 0;
    int readdir_fail_after = -1; /* readdir stops with EIO after so many entries */
    bool eperm = false;          /* cannot be removed or replaced */
};
struct Vfs {
    Inode *root;
    string cwd = "/work";
    u64 next_id = 1;
    bool cwd_broken = false;
    long space_left = -1;        /* bytes until ENOSPC; -1 unlimited */
    Vfs();
    Inode *lookup(const string &path, int *err = nullptr, bool follow = true);
    Inode *mkdirs(const string &path);
    Inode *put(const string &path, const string &data, int mode = 0644);
    Inode *symlink(const string &path, const string &target);
    bool remove_tree(const string &path);
    bool exists(const string &p) { return lookup(p) != nullptr; }
    string get(const string &p) { Inode *i = lookup(p); return i ? i->data : string(); }
    string abspath(const string &p);                 /* lexical, no link resolution */
    Inode *parent_of(const string &path, string &leaf, int *err = nullptr);
    string dump(const string &p);                    /* canonical listing with contents hash */
    void dump_rec(Inode *i, const string &p, string &out);
    Inode *clone_tree(Inode *src);
};

/* ---------- processes, pipes ---------- */
struct Pipe { string buf; size_t cap; int readers = 0, writers = 0; int id; };
struct OFile {
    enum K { FILE_, PR, PW, NULL_, SRC, SINK, DIR_ } k;
    Inode *ino = nullptr; size_t off = 0; int flags = 0;
    Pipe *p = nullptr;
    int refs = 1;
    string path;
    struct Source *src = nullptr; struct Sink *sink = nullptr;
    long wrote = 0; bool spared = false;
};
struct Source { string data; size_t off = 0; long eio_at = -1; bool tty = false; };
struct Sink { string data; long cap = -1; long eio_at = -1; bool closed_reader = false; long epipe_at = -1; bool tty = false; bool lost = false; };

struct Proc;
struct Prog {
    enum R { PROGRESS, BLOCKED, SLEEP };
    virtual R step(Proc &p) = 0;
    virtual ~Prog() {}
};
struct Proc {
    int pid; string name;
    std::map<int, OFile *> fds;
    std::set<int> cloexec;
    bool exited = false, reaped = false;
    int status = 0;              /* wait status */
    Prog *prog = nullptr;
    u64 wake = 0;
    bool sigpipe_default = true, sigpipe_blocked = false, sigpipe_pending = false;
    void *sigpipe_handler = nullptr;
    bool session = false;
    int pgid = 0, ppid = 0;
    bool helper = false;         /* started by another program, not by apex */
    bool foreign = false;        /* a child of the host process that is none of apex's business */
    bool ignore_term = false;    /* ignores every signal that can be ignored */
    std::map<string, string> env; /* environment at exec */
};

struct World {
    Vfs fs;
    u64 now_us = 1700000000000000ull;
    u64 start_us = 1700000000000000ull;
    long wall_off = 0;           /* how far the wall clock has been set off */
    std::map<int, Proc *> procs;
    Proc *host = nullptr, *cur = nullptr;
    int next_pid = 101;
    size_t pipe_cap = 65536;
    Source in; Sink out, err;
    vector<string> cmds;          /* shell commands run */
    std::function<Prog *(const string &cmd, Proc &p)> resolve; /* scenario's programs */
    std::set<string> tools;       /* programs `which` finds */
    std::map<string, Inode *> remotes;     /* git URLs */
    std::map<string, string> web;          /* curl URLs */
    string git_toplevel;
    vector<vector<string>> execs; /* every simple command the simulated shell ran */
    vector<string> destroyed;     /* every path removed or replaced */
    vector<string> opened;        /* every regular file opened for reading */
    bool faults_on = true;
    long alloc_fail_at = -1, alloc_seen = 0; bool alloc_armed = false;
    long crash_at = -1, seam_no = 0; bool crashed = false;
    bool pipe_eio_armed = true; /* READ_EIO may hit pipes now */
    bool heap_noise = false, heap_poison = true, heap_check = true, heap_reuse = false;
    u64 time_jump_ppm = 0;
    bool umask_exec = false;
    std::map<string,int> probes;
    int exec_max_ms = 0;
    u64 itimer_us = 0;           /* the host has an interval timer of this period: its signal interrupts poll() */
};
extern World *g;

/* ---------- results ---------- */
struct Shared {
    volatile int done, failed;
    char cls[64]; char key[160]; char msg[1800];
    u64 hash, ihash;
    u64 seams, simtime_us, work;
    u64 faults[FK_COUNT];
    char sample[400];
    u32 probe_n; struct { char name[40]; u64 n; } probe[48];
    u64 ops; u32 tape_len[NSTREAM]; 
    char unmodelled[200];
    int forced_exit;
    u32 tape[NSTREAM][TAPE_CAP];
};
extern Shared *R;
[[noreturn]] void fail(const char *cls, const string &key, const char *fmt, ...);
void probe(const char *name, u64 n = 1);
void sample(const string &s);
void ev(const char *kind, const char *fmt = nullptr, ...);
void ihash_add(u64 v);
void seam(const char *what);
void set_sched_bias(int b);   /* 1/b of host operations let children run first; 0: every one */
void sim_init();
extern void (*dump_hook)();  /* writes the trace out before a run ends early */
extern string *trace_out;   /* non-null: keep a readable trace */

/* ---------- running SUT code ---------- */
struct RunResult { bool crashed = false; bool killed_sigpipe = false; bool exited = false; int status = 0; };
RunResult run_sut(const std::function<int()> &fn);      /* on the SUT stack; returns fn's value */
RunResult run_cli(const vector<string> &args);          /* a fresh simulated process: apex ARGS */
void new_host();                                        /* fresh host process, std streams */
void stack_fill(size_t n, bool noise);                  /* what the SUT finds in the top n bytes of its stack: zeros or other bytes */
void sut_restart();                                     /* reset the SUT's static data */
extern "C" void sut_data_snapshot();
int open_fd_count();                                    /* host descriptors beyond 0-2 */
int live_children(); int zombie_children();
string env_dump();
string hexq(const string &s, size_t max = 120);
u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);
u64 fnv(const string &s);
void heap_audit(const char *where);
size_t heap_live(string *what = nullptr);               /* blocks of the SUT that are allocated now */
bool read_json_string_field(const string &json, const string &key, string &out);
string take(char *p);        /* std::string copy of a SUT string, freeing it through the SUT heap */
char *sut_strdup(const string &s);
void set_env(const char *k, const string &v);
void unset_env(const char *k);
Prog *shell_prog(const string &cmd, Proc &p);
bool shell_words(const string &cmd, Proc &p, vector<string> &argv);
Prog *argv_prog(const vector<string> &argv, Proc &p);
extern bool cmd_unmodelled;

/* program building block: runs fn once (atomically), then writes its output in scheduled chunks */
struct BatchProg : Prog {
    std::function<int(Proc &, string &)> fn; bool ran = false; string outbuf; size_t off = 0; int rc = 0;
    BatchProg(std::function<int(Proc &, string &)> f) : fn(f) {}
    R step(Proc &p) override;
};
/* raw child syscalls used by simulated programs */
long child_read(Proc &p, int fd, string &out, size_t max);   /* >0, 0 EOF, -1 would block */
long child_write(Proc &p, int fd, const char *d, size_t n);  /* >0, -1 would block, -2 EPIPE */
void child_close(Proc &p, int fd);
void child_exit(Proc &p, int status);

/* ---------- threads: real threads, exactly one of which runs at a time ---------- */
u64 run_threads(const vector<std::function<void()>> &fns);  /* returns the number of switches */
void threads_watch();                                       /* from now on, note which static data is written */
void locks_reset(); int locks_held();
struct Scenario {
    const char *id;
    const char *title;
    void (*run)();
    const char *technique; const char *rule; const char *level;
};
extern vector<Scenario> &scenarios();
struct Reg { Reg(Scenario s) { scenarios().push_back(s); } };
extern bool enabled_fault[FK_COUNT];
extern u32 fault_den[FK_COUNT];
void enable(Fault k, u32 den);
extern int faults_left;
