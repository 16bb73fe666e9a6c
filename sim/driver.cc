#include "sim.h"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <iostream>
#include <fcntl.h>

extern Tape tapes[NSTREAM];
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Outcome { bool failed = false; string cls, key, msg; u64 hash = 0, ihash = 0; vector<u32> tape[NSTREAM]; };
static Shared *new_shared() { void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return (Shared *)p; }
static void clear_shared(Shared *r) { size_t n = offsetof(Shared, tape); memset((void *)r, 0, n); }
static u64 mix(u64 a, u64 b) { u64 h = 1469598103934665603ull; h = fnv(&a, 8, h); h = fnv(&b, 8, h); return h; }
static const Scenario *scen;
static int cpu_limit = 60; /* seconds of one run before it counts as hanging; ordinary runs take milliseconds */
static void on_sig(int sig) {
    if (!R->done) {
        R->done = 1; R->failed = 1;
        bool hang = sig == SIGXCPU || sig == SIGALRM;
        snprintf(R->cls, sizeof R->cls, hang ? "hang" : "crash");
        snprintf(R->key, sizeof R->key, "signal %d", sig);
        snprintf(R->msg, sizeof R->msg, hang ? "apex did not finish (no progress within the CPU budget of one run)" : "apex was killed by signal %d", sig);
        if (dump_hook) dump_hook();
    }
    _exit(0);
}
static void child_body(bool replay, u64 seed) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU, SIGALRM}) sigaction(s, &sa, nullptr);
    struct rlimit rl{(rlim_t)cpu_limit, (rlim_t)cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit co{0, 0}; setrlimit(RLIMIT_CORE, &co);
    alarm(300);
    for (int s = 0; s < NSTREAM; s++) {
        tapes[s].v = R->tape[s]; tapes[s].n = &R->tape_len[s]; tapes[s].pos = 0; tapes[s].replay = replay;
        tapes[s].st = mix(seed, 0xA5A5 + (u64)s);
    }
    clearenv(); setenv("HOME", "/home/u", 1); setenv("PATH", "/usr/bin:/bin", 1); setenv("TZ", "UTC", 1); setenv("LANG", "C", 1);
    g = new World;
    g->fs.mkdirs("/work"); g->fs.mkdirs("/home/u"); g->fs.mkdirs("/tmp");
    new_host();
    scen->run();
    R->seams = (u64)g->seam_no; R->simtime_us = g->now_us > g->start_us ? g->now_us - g->start_us : 0;
    R->done = 1;
}
/* one simulated run in its own process */
static Outcome run_once(Shared *r, bool replay, u64 seed, const vector<u32> *in, string *trace = nullptr) {
    clear_shared(r);
    if (in) for (int s = 0; s < NSTREAM; s++) { r->tape_len[s] = (u32)std::min<size_t>(in[s].size(), TAPE_CAP); memcpy(r->tape[s], in[s].data(), r->tape_len[s] * 4); }
    int pp[2] = {-1, -1};
    if (trace && pipe(pp)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        R = r;
        string tr; if (trace) { trace_out = &tr; close(pp[0]); atexit([] {}); }
        if (trace) { /* run in a grandchild-free way: dump trace at the end even on failure */
            pid_t p2 = fork();
            if (p2 == 0) {
                /* trace lives in shared memory so that it survives a crash of this process */
                static string *trp; static int fd; trp = &tr; fd = pp[1];
                dump_hook = [] { size_t off = 0; while (off < trp->size()) { ssize_t w = write(fd, trp->data() + off, trp->size() - off); if (w <= 0) break; off += (size_t)w; } };
                child_body(replay, seed);
                dump_hook();
                _exit(0);
            }
            int st; waitpid(p2, &st, 0); _exit(0);
        }
        child_body(replay, seed);
        _exit(0);
    }
    if (trace) { close(pp[1]); char b[65536]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) trace->append(b, (size_t)n); close(pp[0]); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (!r->done) {
        o.failed = true; o.cls = "crash"; char b[64]; snprintf(b, sizeof b, WIFSIGNALED(st) ? "signal %d" : "exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); o.key = b; o.msg = string("apex process died: ") + b;
    } else if (r->failed) { o.failed = true; o.cls = r->cls; o.key = r->key; o.msg = r->msg; }
    o.hash = r->hash; o.ihash = r->ihash;
    if (o.failed) for (int s = 0; s < NSTREAM; s++) o.tape[s].assign(r->tape[s], r->tape[s] + r->tape_len[s]);
    return o;
}
struct Known { string prop, cls, key, text; };
static vector<Known> load_known(const string &f, const string &prop) {
    vector<Known> v; std::ifstream in(f); string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "known:") != 0) continue;
        auto field = [&](const string &k) { size_t a = l.find(k + "=\""); if (a == string::npos) return string(); a += k.size() + 2; size_t b = l.find('"', a); return l.substr(a, b - a); };
        size_t a = l.find("property="); string p = l.substr(a + 9, l.find(' ', a + 9) - a - 9);
        if (p != prop) continue;
        v.push_back({p, field("class"), field("key"), field("what")});
    }
    return v;
}
static int known_idx(const vector<Known> &k, const Outcome &o) { for (size_t i = 0; i < k.size(); i++) if (k[i].cls == o.cls && o.key.find(k[i].key) != string::npos) return (int)i; return -1; }

static string enc(const vector<u32> &v) { std::ostringstream o; for (size_t i = 0; i < v.size();) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; o << v[i]; if (j - i > 1) o << "x" << (j - i); o << ' '; i = j; } return o.str(); }
static vector<u32> dec(const string &s) { vector<u32> v; std::istringstream in(s); string t; while (in >> t) { size_t k = t.find('x'); u32 val = (u32)strtoul(t.c_str(), nullptr, 10); size_t n = k == string::npos ? 1 : strtoul(t.c_str() + k + 1, nullptr, 10); v.insert(v.end(), n, val); } return v; }

struct ShardShm { volatile u64 runs, failed, known_hits[32], simtime, seams, faults[FK_COUNT], reruns, mismatches, nontrivial; volatile int found; volatile u64 found_seed; u64 nprobe; struct { char n[40]; u64 c; } probe[96]; u64 nh; char samples[6][400]; int nsamp; char unmodelled[200]; double done_at; };
static const u64 HCAP = 1u << 21;

int main(int argc, char **argv) {
    string mode = argc > 1 ? argv[1] : "";
    string prop, tier = "quick", evid, replay_dir = "/verif/replays", known_file = "/verif/known_findings.txt", level = "exploration";
    u64 seed = 1; double secs = 30, shrink = -1; u64 max_runs = 0; int jobs = 8; string file; u64 one = 0; bool have_one = false; bool verbose = false;
    for (int i = 2; i < argc; i++) {
        string a = argv[i]; auto nx = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--seconds") secs = atof(nx().c_str()); else if (a == "--shrink") shrink = atof(nx().c_str()); else if (a == "--runs") max_runs = strtoull(nx().c_str(), nullptr, 10); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--evidence") evid = nx(); else if (a == "--replay-dir") replay_dir = nx(); else if (a == "--known") known_file = nx(); else if (a == "--one") { one = strtoull(nx().c_str(), nullptr, 10); have_one = true; }
        else if (a == "-v") verbose = true; else file = a;
    }
    if (mode == "list") { for (auto &s : scenarios()) printf("%s %s\n", s.id, s.title); return 0; }
    sut_data_snapshot(); sim_init();
    Shared *shm = new_shared();
    auto find = [&](const string &p) { for (auto &s : scenarios()) if (p == s.id) { scen = &s; return; } fprintf(stderr, "no scenario for %s\n", p.c_str()); exit(3); };
    auto seed_of = [&](u64 i) { return mix(mix(seed, fnv(prop)), i); };
    if (mode == "replay") {
        std::ifstream in(file); string l; vector<u32> t[NSTREAM]; string cls, hash; bool unstable = false;
        while (std::getline(in, l)) {
            if (l.compare(0, 10, "property: ") == 0) prop = l.substr(10);
            else if (l.compare(0, 7, "class: ") == 0) cls = l.substr(7);
            else if (l.compare(0, 6, "hash: ") == 0) hash = l.substr(6);
            else if (l.compare(0, 3, "W: ") == 0) t[W] = dec(l.substr(3)); else if (l.compare(0, 3, "S: ") == 0) t[S] = dec(l.substr(3)); else if (l.compare(0, 3, "F: ") == 0) t[F] = dec(l.substr(3));
            else if (l == "unstable: yes") unstable = true;
            else if (l == "trace:") break;
        }
        find(prop);
        string tr; Outcome o = run_once(shm, true, 0, t, verbose ? &tr : nullptr);
        for (int k = 0; unstable && !o.failed && k < 40; k++) { tr.clear(); o = run_once(shm, true, 0, t, verbose ? &tr : nullptr); }
        if (verbose) fputs(tr.c_str(), stdout);
        char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.hash);
        if (o.failed) { printf("VIOLATION property=%s replay=%s\n  %s [%s]: %s\n  hash %s %s\n", prop.c_str(), file.c_str(), o.cls.c_str(), o.key.c_str(), o.msg.c_str(), hb, hash == hb ? "(as recorded)" : "(DIFFERS)"); return unstable || (hash == hb && cls == o.cls) ? 1 : 4; }
        printf("not reproduced\n"); return 0;
    }
    find(prop);
    if (mode == "one") {
        string tr; u64 sd = have_one ? seed_of(one) : seed; Outcome o = run_once(shm, false, sd, nullptr, &tr);
        fputs(tr.c_str(), stdout);
        printf("failed=%d class=%s key=%s msg=%s hash=%016llx seams=%llu\n", o.failed, o.cls.c_str(), o.key.c_str(), o.msg.c_str(), (unsigned long long)o.hash, (unsigned long long)shm->seams);
        printf("tapes %u %u %u sample: %s\n", shm->tape_len[0], shm->tape_len[1], shm->tape_len[2], shm->sample);
        for (u32 i = 0; i < shm->probe_n; i++) printf("  probe %s %llu\n", shm->probe[i].name, (unsigned long long)shm->probe[i].n);
        return o.failed;
    }
    if (mode == "hashes") { /* determinism proof: print seed -> event-log hash */
        for (u64 i = 0; i < (max_runs ? max_runs : 100); i++) { Outcome o = run_once(shm, false, seed_of(i), nullptr); printf("%llu %016llx %016llx %d\n", (unsigned long long)i, (unsigned long long)o.hash, (unsigned long long)o.ihash, o.failed); }
        return 0;
    }
    if (mode != "run") { fprintf(stderr, "usage\n"); return 3; }
    vector<Known> known = load_known(known_file, prop);
    double t0 = now();
    ShardShm *sh = (ShardShm *)mmap(nullptr, sizeof(ShardShm) * (size_t)jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    u64 *hs = (u64 *)mmap(nullptr, HCAP * 8 * (size_t)jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int j = 0; j < jobs; j++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Shared *r = new_shared(); std::unordered_set<u64> seen; ShardShm &q = sh[j]; u64 *hh = hs + HCAP * (size_t)j;
            for (u64 i = (u64)j;; i += (u64)jobs) {
                if (*stop || (max_runs && i >= max_runs) || now() - t0 > secs) break;
                Outcome o = run_once(r, false, seed_of(i), nullptr);
                q.runs++; q.seams += r->seams; q.simtime += r->simtime_us;
                if (r->work) q.nontrivial++;
                for (int f = 0; f < FK_COUNT; f++) q.faults[f] += r->faults[f];
                for (u32 k = 0; k < r->probe_n; k++) { u64 x = 0; for (; x < q.nprobe; x++) if (!strcmp(q.probe[x].n, r->probe[k].name)) break; if (x == q.nprobe && x < 96) { snprintf(q.probe[x].n, 40, "%s", r->probe[k].name); q.probe[x].c = 0; q.nprobe++; } if (x < 96) q.probe[x].c += r->probe[k].n; }
                if (r->unmodelled[0]) memcpy(q.unmodelled, r->unmodelled, sizeof q.unmodelled);
                if (q.nsamp < 6 && r->sample[0] && (q.runs % 97 == 1)) { snprintf(q.samples[q.nsamp++], 400, "seed#%llu: %s", (unsigned long long)i, r->sample); }
                if (r->work && seen.insert(o.ihash).second && q.nh < HCAP) hh[q.nh++] = o.ihash;
                if (o.failed) {
                    int k = known_idx(known, o);
                    if (k >= 0) { if (k < 32) q.known_hits[k]++; }
                    else { q.found_seed = i; q.found = 1; q.failed++; *stop = 1; break; }
                } else if (q.runs % 64 == 1) { u64 h = o.hash; Outcome o2 = run_once(r, false, seed_of(i), nullptr); q.reruns++; if (o2.hash != h) q.mismatches++; }
            }
            q.done_at = now();
            _exit(0);
        }
    }
    while (wait(nullptr) > 0) {}
    double wall = now() - t0;
    u64 runs = 0, simt = 0, seams = 0, rer = 0, mis = 0, nontriv = 0; u64 faults[FK_COUNT] = {0}; std::map<string, u64> probes; std::unordered_set<u64> uniq; vector<string> samples; string unm;
    long found = -1; u64 kh[32] = {0};
    for (int j = 0; j < jobs; j++) {
        ShardShm &q = sh[j]; runs += q.runs; simt += q.simtime; seams += q.seams; rer += q.reruns; mis += q.mismatches; nontriv += q.nontrivial;
        for (int f = 0; f < FK_COUNT; f++) faults[f] += q.faults[f];
        for (u64 x = 0; x < q.nprobe; x++) probes[q.probe[x].n] += q.probe[x].c;
        for (u64 x = 0; x < q.nh; x++) uniq.insert(hs[HCAP * (size_t)j + x]);
        for (int x = 0; x < q.nsamp && samples.size() < 8; x++) samples.push_back(q.samples[x]);
        for (int x = 0; x < 32; x++) kh[x] += q.known_hits[x];
        if (q.unmodelled[0]) unm = q.unmodelled;
        if (q.found && (found < 0 || (long)q.found_seed < found)) found = (long)q.found_seed;
    }
    int violations = 0; string rpath; string vio_line;
    if (found >= 0) {
        const int full_limit = cpu_limit; cpu_limit = 25; /* searching for a smaller hang need not wait as long; what is reported is judged with the full limit again */
        Outcome a = run_once(shm, false, seed_of((u64)found), nullptr);
        Outcome b = run_once(shm, false, seed_of((u64)found), nullptr);
        /* code that uses what lies outside its data can fail differently each time, although every choice is the same: that is reported as it is, unminimised */
        bool unstable = !a.failed || !b.failed || a.hash != b.hash || a.cls != b.cls;
        if (unstable) {
            int fails = a.failed + b.failed;
            for (int k = 0; k < 8; k++) { Outcome o = run_once(shm, false, seed_of((u64)found), nullptr); if (o.failed) { fails++; if (!a.failed) a = o; } }
            if (fails < 3) { fprintf(stderr, "ERROR: seed %ld failed once and %d times of 10 after that\n", found, fails); return 3; }
            fprintf(stderr, "%s: seed#%ld fails in %d of 10 repetitions\n", prop.c_str(), found, fails);
        }
        fprintf(stderr, "%s: seed#%ld fails: %s [%s] %s\n", prop.c_str(), found, a.cls.c_str(), a.key.c_str(), a.msg.c_str());
        /* minimise */
        vector<u32> best[NSTREAM]; for (int s = 0; s < NSTREAM; s++) best[s] = a.tape[s];
        double tmin = now(); double budget = shrink >= 0 ? shrink : a.cls == "hang" ? 60 : 45; int tries = 0; Outcome bo = a;
        auto attempt = [&](int s, const vector<u32> &cand) -> bool {
            if (now() - tmin > budget || tries > 6000) return false;
            tries++;
            vector<u32> t[NSTREAM]; for (int k = 0; k < NSTREAM; k++) t[k] = k == s ? cand : best[k];
            Outcome o = run_once(shm, true, 0, t);
            if (o.failed && o.cls == a.cls && known_idx(known, o) < 0) { best[s] = cand; bo = o; return true; }
            return false;
        };
        for (int round = 0; !unstable && round < 3 && now() - tmin < budget; round++) {
            size_t before = best[0].size() + best[1].size() + best[2].size();
            for (int s : {(int)S, (int)F, (int)W}) {
                if (!best[s].empty() && attempt(s, {})) continue;
                for (size_t n = best[s].size() / 2; n > 0; n /= 2) { while (best[s].size() >= n) { vector<u32> c(best[s].begin(), best[s].end() - (long)n); if (!attempt(s, c)) break; } }
                for (size_t n = std::max<size_t>(1, best[s].size() / 2);; n /= 2) {
                    for (size_t i = 0; i + n <= best[s].size();) { vector<u32> c = best[s]; c.erase(c.begin() + (long)i, c.begin() + (long)(i + n)); if (!attempt(s, c)) i += n; if (now() - tmin > budget) break; }
                    if (n <= 1) break;
                }
                for (size_t n = std::max<size_t>(1, best[s].size() / 2);; n /= 2) {
                    for (size_t i = 0; i < best[s].size(); i += n) { vector<u32> c = best[s]; bool nz = false; for (size_t k = i; k < std::min(i + n, c.size()); k++) { if (c[k]) nz = true; c[k] = 0; } if (nz) attempt(s, c); if (now() - tmin > budget) break; }
                    if (n <= 1) break;
                }
                for (size_t i = 0; i < best[s].size(); i++) { for (u32 v = best[s][i] / 2; v > 0 && v < best[s][i];) { vector<u32> c = best[s]; c[i] = v; if (!attempt(s, c)) break; v = best[s][i] / 2; } if (now() - tmin > budget) break; }
            }
            if (before == best[0].size() + best[1].size() + best[2].size()) break;
        }
        cpu_limit = full_limit;
        string tr; Outcome fo = run_once(shm, true, 0, best, &tr);
        Outcome f2 = run_once(shm, true, 0, best);
        if (!fo.failed || fo.cls != a.cls || f2.hash != fo.hash) { /* report the run as it was found */
            for (int s = 0; s < NSTREAM; s++) best[s] = a.tape[s];
            tr.clear(); fo = run_once(shm, true, 0, best, &tr); f2 = run_once(shm, true, 0, best);
            if (!fo.failed || fo.cls != a.cls || f2.hash != fo.hash) { unstable = true; for (int k = 0; k < 20 && !fo.failed; k++) { tr.clear(); fo = run_once(shm, true, 0, best, &tr); } if (!fo.failed) fo = a; }
        }
        mkdir(replay_dir.c_str(), 0755);
        char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)fo.hash);
        rpath = replay_dir + "/" + prop + "-" + hb + ".replay";
        { std::ofstream o(rpath);
          o << "property: " << prop << "\nverif_seed: " << seed << "\nrun: " << found << "\nclass: " << fo.cls << "\nkey: " << fo.key << "\nmessage: " << hexq(fo.msg, 1700) << "\nhash: " << hb << (unstable ? "\nunstable: yes" : "") << "\noriginal_choices: " << a.tape[0].size() + a.tape[1].size() + a.tape[2].size() << "\nminimised_choices: " << best[0].size() + best[1].size() + best[2].size() << "\nminimisation_runs: " << tries
            << "\nW: " << enc(best[W]) << "\nS: " << enc(best[S]) << "\nF: " << enc(best[F]) << "\ntrace:\n" << tr; }
        /* fresh process replay */
        string cmd = string("/proc/self/exe"); char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
        pid_t p = fork(); if (p == 0) { int dn = ::open("/dev/null", O_WRONLY); dup2(dn, 1); execl(exe, exe, "replay", rpath.c_str(), (char *)nullptr); _exit(9); }
        int st; waitpid(p, &st, 0);
        if (!unstable && (!WIFEXITED(st) || WEXITSTATUS(st) != 1)) { fprintf(stderr, "ERROR: fresh-process replay of %s gave %d\n", rpath.c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : -1); return 3; }
        violations = 1;
        vio_line = "VIOLATION property=" + prop + " replay=" + rpath;
        printf("%s\n  %s [%s]: %s\n", vio_line.c_str(), fo.cls.c_str(), fo.key.c_str(), fo.msg.c_str());
        wall = now() - t0;
    }
    for (size_t k = 0; k < known.size(); k++) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known[k].text.c_str());
    if (!evid.empty()) {
        auto js = [](const string &s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; };
        std::ofstream o(evid);
        o << "{\n \"property\": " << js(prop) << ",\n \"tier\": " << js(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << js(scen->level) << ",\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << ",\n";
        o << " \"coverage\": {\n  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << uniq.size() << ",\n  \"rule\": " << js(scen->rule) << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) o << (i ? ", " : "") << js(samples[i]);
        o << "],\n  \"nontrivial_runs\": " << nontriv << ",\n  \"runs_per_hour\": " << (u64)(wall > 0 ? (double)runs / wall * 3600 : 0)  << ",\n  \"simulated_seconds\": " << (double)simt / 1e6 << ",\n  \"simulated_operations\": " << seams << ",\n  \"interleaving_measure\": \"distinct_nontrivial counts distinct hashes of the sequence of (process, operation) pairs over the non-trivial runs; one seed is one run\",\n";
        o << "  \"faults_injected\": {"; bool first = true; for (int f = 0; f < FK_COUNT; f++) if (faults[f]) { o << (first ? "" : ", ") << js(fault_name[f]) << ": " << faults[f]; first = false; }
        o << "},\n  \"probes\": {"; first = true; for (auto &p : probes) { o << (first ? "" : ", ") << js(p.first) << ": " << p.second; first = false; }
        o << "},\n  \"determinism_reruns\": " << rer << ",\n  \"determinism_mismatches\": " << mis << ",\n  \"known_findings_hit\": ["; for (size_t k = 0; k < known.size(); k++) o << (k ? ", " : "") << kh[k];
        o << "],\n  \"real_components\": [\"all of src/ and cli/main.c of the current /repo tree\", \"libcmark-gfm 0.29.0.gfm.6, libyaml (static)\", \"glibc stdio buffering, string, regex and environment functions\"],\n  \"stub_components\": [\"kernel: files, directories, pipes, processes, signals, poll, clock\", \"/bin/sh, git, curl, rm, mv, cp, which\", \"plugins, filters and highlighters (scripted programs)\", \"heap allocator (checked, deterministic)\", \"cmark-gfm private headers table.h and html.h (not shipped by the distribution)\"]";
        if (!unm.empty()) o << ",\n  \"unmodelled_command\": " << js(unm);
        if (!rpath.empty()) o << ",\n  \"replay\": " << js(rpath);
        o << "\n },\n \"assumptions\": [\"seeded sampling, not enumeration: a clean batch is evidence, not proof\", \"simulated programs and kernel behave like their POSIX counterparts for the operations modelled in /verif/sim\", \"sources are compiled with gcc -O1 and the stand-in cmark-gfm private headers in /verif/standins\"]\n}\n";
    }
    if (verbose || !violations) fprintf(stderr, "%s: %llu runs, %.1f s, %zu distinct interleavings, %llu reruns %llu mismatches\n", prop.c_str(), (unsigned long long)runs, wall, uniq.size(), (unsigned long long)rer, (unsigned long long)mis);
    return violations ? 1 : 0;
}
