/* Time limits of plugins: the real plugin phase against programs that stall, trickle, or leave helpers behind. */
#include "progs.h"
#include <algorithm>
#include <csignal>
#include <cstring>
#include "plugins.h"

namespace {
struct Act {
    string id, cmd; int timeout_ms = 0, prio = 0; int kind = 0; u64 delay_us = 0; string tag; size_t part = 0;
    bool started = false, eof = false, ended = false; int status = -1; u64 t0 = 0, t1 = 0; string received, full; int pid = 0, helper = 0; bool bundle = false, stubborn = false;
};
struct Idle : Prog { R step(Proc &) override { return BLOCKED; } };
struct ActProg : Prog {
    Act *a; int ph = 0; size_t off = 0; u64 slept = 0;
    ActProg(Act *x) : a(x) {}
    int wr(Proc &p, size_t upto) {
        if (off >= upto) return 2;
        size_t n = upto - off; u32 m = draw(S, 3); if (m == 1) n = 1 + draw(S, (u32)std::min<size_t>(n, 4096));
        long r = child_write(p, 1, a->full.data() + off, n);
        if (r == -1) return 0;
        if (r == -2) { end(p, SIGPIPE); return 3; }
        off += (size_t)r; return 1;
    }
    void end(Proc &p, int st) { a->ended = true; a->status = st; a->t1 = g->now_us; child_exit(p, st); }
    void sleep_us(Proc &p, u64 d) { p.wake = g->now_us + d; }
    R step(Proc &p) override {
        if (!a->started) { a->started = true; a->t0 = g->now_us; }
        if (a->kind == 1) { fault_fired(FK_CHILD_HANG, "at start"); ph = 99; a->kind = 101; return PROGRESS; }
        if (a->kind > 100 || ph == 99) return BLOCKED;
        if (!a->eof) { string b; long n = child_read(p, 0, b, draw(S, 2) ? 65536 : 1 + draw(S, 5000)); if (n < 0) return BLOCKED; if (n == 0) a->eof = true; a->received += b; return PROGRESS; }
        if (ph == 0) {
            string t; a->full = read_json_string_field(a->received, "text", t) ? a->tag + t : "BADREQ"; ph = 1;
            if (a->kind == 2) { ph = 99; fault_fired(FK_CHILD_HANG, "after reading"); }
            else if (a->delay_us && (a->kind == 0 || a->kind == 8)) { sleep_us(p, a->delay_us); fault_fired(FK_CHILD_SLOW, "before writing"); }
            return PROGRESS;
        }
        if (a->kind == 5) { /* keeps writing, never ends */
            if (!slept++) fault_fired(FK_CHILD_HANG, "trickling");
            long r = child_write(p, 1, "x", 1); if (r == -2) { end(p, SIGPIPE); return PROGRESS; }
            sleep_us(p, 1000 + draw(S, 20000)); return PROGRESS;
        }
        size_t upto = a->kind == 3 ? std::min(a->part, a->full.size()) : a->full.size();
        int w = wr(p, upto);
        if (w == 0) return BLOCKED;
        if (w != 2) return PROGRESS;
        switch (a->kind) {
        case 3: ph = 99; fault_fired(FK_CHILD_HANG, "half-way through its output"); return PROGRESS;
        case 4: child_close(p, 1); ph = 99; fault_fired(FK_CHILD_HANG, "after closing its output"); return PROGRESS;
        case 6: case 7: {
            Proc *h = new Proc; h->pid = g->next_pid++; h->pgid = p.pgid; h->ppid = p.pid; h->name = "helper"; h->helper = true; h->ignore_term = a->stubborn; h->prog = new Idle;
            if (a->kind == 6) for (auto &f : p.fds) { h->fds[f.first] = f.second; f.second->refs++; }
            g->procs[h->pid] = h; a->helper = h->pid; fault_fired(FK_CHILD_HANG, "helper keeps running");
            if (a->kind == 6) { end(p, 0); return PROGRESS; }
            child_close(p, 1); ph = 99; return PROGRESS; }
        case 8: end(p, 1 << 8); return PROGRESS;
        default: end(p, 0); return PROGRESS;
        }
    }
};
}
static vector<Act *> *acts;
static void p19() {
    static const size_t caps[] = {65536, 4096, 16384}; g->pipe_cap = caps[draw(W, 3)]; static const int bi[] = {4, 1, 16}; set_sched_bias(bi[draw(W, 3)]); g->tools = {"git"};
    acts = new vector<Act *>; g->resolve = [](const string &cmd, Proc &p) -> Prog * { for (Act *a : *acts) if (a->cmd == cmd && !a->pid) { a->pid = p.pid; p.ignore_term = a->stubborn; return new ActProg(a); } return nullptr; };
    string phase = draw(W, 2) ? "post_render" : "pre_parse", root = draw(W, 2) ? "/home/u/.config/apex/plugins" : "/work/.apex/plugins";
    u32 n = 1 + draw(W, 3); size_t maxlen = g->pipe_cap >= 65536 ? 100000 : 20000;
    for (u32 i = 0; i < n; i++) {
        Act *a = new Act; a->id = string(1, (char)('a' + draw(W, 26))) + std::to_string(i); a->cmd = "act-" + std::to_string(i); a->prio = (int)draw(W, 3) * 10; a->tag = "<" + a->id + ">";
        if (draw(W, 4)) a->timeout_ms = 30 + (int)draw(W, draw(W, 2) ? 300 : 4000);
        if (a->timeout_ms) { a->kind = (int)draw(W, 12); if (a->kind > 8) a->kind = 0; a->delay_us = draw(W, 3) == 0 ? 0 : draw(W, (u32)a->timeout_ms * 2500); a->part = gen_size(20000); a->stubborn = draw(W, 4) == 3; if (a->kind && a->kind != 8 && draw(W, 4) == 3) a->timeout_ms = 1 + (int)draw(W, 29); }
        else a->delay_us = draw(W, 2) ? draw(W, 20000000) : 0;
        a->bundle = draw(W, 4) == 3;
        string ind = a->bundle ? "    " : "", body = ind + "title: T\n" + ind + "phase: " + phase + "\n" + ind + "priority: " + std::to_string(a->prio) + "\n" + (a->timeout_ms ? ind + "timeout_ms: " + std::to_string(a->timeout_ms) + "\n" : draw(W, 3) == 2 ? ind + "timeout_ms: 0\n" : "") + ind + "handler:\n" + ind + "  command: \"" + a->cmd + "\"\n";
        g->fs.put(root + "/" + a->id + "/plugin.yml", a->bundle ? "---\nid: b" + a->id + "\ntitle: B\nbundle:\n  - id: " + a->id + "\n" + body + "---\n" : "---\nid: " + a->id + "\n" + body + "---\n");
        acts->push_back(a);
    }
    std::sort(acts->begin(), acts->end(), [](Act *a, Act *b) { return a->prio != b->prio ? a->prio < b->prio : a->id < b->id; });
    string text = gen_text(maxlen, true); if (text.empty()) text = "t";
    static apex_options opt; opt = apex_options_default(); opt.enable_plugins = true;
    apex_plugin_manager *m = nullptr; g->faults_on = false; run_sut([&] { m = apex_plugins_load(&opt); return 0; }); g->faults_on = true;
    if (!m) fail("not-loaded", "plugins", "no plugin manager although %u plugins are installed", n);
    if (draw(W, 2)) { u32 den = 6 + draw(W, 50); enable(FK_POLL_EINTR, den); enable(FK_WAIT_EINTR, den); enable(FK_READ_EINTR, den); enable(FK_WRITE_EINTR, den); }
    if (draw(W, 2)) enable(FK_CLOCK_JUMP, 2);
    if (draw(W, 4) == 3) g->itimer_us = 1000 + draw(W, 40000);
    Proc *other = nullptr;
    if (draw(W, 4) == 3) { other = new Proc; other->pid = g->next_pid++; other->pgid = other->pid; other->ppid = g->host->pid; other->name = "other"; other->foreign = true; other->exited = true; g->procs[other->pid] = other; }
    char *res = nullptr; u64 t0 = g->now_us; int fds = open_fd_count();
    RunResult r = run_sut([&] { res = apex_plugins_run_text_phase(m, phase == "pre_parse" ? APEX_PLUGIN_PHASE_PRE_PARSE : APEX_PLUGIN_PHASE_POST_RENDER, text.c_str(), &opt); return 0; });
    g->faults_on = false; u64 took = g->now_us - t0; string got = res ? take(res) : text;
    if (r.killed_sigpipe || r.exited) fail("host-ended", "timeout", "apex ended during the plugin phase");
    const u64 SL = 60000; /* 60 ms of slack for scheduling */
    vector<string> cand{text}; string hist; u64 allowed = SL;
    for (Act *a : *acts) {
        static const char *kn[] = {"well", "hang", "hang-read", "hang-part", "hang-closed", "trickle", "helper-holds", "helper-idle", "fails"}; int k = a->kind > 100 ? a->kind - 100 : a->kind;
        hist += a->id + ":" + kn[k] + (a->timeout_ms ? "/" + std::to_string(a->timeout_ms) + "ms" : "") + " ";
        if (!a->pid) fail("not-run", "plugin", "plugin %s was not run [%s]", a->id.c_str(), hist.c_str());
        u64 lim = (u64)a->timeout_ms * 1000; Proc *p = g->procs.count(a->pid) ? g->procs[a->pid] : nullptr;
        u64 own = a->ended ? a->t1 - a->t0 : UINT64_MAX; bool must_use = false, must_not = false;
        if (k == 0) { if (!lim) must_use = a->ended; else if (a->ended && a->status == 0 && own + SL < lim) must_use = true; else if (a->delay_us > lim + SL) must_not = true; if (!lim && !a->ended) fail("killed", "no limit", "plugin %s without a time limit did not get to finish [%s]", a->id.c_str(), hist.c_str()); if (lim && a->delay_us + 2 * SL < lim && !(a->ended && a->status == 0)) { if (p && p->status && took < lim) fail("killed-early", "within the limit", "plugin %s needs about %llu ms of its %d ms but was ended [%s]", a->id.c_str(), (unsigned long long)a->delay_us / 1000, a->timeout_ms, hist.c_str()); } }
        else must_not = true;
        vector<string> nc; for (auto &c : cand) { string u = a->tag + c; if (!must_not) nc.push_back(u); if (!must_use) nc.push_back(c); }
        cand = nc;
        if (lim) {
            if (p && !p->exited) fail("left-running", kn[k], "plugin %s exceeded its limit of %d ms and is still running after the phase [%s]", a->id.c_str(), a->timeout_ms, hist.c_str());
            if (p && !p->reaped) fail("zombie", kn[k], "plugin %s was not reaped [%s]", a->id.c_str(), hist.c_str());
            if (a->helper && !g->procs[a->helper]->exited) fail("left-running", "helper", "a helper of plugin %s, which exceeded its limit, is still running [%s]", a->id.c_str(), hist.c_str());
            allowed += (k == 0 || k == 8 ? std::min(own, lim) : lim) + SL;
            if (must_not && k != 8) probe("limit-enforced"); if (must_use) probe("finished-in-time");
        } else allowed += own == UINT64_MAX ? 0 : own + SL;
    }
    if (std::find(cand.begin(), cand.end(), got) == cand.end()) fail("wrong-result", "timeout", "the result has %zu bytes ('%s'), expected %zu ('%s') [%s]", got.size(), hexq(got.substr(0, 60)).c_str(), cand[0].size(), hexq(cand[0].substr(0, 60)).c_str(), hist.c_str());
    if (took > allowed) fail("too-long", "timeout", "the phase took %llu ms; its limits and the plugins' own times add up to %llu ms [%s]", (unsigned long long)took / 1000, (unsigned long long)allowed / 1000, hist.c_str());
    if (other && other->reaped) fail("foreign-reaped", "timeout", "a child process of the host that is not Apex's was waited for [%s]", hist.c_str());
    if (open_fd_count() != fds) fail("fd-leak", "timeout", "%d descriptors left open [%s]", open_fd_count() - fds, hist.c_str());
    R->work = 1; sample(phase + ", text " + std::to_string(text.size()) + "B: " + hist); heap_audit("timeout");
}
static Reg r19({"P19", "plugin time limits", p19, "", "One case: 1-3 plugins, with or without timeout_ms, run by the real plugin phase: programs that finish after a seeded time, hang before reading, after reading, half-way through their output or after closing it, write for ever, or leave a helper process holding their output; calls are interrupted and the wall clock is set forwards and backwards. Result, simulated duration, processes and descriptors are compared with the declared limits. Non-trivial: the phase ended and was compared; distinct: different sequence of (process, operation).", "exploration"});
