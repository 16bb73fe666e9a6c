/* Exchanges with external programs: text plugins, AST filters, code highlighters. */
#include "progs.h"
#include <algorithm>
#include <csignal>
#include <cstring>
extern "C" {
#include "cmark-gfm.h"
}
#include "plugins.h"
extern "C" {
cmark_node *apex_run_ast_filters(cmark_node *document, const apex_options *options, const char *target_format);
char *apex_cmark_to_pandoc_json(cmark_node *document, const apex_options *options);
cmark_node *apex_pandoc_json_to_cmark(const char *json, const apex_options *options);
char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool line_numbers, bool language_only, bool ansi_output);
char *apex_run_preparse_plugin_env(const char *text, const apex_options *options);
void sim_free(void *);
}
using std::min;

static void common_world() {
    static const size_t caps[] = {65536, 4096, 8192, 16384, 4096, 65536};
    g->pipe_cap = caps[draw(W, 6)];
    static const int biases[] = {4, 1, 2, 16, 64};
    set_sched_bias(biases[draw(W, 5)]);
    g->heap_noise = draw(W, 4) == 3;
    g->tools = {"pygmentize", "skylighting", "shiki", "git", "curl"};
}
static void interruptions() { /* legal but unusual: short transfers and interrupted calls */
    if (draw(W, 3) == 0) return;
    u32 den = 4 + draw(W, 60);
    if (draw(W, 2)) enable(FK_WRITE_EINTR, den);
    if (draw(W, 2)) enable(FK_WRITE_PARTIAL, den);
    if (draw(W, 2)) enable(FK_READ_EINTR, den);
    if (draw(W, 2)) enable(FK_WAIT_EINTR, 3 + draw(W, 6));
    if (draw(W, 2)) enable(FK_POLL_EINTR, den);
}
/* ---- a list of programs addressed by command string ---- */
struct Cast {
    std::map<string, std::deque<Spec *>> by_cmd; vector<Spec *> all;
    std::function<Spec *(const string &)> fallback;
};
static Cast *cast;
static void install_cast() {
    cast = new Cast;
    g->resolve = [](const string &cmd, Proc &p) -> Prog * {
        auto it = cast->by_cmd.find(cmd);
        Spec *s = nullptr;
        if (it != cast->by_cmd.end() && !it->second.empty()) { s = it->second.front(); it->second.pop_front(); }
        else if (cast->fallback) s = cast->fallback(cmd);
        if (!s) return nullptr;
        s->cmd = cmd; s->env = p.env;
        return script_prog(s);
    };
}
static Spec *add_prog(const string &cmd) { Spec *s = new Spec; s->cmd = cmd; cast->by_cmd[cmd].push_back(s); cast->all.push_back(s); return s; }

/* how a well-behaved program may act, decided by the seed */
static void good_behaviour(Spec *s, std::function<string(const string &)> tr, const string &fixed, bool must_read) {
    s->transform = tr;
    u32 m = draw(W, must_read ? 3 : 7);
    switch (m) {
    case 0: s->mode = Spec::READ_ALL; break;
    case 1: s->mode = Spec::CLOSE_OUT_EARLY; s->hold_open = draw(W, 2); break;
    case 2: s->mode = must_read ? Spec::READ_ALL : Spec::STREAM; break;
    case 3: s->mode = Spec::WRITE_FIRST; s->close_first = draw(W, 2); break;
    case 4: s->mode = Spec::IGNORE_STDIN; break;
    case 5: s->mode = Spec::CLOSE_STDIN; break;
    case 6: s->mode = Spec::READ_SOME; s->read_limit = gen_size(20000); break;
    }
    s->pre = fixed;
    if (draw(W, 5) == 4) s->slow_us = 100 + draw(W, 200000);
    if (draw(W, 6) == 5) s->hold_open = true;
}
enum Bad { B_NONE, B_NONZERO, B_KILLED, B_EMPTY, B_DIE_OUT, B_DIE_IN, B_EXEC, B_KINDS };
static void bad_behaviour(Spec *s) {
    switch (1 + draw(W, 6)) {
    case B_NONZERO: s->exit_code = pick(W, vector<int>{1, 2, 127, 255}); break;
    case B_KILLED: s->kill_sig = pick(W, vector<int>{SIGKILL, SIGSEGV, SIGTERM, SIGABRT}); break;
    case B_EMPTY: s->mode = pick(W, vector<Spec::Mode>{Spec::READ_ALL, Spec::IGNORE_STDIN, Spec::CLOSE_STDIN}); s->transform = [](const string &) { return string(); }; s->pre.clear(); if (draw(W, 2)) s->exit_code = 1; break;
    case B_DIE_OUT: s->die_after_out = (long)gen_size(20000); s->exit_code = draw(W, 2) ? 3 : 0; s->kill_sig = s->exit_code ? 0 : SIGKILL; break;
    case B_DIE_IN: s->die_after_in = (long)gen_size(20000); s->exit_code = draw(W, 2) ? 4 : 0; s->kill_sig = s->exit_code ? 0 : SIGKILL; break;
    default: s->exit_code = 1; s->mode = Spec::IGNORE_STDIN; s->pre.clear(); break;
    }
}

/* ---------------------------------------------------------------- oracle switches */
struct Want { bool integrity = false, liveness = false, contain = false, strict = false, residue = false, highlight = false, timeout = false, alloc = false; } want;

struct PluginDecl { string id, phase; int prio; string cmd; bool regex = false; string pat, rep; Spec *spec = nullptr; int timeout_ms = 0; string dir; };
static string manifest(const PluginDecl &d, const string &ind = "") {
    if (!ind.empty()) { /* one entry of a bundle */
        string m = ind + "- id: " + d.id + "\n" + ind + "  phase: " + d.phase + "\n" + ind + "  priority: " + std::to_string(d.prio) + "\n";
        if (d.timeout_ms) m += ind + "  timeout_ms: " + std::to_string(d.timeout_ms) + "\n";
        return m + ind + "  handler:\n" + ind + "    command: \"" + d.cmd + "\"\n";
    }
    string m = "---\nid: " + d.id + "\ntitle: T " + d.id + "\nphase: " + d.phase + "\npriority: " + std::to_string(d.prio) + "\n";
    if (d.timeout_ms) m += "timeout_ms: " + std::to_string(d.timeout_ms) + "\n";
    if (d.regex) m += "pattern: \"" + d.pat + "\"\nreplacement: \"" + d.rep + "\"\n";
    else m += "handler:\n  command: \"" + d.cmd + "\"\n";
    return m + "---\n";
}
struct Before { string env; int fds; bool sigdef, sigblk, sigpend; size_t live; };
static Before before() { return {env_dump(), open_fd_count(), g->host->sigpipe_default, g->host->sigpipe_blocked, g->host->sigpipe_pending, heap_live()}; }
static void residue_check(const Before &b, const char *what, bool freed = true) {
    if (!want.residue) return;
    string last; if (freed && heap_live(&last) > b.live) fail("leak", what, "%zu heap block(s) more after %s than before, the last of %s", heap_live() - b.live, what, last.c_str());
    if (open_fd_count() != b.fds) fail("fd-leak", what, "%d descriptor(s) left open after %s", open_fd_count() - b.fds, what);
    if (zombie_children()) fail("zombie", what, "%d child process(es) not reaped after %s", zombie_children(), what);
    if (live_children()) fail("orphan", what, "%d child process(es) still running after %s returned", live_children(), what);
    string e = env_dump(); if (e != b.env) fail("env-changed", what, "environment not restored after %s:\n%s--- was\n%s", what, e.c_str(), b.env.c_str());
    if (g->host->sigpipe_default != b.sigdef || g->host->sigpipe_blocked != b.sigblk) fail("signal-changed", what, "SIGPIPE disposition or mask changed by %s", what);
    if (g->host->sigpipe_pending != b.sigpend) fail("signal-changed", what, "a SIGPIPE that was %s before %s %s after it", b.sigpend ? "pending" : "not pending", what, b.sigpend ? "is gone" : "is pending");
    for (auto &p : g->procs) if (p.second->foreign && p.second->reaped) fail("foreign-reaped", what, "a child process of the host that is not Apex's was waited for by %s", what);
}
/* what the host process may have set up for itself before it calls Apex */
static void host_setup() {
    switch (draw(W, 8)) {
    case 5: g->host->sigpipe_blocked = true; g->host->sigpipe_pending = draw(W, 2); break;
    case 6: case 7: g->host->sigpipe_default = false; break;
    default: break;
    }
    if (draw(W, 6) == 5) { Proc *c = new Proc; c->pid = g->next_pid++; c->pgid = c->pid; c->ppid = g->host->pid; c->name = "other"; c->foreign = true; c->exited = true; c->status = 0; g->procs[c->pid] = c; }
}
static void liveness_check(const RunResult &r, const char *what) {
    if (r.killed_sigpipe) { if (want.liveness) fail("host-killed", what, "apex was killed by SIGPIPE during %s: a program that stops reading must not end the conversion", what); else { R->work = 0; R->done = 1; _exit(0); } }
    if (r.exited) fail("host-exited", what, "apex exited with status %d during %s", r.status, what);
}

/* every program was started, unless starting it was made to fail */
static void all_started(const vector<Spec *> &v, const char *what, const string &hist) {
    if (R->faults[FK_ALLOC_FAIL]) return;
    u32 missing = 0, may = R->faults[FK_PIPE_FAIL] + R->faults[FK_FORK_FAIL] + R->faults[FK_EXEC_FAIL]; string names;
    for (Spec *s : v) if (!s->started) { missing++; names += s->cmd + " "; }
    if (missing > may) fail("not-run", what, "%u of %zu %ss did not run (%s), %u could not be started [%s]", missing, v.size(), what, names.c_str(), may, hist.c_str());
}
/* ================================================================ plugins */
static void check_request(const PluginDecl &d, const string &expect_text) {
    Spec *s = d.spec;
    if (!want.integrity || !s->started || !s->saw_eof) return;
    if (s->mode != Spec::READ_ALL && s->mode != Spec::STREAM && s->mode != Spec::WRITE_FIRST && s->mode != Spec::CLOSE_OUT_EARLY) return;
    string t;
    if (!read_json_string_field(s->received, "text", t)) fail("bad-request", "plugin", "plugin %s received %zu bytes that are not one complete JSON request: ...%s", d.id.c_str(), s->received.size(), hexq(s->received.size() > 80 ? s->received.substr(s->received.size() - 80) : s->received).c_str());
    if (t != expect_text) { size_t k = 0; while (k < t.size() && k < expect_text.size() && t[k] == expect_text[k]) k++; fail("wrong-request", "plugin", "plugin %s was given text of %zu bytes, expected %zu; first difference at %zu", d.id.c_str(), t.size(), expect_text.size(), k); }
    string v;
    if (!read_json_string_field(s->received, "plugin_id", v) || v != d.id) fail("wrong-request", "plugin_id", "plugin_id is '%s', expected '%s'", v.c_str(), d.id.c_str());
    if (!read_json_string_field(s->received, "phase", v) || v != d.phase) fail("wrong-request", "phase", "phase is '%s', expected '%s'", v.c_str(), d.phase.c_str());
    if (!read_json_string_field(s->received, "version", v) || v != "1") fail("wrong-request", "version", "version is '%s'", v.c_str());
    probe("requests-verified");
    if (s->received.size() > g->pipe_cap) probe("request-larger-than-pipe");
}
static void plugins_run(bool failures, bool hard_faults) {
    common_world(); install_cast();
    string phase = draw(W, 2) ? "post_render" : "pre_parse";
    u32 n = 1 + draw(W, 4);
    vector<PluginDecl> ds; std::map<string, string> bundle; std::map<string, bool> bundle_flat;
    string xdg = draw(W, 2) ? "/home/u/xdg" : "";
    if (!xdg.empty()) set_env("XDG_CONFIG_HOME", xdg);
    string root = xdg.empty() ? "/home/u/.config/apex/plugins" : xdg + "/apex/plugins";
    g->fs.mkdirs(xdg.empty() ? "/home/u/.config/apex" : xdg + "/apex");
    bool proj = draw(W, 3) == 2; string root2 = "/work/.apex/plugins";
    size_t maxlen = g->pipe_cap >= 65536 ? 150000 : 40000;
    for (u32 i = 0; i < n; i++) {
        PluginDecl d; d.id = string(1, (char)('a' + draw(W, 26))) + std::to_string(i) + (draw(W, 6) == 5 ? pick(W, vector<string>{"\"q", "\\t", " x", "\xc3\xa9"}) : string()); d.phase = phase; d.prio = (int)draw(W, 4) * 10; d.cmd = "plug-" + std::to_string(i);
        d.spec = add_prog(d.cmd);
        string tag = "<" + d.id + ">";
        string fixed = tag + gen_text(maxlen, false);
        good_behaviour(d.spec, [tag](const string &in) { string t; if (!read_json_string_field(in, "text", t)) return string("BADREQ"); return tag + t + "\n" + tag; }, fixed, false);
        if (failures && draw(W, 2)) bad_behaviour(d.spec);
        if (want.timeout && draw(W, 3)) { d.timeout_ms = 50 + (int)draw(W, 3000); }
        if (want.timeout && d.timeout_ms && draw(W, 2)) { d.spec->mode = Spec::READ_ALL; d.spec->hang_after_in = true; d.spec->slow_us = 0; }
        string where = proj && draw(W, 2) ? root2 : root; d.dir = where + "/" + d.id; u32 form = draw(W, 4);
        if (form == 3) { /* member of a bundle, in a directory or a flat manifest */
            string &m = bundle[where]; if (m.empty()) { m = "---\nid: bundle\ntitle: B\nauthor: A\nbundle:\n"; bundle_flat[where] = draw(W, 2); }
            d.dir = bundle_flat[where] ? where : where + "/the-bundle"; m += manifest(d, "  ");
        } else if (form == 2) { d.dir = where; g->fs.put(where + "/flat" + std::to_string(i) + ".yml", manifest(d)); }
        else g->fs.put(d.dir + "/plugin.yml", manifest(d));
        ds.push_back(d);
    }
    for (auto &b : bundle) g->fs.put(b.first + (bundle_flat[b.first] ? "/the-bundle.yml" : "/the-bundle/plugin.yml"), b.second + "---\n");
    if (draw(W, 3) == 2) { /* a declarative plugin among them */
        PluginDecl d; d.id = "rx"; d.phase = phase; d.prio = (int)draw(W, 4) * 10; d.regex = true; d.pat = "w([0-9])7"; d.rep = "<$1>"; d.dir = root + "/rx"; g->fs.put(d.dir + "/plugin.yml", manifest(d)); ds.push_back(d);
    }
    string text = gen_text(maxlen, true);
    if (draw(W, 12) == 11) set_env("APEX_PLUGIN_DIR", "/old/dir");
    if (draw(W, 12) == 11) set_env("APEX_SUPPORT_DIR", "/old/supp");
    if (draw(W, 12) == 11) set_env("APEX_FILE_PATH", "/old/file");
    bool file = draw(W, 2);
    static apex_options opt; opt = apex_options_default(); opt.enable_plugins = true; if (file) opt.input_file_path = "/work/doc.md";
    host_setup();
    std::sort(ds.begin(), ds.end(), [](const PluginDecl &a, const PluginDecl &b) { return a.prio != b.prio ? a.prio < b.prio : a.id < b.id; });
    apex_plugin_manager *m = nullptr;
    g->faults_on = false;
    run_sut([&] { m = apex_plugins_load(&opt); return 0; });
    g->faults_on = true;
    if (!m) fail("not-loaded", "plugins", "no plugin manager although %zu plugins are installed", ds.size());
    interruptions();
    if (hard_faults) { faults_left = 1 + (int)draw(W, 3); if (draw(W, 2)) enable(FK_PIPE_FAIL, 4 + draw(W, 6)); if (draw(W, 2)) enable(FK_FORK_FAIL, 3 + draw(W, 5)); if (draw(W, 2)) enable(FK_EXEC_FAIL, 3 + draw(W, 4)); if (draw(W, 3) == 0) enable(FK_READ_EIO, 12); if (faults_left < 50) { enabled_fault[FK_WRITE_EINTR] = enabled_fault[FK_READ_EINTR] = enabled_fault[FK_WAIT_EINTR] = enabled_fault[FK_POLL_EINTR] = enabled_fault[FK_WRITE_PARTIAL] = false; } }
    if (want.alloc) { g->alloc_armed = true; g->alloc_seen = 0; g->alloc_fail_at = 1 + (long)draw(F, 10 + 14 * n); }
    Before b = before();
    char *res = nullptr; string got; bool changed = false;
    u64 t_start = g->now_us;
    RunResult r = run_sut([&] { res = apex_plugins_run_text_phase(m, phase == "pre_parse" ? APEX_PLUGIN_PHASE_PRE_PARSE : APEX_PLUGIN_PHASE_POST_RENDER, text.c_str(), &opt); return 0; });
    g->alloc_armed = false; g->faults_on = false;
    liveness_check(r, "plugin phase");
    if (res) { got = take(res); changed = true; } else got = text;
    (void)changed; u64 took = g->now_us - t_start;
    /* reference model: walk the pipeline over the recorded history of each program */
    vector<string> cand{text};     /* possible current texts (more than one only after an injected host-side error) */
    string hist; bool host_err = R->faults[FK_READ_EIO] || R->faults[FK_ALLOC_FAIL];
    u64 slack = 0;
    for (auto &d : ds) {
        if (d.regex) {
            if (want.integrity || want.contain || want.alloc) {
                vector<string> nc;
                for (auto &c : cand) { string o; size_t i = 0; bool any = false; while (i < c.size()) { if (c[i] == 'w' && i + 2 < c.size() && isdigit((unsigned char)c[i + 1]) && c[i + 2] == '7') { o += "<"; o += c[i + 1]; o += ">"; i += 3; any = true; } else o += c[i++]; } nc.push_back(any ? o : c); if (host_err) nc.push_back(c); }
                cand = nc;
            }
            continue;
        }
        Spec *s = d.spec;
        hist += d.id + ":" + mode_name(s->mode) + (s->started ? s->died_early || s->final_status ? "/failed " : s->wrote.empty() ? "/empty " : "/ok " : "/not-started ");
        if (s->started && cand.size() == 1) check_request(d, cand[0]);
        if (s->started && want.residue) {
            auto e = [&](const char *k) { auto it = s->env.find(k); return it == s->env.end() ? string("(unset)") : it->second; };
            if (e("APEX_PLUGIN_DIR") != d.dir) fail("wrong-env", "APEX_PLUGIN_DIR", "plugin %s ran with APEX_PLUGIN_DIR=%s, expected %s", d.id.c_str(), e("APEX_PLUGIN_DIR").c_str(), d.dir.c_str());
            if (e("APEX_FILE_PATH") != (file ? "/work/doc.md" : "")) fail("wrong-env", "APEX_FILE_PATH", "plugin %s ran with APEX_FILE_PATH=%s", d.id.c_str(), e("APEX_FILE_PATH").c_str());
            string sd = (xdg.empty() ? string("/home/u/.config") : xdg) + "/apex/support/" + d.id;
            if (e("APEX_SUPPORT_DIR") != sd) fail("wrong-env", "APEX_SUPPORT_DIR", "plugin %s ran with APEX_SUPPORT_DIR=%s, expected %s", d.id.c_str(), e("APEX_SUPPORT_DIR").c_str(), sd.c_str());
        }
        vector<string> nc;
        bool ok = s->started && s->ended && s->final_status == 0 && !s->full.empty();
        bool timed = d.timeout_ms && s->started && !(s->ended && s->final_status == 0);
        for (auto &c : cand) {
            if (ok) { nc.push_back(s->full); if (host_err) nc.push_back(c); if (d.timeout_ms && took > (u64)d.timeout_ms * 1000) nc.push_back(c); }
            else if (s->started && !s->ended && s->got_epipe) nc.push_back(c);
            else nc.push_back(c);
        }
        if (d.timeout_ms) slack += (u64)d.timeout_ms * 1000;
        (void)timed;
        std::sort(nc.begin(), nc.end()); nc.erase(std::unique(nc.begin(), nc.end()), nc.end());
        cand = nc;
        if (s->hung) probe("hung-plugin");
    }
    if (want.integrity || want.contain || want.timeout) { vector<Spec *> v; for (auto &d : ds) if (!d.regex) v.push_back(d.spec); all_started(v, "plugin", hist); }
    bool match = std::find(cand.begin(), cand.end(), got) != cand.end();
    if (want.alloc && got == text) match = true; /* the whole phase may give up, leaving the document alone */
    if (!match && (want.integrity || want.contain || want.alloc || want.timeout)) {
        const string &e = cand[0]; size_t k = 0; while (k < e.size() && k < got.size() && e[k] == got[k]) k++;
        fail("wrong-result", failures || hard_faults ? "plugin-failure" : "plugin", "after %s phase the text has %zu bytes, expected %zu; first difference at %zu: got '%s' expected '%s' [%s]", phase.c_str(), got.size(), e.size(), k, hexq(got.substr(k, 60)).c_str(), hexq(e.substr(k, 60)).c_str(), hist.c_str());
    }
    if (want.timeout) {
        for (auto &d : ds) if (!d.regex && d.spec->hung) { Proc *p = g->procs.count(d.spec->pid) ? g->procs[d.spec->pid] : nullptr; if (p && !p->exited) fail("orphan", "timeout", "plugin %s that exceeded its time limit was left running", d.id.c_str()); }
    }
    if (want.residue) residue_check(b, "plugin phase");
    R->work = cast->all[0]->started || hard_faults || want.alloc;
    sample(std::to_string(ds.size()) + " " + phase + " plugins, text " + std::to_string(text.size()) + "B, pipe " + std::to_string(g->pipe_cap) + ": " + hist);
    run_sut([&] { apex_plugins_free(m); return 0; });
    heap_audit("plugin phase");
}
/* APEX_PRE_PARSE_PLUGIN helper */
static void env_plugin_run(bool failures) {
    common_world(); install_cast(); Spec *s = add_prog("envplug"); set_env("APEX_PRE_PARSE_PLUGIN", "envplug");
    size_t maxlen = g->pipe_cap >= 65536 ? 150000 : 40000;
    PluginDecl d; d.id = "env-pre-parse"; d.phase = "pre_parse"; d.spec = s;
    good_behaviour(s, [](const string &in) { string t; return read_json_string_field(in, "text", t) ? "[" + t + "]" : string("BADREQ"); }, "fixed " + gen_text(maxlen, false), false);
    if (failures && draw(W, 2)) bad_behaviour(s);
    string text = gen_text(maxlen, true); apex_options opt = apex_options_default();
    interruptions(); if (want.alloc) { g->alloc_armed = true; g->alloc_fail_at = 1 + (long)draw(F, 20); }
    Before b = before(); char *res = nullptr;
    RunResult r = run_sut([&] { res = apex_run_preparse_plugin_env(text.c_str(), &opt); return 0; });
    g->faults_on = false; g->alloc_armed = false;
    liveness_check(r, "env plugin"); check_request(d, text);
    bool ok = s->started && s->ended && s->final_status == 0 && !s->full.empty();
    string got = res ? take(res) : text, exp = ok ? s->full : text;
    if ((want.integrity || want.contain || want.alloc) && got != exp && !(R->faults[FK_ALLOC_FAIL] && got == text)) fail("wrong-result", "env-plugin", "APEX_PRE_PARSE_PLUGIN result has %zu bytes, expected %zu (program %s, status %x)", got.size(), exp.size(), mode_name(s->mode), s->final_status);
    residue_check(b, "env plugin"); R->work = 1; sample(string("env plugin ") + mode_name(s->mode));
    heap_audit("env plugin");
}

/* ================================================================ AST filters */
static string gen_markdown(size_t max_len) {
    size_t n = gen_size(max_len); string o; u32 k = draw(W, 1u << 30); auto nx = [&k]() { k = k * 1103515245u + 12345u; return k >> 8; };
    do { u32 r = nx() % 8; if (r == 0) o += "# Head TOK" + std::to_string(nx() % 1000) + "\n\n"; else if (r == 1) o += "- item " + std::to_string(nx() % 1000) + "\n- TOKb\n\n"; else if (r == 2) o += "> quote *em* **strong**\n\n"; else if (r == 3) o += "```c\nint x" + std::to_string(nx() % 100) + " = \"s\\n\";\n```\n\n"; else o += "Para TOK with `code` and \"quotes\" \\\\ n" + std::to_string(nx() % 100000) + " [l](http://e.x/" + std::to_string(nx() % 99) + ")\n\n"; } while (o.size() < n);
    return o;
}
static string replace_all(string s, const string &a, const string &b) { size_t i = 0; while ((i = s.find(a, i)) != string::npos) { s.replace(i, a.size(), b); i += b.size(); } return s; }
static void filters_run(bool failures, bool hard_faults) {
    common_world(); install_cast();
    u32 n = 1 + draw(W, 3); size_t maxlen = g->pipe_cap >= 65536 ? 40000 : 9000;
    string md = gen_markdown(maxlen);
    static apex_options opt; opt = apex_options_default();
    static vector<string> cmds; cmds.clear(); vector<bool> wrong_json(n), invalid_of; static vector<const char *> cp; cp.clear();
    bool strict = draw(W, 2); opt.ast_filter_strict = strict;
    for (u32 i = 0; i < n; i++) {
        cmds.push_back("filt-" + std::to_string(i)); Spec *s = add_prog(cmds.back());
        string to = "TOK" + std::string(1, (char)('A' + i));
        bool invalid = failures && draw(W, 4) == 3; u32 how = draw(W, 10), cut = draw(W, 4) ? draw(W, 12) : draw(W, 5000); bool empty_doc = !invalid && draw(W, 10) == 9;
        auto tr = [to, invalid, how, cut, empty_doc](const string &in) {
            if (empty_doc) return string("{\"pandoc-api-version\":[1,23,1],\"meta\":{},\"blocks\":[]}");
            if (invalid) { switch (how) { case 0: return string("not json"); case 1: return in.substr(0, in.size() / 2); case 2: return string("{}"); case 3: return string("[1,2"); case 4: return string("{\"pandoc-api-version\":[1,23,1],\"meta\":{},\"blocks\":") + (cut % 2 ? "{}}" : "\"text\"}"); case 5: return string("{\"pandoc-api-version\":[1,23,1],\"meta\":{}}"); case 6: { string x = in; size_t e = x.find_last_of(']'); if (e != string::npos) x.erase(e, 1); return x; } default: { size_t e = in.find_last_of('}'); return e == string::npos ? string() : in.substr(0, e - cut % (e + 1)); } } }
            return replace_all(in, "TOK", to); };
        invalid_of.push_back(invalid); good_behaviour(s, tr, "", true);
        if (!invalid && !empty_doc && draw(W, 4) == 3) { s->mode = Spec::STREAM; s->pre = "\n"; }
        if (failures && draw(W, 2)) { if (draw(W, 3) == 0) { s->mode = pick(W, vector<Spec::Mode>{Spec::IGNORE_STDIN, Spec::CLOSE_STDIN, Spec::READ_SOME}); s->read_limit = gen_size(8000); s->exit_code = 2; } else bad_behaviour(s); }
        else if (!invalid && draw(W, 8) == 7) { s->mode = pick(W, vector<Spec::Mode>{Spec::IGNORE_STDIN, Spec::CLOSE_STDIN, Spec::READ_SOME, Spec::WRITE_FIRST}); s->read_limit = gen_size(8000); s->pre = "{\"pandoc-api-version\":[1,23,1],\"meta\":{},\"blocks\":[{\"t\":\"Para\",\"c\":[{\"t\":\"Str\",\"c\":\"fixed" + std::to_string(i) + "\"}]}]}" + string(draw(W, 2) ? gen_size(9000) : 0, ' '); }
    }
    for (auto &c : cmds) cp.push_back(c.c_str());
    for (u32 i = 0; i < n; i++) wrong_json[i] = invalid_of[i] && (cast->all[i]->mode == Spec::READ_ALL || cast->all[i]->mode == Spec::CLOSE_OUT_EARLY);
    opt.ast_filter_commands = cp.data(); opt.ast_filter_count = cp.size();
    if (draw(W, 3) == 2) set_env("APEX_TARGET_FORMAT", "previous");
    host_setup();
    cmark_node *doc = nullptr;
    g->faults_on = false;
    run_sut([&] { doc = cmark_parse_document(md.data(), md.size(), CMARK_OPT_DEFAULT); return 0; });
    auto js = [&](cmark_node *d) { char *j = nullptr; run_sut([&] { j = apex_cmark_to_pandoc_json(d, &opt); return 0; }); return take(j); };
    auto reparse = [&](const string &j) { cmark_node *d = nullptr; string c = j; run_sut([&] { d = apex_pandoc_json_to_cmark(c.c_str(), &opt); return 0; }); return d; };
    string j0 = js(doc);
    g->faults_on = true;
    interruptions();
    if (hard_faults) { faults_left = 1 + (int)draw(W, 3); for (int f = 0; f < FK_COUNT; f++) enabled_fault[f] = false; if (draw(W, 2)) enable(FK_PIPE_FAIL, 3 + draw(W, 6)); if (draw(W, 2)) enable(FK_FORK_FAIL, 3 + draw(W, 4)); if (draw(W, 2)) enable(FK_EXEC_FAIL, 3 + draw(W, 4)); if (draw(W, 3) == 0) enable(FK_READ_EIO, 10); }
    Before b = before(); cmark_node *res = nullptr;
    RunResult r = run_sut([&] { res = apex_run_ast_filters(doc, &opt, "html"); return 0; });
    g->faults_on = false;
    liveness_check(r, "AST filters");
    residue_check(b, "AST filters", false);
    string resj = res ? js(res) : string(); bool new_res = res && res != doc;
    if (new_res) run_sut([&] { cmark_node_free(res); return 0; });
    residue_check(b, "AST filters");
    /* model */
    string cur = j0; string hist; bool null_exp = false, uncertain = false; bool host_err = R->faults[FK_READ_EIO] > 0;
    for (u32 i = 0; i < n && !null_exp; i++) {
        Spec *s = cast->all[i];
        bool ok = s->started && s->ended && s->final_status == 0;
        hist += cmds[i] + ":" + mode_name(s->mode) + (s->started ? ok ? "/ok " : "/failed " : "/not-started ");
        if (s->started && s->saw_eof && !uncertain && want.integrity && (s->mode == Spec::READ_ALL || s->mode == Spec::STREAM || s->mode == Spec::CLOSE_OUT_EARLY)) {
            if (s->received != cur && s->received != cur + "\n") fail("wrong-request", "filter", "filter %u received %zu bytes, the serialised document has %zu", i, s->received.size(), cur.size());
            probe("requests-verified"); if (cur.size() > g->pipe_cap) probe("request-larger-than-pipe");
        }
        if (s->started && want.residue) { auto it = s->env.find("APEX_TARGET_FORMAT"); if (it == s->env.end() || it->second != "html") fail("wrong-env", "APEX_TARGET_FORMAT", "filter ran with APEX_TARGET_FORMAT=%s", it == s->env.end() ? "(unset)" : it->second.c_str()); }
        bool good = ok;
        if (ok && wrong_json[i]) good = false; else if (ok) { cmark_node *nd = reparse(s->full); if (!nd) good = false; else { if (cmark_node_first_child(nd) || cur.find("\"blocks\":[]") != string::npos) cur = js(nd); else if (string(cur) == j0 && !cmark_node_first_child(doc)) cur = js(nd); } }
        if (!good) { if (strict) null_exp = true; }
        if (host_err && ok) { uncertain = true; break; }
    }
    if (null_exp && want.strict) { /* nothing may run after the failed filter */
        bool failed_seen = false;
        for (u32 i = 0; i < n; i++) { Spec *s = cast->all[i]; if (failed_seen && s->started) fail("ran-after-failure", "filter", "filter %u ran although an earlier filter failed in strict mode", i); bool ok = s->started && s->final_status == 0; if (wrong_json[i]) ok = false; else if (ok) { cmark_node *nd = reparse(s->full); if (!nd) ok = false; } if (!ok) failed_seen = true; }
    }
    if ((want.integrity || want.strict) && !strict) all_started(cast->all, "filter", hist);
    if ((want.integrity || want.strict) && !uncertain) {
        if (null_exp) { if (res) fail("strict-ignored", "filter", "a filter failed in strict mode but a document was returned [%s]", hist.c_str()); }
        else {
            if (!res) fail("no-document", "filter", "no document returned although %s [%s]", strict ? "every filter succeeded" : "filters are not strict", hist.c_str());
            string got = resj;
            if (got != cur) fail("wrong-result", failures || hard_faults ? "filter-failure" : "filter", "filtered document differs from the model (%zu vs %zu bytes of JSON) strict=%d [%s]", got.size(), cur.size(), strict, hist.c_str());
        }
    }
    if (uncertain && res && want.strict && strict) { string got = resj; if (got != cur) fail("wrong-result", "filter-eio", "after a read error in strict mode neither failure nor the full result"); }
    R->work = 1; sample(std::to_string(n) + " filters strict=" + std::to_string(strict) + " md " + std::to_string(md.size()) + "B json " + std::to_string(j0.size()) + "B pipe " + std::to_string(g->pipe_cap) + ": " + hist);
    heap_audit("AST filters");
}

/* ================================================================ highlighters */
static string esc_html(const string &s) { string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else o += c; } return o; }
static void highlight_run(bool failures, bool hard_faults) {
    common_world(); install_cast();
    string tool = pick(W, vector<string>{"pygments", "skylighting", "shiki"}); string bin = tool == "pygments" ? "pygmentize" : tool;
    bool ln = draw(W, 2), lang_only = draw(W, 4) == 3, ansi = draw(W, 4) == 3;
    bool missing = draw(W, 16) == 15; if (missing) g->tools.erase(bin);
    u32 n = 1 + draw(W, 6);
    struct Blk { string before, html, code, lang; bool candidate; Spec *spec = nullptr; };
    vector<Blk> bs; string html; size_t maxcode = g->pipe_cap >= 65536 ? 100000 : 20000;
    static vector<Spec *> order; order.clear();
    for (u32 i = 0; i < n; i++) {
        Blk b; b.before = "<p>para " + std::to_string(i) + " " + replace_all(gen_text(2000, false), "<", "") + "</p>\n"; 
        if (draw(W, 4) == 3) b.before += pick(W, vector<string>{"<pre>plain pre</pre>\n", "<pre class=\"x\">a\nb</pre>", "<prefix>t</prefix>", "<p><code>&lt;pre&gt;</code></p>\n", "<preview><code>v</code></preview>", "\n\n\n", "<pre><code>hand-written</code>\n</pre>\n", "<pre><code>a</code> and <code>b</code>.</pre>\n", "<pre>\n <b>x</b></pre>"});
        if (draw(W, 5) == 4) b.before = "\n\n" + b.before;
        b.code = gen_text(maxcode, true); b.code.erase(std::remove(b.code.begin(), b.code.end(), '\x1b'), b.code.end());
        if (draw(W, 12) == 11) b.code.clear();
        if (draw(W, 4) == 3) { b.code += pick(W, vector<string>{"&lt;b&gt; ", "a &amp;amp; b", "it's &#39;", "&quot;x&amp;lt;", "& &unknown; &", "'"}); if (draw(W, 2)) b.code += gen_text(200, true); b.code.erase(std::remove(b.code.begin(), b.code.end(), '\x1b'), b.code.end()); }
        const char *apos = pick(W, vector<const char *>{"'", "'", "&#39;", "&apos;"});
        u32 st = draw(W, 4); b.lang = st == 0 ? "" : pick(W, vector<string>{"c", "python", "js", "c++"});
        string e = replace_all(esc_html(b.code), "'", apos);
        if (st == 0) b.html = "<pre><code>" + e + "</code></pre>";
        else if (st == 1) b.html = "<pre lang=\"" + b.lang + "\"><code>" + e + "</code></pre>";
        else if (st == 2) b.html = "<pre><code class=\"language-" + b.lang + "\">" + e + "</code></pre>";
        else b.html = "<pre>\n<code class=\"hl language-" + b.lang + "\">" + e + "</code></pre>";
        b.candidate = !missing && !(lang_only && b.lang.empty());
        html += b.before + b.html;
        if (b.candidate) {
            Spec *s = new Spec; s->cmd = bin; b.spec = s; order.push_back(s); cast->all.push_back(s);
            string tag = "<div class=\"hl" + std::to_string(i) + "\">";
            u32 blow = draw(W, 5) == 4 ? 2 + draw(W, 5) : 1;
            string lead = draw(W, 6) == 5 ? "\n" : "", end = pick(W, vector<string>{"", "\n", "\n\n", " "});
            auto tr = [tag, blow, lead, end](const string &in) { string o = lead + tag; for (u32 k = 0; k < blow; k++) o += in; return o + "</div>" + end; };
            good_behaviour(s, tr, lead + tag + gen_text(maxcode, false) + "</div>" + end, false);
            if (failures && draw(W, 2)) bad_behaviour(s);
        }
        bs.push_back(b);
    }
    string tail = draw(W, 2) ? "<p>end</p>\n" + gen_text(500, false) : ""; tail = replace_all(tail, "<pre", "<pr"); html += tail;
    static size_t next; next = 0;
    static string want_bin; want_bin = bin;
    cast->fallback = [](const string &cmd) -> Spec * {
        if (cmd.compare(0, want_bin.size(), want_bin) != 0) return nullptr;
        /* which block is this? decided by what it reads; hand out in call order */
        if (next < order.size()) return order[next++];
        return nullptr; };
    interruptions();
    host_setup();
    vector<bool> spawned_fail;
    if (hard_faults) { faults_left = 1 + (int)draw(W, 3); for (int f = 0; f < FK_COUNT; f++) enabled_fault[f] = false; if (draw(W, 2)) enable(FK_PIPE_FAIL, 5 + draw(W, 8)); if (draw(W, 2)) enable(FK_FORK_FAIL, 3 + draw(W, 6)); if (draw(W, 2)) enable(FK_EXEC_FAIL, 3 + draw(W, 6)); if (draw(W, 3) == 0) enable(FK_READ_EIO, 12); if (draw(W, 5) == 4) enable(FK_SYSTEM_FAIL, 2); if (draw(W, 5) == 4) enable(FK_TOOL_MISSING, 2); }
    set_env("APEX_SUPPRESS_HIGHLIGHT_WARNINGS", "1");
    if (want.alloc) { g->alloc_armed = true; g->alloc_fail_at = 1 + (long)draw(F, 4 + 12 * n); }
    Before b0 = before(); char *res = nullptr;
    RunResult r = run_sut([&] { res = apex_apply_syntax_highlighting(html.c_str(), tool.c_str(), ln, lang_only, ansi); return 0; });
    g->faults_on = false; g->alloc_armed = false;
    liveness_check(r, "code highlighting"); residue_check(b0, "code highlighting", false);
    if (!res && R->faults[FK_ALLOC_FAIL]) { probe("gave-up"); R->work = 1; return; } /* the caller keeps the HTML it has */
    if (!res) fail("no-output", "highlight", "highlighting returned nothing");
    string got = take(res); residue_check(b0, "code highlighting");
    bool tool_gone = R->faults[FK_SYSTEM_FAIL] || R->faults[FK_TOOL_MISSING];
    /* model: walk got from the left; every piece must be verbatim or the complete output of one program run */
    if (want.integrity || want.highlight || want.alloc) {
        size_t at = 0; string hist; std::set<Spec *> used;
        auto expect = [&](const string &piece) { if (got.compare(at, piece.size(), piece) == 0) { at += piece.size(); return true; } return false; };
        bool host_err = R->faults[FK_READ_EIO] > 0 || R->faults[FK_ALLOC_FAIL] > 0;
        for (size_t i = 0; i < bs.size(); i++) {
            Blk &b = bs[i];
            if (!expect(b.before)) fail("text-changed", "highlight", "text before code block %zu is not in the output unchanged at %zu: '%s' expected '%s'", i, at, hexq(got.substr(at, 60)).c_str(), hexq(b.before.substr(0, 60)).c_str());
            /* programs are started in block order; a block whose program could not be started took none from the list */
            bool done = false, any_ok = false;
            if (b.candidate && !tool_gone) for (Spec *s : order) {
                if (!s->started || used.count(s)) continue;
                bool ok = s->ended && s->final_status == 0 && !s->full.empty();
                bool mine = s->saw_eof ? s->received == b.code : true;
                if (ok && mine && expect(s->full)) { used.insert(s); done = true; hist += "H"; break; }
                if (ok && s->saw_eof && s->received == b.code) any_ok = true;
                if (!hard_faults && !R->faults[FK_ALLOC_FAIL]) { /* the program of this block, in order */
                    used.insert(s);
                    if (ok && !host_err) fail("output-dropped", "highlight", "block %zu: the highlighter succeeded with %zu bytes (received %zu of %zu code bytes, eof=%d) but its output is not at %zu: '%s'", i, s->full.size(), s->received.size(), b.code.size(), s->saw_eof, at, hexq(got.substr(at, 60)).c_str());
                    break;
                }
                if (!ok && mine && !R->faults[FK_ALLOC_FAIL]) { used.insert(s); break; }
            }
            (void)any_ok;
            if (!done) { if (!expect(b.html)) fail("block-lost", "highlight", "code block %zu of %zu (%zu bytes) is neither highlighted nor kept verbatim; output continues with '%s' [%s]", i, bs.size(), b.html.size(), hexq(got.substr(at, 80)).c_str(), hist.c_str()); hist += "v"; }
        }
        if (!expect(tail) || at != got.size()) fail("text-changed", "highlight", "text after the last code block changed: '%s' expected '%s'", hexq(got.substr(at, 60)).c_str(), hexq(tail.substr(0, 60)).c_str());
        sample(tool + " " + std::to_string(n) + " blocks, html " + std::to_string(html.size()) + "B pipe " + std::to_string(g->pipe_cap) + ": " + hist);
    }
    R->work = 1;
    heap_audit("code highlighting");
}
/* ================================================================ whole conversions through the command line */
static string slurp_block(const string &h, size_t from, size_t &end) { size_t k = h.find("</pre>", from); end = k == string::npos ? h.size() : k + 6; return h.substr(from, end - from); }
/* one conversion with plugins, filters and a highlighter; the reference is the same conversion of what the programs
 * returned, without them */
static void whole_run(bool failures, bool hard_faults, int focus /* 1 plugins, 2 filters, 3 highlighter, 0 any */) {
    common_world(); install_cast(); g->heap_check = false; g->tools.insert("lua");
    u32 fm = draw(W, 8); string fmt = fm == 7 ? "terminal" : fm == 6 ? "man-html" : fm == 5 ? "json-filtered" : fm == 4 ? "markdown" : "html"; bool standalone = fm == 3;
    bool html = fmt == "html", can_hl = (html && !standalone) || fmt == "terminal" || fmt == "man-html";
    if (focus == 3 && !can_hl) { fmt = "html"; html = true; standalone = false; can_hl = true; }
    bool xdg = draw(W, 2); if (xdg) set_env("XDG_CONFIG_HOME", "/cfg"); string conf = xdg ? "/cfg/apex" : "/home/u/.config/apex"; g->fs.mkdirs(conf); g->fs.mkdirs("/docs");
    size_t maxlen = g->pipe_cap >= 65536 ? 70000 : 12000;
    /* the document: plain paragraphs and code blocks, each different */
    string doc = "Start TOK.\n\n"; vector<string> codes, langs; u32 nb = draw(W, 5);
    for (u32 i = 0; i < nb; i++) {
        if (draw(W, 2)) doc += "Para TOK n" + std::to_string(i) + " " + replace_all(replace_all(gen_text(2000, false), "<", ""), "\n", " ") + "end.\n\n";
        string code = "code" + std::to_string(i) + " " + gen_text(draw(W, 12) == 11 ? 140000 : maxlen / 2, false); while (!code.empty() && (code.back() == '\n' || code.back() == ' ')) code.pop_back(); code += "\n";
        string lang = draw(W, 4) == 3 ? "" : pick(W, vector<string>{"c", "python", "js"}); langs.push_back(lang); codes.push_back(code);
        doc += "```" + lang + "\n" + code + "```\n\n";
    }
    doc += "Last TOK words " + replace_all(replace_all(gen_text(1000, false), "<", ""), "\n", " ") + "end.\n";
    vector<string> base; if (fmt != "html") { base.push_back("-t"); base.push_back(fmt); } if (standalone) base.push_back("-s");
    vector<string> a = base; string file = draw(W, 3) == 2 ? "" : "/docs/doc.md"; bool to_file = draw(W, 2); if (to_file) g->fs.put("/docs/out.html", "OLD CONTENT\n");
    /* plugins */
    vector<PluginDecl> ds; bool plugins = focus == 1 || draw(W, 3) == 2;
    if (plugins) { a.push_back("--plugins"); u32 n = 1 + draw(W, 3);
        for (u32 i = 0; i < n; i++) {
            PluginDecl d; d.id = string(1, (char)('a' + draw(W, 26))) + std::to_string(i); d.phase = draw(W, 2) && html ? "post_render" : "pre_parse"; d.prio = (int)draw(W, 3) * 10; d.cmd = "plug-" + std::to_string(i); d.spec = add_prog(d.cmd); d.dir = (draw(W, 2) ? conf : string("/work/.apex")) + "/plugins/" + d.id;
            string tag = d.phase == "pre_parse" ? "Tag" + d.id + "\n\n" : "<i>" + d.id + "</i>\n"; 
            good_behaviour(d.spec, [tag](const string &in) { string t; return read_json_string_field(in, "text", t) ? tag + t : string("BADREQ"); }, "", true);
            if (draw(W, 8) == 7) { d.spec->mode = Spec::IGNORE_STDIN; d.spec->pre = tag + "fixed"; }
            if (failures && draw(W, 2)) bad_behaviour(d.spec);
            g->fs.put(d.dir + "/plugin.yml", manifest(d)); ds.push_back(d); }
        std::sort(ds.begin(), ds.end(), [](const PluginDecl &x, const PluginDecl &y) { return x.prio != y.prio ? x.prio < y.prio : x.id < y.id; }); }
    /* filters */
    struct Filt { Spec *s; bool invalid; string name; }; vector<Filt> fs; bool strict = true;
    if (focus == 2 || draw(W, 4) == 3) { u32 n = 1 + draw(W, 3); bool all = draw(W, 3) == 2; g->fs.mkdirs(conf + "/filters");
        for (u32 i = 0; i < n; i++) {
            u32 how = all ? 0 : draw(W, 4); string nm = "f" + std::to_string(i), path = conf + "/filters/" + nm, cmd = path; 
            if (how == 1) { path += ".lua"; cmd = "lua " + path; } else if (how == 2) path = cmd = path + "/" + nm; else if (how == 3) { path = "/docs/" + nm + ".lua"; cmd = "lua " + path; }
            g->fs.put(path, "#!/bin/sh\n", 0755); Filt f; f.name = path; f.s = new Spec; f.s->cmd = path; cast->all.push_back(f.s);
            f.invalid = failures && draw(W, 4) == 3; u32 inv = draw(W, 4); bool iv = f.invalid; string to = "TOK" + string(1, (char)('A' + i));
            good_behaviour(f.s, [to, iv, inv](const string &in) { if (iv) switch (inv) { case 0: return string("not json"); case 1: return in.substr(0, in.size() / 2); case 2: return string("{}"); default: return string("[1,2"); } return replace_all(in, "TOK", to); }, "", true);
            if (failures && draw(W, 2)) bad_behaviour(f.s);
            if (f.s->mode != Spec::READ_ALL && f.s->mode != Spec::CLOSE_OUT_EARLY) f.s->mode = Spec::READ_ALL;
            if (!all) { a.push_back(how == 3 ? "--lua-filter" : "--filter"); a.push_back(how == 3 ? path : nm); }
            fs.push_back(f); }
        if (all) a.push_back("--filters"); else std::stable_sort(fs.begin(), fs.end(), [](const Filt &x, const Filt &y) { return (x.name.compare(0, 6, "/docs/") == 0) < (y.name.compare(0, 6, "/docs/") == 0); });
        if (draw(W, 2)) { strict = false; a.push_back("--no-strict-filters"); } }
    /* highlighter */
    bool hl = can_hl && (focus == 3 || draw(W, 3) == 2); string tool, bin; static vector<Spec *> order; static size_t next; order.clear(); next = 0;
    if (hl) { tool = pick(W, vector<string>{"pygments", "skylighting", "shiki"}); if (fmt == "terminal") tool = "pygments"; bin = tool == "pygments" ? "pygmentize" : tool; a.push_back("--code-highlight"); a.push_back(tool);
        for (u32 i = 0; i < nb; i++) { Spec *s = new Spec; s->cmd = bin; order.push_back(s); cast->all.push_back(s); string tag = "<div class=\"hl" + std::to_string(i) + "\">"; u32 blow = draw(W, 5) == 4 ? 2 + draw(W, 4) : 1;
            good_behaviour(s, [tag, blow](const string &in) { string o = tag; for (u32 k = 0; k < blow; k++) o += in; return o + "</div>"; }, tag + "fixed</div>", false); if (failures && draw(W, 2)) bad_behaviour(s); } }
    static std::map<string, Spec *> *fmap; fmap = new std::map<string, Spec *>; for (auto &f : fs) (*fmap)[f.name] = f.s; static string s_bin; s_bin = bin;
    g->resolve = [](const string &cmd, Proc &p) -> Prog * {
        Spec *s = nullptr; auto it = cast->by_cmd.find(cmd); if (it != cast->by_cmd.end() && !it->second.empty()) { s = it->second.front(); it->second.pop_front(); }
        else if (!s_bin.empty() && cmd.compare(0, s_bin.size(), s_bin) == 0) { if (next < order.size()) s = order[next++]; }
        else { vector<string> w; if (shell_words(cmd, p, w) && !w.empty() && fmap->count(w.back())) { s = (*fmap)[w.back()]; if (s->started) s = nullptr; } }
        if (!s) return nullptr;
        s->env = p.env; return script_prog(s); };
    set_env("APEX_SUPPRESS_HIGHLIGHT_WARNINGS", "1");
    if (to_file) { a.push_back("-o"); a.push_back("/docs/out.html"); }
    if (!file.empty()) { g->fs.put(file, doc); a.push_back(file); } else g->in.data = doc;
    interruptions();
    if (hard_faults) { faults_left = 1 + (int)draw(W, 2); for (int f = 0; f < FK_COUNT; f++) enabled_fault[f] = false; if (draw(W, 2)) enable(FK_PIPE_FAIL, 4 + draw(W, 8)); if (draw(W, 2)) enable(FK_FORK_FAIL, 3 + draw(W, 6)); if (draw(W, 2)) enable(FK_EXEC_FAIL, 3 + draw(W, 6)); }
    string cmdl; for (auto &x : a) cmdl += x + " ";
    RunResult r = run_cli(a); g->faults_on = false; string out = g->out.data, err = g->err.data, ofile = g->fs.get("/docs/out.html");
    if (r.killed_sigpipe) { if (want.liveness) fail("host-killed", "conversion", "apex was killed by SIGPIPE during: apex %s", cmdl.c_str()); R->work = 0; return; }
    if (want.residue) {
        if (open_fd_count()) fail("fd-leak", "conversion", "%d descriptor(s) left open after: apex %s", open_fd_count(), cmdl.c_str());
        if (zombie_children()) fail("zombie", "conversion", "%d program(s) not reaped after: apex %s", zombie_children(), cmdl.c_str());
        if (live_children()) fail("orphan", "conversion", "%d programs still running after: apex %s", live_children(), cmdl.c_str());
        auto e = [&](Spec *s, const char *k) { auto it = s->env.find(k); return it == s->env.end() ? string("(unset)") : it->second; };
        for (auto &d : ds) if (d.spec->started) { if (e(d.spec, "APEX_PLUGIN_DIR") != d.dir || e(d.spec, "APEX_SUPPORT_DIR") != conf + "/support/" + d.id || e(d.spec, "APEX_FILE_PATH") != file) fail("wrong-env", "plugin", "plugin %s in %s (support %s, file '%s') saw APEX_PLUGIN_DIR=%s APEX_SUPPORT_DIR=%s APEX_FILE_PATH=%s", d.id.c_str(), d.dir.c_str(), (conf + "/support/" + d.id).c_str(), file.c_str(), e(d.spec, "APEX_PLUGIN_DIR").c_str(), e(d.spec, "APEX_SUPPORT_DIR").c_str(), e(d.spec, "APEX_FILE_PATH").c_str()); }
        vector<Spec *> oth = order; for (auto &f : fs) oth.push_back(f.s); for (Spec *s : oth) if (s->started) for (const char *k : {"APEX_PLUGIN_DIR", "APEX_SUPPORT_DIR", "APEX_FILE_PATH"}) if (e(s, k) != "(unset)") fail("env-changed", "conversion", "%s ran with %s=%s left over from a plugin", s->cmd.c_str(), k, e(s, k).c_str());
    }
    /* the model */
    string hist = cmdl + ": "; auto ok = [](Spec *s) { return s->started && s->ended && s->final_status == 0 && !s->full.empty(); };
    string text = doc; for (auto &d : ds) if (d.phase == "pre_parse") { hist += d.id + (ok(d.spec) ? "+ " : "- "); if (d.spec->started) check_request(d, text); if (ok(d.spec)) text = d.spec->full; }
    bool fatal = false; string jdoc; for (auto &f : fs) { if (fatal) { if (want.strict && f.s->started) fail("ran-after-failure", "filter", "filter %s ran although an earlier one failed in strict mode", f.name.c_str()); continue; } bool good = ok(f.s) && !f.invalid; hist += f.name + (good ? "+ " : "- "); if (good) jdoc = f.s->full; else if (strict) fatal = true; }
    if (fatal) {
        if (want.strict || want.contain) { if (r.status == 0) fail("strict-ignored", "conversion", "a filter failed in strict mode but apex exited with 0 [%s]", hist.c_str()); if (!out.empty()) fail("strict-ignored", "output", "a filter failed in strict mode but apex printed %zu bytes [%s]", out.size(), hist.c_str()); if (to_file && ofile != "OLD CONTENT\n") fail("strict-ignored", "output file", "a filter failed in strict mode but the output file was replaced [%s]", hist.c_str()); }
        probe("strict-failures"); R->work = 1; sample(hist); return;
    }
    string got = to_file ? ofile : out;
    if (want.contain || want.integrity || want.strict) { vector<Spec *> v; for (auto &d : ds) if (d.phase == "pre_parse" || html) v.push_back(d.spec); for (auto &f : fs) v.push_back(f.s); all_started(v, "program", hist); }
    if (!(want.integrity || want.contain || want.strict || want.highlight)) { R->work = 1; sample(hist); return; }
    if (r.status != 0) fail("failed", "conversion", "apex exited with %d: %s [%s]", r.status, hexq(err).c_str(), hist.c_str());
    /* reference conversion of what the programs returned */
    for (int f = 0; f < FK_COUNT; f++) enabled_fault[f] = false;
    auto ref = [&](vector<string> ra) { static string s_j; s_j = jdoc; vector<string> x = ra; if (!jdoc.empty()) { x.push_back("--lua-filter"); x.push_back("/docs/ref.lua"); } g->resolve = [](const string &cmd, Proc &) -> Prog * { Spec *s = new Spec; s->cmd = cmd; s->transform = [](const string &) { return s_j; }; return script_prog(s); };
        if (!file.empty()) { g->fs.put("/docs/doc.md", text); x.push_back("/docs/doc.md"); } else { g->in.data = text; g->in.off = 0; } RunResult q = run_cli(x); if (q.status != 0) fail("failed", "reference", "the conversion without external programs exited with %d", q.status); return g->out.data; };
    string H = ref(base); vector<string> cand;
    if (hl) { /* code blocks in order, each verbatim or the complete output of one run on exactly its code */
        string o; size_t at = 0, k = 0; vector<std::pair<size_t, size_t>> blocks; /* in H */
        if (fmt == "terminal") for (size_t i = 0; i < codes.size(); i++) { size_t b = H.find("```" + langs[i] + "\n" + codes[i], k); if (b == string::npos) { blocks.clear(); break; } size_t ls = H.rfind('\n', b); ls = ls == string::npos ? 0 : ls + 1; size_t e = H.find("\n```", b + 3); size_t e2 = e == string::npos ? H.size() : H.find("\n\n", e + 1); e2 = e2 == string::npos ? H.size() : e2 + 2; blocks.push_back({ls, e2}); k = e2; }
        else for (;;) { size_t b = H.find("<pre", k); if (b == string::npos) break; size_t e; slurp_block(H, b, e); blocks.push_back({b, e}); k = e; }
        if (blocks.size() != codes.size()) { R->work = 0; return; } /* a fixed plugin result without the code blocks */
        std::set<Spec *> used;
        for (size_t i = 0; i < blocks.size(); i++) {
            o += H.substr(at, blocks[i].first - at); string verb = H.substr(blocks[i].first, blocks[i].second - blocks[i].first); Spec *mine = nullptr;
            for (Spec *s : order) if (s->started && !used.count(s)) { if (s->saw_eof && s->received != codes[i]) { if (hard_faults) { bool other = false; for (size_t j = i + 1; j < codes.size(); j++) if (s->received == codes[j]) other = true; if (other) break; } if (want.integrity || want.highlight) fail("wrong-request", "highlighter", "the highlighter for block %zu was given %zu bytes, its code has %zu [%s]", i, s->received.size(), codes[i].size(), hist.c_str()); } mine = s; break; }
            if (mine && hard_faults && !mine->saw_eof) { R->work = 0; return; } /* which block it was for cannot be told */
            if (mine) used.insert(mine);
            if (mine && ok(mine)) { string f = mine->full; if (fmt == "terminal") { if (f.back() != '\n') f += "\n"; f += "\n"; } o += f; hist += "H"; } else { o += verb; hist += "v"; }
            at = blocks[i].second;
        }
        o += H.substr(at); H = o;
    }
    string frag = H; if (standalone) { frag = ref({}); if (H.find(frag) == string::npos) { R->work = 0; return; } }
    string cur = frag; for (auto &d : ds) if (d.phase == "post_render") { hist += d.id + (ok(d.spec) ? "+ " : "- "); if (d.spec->started) check_request(d, cur); if (ok(d.spec)) cur = d.spec->full; }
    string exp = H; if (standalone) { size_t k = H.find(frag); exp = H.substr(0, k) + cur + H.substr(k + frag.size()); } else exp = cur;
    if (got != exp) { size_t k = 0; while (k < exp.size() && k < got.size() && exp[k] == got[k]) k++; fail("wrong-result", failures || hard_faults ? "conversion-failure" : "conversion", "the output has %zu bytes, the conversion of what the programs returned has %zu; first difference at %zu: got '%s' expected '%s' [%s]", got.size(), exp.size(), k, hexq(got.substr(k > 20 ? k - 20 : 0, 80)).c_str(), hexq(exp.substr(k > 20 ? k - 20 : 0, 80)).c_str(), hist.c_str()); }
    probe("whole-conversions"); R->work = 1; sample(hist);
}
/* ================================================================ properties */
static void p01() { want = Want(); want.integrity = true; switch (draw(W, 10)) { case 8: case 9: whole_run(false, false, 0); break; case 0: case 1: case 2: plugins_run(false, false); break; case 3: case 4: filters_run(false, false); break; case 5: case 6: highlight_run(false, false); break; default: env_plugin_run(false); } }
static void p02() { want = Want(); want.liveness = true; bool f = draw(W, 2); switch (draw(W, 9)) { case 8: whole_run(f, false, 0); break; case 0: case 1: case 2: plugins_run(f, f && draw(W, 2)); break; case 3: case 4: filters_run(f, f && draw(W, 2)); break; case 5: case 6: highlight_run(f, f && draw(W, 2)); break; default: env_plugin_run(f); } }
static void p03() { want = Want(); want.contain = true; u32 k = draw(W, 10); if (k == 7) env_plugin_run(true); else if (k > 7) whole_run(true, draw(W, 3) == 2, 1); else plugins_run(true, draw(W, 3) == 2); }
static void p04() { want = Want(); want.strict = true; if (draw(W, 4) == 3) whole_run(draw(W, 4) != 0, draw(W, 3) == 2, 2); else filters_run(true, draw(W, 3) == 2); }
static void p05() { want = Want(); want.residue = true; bool f = draw(W, 2); switch (draw(W, 9)) { case 8: whole_run(f, f && draw(W, 2), 0); break; case 0: case 1: case 2: plugins_run(f, f && draw(W, 2)); break; case 3: case 4: filters_run(f, f && draw(W, 2)); break; case 5: case 6: highlight_run(f, f && draw(W, 2)); break; default: env_plugin_run(f); } }
static void p07() { want = Want(); want.highlight = true; if (draw(W, 5) == 4) whole_run(draw(W, 3) != 0, draw(W, 4) == 3, 3); else highlight_run(draw(W, 3) != 0, draw(W, 4) == 3); }
static void p18() { want = Want(); want.alloc = true; want.residue = true; switch (draw(W, 4)) { case 0: env_plugin_run(draw(W, 2)); break; case 1: highlight_run(draw(W, 2), false); break; default: plugins_run(draw(W, 2), false); } }
static Reg r18({"P18", "memory exhaustion in exchanges", p18, "", "One case: one seeded run of the real plugin phase, environment plugin or highlighter code against scripted programs (as in P01 and P03) in which one allocation, chosen by the seed, fails; the result must be that of the succeeding programs, each exchange around the failing allocation either used completely or not at all; descriptors, children, environment and heap are audited. Non-trivial: the run ended and was compared; distinct: different sequence of (process, operation).", "exploration"});
static Reg r01({"P01", "exchange integrity", p01, "", "One case: one seeded run of the real plugin, filter and highlighter code against scripted programs (how each reads, writes, stalls, closes, dies, and in which pieces), pipe capacities of 4-64 KiB, documents of 0-150 KB, and a seeded schedule of every system call of host and program; short transfers and interrupted calls injected; what each program received and what Apex used is compared with the recorded history. Non-trivial: at least one program was started and the result was compared with the model; distinct: different sequence of (process, operation).", "exploration"});
static Reg r02({"P02", "exchange liveness", p02, "", "One case: one seeded run of the real plugin, filter and highlighter code against scripted programs (how each reads, writes, stalls, closes, dies, and in which pieces), pipe capacities of 4-64 KiB, documents of 0-150 KB, and a seeded schedule of every system call of host and program; programs may also fail, be killed or not start; a state in which nothing can run while Apex waits, or Apex ended by SIGPIPE, is a violation. Non-trivial: at least one program was started and the result was compared with the model; distinct: different sequence of (process, operation).", "exploration"});
static Reg r03({"P03", "plugin failure containment", p03, "", "One case: one seeded run of the real plugin phase code against scripted programs (how each reads, writes, stalls, closes, dies, and in which pieces), pipe capacities of 4-64 KiB, documents of 0-150 KB, and a seeded schedule of every system call of host and program; half of the plugins fail (exit status, signal, no output, partial output, not startable, pipe/fork failure); the result must be the pipeline of the succeeding plugins only. Non-trivial: at least one program was started and the result was compared with the model; distinct: different sequence of (process, operation).", "exploration"});
static Reg r04({"P04", "filter strictness", p04, "", "One case: one seeded run of the real AST filter chain code against scripted programs (how each reads, writes, stalls, closes, dies, and in which pieces), pipe capacities of 4-64 KiB, documents of 0-150 KB, and a seeded schedule of every system call of host and program; half of the filters fail in strict or non-strict mode; the result must be no document (strict) or the chain without the failing filter. Non-trivial: at least one program was started and the result was compared with the model; distinct: different sequence of (process, operation).", "exploration"});
static Reg r05({"P05", "no residue", p05, "", "One case: one seeded run of the real plugin, filter and highlighter code against scripted programs (how each reads, writes, stalls, closes, dies, and in which pieces), pipe capacities of 4-64 KiB, documents of 0-150 KB, and a seeded schedule of every system call of host and program; with and without failures; open descriptors, children, environment and signal disposition are compared before and after, and each program's environment with its declaration. Non-trivial: at least one program was started and the result was compared with the model; distinct: different sequence of (process, operation).", "exploration"});
static Reg r07({"P07", "highlight conservation", p07, "", "One case: one seeded run of the real highlighter code against scripted programs (how each reads, writes, stalls, closes, dies, and in which pieces), pipe capacities of 4-64 KiB, documents of 0-150 KB, and a seeded schedule of every system call of host and program; 1-6 code blocks among other HTML; every piece of the output must be a verbatim piece of the input or the complete output of one successful program, in order. Non-trivial: at least one program was started and the result was compared with the model; distinct: different sequence of (process, operation).", "exploration"});
