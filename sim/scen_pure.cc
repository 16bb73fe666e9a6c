/* Whole conversions: the result depends on the document and the options alone. */
#include "gen.h"
#include <cstring>

struct Job { string doc; apex_options o; string opt; };
static Job gen_job() { Job j; j.doc = gen_doc(); run_sut([&] { j.o = gen_options(&j.opt); return 0; }); return j; }
static size_t stack_n; static bool stack_noise;
static const char *NUL = "(no result)";
static string convert(const Job &j, const char *when) {
    char *in = sut_strdup(j.doc); apex_options o = j.o; char *r = nullptr; size_t n = j.doc.size();
    if (stack_n) stack_fill(stack_n, stack_noise);
    RunResult rr = run_sut([&] { r = apex_markdown_to_html(in, n, &o); return 0; });
    if (rr.exited) fail("exited", when, "converting ended the process with status %d [%s: %s]", rr.status, j.opt.c_str(), hexq(j.doc, 500).c_str());
    if (memcmp(in, j.doc.c_str(), n + 1)) fail("input-changed", when, "converting changed the caller's text [%s: %s]", j.opt.c_str(), hexq(j.doc, 500).c_str());
    if (memcmp(&o, &j.o, sizeof o)) fail("options-changed", when, "converting changed the caller's options [%s: %s]", j.opt.c_str(), hexq(j.doc, 500).c_str());
    return r ? take(r) : NUL;
}
static size_t differ(const string &a, const string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static void same(const string &want, const string &got, const char *when, const Job &j, const string &hist) {
    if (want == got) return; size_t i = differ(want, got), s = i > 40 ? i - 40 : 0;
    fail("result-differs", when, "the same document and options gave another result %s: at byte %zu '%s' instead of '%s' [%s; before it: %s; document %s]", when, i, hexq(got.substr(s), 160).c_str(), hexq(want.substr(s), 160).c_str(), j.opt.c_str(), hexq(hist, 300).c_str(), hexq(j.doc, 700).c_str());
}
/* the same document through the command line: from a file or stdin, to a file or stdout, with progress shown or not, however long it takes */
static void p16_cli() {
    g->heap_check = false; set_sched_bias(8); g->tools = {"git"}; g->fs.cwd = "/work"; gen_world();
    string doc = gen_doc(); if (draw(W, 12) == 11) doc += string(draw(W, 30000), 'w') + "\n"; g->fs.put("/work/doc.x", doc); vector<string> a;
    if (draw(W, 2)) { a.push_back("-m"); a.push_back(pick(W, vector<string>{"unified", "mmd", "kramdown", "gfm", "commonmark"})); }
    if (draw(W, 2)) { a.push_back("-t"); a.push_back(pick(W, vector<string>{"terminal", "terminal256", "html", "json", "markdown", "mmd", "man", "man-html", "ast-json", "kramdown"})); if (draw(W, 2)) { a.push_back("--width"); a.push_back(std::to_string(draw(W, 120))); } }
    if (draw(W, 2)) { a.push_back("-s"); if (draw(W, 2)) { a.push_back("--css"); a.push_back("style.css"); if (draw(W, 2)) { a.push_back("--css"); a.push_back("two.css"); if (draw(W, 2)) a.push_back("--embed-css"); } } if (draw(W, 3) == 2) { a.push_back("--script"); a.push_back(pick(W, vector<string>{"mermaid", "mathjax", "x.js", "katex"})); } }
    if (draw(W, 3) == 2) { u32 k = 1 + draw(W, 6); for (u32 i = 0; i < k; i++) { a.push_back("--bibliography"); a.push_back(i % 2 ? "more.bib" : "refs.bib"); } }
    if (draw(W, 4) == 3) { a.push_back("--pretty"); } if (draw(W, 4) == 3) { a.push_back("--meta"); a.push_back("author=Me"); } if (draw(W, 5) == 4) a.push_back("--embed-images");
    string d; for (auto &x : a) d += x + " ";
    auto run = [&](vector<string> v, const string &in, string &out) { g->in.data = in; g->in.off = 0; g->out.data.clear(); g->err.data.clear(); RunResult r = run_cli(v); out = g->out.data; return r.status; };
    vector<string> ra = a; ra.push_back("--no-progress"); ra.push_back("doc.x"); string want; set_env("APEX_PROGRESS", "0"); int st = run(ra, "", want); unset_env("APEX_PROGRESS");
    vector<string> b = a; bool from_stdin = draw(W, 3) == 2, to_file = draw(W, 3) == 2; string in = from_stdin ? doc : "";
    u32 pm = draw(F, 4); if (pm == 1) b.push_back("--progress"); else if (pm == 2) set_env("APEX_PROGRESS", pick(F, vector<string>{"1", "yes", "true"})); else if (pm == 3) g->err.tty = true;
    if (draw(F, 4) == 3) g->out.tty = true; if (draw(F, 3) == 2) set_env("APEX_PROFILE", "1"); if (draw(F, 5) == 4) set_env("APEX_DEBUG_PIPELINE", "1"); if (draw(F, 2)) enable(FK_CLOCK_JUMP, 1 + draw(F, 3)); if (draw(F, 2)) { enable(FK_READ_PARTIAL, 2); enable(FK_READ_EINTR, 4); } if (draw(F, 3) == 2) { g->heap_noise = true; fault_fired(FK_HEAP_NOISE, "fresh memory"); }
    if (to_file) { b.push_back("-o"); b.push_back("/work/out.x"); } if (!from_stdin) b.push_back("doc.x"); string got; int st2 = run(b, in, got); string shown = g->err.data; g->faults_on = false; if (to_file) { if (!got.empty()) fail("result-differs", "cli", "with -o, stdout got '%s' [%s]", hexq(got, 160).c_str(), d.c_str()); got = g->fs.lookup("/work/out.x") ? g->fs.get("/work/out.x") : ""; }
    if (shown.find("Processing") != string::npos) probe("progress-shown");
    string how = string(from_stdin ? "from stdin " : "from the file ") + (to_file ? "to a file " : "to stdout ") + (pm == 3 ? "at a terminal " : pm ? "with progress " : "");
    if (st != st2) fail("result-differs", "cli", "exit status %d %sinstead of %d [%s: %s] stderr %s", st2, how.c_str(), st, d.c_str(), hexq(doc, 400).c_str(), hexq(shown, 200).c_str());
    if (got != want) { size_t i = differ(want, got), s0 = i > 40 ? i - 40 : 0; fail("result-differs", "cli", "%sthe same document gave another result: at byte %zu '%s' instead of '%s' [%s: %s]", how.c_str(), i, hexq(got.substr(s0 < got.size() ? s0 : got.size()), 160).c_str(), hexq(want.substr(s0 < want.size() ? s0 : want.size()), 160).c_str(), d.c_str(), hexq(doc, 600).c_str()); }
    probe("cli-converted"); ihash_add(fnv(d + want)); sample(d + how + hexq(doc, 200)); R->work = want.size() > 20;
}
static void p16() {
    if (draw(W, 8) == 7) { p16_cli(); return; }
    g->heap_check = false; set_sched_bias(8); gen_world();
    stack_n = 262144; stack_noise = false; Job j = gen_job(); int fds = open_fd_count(); string env = env_dump(); string want = convert(j, "first"); stack_n = 0;
    /* an earlier life of the process, another heap, another time */
    u32 how = draw(W, 4); bool restart = draw(W, 3) == 2; if (restart) sut_restart();
    if (how != 1 && draw(F, 2)) { g->heap_noise = true; fault_fired(FK_HEAP_NOISE, "fresh memory"); }
    if (draw(F, 3) == 2) { stack_noise = true; stack_n = 262144; fault_fired(FK_HEAP_NOISE, "stack"); }
    if (draw(F, 3) == 2) { g->heap_poison = false; }
    if (draw(F, 2)) { g->heap_reuse = true; }
    if (draw(F, 2)) { enable(FK_CLOCK_JUMP, 2); g->time_jump_ppm = 300000; }
    if (draw(F, 3) == 2) { g->now_us += (u64)draw(F, 400) * 86400000000ull; fault_fired(FK_CLOCK_JUMP, "another day"); }
    if (draw(F, 4) == 3) { set_env("APEX_PROFILE", pick(F, vector<string>{"1", "yes", "0"})); if (draw(F, 2)) set_env("APEX_DEBUG_PIPELINE", "1"); env = env_dump(); probe("diagnostics-on"); }
    static int told; told = 0; if (draw(F, 4) == 3) { j.o.progress_callback = [](const char *, int, void *u) { ++*(int *)u; }; j.o.progress_user_data = &told; }
    string hist; u32 n = how == 0 ? 0 : how == 1 ? 1 : range(W, 1, 5); if (draw(W, 2500) == 2499) n = 5600;
    if (n == 5600) { g->heap_reuse = true; Job t; t.doc = "a\n: b\n\n| x | y |\n|---|---|\n| ~~1~~ | $2$ |\n\n[^1]\n\n[^1]: z\n"; run_sut([&] { t.o = apex_options_for_mode(APEX_MODE_UNIFIED); t.o.enable_plugins = false; return 0; }); size_t sn = stack_n; stack_n = 0; string w0 = convert(t, "first"); for (u32 i = 0; i < n; i++) { string r = convert(t, "again and again"); if (i % 500 == 499) same(w0, r, "after many conversions", t, std::to_string(i) + " times"); } stack_n = sn; hist = "5600 conversions"; probe("long-histories"); }
    else for (u32 i = 0; i < n; i++) { Job h = draw(W, 5) == 4 ? j : gen_job(); string r = convert(h, "in between"); hist += "(" + h.opt + ": " + h.doc.substr(0, 60) + ") "; probe("conversions-before"); if (h.doc == j.doc && h.opt == j.opt) same(want, r, "between others", j, hist); }
    string got = convert(j, "again"); const char *when = n == 0 ? (restart ? "in another process" : "the second time") : "after other conversions"; same(want, got, when, j, hist);
    if (open_fd_count() != fds || live_children() || zombie_children()) fail("left-open", "descriptors", "a conversion left descriptors or children behind [%s]", hexq(j.doc, 400).c_str());
    if (env_dump() != env) fail("environment-changed", "environment", "a conversion changed the environment [%s]", hexq(j.doc, 400).c_str());
    probe("converted"); if (want == NUL) probe("no-result"); probe(("format-" + std::to_string(j.o.output_format)).c_str()); ihash_add(fnv(want)); sample(j.opt + ": " + hexq(j.doc, 300)); R->work = want.size() > 20;
}
static Reg r16({"P16", "reproducible conversion", p16, "", "One case: a generated document (all block and inline syntaxes, metadata, cut anywhere, large tables) and seeded options are converted by the real library in a fresh simulated process, then again after up to five (rarely 5600) other conversions, with the process restarted or not, fresh memory filled with other bytes, freed memory kept or overwritten, and the clock moved or jumping, diagnostics and progress on; or the real command line converts it from a file and again from stdin, to a file, at a terminal, with progress and a jumping clock. Results, caller's text and options, descriptors and environment are compared. Non-trivial: the result has more than 20 bytes; distinct: different results.", "exploration"});
