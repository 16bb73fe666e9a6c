/* Conversions in several threads at once: each gives what it gives alone. */
#include "gen.h"
#include <cstring>

struct TJob { string doc; apex_options o; string opt; string want; char *in, *out; bool ran = false; };
static const char *NUL = "(no result)";
/* the same syntax with other values: numbers changed, and a word here and there */
static string vary(string s) {
    for (auto &r : {std::make_pair("inc.", "two."), std::make_pair("code.py", "more.py"), std::make_pair("data.csv", "rows.csv"), std::make_pair("refs.bib", "more.bib"), std::make_pair("refs.yml", "more.yml")})
        for (size_t i = 0; (i = s.find(r.first, i)) != string::npos; i += 4) s.replace(i, strlen(r.first), r.second);
    u32 k = range(W, 1, 8); bool in_word = false, change = false;
    for (size_t i = 0; i < s.size(); i++) {
        bool al = (s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z');
        if (s[i] >= '1' && s[i] <= '9') s[i] = (char)('1' + (s[i] - '1' + (int)k) % 9);
        if (al && !in_word) { size_t e = i; while (e < s.size() && isalpha((unsigned char)s[e])) e++; change = e - i >= 3 && draw(W, 6) == 5 && s.compare(i, 4, "two.") && s.compare(i, 4, "more") && s.compare(i, 4, "rows"); }
        if (al && change) { char b = s[i] >= 'a' ? 'a' : 'A'; s[i] = (char)(b + (s[i] - b + (int)k) % 26); }
        in_word = al;
    }
    if (draw(W, 2)) { string o; for (size_t i = 0; i < s.size(); i++) { o += s[i]; if (s[i] == ' ' && i + 1 < s.size() && isalpha((unsigned char)s[i + 1]) && i && isalpha((unsigned char)s[i - 1]) && draw(W, 4) == 3) o += string(1 + draw(W, 4), 'q'); } s = o; }
    return s;
}
static void p17() {
    g->heap_check = false; gen_world();
    u32 nt = range(W, 2, 4); bool same_kind = draw(W, 2); string common; if (draw(W, 2)) { u32 k = range(W, 1, 3), d = range(W, 1, 3); string b; for (u32 i = 0; i < k; i++) b += gen_block(2); if (draw(W, 4) == 3) { common = "---\ntitle: The Long Title\ntags: a, b+ c, d+ e\ndate: 2024-03-05\n---\n\n"; b += "[%" + gen_transform() + "]\n\n"; } for (u32 i = 0; i < d; i++) common += b; } vector<vector<TJob>> jobs(nt); string first; apex_options fo; string fopt;
    for (u32 t = 0; t < nt; t++) {
        u32 n = range(W, 1, 2);
        for (u32 i = 0; i < n; i++) {
            TJob j; j.doc = gen_doc(); if (!common.empty()) { string c = draw(W, 2) ? vary(common) : common; switch (draw(W, 3)) { case 0: j.doc = c; break; case 1: j.doc = c + j.doc; break; default: j.doc = j.doc.substr(0, 1500) + "\n\n" + c; } } if (j.doc.size() > 6000) j.doc.resize(6000);
            run_sut([&] { j.o = gen_options(&j.opt); return 0; });
            if (!t && !i) { first = j.doc; fo = j.o; fopt = j.opt; } else if (same_kind) { j.o = fo; j.opt = fopt; if (draw(W, 2)) j.doc = draw(W, 2) ? vary(first) : first; }
            jobs[t].push_back(j);
        }
    }
    threads_watch();
    for (auto &v : jobs) for (auto &j : v) {
        sut_restart(); stack_fill(262144, false); char *in = sut_strdup(j.doc); apex_options o = j.o; char *r = nullptr;
        RunResult rr = run_sut([&] { r = apex_markdown_to_html(in, j.doc.size(), &o); return 0; });
        if (rr.exited) fail("exited", "alone", "converting ended the process with status %d [%s: %s]", rr.status, j.opt.c_str(), hexq(j.doc, 500).c_str());
        j.want = r ? take(r) : NUL;
    }
    if (draw(W, 2) == 0) { sut_restart(); probe("first-use-in-threads"); }
    g->heap_reuse = draw(F, 2); int fds = open_fd_count();
    vector<std::function<void()>> fns; string who;
    for (auto &v : jobs) { for (auto &j : v) { j.in = sut_strdup(j.doc); j.out = nullptr; who += "(" + j.opt + ") "; } fns.push_back([&v] { for (auto &j : v) { apex_options o = j.o; j.out = apex_markdown_to_html(j.in, j.doc.size(), &o); j.ran = true; } }); }
    u64 sw = run_threads(fns);
    for (u32 t = 0; t < nt; t++) for (auto &j : jobs[t]) {
        string got = j.out ? take(j.out) : NUL; if (!j.ran) fail("lost", "thread", "a thread's conversion did not finish");
        if (memcmp(j.in, j.doc.c_str(), j.doc.size() + 1)) fail("input-changed", "threads", "converting in threads changed the caller's text [%s: %s]", j.opt.c_str(), hexq(j.doc, 400).c_str());
        if (got != j.want) { size_t i = 0; while (i < got.size() && i < j.want.size() && got[i] == j.want[i]) i++; size_t s = i > 40 ? i - 40 : 0;
            fail("result-differs", "threads", "a conversion beside others in %u threads gave another result than alone: at byte %zu '%s' instead of '%s' [%s; all: %s; document %s]", nt, i, hexq(got.substr(s), 160).c_str(), hexq(j.want.substr(s), 160).c_str(), j.opt.c_str(), who.substr(0, 200).c_str(), hexq(j.doc, 700).c_str()); }
        ihash_add(fnv(got));
    }
    if (locks_held()) fail("left-locked", "threads", "a lock is still held after all conversions ended");
    if (open_fd_count() != fds) fail("left-open", "descriptors", "conversions in threads left descriptors open");
    probe("threads", nt); if (same_kind) probe("same-options"); if (!common.empty()) probe("common-text"); sample(who); R->work = sw > 1;
}
static Reg r17({"P17", "conversions in threads", p17, "", "One case: two to four threads convert one or two generated documents each with their own options; the results are compared with those of each conversion alone in a fresh process. Often the documents share text and options, so that all threads are busy with the same syntax. Threads are switched by the seed at memory accesses of Apex (static data that is written somewhere, and libc functions with static data, far more often), at allocations (also inside cmark-gfm and libyaml) and at locks; the average stretch between switches is itself drawn, from a few accesses to whole conversions. Non-trivial: more than one switch; distinct: different switch points and results.", "exploration"});
