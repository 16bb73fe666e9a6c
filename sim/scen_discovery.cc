/* Which plugins and filters run, and in which order: the real discovery code over seeded installations. */
#include "progs.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include "plugins.h"

namespace {
struct Plug { string id, phase, dir, name; int prio; int n; bool regex; };
struct Dir { string path; bool usable = true; vector<Plug> ps; };
}
static int plug_no;
static string one_manifest(const Plug &p, const string &ind, bool with_id, bool with_prio) {
    string o = with_id ? ind + "id: " + p.id + "\n" : "";
    o += ind + "title: " + pick(W, vector<string>{"Title ", "Title --- ", "\"quoted: --- \" # "}) + p.id + "\n" + ind + "phase: " + p.phase + "\n"; if (with_prio) o += ind + "priority: " + std::to_string(p.prio) + "\n";
    if (p.regex) o += ind + "pattern: \"END\"\n" + ind + "replacement: \"[" + std::to_string(p.n) + "]END\"\n";
    else o += ind + "handler:\n" + ind + "  command: \"mark-" + std::to_string(p.n) + "\"\n";
    return o;
}
/* fill one plugin directory; valid plugins are recorded, broken entries are not */
static void fill(Dir &d, bool dup_inside) {
    g->fs.mkdirs(d.path); u32 n = draw(W, 6); std::set<string> used;
    static const vector<string> ids = {"alpha", "beta", "gamma", "delta", "eps-1", "Zed", "a", "zz_9"};
    for (u32 i = 0; i < n; i++) {
        Plug p; p.id = pick(W, ids); p.phase = (p.id.size() & 1) ? "pre_parse" : "post_render"; p.regex = draw(W, 3) == 2; p.n = ++plug_no; p.dir = d.path;
        bool prio = draw(W, 3) != 0; p.prio = prio ? (int)draw(W, 5) * 50 - 50 : 100;
        if (used.count(p.id) && !dup_inside) continue;
        used.insert(p.id);
        u32 kind = draw(W, 3) < 2 ? draw(W, 5) % 4 : 4 + draw(W, 14); string base = d.path + "/" + (draw(W, 3) ? p.id : "n" + std::to_string(draw(W, 100)));
        p.name = base;
        if (g->fs.lookup(base, nullptr, false) || g->fs.lookup(base + ".yml", nullptr, false)) { used.erase(p.id); continue; }
        switch (kind) {
        default: { bool with_id = draw(W, 4) != 3; if (!with_id) { base = d.path + "/" + p.id; if (g->fs.lookup(base, nullptr, false)) { used.erase(p.id); break; } } g->fs.put(base + (draw(W, 4) == 3 ? "/plugin.yaml" : "/plugin.yml"), "---\n" + one_manifest(p, "", with_id, prio) + "---\n"); d.ps.push_back(p); break; }
        case 1: g->fs.put(base + ".yml", "---\n" + one_manifest(p, "", true, prio) + "---\n"); d.ps.push_back(p); break;
        case 2: { /* a bundle of up to three */
            string m = "---\nid: bundle" + std::to_string(p.n) + "\ntitle: B\nbundle:\n"; u32 k = 1 + draw(W, draw(W, 4) == 3 ? 8 : 3); std::set<string> in;
            for (u32 j = 0; j < k; j++) { Plug q = p; q.id = j == 0 ? p.id : pick(W, ids); if (in.count(q.id) || (j && used.count(q.id))) continue; in.insert(q.id); used.insert(q.id); q.phase = (q.id.size() & 1) ? "pre_parse" : "post_render"; q.n = ++plug_no; string e = one_manifest(q, "    ", true, prio); e[2] = '-'; m += e; d.ps.push_back(q);
                if (draw(W, 4) == 3) m += pick(W, vector<string>{"  - id: broken\n    title: no phase\n", "  - id: broken\n    phase: sometimes\n    handler:\n      command: mark-0\n", "  - id: broken\n    phase: pre_parse\n    pattern: \"(unclosed\"\n    replacement: \"x\"\n", "  - just text\n", "  - phase: pre_parse\n    priority: 1\n    title: nothing to run\n"}); }
            g->fs.put(draw(W, 3) == 2 ? base + ".yml" : base + "/plugin.yml", m + "---\n"); break; }
        case 3: { string real = "/srv/real" + std::to_string(p.n); g->fs.put(real + "/plugin.yml", "---\n" + one_manifest(p, "", true, prio) + "---\n"); g->fs.symlink(base, real); d.ps.push_back(p); break; }
        /* entries that are not usable plugins: they must not matter */
        case 4: g->fs.put(base + "/README.md", "no manifest"); used.erase(p.id); break;
        case 5: g->fs.put(base + "/plugin.yml", ""); used.erase(p.id); break;
        case 6: g->fs.put(base + "/plugin.yml", "---\nid: " + p.id + "\ntitle: no phase\nhandler:\n  command: mark-0\n---\n"); used.erase(p.id); break;
        case 7: g->fs.put(base + "/plugin.yml", "---\nid: " + p.id + "\nphase: sometimes\nhandler:\n  command: mark-0\n---\n"); used.erase(p.id); break;
        case 8: g->fs.put(base + "/plugin.yml", "---\nid: " + p.id + "\nphase: " + p.phase + "\npattern: \"(unclosed\"\nreplacement: \"x\"\n---\n"); used.erase(p.id); break;
        case 9: { Inode *f = g->fs.put(base + "/plugin.yml", "---\n" + one_manifest(p, "", true, prio) + "---\n"); f->open_errno = EACCES; used.erase(p.id); break; }
        case 10: { Inode *f = g->fs.put(base + "/plugin.yml", "---\n" + one_manifest(p, "", true, prio) + "---\n"); f->eio_at = (long)draw(W, 30); used.erase(p.id); break; }
        case 11: g->fs.put(d.path + "/.hidden" + std::to_string(p.n) + "/plugin.yml", "---\n" + one_manifest(p, "", true, prio) + "---\n"); used.erase(p.id); break;
        case 12: g->fs.symlink(base, "/nowhere/at/all"); used.erase(p.id); break;
        case 13: { Inode *x = g->fs.mkdirs(base); g->fs.put(base + "/plugin.yml", "---\n" + one_manifest(p, "", true, prio) + "---\n"); x->stat_errno = EIO; used.erase(p.id); break; }
        case 14: g->fs.mkdirs(base + "/plugin.yml"); used.erase(p.id); break;
        case 16: g->fs.put(base + "/plugin.yml", pick(W, vector<string>{"---\n---\n", "---\n\n---\n", "---\n# nothing\n---\n"})); used.erase(p.id); break;
        case 17: g->fs.put(base + ".yml", "---\n- a\n- b\n---\n"); used.erase(p.id); break;
        case 15: g->fs.put(base + ".txt", "---\n" + one_manifest(p, "", true, prio) + "---\n"); used.erase(p.id); break;
        }
    }
    if (draw(W, 12) == 11) { g->fs.lookup(d.path)->open_errno = EACCES; d.usable = false; }
}
static string run_phase(const char *phase, const apex_options *opt, bool &loaded) {
    apex_plugin_manager *m = nullptr; char *res = nullptr; string text = "T END";
    run_sut([&] { m = apex_plugins_load(opt); return 0; }); loaded = m != nullptr;
    if (!m) return text;
    run_sut([&] { res = apex_plugins_run_text_phase(m, !strcmp(phase, "pre_parse") ? APEX_PLUGIN_PHASE_PRE_PARSE : APEX_PLUGIN_PHASE_POST_RENDER, text.c_str(), opt); apex_plugins_free(m); return 0; });
    return res ? take(res) : text;
}
static void plugins_part() {
    plug_no = 0; g->heap_check = true; g->tools = {"git"}; bool dup_inside = draw(W, 4) == 3;
    string cwd = pick(W, vector<string>{"/work", "/work/sub", "/work/sub/deep"}); g->fs.mkdirs("/work/sub/deep"); g->fs.cwd = cwd;
    bool xdg = draw(W, 2); if (xdg) set_env("XDG_CONFIG_HOME", "/cfg");
    string global = xdg ? "/cfg/apex/plugins" : "/home/u/.config/apex/plugins";
    static const vector<string> tops = {"", "/work", "/work/sub", "/wor", "/elsewhere", "/"}; string top = tops[draw(W, 5)]; g->git_toplevel = top;
    static const vector<string> bases = {"", "/work/docs", "/work", "/other"}; string base = bases[draw(W, 4)];
    if (top == "/wor") g->fs.mkdirs("/wor");
    bool cwd_gone = draw(W, 16) == 15, git_gone = draw(W, 10) == 9; if (git_gone) g->tools.erase("git");
    vector<Dir> all; auto dir = [&](const string &p) { for (auto &d : all) if (d.path == p) return; Dir d; d.path = p; if (draw(W, 4) == 0) { all.push_back(d); return; } fill(d, dup_inside); all.push_back(d); };
    dir(cwd + "/.apex/plugins"); if (!base.empty()) dir(base + "/.apex/plugins"); if (!top.empty()) dir(top + "/.apex/plugins"); dir(global);
    if (draw(W, 3) == 2 && !xdg) { Dir decoy; decoy.path = "/cfg/apex/plugins"; fill(decoy, false); }
    if (xdg && draw(W, 2)) { Dir decoy; decoy.path = "/home/u/.config/apex/plugins"; fill(decoy, false); }
    /* reference model: the search path, first directory to name an id wins */
    vector<string> path; if (!cwd_gone) path.push_back(cwd + "/.apex/plugins"); if (!base.empty()) path.push_back(base + "/.apex/plugins");
    bool inside = !top.empty() && (cwd == top || cwd.compare(0, top.size() + 1, top + "/") == 0);
    if (!cwd_gone && !git_gone && inside) path.push_back(top + "/.apex/plugins"); path.push_back(global);
    std::map<string, vector<Plug>> sel; /* id -> candidates (several only for a duplicate inside one directory) */
    for (auto &dp : path) for (auto &d : all) if (d.path == dp && d.usable) { std::set<string> prev; for (auto &s : sel) prev.insert(s.first); for (auto &p : d.ps) if (!prev.count(p.id)) { bool same = false; for (auto &q : sel[p.id]) if (q.n == p.n) same = true; if (!same) sel[p.id].push_back(p); } }
    g->resolve = [](const string &cmd, Proc &) -> Prog * {
        if (cmd.compare(0, 5, "mark-") != 0) return nullptr;
        Spec *s = new Spec; string n = cmd.substr(5); s->cmd = cmd; s->transform = [n](const string &in) { string t; if (!read_json_string_field(in, "text", t)) return string("BADREQ"); size_t k = t.find("END"); return k == string::npos ? t : t.substr(0, k) + "[" + n + "]END"; }; return script_prog(s); };
    static apex_options opt; opt = apex_options_default(); opt.enable_plugins = true; if (!base.empty()) { static string bs; bs = base; opt.base_directory = bs.c_str(); }
    g->fs.cwd_broken = cwd_gone; enable(FK_DIR_ORDER, 1);
    const char *phase = draw(W, 2) ? "pre_parse" : "post_render"; string d = string(phase) + " cwd " + cwd + (cwd_gone ? "(gone)" : "") + " git " + top + (git_gone ? "(missing)" : "") + " base " + base + " ";
    bool l1, l2; string a = run_phase(phase, &opt, l1); string b = run_phase(phase, &opt, l2);
    string trace; { size_t i = 0; string cur; for (char c : a) { (void)i; if (c == '[') cur.clear(); else if (c == ']') trace += cur + " "; else cur += c; } }
    if (a != b || l1 != l2) fail("order-dependent", "plugins", "two discoveries over the same installation ran different plugins: '%s' and '%s' [%s]", a.c_str(), b.c_str(), d.c_str());
    vector<vector<Plug>> want; for (auto &s : sel) if (s.second[0].phase == phase) want.push_back(s.second);
    vector<int> ran; { string num; bool in = false; for (char c : a) { if (c == '[') { in = true; num.clear(); } else if (c == ']') { in = false; ran.push_back(atoi(num.c_str())); } else if (in) num += c; } }
    if (a.compare(0, 2, "T ") != 0 || a.find("END") == string::npos) fail("wrong-text", "plugins", "the text became '%s' [%s]", hexq(a).c_str(), d.c_str());
    vector<Plug> got;
    for (int n : ran) { bool ok = false; for (auto &w : want) for (auto &p : w) if (p.n == n) { got.push_back(p); ok = true; } if (!ok) { string who = "?"; for (auto &x : all) for (auto &p : x.ps) if (p.n == n) who = p.id + " of " + x.path; fail("wrong-plugin", "plugins", "plugin #%d (%s) ran although it is shadowed, broken or outside the search path [%s] ran %s", n, who.c_str(), d.c_str(), trace.c_str()); } }
    for (auto &w : want) { int c = 0; for (auto &p : got) if (p.id == w[0].id) c++; if (c != 1) fail(c ? "ran-twice" : "missing-plugin", "plugins", "plugin %s of %s ran %d times [%s] ran %s", w[0].id.c_str(), w[0].dir.c_str(), c, d.c_str(), trace.c_str()); }
    for (size_t i = 1; i < got.size(); i++) { auto &x = got[i - 1], &y = got[i]; if (x.prio > y.prio || (x.prio == y.prio && x.id > y.id)) fail("wrong-order", "plugins", "%s (priority %d) ran before %s (priority %d) [%s]", x.id.c_str(), x.prio, y.id.c_str(), y.prio, d.c_str()); }
    if (got.size() > 1) probe("ordered-pairs", got.size() - 1); probe("plugins-run", got.size()); for (auto &s : sel) if (s.second.size() > 1) probe("duplicate-in-one-directory");
    for (auto &x : all) for (auto &p : x.ps) { bool in = false; for (auto &s : sel) for (auto &q : s.second) if (q.n == p.n) in = true; if (!in) { probe("shadowed"); break; } }
    ihash_add(fnv(d + a)); sample(d + "ran " + trace); R->work = !want.empty(); heap_audit("discovery");
}
/* --filters, --filter NAME and --lua-filter FILE through the command line */
static bool is_file(const string &p) { Inode *n = g->fs.lookup(p); return n && n->type == Inode::FILE_; }
static void filters_part() {
    g->heap_check = false; u32 where = draw(W, 12); bool xdg = where % 2; if (xdg) set_env("XDG_CONFIG_HOME", "/cfg"); else if (draw(W, 3) == 2) set_env("XDG_CONFIG_HOME", "");
    string home = draw(W, 4) == 3 ? "/home/u v" : "/home/u"; bool homeless = where == 10; set_env("HOME", homeless ? "" : home); string root = xdg ? "/cfg/apex/filters" : home + "/.config/apex/filters"; bool no_root = where == 11 || (homeless && draw(W, 2)); if (!no_root) g->fs.mkdirs(root); g->fs.put("/work/doc.md", "Hello TOK\n");
    static vector<string> ran; ran.clear(); static string s_root; s_root = root;
    g->resolve = [](const string &cmd, Proc &p) -> Prog * {
        if (cmd.find(s_root) == string::npos && cmd.find("/work/lf") == string::npos) return nullptr;
        vector<string> w; if (!shell_words(cmd, p, w)) w = {cmd};
        ran.push_back(w.back()); Spec *s = new Spec; s->cmd = cmd; return script_prog(s); };
    u32 n = no_root ? 0 : draw(W, 8) == 7 ? 18 : 1 + draw(W, 7); std::set<string> exec_files, plain; vector<string> mentioned = {"nosuch"}; static const vector<string> names = {"b", "a", "c.lua", "a.py", "Z", "x-1", "10", "9", "deep", "m_m", "sp ace", "it's", "a b", "semi;colon", "d$x", "b.lua", "deep.rb", "Z.py", "b.py", "b.rb", "deep.py", "k1", "k2", "k3", "k4", "k5"};
    for (u32 i = 0; i < n; i++) {
        string nm = pick(W, names); if (g->fs.lookup(root + "/" + nm, nullptr, false)) continue;
        mentioned.push_back(nm); if (nm.find('.') != string::npos) mentioned.push_back(nm.substr(0, nm.find('.')));
        switch (draw(W, 8)) {
        default: g->fs.put(root + "/" + nm, "#!/bin/sh\ncat\n", 0755); exec_files.insert(nm); break;
        case 1: g->fs.put(root + "/" + nm, "data", 0644); plain.insert(nm); break;
        case 2: g->fs.put(root + "/" + nm + "/" + nm + pick(W, vector<string>{"", ".lua", ".py", ".rb", ".txt"}), "#!/bin/sh\ncat\n", 0755); if (draw(W, 2)) g->fs.put(root + "/" + nm + "/" + nm + pick(W, vector<string>{".py", ".rb"}), "#!/bin/sh\ncat\n", 0755); break;
        case 3: g->fs.put(root + "/." + nm, "#!/bin/sh\n", 0755); break;
        case 4: g->fs.symlink(root + "/" + nm, "/nowhere"); break;
        case 5: { string t = "/srv/f" + std::to_string(i); g->fs.put(t, "#!/bin/sh\ncat\n", 0755); g->fs.symlink(root + "/" + nm, t); exec_files.insert(nm); break; }
        }
    }
    u32 how = draw(W, 5); bool all = how < 3; u32 named = how == 0 ? 0 : how == 3 && draw(W, 3) == 0 ? 3 + draw(W, 8) : draw(W, 4), luas = how == 4 ? 1 + draw(W, 7) : how == 2 ? draw(W, 3) : 0; if (!all && !named && !luas) named = 1;
    enable(FK_DIR_ORDER, 1); vector<string> args, want, nv, lv; if (all) { args.push_back("--filters"); for (auto &e : exec_files) want.push_back(root + "/" + e); }
    bool error = no_root && (all || named); if (homeless && !xdg) error = true;
    static const vector<string> exts = {".lua", ".py", ".rb"};
    for (u32 i = 0; i < named; i++) {
        string nm = pick(W, mentioned); if (nm == "nosuch" && draw(W, 6)) nm = mentioned.back(); string at = root + "/" + nm, res;
        if (is_file(at)) res = at; else { for (auto &e : exts) if (res.empty() && is_file(at + e)) res = at + e; Inode *x = g->fs.lookup(at); if (res.empty() && x && x->type == Inode::DIR_) { if (is_file(at + "/" + nm)) res = at + "/" + nm; for (auto &e : exts) if (res.empty() && is_file(at + "/" + nm + e)) res = at + "/" + nm + e; } }
        args.push_back("--filter"); args.push_back(nm); if (res.empty()) error = true; else nv.push_back(res);
        if (!res.empty()) probe("filters-named");
    }
    for (u32 i = 0; i < luas; i++) { string f = "/work/lf" + std::to_string(i) + pick(W, vector<string>{".lua", " x.lua", "'q'.lua", "$(y).lua"}); g->fs.put(f, "-- lua"); args.push_back("--lua-filter"); args.push_back(f); lv.push_back(f); probe("lua-filters"); }
    want.insert(want.end(), nv.begin(), nv.end()); want.insert(want.end(), lv.begin(), lv.end());
    if (draw(W, 3) == 2) args.push_back("--no-strict-filters");
    args.push_back("/work/doc.md"); RunResult r = run_cli(args);
    string a, b, c; for (auto &x : ran) a += x.substr(x.rfind('/') + 1) + " "; for (auto &x : want) b += x.substr(x.rfind('/') + 1) + " "; for (auto &x : args) c += x + " ";
    if (error) {
        if (r.status == 0 || !g->out.data.empty() || !ran.empty()) fail("missing-filter-ignored", "--filter", "a filter or directory that does not exist was asked for; exit %d, ran [%s], output '%s' [%s]", r.status, a.c_str(), hexq(g->out.data).c_str(), hexq(c, 300).c_str());
        probe("filter-errors"); ihash_add(fnv(c)); sample("error: " + c); R->work = 1; return;
    }
    if (ran != want) fail("wrong-filters", "--filters", "[%s] ran [%s], expected the executable files in sorted order, then the named ones [%s] (stderr %s)", hexq(c, 300).c_str(), a.c_str(), b.c_str(), hexq(g->err.data).c_str());
    if (r.status != 0 || g->out.data.find("Hello TOK") == string::npos) fail("no-output", "--filters", "exit %d, output '%s' with filters [%s]: %s", r.status, hexq(g->out.data).c_str(), a.c_str(), hexq(g->err.data).c_str());
    ihash_add(fnv(c + a)); sample(c + "ran " + a); R->work = !want.empty(); probe("filters-run", want.size());
}
static void p06() { if (draw(W, 5) == 4) filters_part(); else plugins_part(); }
static Reg r06({"P06", "discovery order and precedence", p06, "", "One case: a seeded installation (working directory, base directory, repository root and user configuration each holding plugins as directories, flat manifests, bundles or links, with shadowed ids, equal priorities and broken, unreadable, hidden or unrelated entries; or a filters directory used through --filters, --filter and --lua-filter) is discovered twice by the real code under two seeded directory enumeration orders and the plugins are run; a failing directory, git or getcwd may be injected. Set, order and precedence are compared with a reference model. Non-trivial: at least one plugin or filter had to run; distinct: different installation outcome and operations.", "exploration"});
