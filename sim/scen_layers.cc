/* Where a setting comes from: global, project, --meta-file, document and command line, each of which may fail. */
#include "progs.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

namespace {
struct Layer { string name; std::map<string, string> kv; bool present = false, opens = true, reads = true; };
}
static const vector<string> KEYS = {"alpha", "bravo", "charlie", "delta"};
static const vector<string> &more_keys() { static const vector<string> k = {"echo", "foxtrot", "golf", "hotel", "india", "juliet", "kilo", "lima"}; return k; }
/* options that metadata and flags can both set, each visible in option_text below; "" where there is no such flag */
struct Opt { const char *key, *on, *off; };
static const vector<Opt> OPTS = {{"tables", "", "--no-tables"}, {"footnotes", "", "--no-footnotes"}, {"smart", "", "--no-smart"}, {"math", "", "--no-math"}, {"sup-sub", "--sup-sub", "--no-sup-sub"}, {"autolink", "--autolink", "--no-autolink"}, {"strikethrough", "--strikethrough", "--no-strikethrough"}, {"wikilinks", "--wikilinks", "--no-wikilinks"}, {"ids", "", "--no-ids"}, {"header-anchors", "--header-anchors", ""}, {"unsafe", "--unsafe", "--no-unsafe"}, {"relaxed-tables", "--relaxed-tables", "--no-relaxed-tables"}, {"alpha-lists", "--alpha-lists", "--no-alpha-lists"}, {"mixed-lists", "--mixed-lists", "--no-mixed-lists"}, {"hardbreaks", "--hardbreaks", ""}, {"widont", "--widont", ""}, {"hashtags", "--hashtags", ""}, {"pretty", "--pretty", ""}, {"standalone", "--standalone", ""}, {"image-captions", "--image-captions", "--no-image-captions"}, {"proofreader", "--proofreader", ""}, {"hr-page-break", "--hr-page-break", ""}, {"title-from-h1", "--title-from-h1", ""}, {"transforms", "--transforms", "--no-transforms"}, {"markdown-in-html", "--markdown-in-html", "--no-markdown-in-html"}, {"includes", "--includes", "--no-includes"}};
static const std::map<string, vector<string>> VOPTS = {{"mode", {"unified", "mmd", "kramdown", "gfm", "commonmark"}}, {"id-format", {"gfm", "mmd", "kramdown"}}, {"title", {"Title One", "Two"}}, {"css", {"a.css", "sub/b.css"}}, {"wikilink-space", {"dash", "none", "underscore", "space"}}, {"wikilink-extension", {"html", "md"}}};
static const char *option_text = "# Big *Heading* 1.2\n\n## Big *Heading* 1.2\n\n\"quoted\" -- it's $x^2$ and H~2~O m^2^ ~~gone~~ see http://e.example/x #tag [[Wiki Page]] note[^1] {++add++}{--del--} a <b>raw</b> last two\nnext line\n\n| a | b |\n|---|---|\n| 1 | 2 |\n\nc | d\n3 | 4\n\na. one\nb. two\n\n1. x\n* y\n\n---\n\n![Pic](p.png \"Cap\")\n\n<div markdown=\"1\">\n*in html*\n</div>\n\n[%alpha:upper] {{inc.md}}\n\n[^1]: The note\n\n";
static string value(const string &layer, u32 n) {
    string v = layer + std::to_string(n);
    switch (draw(W, 7)) { default: return v; case 5: return v + " #5"; case 6: return "!" + v; case 1: return v + " two words"; case 2: return v + " \xc3\xa9\xe2\x82\xac"; case 3: return v + string(1 + draw(W, draw(W, 4) == 3 ? 900 : 60), 'x'); case 4: return v + ", comma (paren)"; }
}
static string first_diff(const string &a, const string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; return "at " + std::to_string(k) + ": got '" + hexq(a.substr(k, 90)) + "' expected '" + hexq(b.substr(k, 90)) + "'"; }
static bool options_part, use_css; /* css implies standalone, so only one of the two occurs in a run */
static bool opt_ok(const string &k) { return k != (use_css ? "standalone" : "css"); }
static void fill(Layer &l, bool plugins_key) {
    l.present = true; for (u32 i = 0; i < KEYS.size(); i++) if (draw(W, 2)) l.kv[KEYS[i]] = value(l.name, i);
    if (draw(W, 6) == 5) for (auto &k : more_keys()) l.kv[k] = value(l.name, 9);
    if (plugins_key && draw(W, 4) == 3) l.kv["plugins"] = draw(W, 2) ? "true" : "false";
    if (options_part) {
        u32 n = draw(W, 5); for (u32 i = 0; i < n; i++) { const Opt &o = OPTS[draw(W, (u32)OPTS.size())]; if (opt_ok(o.key)) l.kv[o.key] = pick(W, vector<string>{"true", "false", "yes", "no"}); }
        for (auto &v : VOPTS) if (draw(W, 8) == 7 && opt_ok(v.first)) l.kv[v.first] = pick(W, v.second);
    }
    if (l.kv.empty()) l.kv[KEYS[draw(W, 4)]] = value(l.name, 0);
}
static bool plain_key(const string &k) { for (auto &x : KEYS) if (x == k) return true; for (auto &x : more_keys()) if (x == k) return true; return false; }
static string render(const Layer &l, u32 style) { /* 0 YAML, 1 MultiMarkdown, 2 Pandoc title block */
    if (style == 2) return "% " + l.kv.at("title") + "\n% " + l.kv.at("author") + "\n% " + l.kv.at("date") + "\n";
    u32 cased = draw(W, 4);
    string o = style == 0 ? "---\n" : ""; for (auto &k : l.kv) { string v = k.second; if (style == 0 && (v.find(": ") != string::npos || v.find('#') != string::npos || v[0] == '!')) v = "\"" + v + "\""; string n = k.first; if (plain_key(n)) { if (cased == 3) n[0] = (char)toupper(n[0]); else if (cased == 2) for (char &c : n) c = (char)toupper(c); } o += n + ": " + v + "\n"; }
    return o + (style == 0 ? "---\n" : "\n");
}
/* install a layer's file, perhaps unusable */
static void put(Layer &l, const string &path, u32 style) {
    Inode *f = g->fs.put(path, render(l, style)); 
    switch (draw(F, 7)) {
    case 1: f->open_errno = EACCES; l.opens = false; break;
    case 2: f->eio_at = (long)draw(F, (u32)f->data.size()); l.reads = false; break;
    case 3: g->fs.remove_tree(path); g->fs.mkdirs(path); l.reads = false; fault_fired(FK_FILE_EIO, "directory in place of the file"); break;
    case 4: g->fs.remove_tree(path); l.present = false; break;
    default: break;
    }
}
static void p15() {
    g->heap_check = false; g->tools = {"git"}; set_sched_bias(8);
    bool xdg = draw(W, 2); if (xdg) set_env("XDG_CONFIG_HOME", "/cfg"); string conf = xdg ? "/cfg/apex" : "/home/u/.config/apex"; g->fs.mkdirs("/home/u");
    string cwd = pick(W, vector<string>{"/work", "/work/sub"}); g->fs.mkdirs("/work/sub"); g->fs.mkdirs("/docs"); g->fs.cwd = cwd;
    string top = pick(W, vector<string>{"", "/work", "/elsewhere", "/wor"}); g->git_toplevel = top; bool git_gone = draw(F, 8) == 7; if (git_gone) { g->tools.erase("git"); fault_fired(FK_TOOL_MISSING, "git"); } bool cwd_gone = draw(F, 12) == 11;
    string docdir = pick(W, vector<string>{"", "/docs", "/work"}); string base; vector<string> a; if (draw(W, 4) == 3) { base = pick(W, vector<string>{"/other", "/docs"}); a.push_back("--base-dir"); a.push_back(base); } else base = docdir;
    if (cwd_gone && docdir.empty()) { docdir = "/docs"; if (a.empty()) base = docdir; } 
    Layer G{"G"}, C{"C"}, B{"B"}, T{"T"}, M{"M"}, D{"D"}, A{"A"}; bool pk = draw(W, 3) == 2; options_part = !pk && draw(W, 2); use_css = draw(W, 2); Layer FL{"F"}; string plugdir = conf + "/plugins";
    if (draw(W, 2)) { fill(G, pk); put(G, conf + "/config.yml", draw(W, 3) == 2); }
    if (xdg && draw(W, 3) == 2) { Layer X{"X"}; fill(X, pk); g->fs.put("/home/u/.config/apex/config.yml", render(X, 0)); }
    if (draw(W, 3) == 2) { fill(C, pk); put(C, cwd + "/.apex/config.yml", 0); }
    if (!base.empty() && base != cwd && draw(W, 3) == 2) { fill(B, pk); put(B, base + "/.apex/config.yml", 0); }
    if (!top.empty() && top != cwd && top != base && draw(W, 2)) { fill(T, pk); put(T, top + "/.apex/config.yml", 0); }
    bool mf = draw(W, 2); if (mf) { fill(M, pk); u32 ms = draw(W, 2); if (options_part && draw(W, 4) == 3) { ms = 2; M.kv.clear(); M.kv["title"] = "Pandoc " + value("M", 1); M.kv["author"] = "An Author"; M.kv["date"] = "2024-05-06"; } put(M, "/work/m.yml", ms); a.push_back("--meta-file"); a.push_back("/work/m.yml"); }
    if (draw(W, 2)) fill(D, pk);
    if (draw(W, 2)) { A.present = true; u32 n = 1 + draw(W, 3); for (u32 i = 0; i < n; i++) A.kv[pick(W, KEYS)] = "A" + std::to_string(i) + pick(W, vector<string>{"", "", " w z", " #w"}); bool joined = draw(W, 3) == 2; string all; for (auto &k : A.kv) { string p = k.first + "=" + k.second; if (joined) all += (all.empty() ? "" : ",") + p; else { a.push_back("--meta"); a.push_back(p); } } if (joined) { a.push_back("--meta"); a.push_back(all); } }
    if (options_part) {
        if (draw(W, 2)) { A.present = true; string k = OPTS[draw(W, (u32)OPTS.size())].key, v = pick(W, vector<string>{"true", "false"}); if (opt_ok(k)) { A.kv[k] = v; a.push_back("--meta"); a.push_back(k + "=" + v); } }
        u32 n = draw(W, 5); for (u32 i = 0; i < n; i++) { const Opt &o = OPTS[draw(W, (u32)OPTS.size())]; bool on = !*o.off || (*o.on && draw(W, 2)); if (FL.kv.count(o.key) || !opt_ok(o.key)) continue; FL.kv[o.key] = on ? "true" : "false"; a.push_back(on ? o.on : o.off); }
        for (auto &v : VOPTS) if (draw(W, 6) == 5 && opt_ok(v.first)) { string x = pick(W, v.second); FL.kv[v.first] = x; a.insert(a.begin() + (v.first == "mode" && a.size() && a[0] == "--base-dir" ? 2 : v.first == "mode" ? 0 : (long)a.size()), {"--" + v.first, x}); if (v.first == "css") FL.kv["standalone"] = "true"; }
        if (FL.kv.size()) FL.present = true;
    }
    vector<string> tofmt; if (options_part && draw(W, 4) == 3) { tofmt = {"-t", pick(W, vector<string>{"json", "markdown", "man", "terminal", "html"})}; a.insert(a.end(), tofmt.begin(), tofmt.end()); }
    int force = 0; if (pk && draw(W, 3) == 2) { force = 1 + (int)draw(W, 2); a.push_back(force == 1 ? "--plugins" : "--no-plugins"); }
    if (pk) g->fs.put(plugdir + "/mark/plugin.yml", "---\nid: mark\nphase: pre_parse\nhandler:\n  command: mark-1\n---\n");
    string body; vector<string> keys = KEYS; for (auto &k : more_keys()) keys.push_back(k); for (auto &k : keys) body += "K-" + k + "=[%" + k + "].\n\n"; if (options_part) { body += option_text; for (string p : {base.empty() ? cwd : base, docdir.empty() ? cwd : docdir}) { g->fs.mkdirs(p); g->fs.put(p + "/inc.md", "included in " + p + "\n"); } }
    body += "PLUGMARK\n\nlast words TOK\n";
    string doc = (D.present ? render(D, draw(W, 2)) : "") + (D.present ? "\n" : "") + body; string path = (docdir.empty() ? "doc.md" : docdir + "/doc.md"); g->fs.put(docdir.empty() ? cwd + "/doc.md" : path, doc);
    if (cwd_gone) g->fs.cwd_broken = true;
    g->resolve = [](const string &cmd, Proc &) -> Prog * { if (cmd != "mark-1") return nullptr; Spec *s = new Spec; s->cmd = cmd; s->transform = [](const string &in) { string t; read_json_string_field(in, "text", t); size_t k = t.find("PLUGMARK"); if (k != string::npos) t.replace(k, 8, "PLUGRAN"); return t; }; return script_prog(s); };
    if (draw(F, 3) == 2) { enable(FK_READ_PARTIAL, 2); enable(FK_READ_EINTR, 4); enable(FK_WAIT_EINTR, 4); }
    if (draw(W, 3) == 2) { g->in.data = doc; g->in.off = 0; if (docdir.empty() || a.size() && a[0] == "--base-dir") { /* same document from standard input; no directory of its own */ if (!(a.size() && a[0] == "--base-dir")) base = ""; } else a.push_back(path); } else a.push_back(path);
    bool from_stdin = a.empty() || a.back() != path; if (from_stdin && !(a.size() && a[0] == "--base-dir")) base = "";
    RunResult r = run_cli(a); string out = g->out.data; string cmd; for (auto &x : a) cmd += x + " "; 
    string d = cmd + "| cwd " + cwd + (cwd_gone ? "(gone)" : "") + " git " + top + (git_gone ? "(missing)" : "") + " layers "; for (Layer *l : {&G, &C, &B, &T, &M, &D, &A, &FL}) if (l->present) d += l->name + (l->opens ? l->reads ? "" : "(eio)" : "(denied)") + " ";
    if (r.status != 0) fail("failed", "exit", "exit %d: %s [%s]", r.status, hexq(g->err.data).c_str(), d.c_str());
    if (out.find("last words TOK") == string::npos) fail("document-lost", "output", "the document is not in the output [%s]: %s", d.c_str(), hexq(out, 300).c_str());
    /* reference model: which project file is the project layer. A file that opens but cannot be read may count as the project's (and give nothing) or be passed over. */
    vector<Layer *> cand; if (!cwd_gone) cand.push_back(&C);
    if (!base.empty()) cand.push_back(base == cwd ? &C : &B);
    bool inside = !top.empty() && !git_gone && !cwd_gone && (cwd == top || cwd.compare(0, top.size() + 1, top + "/") == 0);
    if (inside) cand.push_back(top == cwd ? &C : top == base ? &B : &T);
    if (base != docdir && B.present && base.empty()) B.present = false;
    std::set<Layer *> projects; bool done = false; for (Layer *l : cand) { if (!l->present || !l->opens) continue; if (!l->reads) { projects.insert(nullptr); continue; } projects.insert(l); done = true; break; } if (!done) projects.insert(nullptr);
    auto usable = [](Layer &l) { return l.present && l.opens && l.reads; };
    auto resolve = [&](const string &k) { std::set<string> ok; for (Layer *p : projects) for (int skip_global = 0; skip_global <= (mf ? 1 : 0); skip_global++) { string v = "\x01"; if (usable(G) && G.kv.count(k) && !skip_global) v = G.kv[k]; if (p && p->kv.count(k)) v = p->kv[k]; if (usable(M) && M.kv.count(k)) v = M.kv[k]; if (D.present && D.kv.count(k)) v = D.kv[k]; if (A.present && A.kv.count(k)) v = A.kv[k]; ok.insert(v); } return ok; };
    if (options_part) {
        bool no_meta = FL.kv.count("mode") && (FL.kv["mode"] == "gfm" || FL.kv["mode"] == "commonmark"); /* the mode leaves metadata of the document in its text */
        string ref1;
        for (const char *p : {"/cfg/apex/config.yml", "/home/u/.config/apex/config.yml"}) if (g->fs.exists(p)) g->fs.remove_tree(p);
        for (const string &p : {cwd, base, top}) if (!p.empty() && g->fs.exists(p + "/.apex")) g->fs.remove_tree(p + "/.apex");
        if (!no_meta) { g->fs.put(docdir.empty() ? cwd + "/doc.md" : path, body); }
        g->faults_on = false; bool matched = false;
        for (Layer *p : projects) for (int skip_global = 0; skip_global <= (mf ? 1 : 0) && !matched; skip_global++) {
            std::map<string, string> v; auto add = [&](Layer &l) { for (auto &k : l.kv) v[k.first] = k.second; };
            if (usable(G) && !skip_global) add(G); if (p) add(*p); if (usable(M)) add(M); if (D.present && !no_meta) add(D); if (A.present) add(A); if (FL.present) { if (FL.kv.count("css")) v.erase("css"); add(FL); }
            vector<string> b; if (a.size() && a[0] == "--base-dir") b = {a[0], a[1]};
            if (v.count("mode")) { b.push_back("-m"); b.push_back(v["mode"]); v.erase("mode"); }
            b.insert(b.end(), tofmt.begin(), tofmt.end());
            string m = "---\n"; for (auto &k : v) m += k.first + ": " + (k.second.find('#') != string::npos || k.second[0] == '!' ? "\"" + k.second + "\"" : k.second) + "\n"; m += "---\n"; if (v.size()) { g->fs.put("/ref/m.yml", m); b.push_back("--meta-file"); b.push_back("/ref/m.yml"); }
            if (from_stdin) { g->in.data = no_meta ? doc : body; g->in.off = 0; g->in.eio_at = -1; } else b.push_back(path);
            g->out.data.clear(); g->err.data.clear(); RunResult rr = run_cli(b); if (rr.status) fail("failed", "reference", "exit %d: %s", rr.status, hexq(g->err.data).c_str());
            if (g->out.data == out) matched = true; else if (ref1.empty()) ref1 = g->out.data;
        }
        if (!matched) fail("wrong-layer", "options", "the options in force differ from those of the nearest layers: %s [%s]", first_diff(out, ref1).c_str(), d.c_str());
        probe("options-compared"); if (FL.present) probe("flags-compared"); ihash_add(fnv(out + d)); sample(d); R->work = 1; return;
    }
    string got_all; int found = 0;
    for (auto &k : keys) {
        string tag = "K-" + k + "="; size_t i = out.find(tag); if (i == string::npos) fail("document-lost", "line", "'%s' is missing from the output [%s]", tag.c_str(), d.c_str());
        size_t e = out.find("</p>", i); string got = out.substr(i + tag.size(), (e == string::npos ? out.size() : e) - i - tag.size()); if (!got.empty() && got.back() == '.') got.pop_back();
        { size_t b; while ((b = got.find("<a ")) != string::npos) { size_t c = got.find('>', b), z = got.find("</a>", b); if (c == string::npos || z == string::npos) break; got = got.substr(0, b) + got.substr(c + 1, z - c - 1) + got.substr(z + 4); } }
        auto ok = resolve(k); bool undef = got == "[%" + k + "]"; bool good = ok.count(got) || (undef && ok.count("\x01"));
        if (!good) { string w; for (auto &x : ok) w += (w.empty() ? "'" : "' or '") + (x == "\x01" ? string("undefined") : x); fail("wrong-layer", k, "%s came out as '%s', expected %s' [%s] stderr %s", k.c_str(), hexq(got).c_str(), hexq(w).c_str(), d.c_str(), hexq(g->err.data).c_str()); }
        if (!undef) found++; got_all += got + "|";
    }
    if (pk) {
        bool ran = out.find("PLUGRAN") != string::npos; bool ok; if (force) ok = ran == (force == 1); else { ok = false; for (auto &v : resolve("plugins")) if (ran == (v == "true")) ok = true; }
        if (!ok) fail("wrong-layer", "plugins", "plugins %s [%s]", ran ? "ran although the deciding setting is off" : "did not run although the deciding setting is on", d.c_str()); probe(ran ? "plugins-on" : "plugins-off");
    }
    probe("keys-defined", found); for (Layer *l : {&G, &C, &B, &T, &M}) if (l->present && (!l->opens || !l->reads)) probe("layers-failed");
    ihash_add(fnv(got_all + d)); sample(d); R->work = found > 0;
}
static Reg r15({"P15", "layers of settings", p15, "", "One case: a seeded set of settings files (user configuration, project configuration in the working, base or repository directory, --meta-file), document metadata and --meta arguments, with overlapping keys; each file may be missing, unreadable, fail half-way or be a directory, git and the working directory may be gone, reads are short and interrupted. Every value that reaches the output, and whether plugins run, is compared with a reference model of the precedence. Non-trivial: at least one key had a value; distinct: different values and operations.", "exploration"});
