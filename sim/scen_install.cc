/* Installing, uninstalling and listing plugins and filters: the real command line against a simulated git, curl, shell and disk. */
#include "progs.h"
#include <algorithm>
#include <cstring>
#include <cerrno>

static const char *PDIR_URL = "https://raw.githubusercontent.com/ApexMarkdown/apex-plugins/refs/heads/main/apex-plugins.json";
static const char *FDIR_URL = "https://raw.githubusercontent.com/ApexMarkdown/apex-filters/refs/heads/main/apex-filters.json";

struct Pack { bool filter; string id, repo, path /* single file in the repository */, hook; Inode *tree; string title, desc, author, homepage; bool listed = true, has_repo = true; };
struct Inst {
    string home, xdg, proot, froot;
    vector<Pack> packs;
    const string &root(bool filter) const { return filter ? froot : proot; }
};
static Inode *mkdir_node() { Inode *n = new Inode; n->type = Inode::DIR_; n->mode = 0755; n->id = g->fs.next_id++; return n; }
static Inode *mkfile_node(const string &d, int mode = 0644) { Inode *n = new Inode; n->data = d; n->mode = mode; n->id = g->fs.next_id++; return n; }
static string tree_text(Inode *n, const std::set<string> &skip = {}) { /* contents, names and kinds; not modes */
    if (!n) return "(nothing)";
    if (n->type == Inode::FILE_) return "F" + std::to_string(n->data.size()) + ":" + std::to_string(fnv(n->data)) + ";";
    if (n->type == Inode::LINK_) return "L" + n->data + ";";
    string o = "D{"; for (auto &k : n->kids) if (!skip.count(k.first)) o += k.first + "=" + tree_text(k.second, skip); return o + "}";
}
static const std::set<string> SKIP = {".git", ".hooked"};
static string jstr(const string &s, bool slash = false) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\' || (slash && c == '/')) o += '\\'; o += c; } return o + "\""; }
static string listing(const Inst &w, bool filter, u32 style) {
    string o = string("{") + (style & 1 ? "\n  \"version\": 1,\n" : "") + (style & 2 ? " \"updated\": \"2024\"," : "") + (filter ? "\"filters\":" : "\"plugins\":") + (style & 4 ? "\n [\n" : " [");
    bool first = true;
    for (auto &p : w.packs) {
        if (p.filter != filter || !p.listed) continue;
        vector<std::pair<string, string>> f = {{"id", p.id}};
        if (!p.title.empty()) f.push_back({"title", p.title});
        if (!p.desc.empty()) f.push_back({"description", p.desc});
        if (!p.author.empty()) f.push_back({"author", p.author});
        if (!p.homepage.empty()) f.push_back({"homepage", p.homepage});
        if (p.has_repo) f.push_back({"repo", p.repo});
        if (!p.path.empty()) f.push_back({"path", p.path});
        string junk = style & 512 ? (style & 1 ? "\"keywords\": [\"a\", \"b]\", \"}\"], \"stars\": 12" : "\"links\": {\"docs\": \"x}\", \"all\": [1, {\"n\": null}]}, \"ok\": true") : "";
        if (style & 8) std::reverse(f.begin(), f.end());
        if (!first) o += style & 4 ? ",\n" : ", ";
        first = false; o += "{"; bool ff = true; if (!junk.empty() && style & 2) o += junk + ", ";
        for (auto &x : f) { if (!ff) o += style & 16 ? ",\n    " : ", "; ff = false; o += jstr(x.first) + (style & 128 ? "\n   : \n  " : style & 32 ? ":" : ": ") + jstr(x.second, (style & 256) != 0); }
        if (!junk.empty() && !(style & 2)) o += ", " + junk;
        o += "}";
    }
    return o + "]" + (style & 64 ? "\n}\n" : "}");
}
static string some_desc() {
    static const vector<string> d = {"", "Does things", "Handles {{includes}} and more", "A brace } alone", "Opens { only", "Says \"hi\" to all", "id", "repo", "path", "back\\slash \\", "\"id\": \"x\"", "Comma, colon: and [brackets]", "unicode \xc3\xa9\xe2\x82\xac", "the id of \\\"repo\\\": none", "quoted \" brace } and \" another {", "plugins", "filters", "see \"plugins\": [ and \"filters\": ["};
    return d[draw(W, (u32)d.size())];
}
static Inode *gen_repo(const string &id, bool filter, const string &path, const string &hook, bool manifest_id) {
    Inode *t = mkdir_node();
    if (!filter) t->kids[draw(W, 4) == 3 ? "plugin.yaml" : "plugin.yml"] = mkfile_node("---\n" + (manifest_id ? "id: " + id + "\n" : string()) + "title: Plugin " + id + "\nphase: post_render\nhandler:\n  command: cat\n" + (hook.empty() ? "" : "post_install: " + hook + "\n") + "---\n");
    u32 n = 1 + draw(W, 4); for (u32 i = 0; i < n; i++) t->kids["file" + std::to_string(i) + ".txt"] = mkfile_node(string(1 + draw(W, 300), (char)('a' + i)) + id);
    if (draw(W, 2)) { Inode *d = mkdir_node(); t->kids["lib"] = d; u32 m = draw(W, 3); for (u32 i = 0; i < m; i++) d->kids["m" + std::to_string(i) + ".lua"] = mkfile_node("return " + std::to_string(i)); }
    if (!path.empty()) { Inode *d = t; string p = path; size_t k; while ((k = p.find('/')) != string::npos) { string c = p.substr(0, k); if (!d->kids.count(c)) d->kids[c] = mkdir_node(); d = d->kids[c]; p = p.substr(k + 1); } d->kids[p] = mkfile_node("-- filter " + id + "\n" + string(draw(W, 400), 'x')); }
    return t;
}
static void gen_world(Inst &w) {
    w.home = "/home/u"; bool xdg = draw(W, 3) == 2; w.xdg = xdg ? "/cfg" : "";
    if (draw(W, 4) == 3) { w.home = "/home/u v"; }
    set_env("HOME", w.home); if (xdg) set_env("XDG_CONFIG_HOME", w.xdg); else unset_env("XDG_CONFIG_HOME");
    string base = xdg ? w.xdg + "/apex" : w.home + "/.config/apex"; w.proot = base + "/plugins"; w.froot = base + "/filters";
    g->fs.mkdirs(w.home); g->fs.mkdirs("/work"); g->tools = {"git", "curl"}; g->heap_noise = false; set_sched_bias(4);
    g->fs.put(w.home + "/precious.txt", "keep me"); g->fs.put("/etc/passwd", "root:x"); g->fs.put("/work/doc.md", "text\n"); g->fs.put(base + "/config.yml", "---\nauthor: A\n---\n");
    u32 n = 2 + draw(W, 4);
    for (u32 i = 0; i < n; i++) {
        Pack p; p.filter = draw(W, 2); p.id = pick(W, vector<string>{"alpha", "beta-2", "code_inc", "k", "long.name.x"}) + std::to_string(i);
        p.repo = "https://github.com/u" + std::to_string(i) + "/" + pick(W, vector<string>{"apex-", "", "r."}) + p.id + ".git";
        if (p.filter && draw(W, 2)) p.path = pick(W, vector<string>{"", "src/", "src/deep/"}) + p.id + pick(W, vector<string>{".lua", ".py", ""});
        if (!p.filter && draw(W, 3) == 2) p.hook = pick(W, vector<string>{"touch .hooked", "false", "nosuchtool --x"});
        p.title = draw(W, 3) ? "Title of " + p.id : draw(W, 2) ? pick(W, vector<string>{"repo", "description", "id", "author"}) : ""; p.desc = some_desc(); p.author = draw(W, 2) ? "Author" : ""; p.homepage = draw(W, 2) ? "https://h.example/" + p.id : "";
        p.tree = gen_repo(p.id, p.filter, p.path, p.hook, true); g->remotes[p.repo] = p.tree; w.packs.push_back(p);
    }
    u32 style = draw(W, 128) + (draw(W, 6) == 5 ? 128 : 0) + (draw(W, 5) == 4 ? 256 : 0); g->web[PDIR_URL] = listing(w, false, style); g->web[FDIR_URL] = listing(w, true, style);
}
static string entry_name(const Pack &p) { if (p.path.empty()) return p.id; size_t k = p.path.rfind('/'); return k == string::npos ? p.path : p.path.substr(k + 1); }
static Inode *source_of(const Pack &p) { if (p.path.empty()) return p.tree; Inode *d = p.tree; string q = p.path; size_t k; while ((k = q.find('/')) != string::npos) { d = d->kids[q.substr(0, k)]; q = q.substr(k + 1); } return d->kids[q]; }
/* everything outside the two install roots, and inside them every visible entry not given in `except` */
static string outside(const Inst &w, const std::set<string> &except) {
    string o; std::function<void(Inode *, string)> rec = [&](Inode *n, string path) {
        for (auto &k : n->kids) {
            string p = path + "/" + k.first; bool in_root = path == w.proot || path == w.froot;
            if (in_root && k.first[0] == '.') continue;
            if (except.count(p)) continue;
            if (k.second->type == Inode::DIR_ && (w.proot.compare(0, p.size() + 1, p + "/") == 0 || p == w.proot || p == w.froot)) { rec(k.second, p); continue; } /* the path to the roots may be created */
            if (k.second->type == Inode::DIR_) { o += p + "/\n"; rec(k.second, p); } else o += p + " " + tree_text(k.second) + "\n";
        }
    };
    rec(g->fs.root, ""); return o;
}
static bool hidden_left(const string &root, const std::set<string> &before, string &name) { Inode *r = g->fs.lookup(root); if (!r) return false; for (auto &k : r->kids) if (k.first[0] == '.' && !before.count(k.first)) { name = root + "/" + k.first; return true; } return false; }

/* ================================================================ P12 installing */
static void p12() {
    Inst w; gen_world(w); g->heap_check = draw(W, 2);
    Inode *ro = g->fs.mkdirs(w.proot); Inode *fo = g->fs.mkdirs(w.froot); (void)fo;
    if (draw(W, 4) == 3) { g->fs.remove_tree(w.proot); g->fs.remove_tree(w.froot); }
    else { ro->kids["other"] = gen_repo("other", false, "", "", true); if (draw(W, 3) == 2) { g->fs.put(w.froot + "/solo.lua", "-- mine"); } }
    u32 ops = 1 + draw(W, 3); string hist; bool crashed_before = false;
    std::map<string, string> have; /* visible entries this history has installed: path -> contents */
    for (u32 o = 0; o < ops; o++) {
        Pack &p = w.packs[draw(W, (u32)w.packs.size())];
        bool by_url = draw(W, 3) == 2; if (by_url && p.filter && !p.path.empty()) by_url = false;
        string name = entry_name(p), what = p.id;
        if (by_url) { string q = p.repo.substr(19); q = q.substr(0, q.size() - 4); what = draw(W, 2) ? p.repo : q; if (p.filter) { name = q.substr(q.rfind('/') + 1); } }
        if (by_url && !p.filter && draw(W, 5) == 4) { /* a repository that names itself badly, or somebody else */
            Inode *t = g->remotes[p.repo]; string bad = pick(W, vector<string>{"..", ".", ".hidden", "a/b", "../filters/x", "x\"y", "$(touch /work/evil)", "/work/abs", "other/lib", "-rf"}); auto kids0 = t->kids; t->kids.erase("plugin.yaml"); t->kids["plugin.yml"] = mkfile_node("---\nid: '" + bad + "'\ntitle: T\nphase: pre_parse\nhandler:\n  command: cat\n---\n"); string all0 = outside(w, {});
            std::set<string> h0; if (Inode *n = g->fs.lookup(w.proot)) for (auto &k : n->kids) h0.insert(k.first);
            g->in.data = "y\n"; g->in.off = 0; g->destroyed.clear(); RunResult r = run_cli({"--install-plugin", what}); hist += "repository with id " + bad + " -> " + std::to_string(r.status) + "; ";
            if (outside(w, {}) != all0) fail("collateral-change", "manifest id", "installing a repository whose manifest says id: %s changed other files [%s]", bad.c_str(), hist.c_str());
            if (r.status == 0) fail("false-success", "manifest id", "a repository whose manifest says id: %s was reported as installed [%s]", bad.c_str(), hist.c_str());
            string left; if (hidden_left(w.proot, h0, left)) fail("left-behind", "manifest id", "%s is left [%s]", left.c_str(), hist.c_str());
            for (auto &d : g->destroyed) if (d.substr(2).compare(0, w.proot.size() + 2, w.proot + "/.") != 0) fail("destroyed", "manifest id", "%s was removed [%s]", d.c_str(), hist.c_str());
            t->kids = kids0; probe("bad-manifest-id"); continue; }
        if (by_url && draw(W, 4) == 3) { /* asked, and not answered with yes */
            string all0 = g->fs.dump("/"), ans = pick(W, vector<string>{"n\n", "N\n", "\n", "", "no\n", "x\n", " y\n", "ja\n", "1\n"}); g->in.data = ans; g->in.off = 0; size_t e0 = g->execs.size(); RunResult r = run_cli({p.filter ? "--install-filter" : "--install-plugin", what}); hist += what + " answered '" + hexq(ans) + "' -> " + std::to_string(r.status) + "; ";
            for (size_t k = e0; k < g->execs.size(); k++) if (g->execs[k][0] == "git" && g->execs[k].size() > 1 && g->execs[k][1] == "clone") fail("installed-unasked", "confirmation", "%s was cloned although the question was answered '%s' [%s]", what.c_str(), hexq(ans).c_str(), hist.c_str());
            if (g->fs.dump("/") != all0) fail("installed-unasked", "confirmation", "files changed although the question was answered '%s' [%s]", hexq(ans).c_str(), hist.c_str());
            if (r.status == 0) fail("false-success", "confirmation", "exit 0 although the question was answered '%s' [%s]", hexq(ans).c_str(), hist.c_str());
            probe("declined"); continue; }
        string target = w.root(p.filter) + "/" + name; if (o == 0 && !p.path.empty() && draw(W, 6) == 5) { g->fs.put(target, "-- my own, not executable", draw(W, 2) ? 0644 : 0755); } Inode *src = source_of(p); string want = tree_text(src, SKIP);
        bool existed = g->fs.lookup(target) != nullptr; string before_entry = tree_text(g->fs.lookup(target), {".git"});
        string before = outside(w, {target}); std::set<string> hid; for (const string *r : {&w.proot, &w.froot}) if (Inode *n = g->fs.lookup(*r)) for (auto &k : n->kids) if (k.first[0] == '.') hid.insert(k.first);
        g->destroyed.clear();
        vector<string> a = {p.filter ? "--install-filter" : "--install-plugin", what};
        /* one attempt with faults or a crash, then attempts without until it has settled */
        u32 mode = draw(F, 5); u64 f0 = 0; for (int k = 0; k < FK_COUNT; k++) f0 += R->faults[k];
        for (int k = 0; k < FK_COUNT; k++) enabled_fault[k] = false;
        if (mode == 1 || mode == 2) { g->crashed = false; g->crash_at = g->seam_no + 1 + (long)(mode == 1 ? draw(F, 60) : 10 + draw(F, 220)); }
        if (mode == 3) { for (Fault k : {FK_CLONE_FAIL, FK_RENAME_FAIL, FK_RM_FAIL, FK_CP_FAIL, FK_MKDIR_FAIL, FK_NET_FAIL, FK_NET_TRUNCATED, FK_FORK_FAIL, FK_PIPE_FAIL}) if (draw(F, 3) == 0) enable(k, 1 + draw(F, 4)); faults_left = 1 + (int)draw(F, 2); g->faults_on = true; }
        if (mode == 4) { enable(FK_READ_PARTIAL, 3); enable(FK_READ_EINTR, 6); enable(FK_WAIT_EINTR, 3); faults_left = 40; g->faults_on = true; }
        g->in.data = by_url ? "y\n" : ""; g->in.off = 0; size_t ex0 = g->execs.size();
        RunResult r = run_cli(a); string err1 = g->err.data;
        g->crash_at = -1; g->faults_on = false; bool crashed = r.crashed; u64 f1 = 0; for (int k = 0; k < FK_COUNT; k++) f1 += R->faults[k]; bool faulty = f1 != f0 && mode != 4;
        string now = tree_text(g->fs.lookup(target), existed ? std::set<string>{".git"} : SKIP);
        string step = (p.filter ? "filter " : "plugin ") + what + (crashed ? " crash" : faulty ? " fault" : "") + " -> " + (crashed ? "killed" : std::to_string(r.status)) + "; "; hist += step;
        auto check_rest = [&](const char *when) {
            if (outside(w, {target}) != before) fail("collateral-change", when, "installing %s changed files other than %s [%s]", what.c_str(), target.c_str(), hist.c_str());
            for (auto &d : g->destroyed) { string q = d.substr(2); bool tmp = q.compare(0, w.root(p.filter).size() + 2, w.root(p.filter) + "/.") == 0; if (!tmp) fail("destroyed", when, "installing %s removed or replaced %s [%s]", what.c_str(), q.c_str(), hist.c_str()); }
        };
        if (existed) {
            if (!crashed && r.status == 0) fail("overwrote", "existing", "%s was already installed, yet installing %s reported success [%s]", target.c_str(), what.c_str(), hist.c_str());
            if (now != before_entry) fail("overwrote", "existing", "installing %s changed the existing %s [%s]", what.c_str(), target.c_str(), hist.c_str());
            check_rest("existing"); probe("refused-existing"); 
            if (crashed) crashed_before = true;
            continue;
        }
        if (now != "(nothing)" && now != want) fail("half-installed", crashed ? "crash" : "fault", "after %s, %s is visible but incomplete: %s, expected %s [%s] stderr %s", crashed ? "being killed" : "a failure", target.c_str(), hexq(now).c_str(), hexq(want).c_str(), hist.c_str(), hexq(err1).c_str());
        if (!crashed && r.status == 0 && now != want) fail("not-installed", "success", "exit 0, but %s is not there [%s] stderr %s", target.c_str(), hist.c_str(), hexq(err1).c_str());
        if (!crashed && r.status != 0 && now != "(nothing)") fail("installed-after-failure", "failure", "exit %d, yet %s is installed [%s] stderr %s", r.status, target.c_str(), hist.c_str(), hexq(err1).c_str());
        if (!crashed && r.status != 0 && !faulty && !crashed_before) fail("needless-failure", p.filter ? "filter" : "plugin", "nothing went wrong, yet installing %s exited %d: %s [%s]", what.c_str(), r.status, hexq(err1).c_str(), hist.c_str());
        check_rest("first attempt");
        string left; if (!crashed && !crashed_before && !R->faults[FK_RM_FAIL] && (R->faults[FK_FORK_FAIL] + R->faults[FK_PIPE_FAIL] == 0) && hidden_left(w.root(p.filter), hid, left)) fail("left-behind", "temporary files", "%s is left after installing %s ended with %d [%s]", left.c_str(), what.c_str(), r.status, hist.c_str());
        if (crashed) crashed_before = true;
        /* once the trouble is over, installing works (or had already been finished when it was killed) */
        if (now == "(nothing)") {
            g->in.data = by_url ? "y\n" : ""; g->in.off = 0; ex0 = g->execs.size();
            RunResult q = run_cli(a); now = tree_text(g->fs.lookup(target), SKIP);
            if (q.status != 0 || now != want) fail("cannot-recover", crashed ? "crash" : "fault", "after %s, installing %s again exits %d (%s) and %s is %s [%s]", crashed ? "being killed" : "a failure", what.c_str(), q.status, hexq(g->err.data).c_str(), target.c_str(), now == want ? "there" : "not there", hist.c_str());
            check_rest("retry"); probe(crashed ? "recovered-after-crash" : "recovered-after-failure");
        }
        if (!crashed || true) { if (!p.path.empty() && !(g->fs.lookup(target)->mode & 0100)) fail("not-executable", "filter file", "%s is installed but cannot be executed [%s]", target.c_str(), hist.c_str()); }
        if (!p.hook.empty() && !crashed) { int n = 0; string hc = p.hook.substr(0, p.hook.find(' ')); for (size_t k = ex0; k < g->execs.size(); k++) if (g->execs[k][0] == hc) n++; if (n != 1 && !R->faults[FK_FORK_FAIL] && !R->faults[FK_PIPE_FAIL]) fail("hook", "post_install", "the post-install hook of %s ran %d times [%s]", what.c_str(), n, hist.c_str()); probe("hooks-run"); }
        probe("installed");
    }
    ihash_add(fnv(hist)); sample(hist); R->work = 1;
}
static Reg r12({"P12", "installing plugins and filters", p12, "", "One case: a seeded directory listing, repositories and existing installation; 1-3 installs by id, URL or shorthand through the real command line with a simulated git, curl and shell, each killed at a seeded operation or with failing clone, rename, copy, mkdir, remove, network, fork; installs declined at the prompt, repositories with hostile manifest ids and existing files of the same name are among them; visible entries, bystander files and the outcome of a later fault-free retry are checked. Non-trivial: every attempt ended and was compared; distinct: different history of attempts and operations.", "exploration"});

/* ================================================================ P13 uninstalling */
static void p13() {
    Inst w; gen_world(w); g->heap_check = draw(W, 2);
    bool filter = draw(W, 2); const string &root = w.root(filter); Inode *ro = g->fs.mkdirs(root); g->fs.mkdirs(w.root(!filter));
    vector<string> names; u32 n = 1 + draw(W, 4);
    for (u32 i = 0; i < n; i++) { string nm = pick(W, vector<string>{"alpha", "beta", "Gamma x", "d-1", "e.f"}) + std::to_string(i); if (filter && draw(W, 2)) { nm += pick(W, vector<string>{".lua", ".py", ""}); ro->kids[nm] = mkfile_node("f" + nm); } else ro->kids[nm] = gen_repo(nm, filter, "", "", true); names.push_back(nm); if (draw(W, 4) == 3) { string n2 = nm + pick(W, vector<string>{".bak", ".lua", "-old", "x", " 2"}); if (!ro->kids.count(n2)) { ro->kids[n2] = filter ? mkfile_node("f" + n2) : gen_repo(n2, filter, "", "", true); names.push_back(n2); } } }
    if (draw(W, 2)) { g->fs.put("/src/devplug/plugin.yml", "---\nid: dev\n---\n"); g->fs.put("/src/devplug/work.txt", "unsaved"); g->fs.symlink(root + "/dev", "/src/devplug"); names.push_back("dev"); }
    g->fs.put(root + "/../support/keep", "data"); g->fs.put(root + "/.hidden/x", "1");
    string id; bool evil = draw(W, 3) == 2; string target;
    if (evil) id = pick(W, vector<string>{"..", ".", "", "../plugins", "../..", "../../..", "/etc", "../../precious.txt", "../support", "x/../..", names[0] + "/..", names[0] + "/../../support", "$HOME", "`echo " + names[0] + "`", "$(touch /work/evil)", "x\"; touch /work/evil; \"", "*", names[0] + "\" \"/etc", "./", "//", "../filters", ".hidden", names[0] + "/lib", string(400, 'a') });
    else { id = pick(W, names); target = id; if (filter) { size_t k = id.rfind('.'); if (k != string::npos && draw(W, 2) && (id.substr(k) == ".lua" || id.substr(k) == ".py")) id = id.substr(0, k); } if (draw(W, 8) == 7) { id = "nosuch"; target = ""; } }
    bool plain = !id.empty() && id[0] != '.' && id.find_first_of("/\"$`\\") == string::npos;
    if (evil) target = "";
    if (!target.empty() && filter && g->fs.lookup(root + "/" + id)) target = id;
    string answer = pick(W, vector<string>{"y\n", "Y\n", "yes\n", "n\n", "\n", "", "N\n", "no\n", "q", "x\ny\n", " y\n", "y"});
    bool yes = !answer.empty() && (answer[0] == 'y' || answer[0] == 'Y');
    g->in.data = answer; g->in.off = 0; g->in.eio_at = -1; u32 fm = draw(F, 4);
    if (fm == 1) { enable(FK_RM_FAIL, 1 + draw(F, 5)); faults_left = 1; } else if (fm == 2) { g->in.eio_at = 0; yes = false; } else if (fm == 3) { g->crash_at = g->seam_no + 1 + draw(F, draw(F, 2) ? 25 : 120); }
    string tpath = target.empty() ? "" : root + "/" + target;
    string before_all = g->fs.dump("/"); string before = outside(w, tpath.empty() ? std::set<string>{} : std::set<string>{tpath}); string hidden0 = tree_text(g->fs.lookup(root + "/.hidden"));
    string tree0 = tpath.empty() ? "" : tree_text(g->fs.lookup(tpath)); bool is_link = !tpath.empty() && g->fs.lookup(tpath, nullptr, false)->type == Inode::LINK_;
    g->destroyed.clear(); size_t e0 = g->execs.size();
    vector<string> a = {filter ? "--uninstall-filter" : "--uninstall-plugin", id};
    RunResult r = run_cli(a); bool crashed = r.crashed; g->crash_at = -1; g->faults_on = false;
    string d = (filter ? "filter '" : "plugin '") + id + "' answer '" + hexq(answer) + "'" + (fm == 2 ? " stdin fails" : fm == 1 ? " rm fails" : crashed ? " killed" : "") + " exit " + std::to_string(r.status);
    if (g->fs.lookup("/work/evil")) fail("command-injected", "uninstall", "part of the id was run as a command [%s]", d.c_str());
    if (!yes || tpath.empty()) {
        if (g->fs.dump("/") != before_all) fail("removed-unasked", yes ? "not installed" : "not confirmed", "something was removed or changed although %s; destroyed %s [%s]", yes ? "nothing of that name is installed" : "the question was not answered with yes", g->destroyed.empty() ? "?" : g->destroyed[0].c_str(), d.c_str());
        if (!crashed && r.status == 0) fail("false-success", "uninstall", "exit 0 although nothing was removed [%s]", d.c_str());
        probe("refused");
    } else {
        if (outside(w, {tpath}) != before || tree_text(g->fs.lookup(root + "/.hidden")) != hidden0) fail("collateral-change", "uninstall", "uninstalling %s changed something else; destroyed %s [%s]", id.c_str(), g->destroyed.empty() ? "?" : g->destroyed[0].c_str(), d.c_str());
        bool gone = g->fs.lookup(tpath, nullptr, false) == nullptr;
        if (!crashed && r.status == 0 && !gone) fail("false-success", "uninstall", "exit 0, but %s is still there [%s]", tpath.c_str(), d.c_str());
        if (!crashed && r.status != 0 && gone) fail("false-failure", "uninstall", "exit %d, but %s is gone [%s]", r.status, tpath.c_str(), d.c_str());
        if (!crashed && r.status != 0 && !R->faults[FK_RM_FAIL]) fail("needless-failure", "uninstall", "nothing went wrong, yet exit %d: %s [%s]", r.status, hexq(g->err.data).c_str(), d.c_str());
        if (is_link && tree_text(g->fs.lookup("/src/devplug")).find("work.txt") == string::npos) fail("followed-link", "uninstall", "uninstalling the link %s removed what it points to [%s]", tpath.c_str(), d.c_str());
        if (!gone) { g->in.data = "y\n"; g->in.off = 0; RunResult q = run_cli(a); if (q.status != 0 || g->fs.lookup(tpath, nullptr, false)) fail("cannot-recover", "uninstall", "uninstalling %s again exits %d: %s [%s]", id.c_str(), q.status, hexq(g->err.data).c_str(), d.c_str()); probe("removed-on-retry"); if (outside(w, {tpath}) != before) fail("collateral-change", "uninstall retry", "the second attempt changed something else [%s]", d.c_str()); }
        probe("removed");
    }
    (void)plain; (void)e0; ihash_add(fnv(d)); sample(d); R->work = 1;
}
static Reg r13({"P13", "uninstalling plugins and filters", p13, "", "One case: a seeded installation (directories, single files, a link to a source tree, hidden and bystander files) and one uninstall through the real command line with an ordinary, missing or path-escaping id, any answer to the question, a failing stdin, a failing remove or a kill at a seeded operation; the whole simulated disk is compared before and after. Non-trivial: the command ended and the disk was compared; distinct: different id, answer, fault and operations.", "exploration"});

/* ================================================================ P14 the remote directory */
static string block(const Pack &p) {
    string o = p.id; if (o.size() < 20) o += string(20 - o.size(), ' ');
    o += " - " + (p.title.empty() ? p.id : p.title); if (!p.author.empty()) o += "  (author: " + p.author + ")"; o += "\n";
    if (!p.desc.empty()) { string e; e = jstr(p.desc); o += "    " + e.substr(1, e.size() - 2) + "\n"; }
    if (!p.homepage.empty()) o += "    homepage: " + p.homepage + "\n"; else o += "    repo: " + p.repo + "\n";
    string q; for (char c : o) if (c != '\\') q += c; /* escapes in texts may be shown as they are or decoded */
    return q;
}
static vector<string> blocks(const string &t0) { vector<string> v; string t; for (char c : t0) if (c != '\\') t += c; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); string l = t.substr(i, e == string::npos ? string::npos : e - i); if (!l.empty() && l.compare(0, 4, "    ") == 0 && !v.empty()) v.back() += l + "\n"; else if (!l.empty()) v.push_back(l + "\n"); if (e == string::npos) break; i = e + 1; } std::sort(v.begin(), v.end()); return v; }
static void p14() {
    Inst w; gen_world(w); g->heap_check = draw(W, 2); bool filter = draw(W, 2);
    u32 extra = draw(W, 6) == 5 ? 20 + draw(W, 60) : draw(W, 6); for (u32 i = 0; i < extra; i++) { Pack p; p.filter = filter; p.id = "more" + std::to_string(i); p.repo = "https://github.com/m/" + p.id + ".git"; p.desc = some_desc() + string(draw(W, 3) == 2 ? draw(W, 300) : 0, 'z'); p.title = "T" + std::to_string(i); p.has_repo = draw(W, 6) != 5; p.tree = gen_repo(p.id, filter, "", "", true); g->remotes[p.repo] = p.tree; w.packs.push_back(p); }
    u32 style = draw(W, 128) + (draw(W, 6) == 5 ? 128 : 0) + (draw(W, 5) == 4 ? 256 : 0) + (draw(W, 4) == 3 ? 512 : 0); const char *url = filter ? FDIR_URL : PDIR_URL; string json = listing(w, filter, style); g->web[url] = json;
    for (auto &p : w.packs) if (p.filter == filter && draw(W, 5) == 4) { g->fs.mkdirs(w.root(filter)); g->fs.lookup(w.root(filter))->kids[entry_name(p)] = mkdir_node(); Inode *d = g->fs.lookup(w.root(filter))->kids[entry_name(p)]; d->kids["plugin.yml"] = mkfile_node("---\nid: " + p.id + "\n---\n"); }
    bool list = draw(W, 3); vector<string> largs = {filter ? "--list-filters" : "--list-plugins"}; std::map<string, string> local; /* installed plugin id -> how it is listed */
    if (!filter && list) { /* installed plugins of the project, a base directory, the repository and the user: the first of an id counts */
        g->fs.mkdirs("/work/sub"); g->fs.cwd = draw(W, 2) ? "/work" : "/work/sub"; string base = draw(W, 3) == 2 ? "/base" : ""; string top = pick(W, vector<string>{"", "/work", "/wor", "/else"}); g->git_toplevel = top; if (!base.empty()) { largs.push_back("--base-dir"); largs.push_back(base); }
        vector<string> path = {g->fs.cwd + "/.apex/plugins"}; if (!base.empty()) path.push_back(base + "/.apex/plugins"); if (top == "/work" && g->fs.cwd != top) path.push_back(top + "/.apex/plugins"); path.push_back(w.proot); string decoy = top == "/wor" || top == "/else" ? top + "/.apex/plugins" : "";
        for (auto &dir : path) {
            u32 n = draw(W, 5) == 4 ? 12 : draw(W, 4);
            for (u32 i = 0; i < n; i++) {
                bool known = draw(W, 2) && !w.packs.empty(); string id = known ? w.packs[draw(W, (u32)w.packs.size())].id : "own" + std::to_string(draw(W, 20)); bool named = draw(W, 3) != 2; string at = dir + "/" + (named && draw(W, 2) ? "d" + std::to_string(draw(W, 9)) : id);
                if (g->fs.lookup(at, nullptr, false)) continue;
                string ti = draw(W, 2) ? "Local " + id + " of " + std::to_string(draw(W, 100)) : "", au = draw(W, 2) ? "Me" : "", de = draw(W, 2) ? "It does " + std::to_string(draw(W, 100)) : "", ho = draw(W, 2) ? "https-of-" + id : "";
                Inode *f = g->fs.put(at + (draw(W, 3) == 2 ? "/plugin.yaml" : "/plugin.yml"), string("---\n") + (named ? "id: " + id + "\n" : "") + (ti.empty() ? "" : "title: " + ti + "\n") + (au.empty() ? "" : "author: " + au + "\n") + (de.empty() ? "" : "description: " + de + "\n") + (ho.empty() ? "" : "homepage: " + ho + "\n") + "phase: pre_parse\nhandler:\n  command: cat\n---\n");
                if (draw(W, 8) == 7) { if (draw(W, 2)) f->eio_at = (long)draw(W, 20); else f->open_errno = EACCES; continue; }
                if (!named) { size_t k = at.rfind('/'); id = at.substr(k + 1); }
                string l = id; if (l.size() < 20) l += string(20 - l.size(), ' '); l += " - " + (ti.empty() ? id : ti) + (au.empty() ? "" : "  (author: " + au + ")") + "\n" + (de.empty() ? "" : "    " + de + "\n") + (ho.empty() ? "" : "    homepage: " + ho + "\n");
                bool twice = false; for (auto &k : g->fs.lookup(dir)->kids) if (dir + "/" + k.first != at && k.second->kids.size() && k.second->kids.begin()->second->data.find("\nid: " + id + "\n") != string::npos) twice = true;
                for (auto &k : g->fs.lookup(dir)->kids) if (k.first == id && dir + "/" + k.first != at) twice = true;
                if (twice) { g->fs.lookup(dir)->kids.erase(at.substr(at.rfind('/') + 1)); continue; } /* the order inside one directory is not this property */
                if (!local.count(id)) local[id] = l; else probe("shadowed-in-list");
            }
            if (dir == w.proot) if (Inode *r = g->fs.lookup(w.proot)) for (auto &k : r->kids) { auto it = k.second->kids.find("plugin.yml"); if (it == k.second->kids.end()) continue; string t = it->second->data; if (t.compare(0, 8, "---\nid: ") == 0 && t.size() > 12 && t.find("phase") == string::npos) { string id = t.substr(8, t.size() - 13); if (!local.count(id)) { string l = id; if (l.size() < 20) l += string(20 - l.size(), ' '); local[id] = l + " - " + id + "\n"; } } }
        }
        if (!decoy.empty()) g->fs.put(decoy + "/ghost/plugin.yml", "---\nid: ghost\nphase: pre_parse\nhandler:\n  command: cat\n---\n");
    }
    u32 fm = draw(F, 7); bool cut = false; string what = "intact";
    if (fm == 1) { enable(FK_NET_FAIL, 1); what = "unreachable"; } else if (fm == 2) { enable(FK_NET_TRUNCATED, 1); what = "transfer aborted"; }
    else if (fm == 3) { size_t keep = draw(F, (u32)json.size()); g->web[url] = json.substr(0, keep); cut = json.find(']', json.rfind('}', json.size() - 2) ) >= keep; /* before the end of the list */ size_t lastb = json.rfind(']'); cut = keep <= lastb; fault_fired(FK_CORRUPT, "listing cut"); what = "cut to " + std::to_string(keep) + " of " + std::to_string(json.size()); }
    else if (fm == 4) { enable(FK_READ_PARTIAL, 2); enable(FK_READ_EINTR, 5); what = "short reads"; } else if (fm == 5) { g->tools.erase("curl"); what = "curl cannot run"; fault_fired(FK_TOOL_MISSING, "curl"); } else if (fm == 6) { g->pipe_eio_armed = false; /* until curl runs */ enable(FK_READ_EIO, 1 + draw(F, 6)); faults_left = 1; what = "not readable"; }
    bool bad = fm == 1 || fm == 2 || cut || fm == 5;
    std::set<string> inst; if (Inode *r = g->fs.lookup(w.root(filter))) for (auto &k : r->kids) inst.insert(k.first);
    if (!filter && list) { inst.clear(); for (auto &l : local) inst.insert(l.first); }
    vector<string> all; for (auto &p : w.packs) if (p.filter == filter && p.has_repo && !inst.count(p.id)) all.push_back(block(p)); std::sort(all.begin(), all.end());
    string disk0 = g->fs.dump("/"), rest0 = outside(w, {}); string d = string(filter ? "filters " : "plugins ") + what;
    if (list) {
        RunResult r = run_cli(largs); if (R->faults[FK_READ_EIO]) bad = true; string out = g->out.data; size_t k = out.find(filter ? "## Available Filters\n" : "## Available Plugins\n"); string avail = k == string::npos ? "" : out.substr(out.find('\n', k) + 1); auto got = blocks(avail);
        if (bad) {
            if (!got.empty()) fail("partial-listing", "list", "the directory was %s, yet %zu of %zu entries are shown as available [%s]", what.c_str(), got.size(), all.size(), d.c_str());
            if (g->err.data.empty()) fail("failed-silently", "list", "the directory was %s and nothing is said about it", what.c_str());
            probe("listing-refused");
        } else if (got != all && !(fm == 3)) { string miss; for (auto &b : all) if (!std::count(got.begin(), got.end(), b)) { miss = b; break; } string extra_; for (auto &b : got) if (!std::count(all.begin(), all.end(), b)) { extra_ = b; break; } fail("wrong-listing", "list", "%zu entries shown, %zu expected; missing '%s' unexpected '%s' [%s]", got.size(), all.size(), hexq(miss).c_str(), hexq(extra_).c_str(), d.c_str()); }
        else probe("listing-complete");
        if (!filter) { size_t e = out.find("\n---\n"), b0 = out.find("## Installed Plugins\n"); string sec = b0 == string::npos ? "" : out.substr(b0 + 21, e == string::npos ? string::npos : e - b0 - 21); auto shown = blocks(sec); vector<string> must; for (auto &l : local) must.push_back(l.second); std::sort(must.begin(), must.end());
            if (shown != must) { string miss, extra_; for (auto &b : must) if (!std::count(shown.begin(), shown.end(), b)) { miss = b; break; } for (auto &b : shown) if (!std::count(must.begin(), must.end(), b)) { extra_ = b; break; } fail("wrong-installed", "list", "%zu plugins are shown as installed, %zu are; missing '%s' unexpected '%s' [%s]", shown.size(), must.size(), hexq(miss).c_str(), hexq(extra_).c_str(), d.c_str()); }
            probe("installed-listed", must.size()); }
        if (g->fs.dump("/") != disk0) fail("collateral-change", "list", "listing changed the disk [%s]", d.c_str());
        d += " list -> " + std::to_string(got.size()) + " exit " + std::to_string(r.status);
    } else {
        vector<Pack *> c; for (auto &p : w.packs) if (p.filter == filter) c.push_back(&p); Pack *p = c.empty() ? nullptr : c[draw(W, (u32)c.size())]; bool unknown = !p || draw(W, 6) == 5; string id = unknown ? "unlisted" : p->id; bool had = !unknown && g->fs.lookup(w.root(filter) + "/" + entry_name(*p));
        RunResult r = run_cli({filter ? "--install-filter" : "--install-plugin", id}); if (R->faults[FK_READ_EIO]) bad = true;
        bool may = !bad && !unknown && p->has_repo && !had; string clone; for (auto &e : g->execs) if (e[0] == "git" && e.size() > 1 && e[1] == "clone") for (auto &x : e) if (x.find("://") != string::npos) clone = x;
        if (!may) {
            if (!clone.empty() && !had) fail("wrong-source", "install", "%s is %s, yet %s was cloned [%s]", id.c_str(), bad ? "not known for sure" : "not in the directory with a repository", clone.c_str(), d.c_str());
            if (r.status == 0) fail("false-success", "install", "exit 0 [%s]", d.c_str());
            if (outside(w, {}) != rest0) fail("collateral-change", "install", "a refused install of %s changed installed or other files [%s]", id.c_str(), d.c_str());
            probe("install-refused");
        } else {
            if (clone != p->repo) fail("wrong-source", "install", "%s was cloned from '%s', the directory says %s [%s] stderr %s", id.c_str(), clone.c_str(), p->repo.c_str(), d.c_str(), hexq(g->err.data).c_str());
            string now = tree_text(g->fs.lookup(w.root(filter) + "/" + entry_name(*p)), SKIP), want = tree_text(source_of(*p), SKIP);
            if (r.status != 0 || now != want) fail("not-installed", "install", "exit %d and %s is %s [%s] stderr %s", r.status, entry_name(*p).c_str(), now == want ? "there" : "not as in the repository", d.c_str(), hexq(g->err.data).c_str());
            probe("install-from-directory");
        }
        d += " install " + id + " exit " + std::to_string(r.status);
    }
    ihash_add(fnv(d + json)); sample(d + " (" + std::to_string(json.size()) + "B listing)"); R->work = 1;
}
static Reg r14({"P14", "the remote directory", p14, "", "One case: a seeded plugin or filter directory (2-80 entries, varying layout, key order, braces and quotes in texts, entries without a repository) is listed or installed from while the connection fails, the transfer aborts, the listing arrives cut, reads are short or curl cannot run; installed plugins of the project, base directory, repository and user shadow each other; the shown entries, the cloned repository and the disk are compared with the directory's content. Non-trivial: the command ended and was compared; distinct: different listing, fault and outcome.", "exploration"});
