/* What is run as a command: hostile documents, directory entries, manifests and file names against the simulated shell. */
#include "progs.h"
#include <algorithm>
#include <cstring>
extern "C" {
#include "extensions/syntax_highlight.h"
}

static const char *PDIR_URL = "https://raw.githubusercontent.com/ApexMarkdown/apex-plugins/refs/heads/main/apex-plugins.json";
static const char *FDIR_URL = "https://raw.githubusercontent.com/ApexMarkdown/apex-filters/refs/heads/main/apex-filters.json";
static const std::set<string> ALLOWED = {"pygmentize", "skylighting", "shiki", "which", "command", "type", "git", "curl", "rm", "mv", "cp", "chmod", "mkdir", "[", "test", "cd", "true", ":", "lua", "rmdir", "unlink", "python3", "ruby"};
static std::set<string> *own; /* programs this scenario installed on purpose */

/* a text that runs something if it reaches a shell unquoted, double-quoted or single-quoted */
static string evil(bool one_word) {
    static const vector<string> words = {";touch${IFS}/work/evil", "$(touch${IFS}/work/evil)", "`touch${IFS}/work/evil`", "|evil", "&evil", "&&evil;", ">/work/evil", "\"|evil|\"", "';evil;'", "\";evil;\"", "'`evil`'", "$(evil)", ";evil#", "||evil", "\\\";evil", "(evil)", "-o/work/evil", "--output=/work/evil"};
    static const vector<string> loose = {"; touch /work/evil", "$(touch /work/evil)", "`touch /work/evil`", "\" ; touch /work/evil ; \"", "' ; touch /work/evil ; '", "\ntouch /work/evil\n", "x || touch /work/evil", " > /work/evil"};
    u32 k = one_word ? draw(W, (u32)words.size()) : draw(W, (u32)(words.size() + loose.size()));
    string e = k < words.size() ? words[k] : loose[k - words.size()];
    return (draw(W, 2) || e[0] == '-' ? "" : pick(W, vector<string>{"c", "python", "x-1", "r/n"})) + e + (e[0] != '-' && draw(W, 4) == 3 ? ".git" : "");
}
static string esc(const string &s) { string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else o += c; } return o; }
static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } return o; }
static string disk() { return g->fs.dump("/work") + g->fs.dump("/home/u/.config/apex/plugins") + g->fs.dump("/home/u/.config/apex/filters") + g->fs.dump("/etc") + g->fs.get("/home/u/precious"); } /* not the support directories that running plugins may create */
static void judge(const string &where, const string &what, const string &disk0) {
    for (auto &e : g->execs) {
        string c = e[0]; size_t k = c.rfind('/'); if (k != string::npos && (c.compare(0, 5, "/bin/") == 0 || c.compare(0, 9, "/usr/bin/") == 0)) c = c.substr(k + 1);
        string l; for (auto &x : e) l += (l.empty() ? "" : " ") + x;
        if (!ALLOWED.count(c) && !own->count(e[0])) fail("command-injected", where, "'%s' was run as a command [%s]", hexq(l).c_str(), hexq(what, 300).c_str());
        for (size_t i = 1; i < e.size(); i++) if (e[i].size() > 2 && e[i][0] == '-' && e[i].find("/work/evil") != string::npos) fail("option-injected", where, "%s was given the option '%s' [%s]", c.c_str(), hexq(e[i]).c_str(), hexq(what, 300).c_str());
        probe("commands-judged");
    }
    if (g->fs.lookup("/work/evil") || g->fs.lookup("/evil")) fail("command-injected", where, "a file was created by a command that only the input contains [%s]", hexq(what, 300).c_str());
    if (!disk0.empty() && disk() != disk0) fail("disk-changed", where, "converting or listing changed files [%s]", hexq(what, 300).c_str());
}
/* ---- documents ---- */
static void documents() {
    g->tools = {"git", "pygmentize", "skylighting", "shiki"}; string d; string doc;
    string tool = pick(W, vector<string>{"pygments", "skylighting", "shiki"}); bool cli = draw(W, 2);
    if (draw(W, 6) == 5) g->tools.erase("pygmentize");
    u32 n = 1 + draw(W, 4); vector<string> langs; for (u32 i = 0; i < n; i++) { string l = draw(W, 5) ? evil(draw(W, 3) != 0) : pick(W, vector<string>{"c", "c++", "objective-c", "c#"}); langs.push_back(l); }
    if (!cli) {
        for (auto &l : langs) { string code = draw(W, 2) ? esc(evil(false)) : "int x;"; if (draw(W, 2)) doc += "<p>t</p><pre lang=\"" + esc(l) + "\"><code>" + code + "</code></pre>\n"; else doc += "<pre><code class=\"language-" + (draw(W, 2) ? esc(l) : l) + "\">" + code + "</code></pre>\n"; }
        char *h = sut_strdup(doc), *r = nullptr; bool ln = draw(W, 2), lo = draw(W, 2), ansi = draw(W, 2); string t = tool; string dk = disk();
        run_sut([&] { r = apex_apply_syntax_highlighting(h, t.c_str(), ln, lo, ansi); return 0; }); d = "highlight " + tool + ": " + doc;
        if (r) take(r); judge("code language", d, dk); sample(hexq(d, 300)); R->work = !g->execs.empty(); return;
    }
    g->heap_check = false; vector<string> a; u32 meta = draw(W, 4);
    if (meta == 1) doc += "---\ntitle: " + string("'") + "t" + "'\ncode-highlight: " + (draw(W, 2) ? tool : "\"" + jesc(evil(true)) + "\"") + "\ncss: \"" + jesc(evil(true)) + "\"\ntheme: \"" + jesc(evil(true)) + "\"\nbibliography: \"" + jesc(evil(true)) + "\"\ncsl: \"" + jesc(evil(true)) + "\"\nplugins: true\n---\n\n";
    if (meta == 2) doc += "Title: " + evil(true) + "\nCSS: " + evil(true) + "\ncode-highlight: " + tool + "\nfilter: " + evil(true) + "\nhandler: " + evil(true) + "\npost_install: touch /work/evil\n\n";
    for (auto &l : langs) {
        string one; for (char c : l) if (c != '\n') one += c;
        switch (draw(W, 7)) {
        default: doc += "```" + one + "\ncode " + evil(true) + "\n```\n\n"; break;
        case 1: doc += "~~~ {." + one + "}\ncode\n~~~\n\n"; break;
        case 2: doc += "<<[" + one + "]\n\n{{" + one + "}}\n\n"; break;
        case 3: doc += "![x](" + one + ") [l](" + one + ") <" + one + ">\n\n"; break;
        case 4: doc += "    code\n{: lang=\"" + one + "\"}\n\n"; break;
        case 5: doc += "[@" + one + "] [%key] `" + one + "`{:." + one + "}\n\n"; break;
        case 6: doc += "<pre lang=\"" + one + "\"><code class=\"language-" + one + "\">x</code></pre>\n\n"; break;
        }
    }
    if (draw(W, 4)) { a.push_back("--code-highlight"); a.push_back(tool); if (draw(W, 2)) a.push_back("--code-line-numbers"); }
    string fmt = pick(W, vector<string>{"html", "terminal", "terminal256", "html", "gfm", "man"}); if (fmt != "html") { a.push_back("-t"); a.push_back(fmt); }
    if (draw(W, 4) == 3) a.push_back("--standalone"); if (draw(W, 4) == 3) a.push_back("--plugins");
    if (draw(W, 3) == 2) { own->insert("mark-1"); g->fs.put("/work/.apex/plugins/" + pick(W, vector<string>{"p", "p;evil", "$(evil)", "p q"}) + "/plugin.yml", "---\nid: p1\nphase: pre_parse\nhandler:\n  command: mark-1\n---\n"); a.push_back("--plugins"); }
    string file = draw(W, 4) == 3 ? "/work/" + pick(W, vector<string>{"a;evil.md", "$(evil).md", "`evil`.md", "a b.md"}) : "/work/doc.md"; g->fs.put(file, doc); a.push_back(file); string dk = disk();
    u32 fm = draw(F, 4); if (fm == 1) { enable(FK_TOOL_MISSING, 3); } if (fm == 2) { enable(FK_FORK_FAIL, 4); enable(FK_PIPE_FAIL, 6); faults_left = 2; } if (fm == 3) { enable(FK_READ_EINTR, 5); enable(FK_WRITE_EINTR, 5); enable(FK_WAIT_EINTR, 4); }
    RunResult r = run_cli(a); for (auto &x : a) d += x + " "; d += ": " + doc; (void)r;
    judge("document", d, dk); sample(hexq(d, 300)); R->work = !g->execs.empty();
}
/* ---- remote directories, repositories and the names they bring ---- */
static Inode *dirn() { Inode *n = new Inode; n->type = Inode::DIR_; n->mode = 0755; n->id = g->fs.next_id++; return n; }
static Inode *filen(const string &s, int mode = 0644) { Inode *n = new Inode; n->data = s; n->mode = mode; n->id = g->fs.next_id++; return n; }
static void directories() {
    g->tools = {"git", "curl", "lua"}; g->heap_check = false; bool filter = draw(W, 2); string base = "/home/u/.config/apex", root = base + (filter ? "/filters" : "/plugins"); g->fs.mkdirs(root); g->fs.put("/work/doc.md", "Hello TOK\n");
    g->fs.put(root + "/keep.txt", "keep"); g->fs.put("/home/u/precious", "keep");
    string id = draw(W, 3) ? "good" : evil(draw(W, 2)), repo = draw(W, 3) ? "https://github.com/x/good.git" : pick(W, vector<string>{"https://github.com/x/", "", "git@github.com:x/"}) + evil(draw(W, 2)), path;
    if (filter && draw(W, 2)) path = draw(W, 3) == 0 ? "src/good.lua" : pick(W, vector<string>{"src/", ""}) + evil(draw(W, 2)) + pick(W, vector<string>{".lua", "", ".py"});
    string mid = draw(W, 2) ? id : evil(draw(W, 2)); Inode *t = dirn(); if (!filter) t->kids["plugin.yml"] = filen("---\nid: \"" + jesc(mid) + "\"\ntitle: T\nphase: pre_parse\nhandler:\n  command: mark-1\n---\n"); else t->kids["README.md"] = filen("x");
    { Inode *dd = t; string q = path; size_t k; bool ok = !path.empty(); while (ok && (k = q.find('/')) != string::npos) { string c = q.substr(0, k); q = q.substr(k + 1); if (c.empty() || c == ".." || c == ".") { ok = false; break; } if (!dd->kids.count(c)) dd->kids[c] = dirn(); dd = dd->kids[c]; } if (ok && !q.empty()) dd->kids[q] = filen("#!/bin/sh\ncat\n", 0755); }
    g->remotes[repo] = t;
    string json = string("{\"") + (filter ? "filters" : "plugins") + "\": [{\"id\": \"" + jesc(id) + "\", \"title\": \"" + jesc(evil(false)) + "\", \"description\": \"" + jesc(evil(false)) + "\", \"homepage\": \"" + jesc(evil(true)) + "\", \"repo\": \"" + jesc(repo) + "\"" + (path.empty() ? "" : ", \"path\": \"" + jesc(path) + "\"") + "}]}";
    g->web[PDIR_URL] = json; g->web[FDIR_URL] = json; own->insert("mark-1");
    string d = filter ? "filter " : "plugin "; u32 fm = draw(F, 3); if (fm == 1) { for (Fault k : {FK_CLONE_FAIL, FK_RENAME_FAIL, FK_RM_FAIL, FK_CP_FAIL, FK_MKDIR_FAIL}) if (draw(F, 2)) enable(k, 1 + draw(F, 3)); faults_left = 2; }
    string dk = disk();
    if (draw(W, 4) == 3) { run_cli({filter ? "--list-filters" : "--list-plugins"}); judge("directory listing", d + json, dk); sample("list " + hexq(json, 250)); R->work = 1; return; }
    string what = draw(W, 3) ? id : repo; if (draw(W, 6) == 5) what = "x/" + evil(draw(W, 2));
    g->in.data = "y\n"; RunResult r = run_cli({filter ? "--install-filter" : "--install-plugin", what}); d += "install '" + what + "' repo '" + repo + "' path '" + path + "' manifest id '" + mid + "' exit " + std::to_string(r.status);
    judge("install", d, "");
    if (g->fs.get(root + "/keep.txt") != "keep" || g->fs.get("/home/u/precious") != "keep") fail("disk-changed", "install", "a file that was there before was changed [%s]", hexq(d, 300).c_str());
    { string o; for (auto &k : g->fs.lookup("/home/u")->kids) o += k.first + " "; for (auto &k : g->fs.lookup(base)->kids) o += k.first + " "; for (auto &k : g->fs.lookup("/work")->kids) o += k.first + " "; string w = ".config precious " + string(filter ? "filters " : "plugins ") + "doc.md "; if (o != w) fail("disk-changed", "install", "files appeared outside the install directory: %s [%s]", hexq(o).c_str(), hexq(d, 300).c_str()); }
    /* and what was installed is run by exactly its file name */
    g->faults_on = false; g->execs.clear(); dk = disk(); static string s_root; s_root = root; static std::set<string> files; files.clear(); for (auto &k : g->fs.lookup(root)->kids) if (k.second->type == Inode::FILE_) files.insert(root + "/" + k.first);
    static int bad; bad = 0; static string badcmd; badcmd.clear(); static int ok; ok = 0;
    g->resolve = [](const string &cmd, Proc &p) -> Prog * { if (cmd == "mark-1") { Spec *s = new Spec; s->transform = [](const string &in) { string t; read_json_string_field(in, "text", t); return t; }; return script_prog(s); } if (cmd.compare(0, 4, "git ") == 0) return nullptr; vector<string> w; if (shell_words(cmd, p, w) && files.count(w.back()) && (w.size() == 1 || (w.size() == 2 && w[0] == "lua"))) { ok++; return script_prog(new Spec); } bad++; badcmd = cmd; return nullptr; };
    vector<string> a; if (filter) { if (draw(W, 2) && r.status == 0 && id[0] != '-') { a.push_back("--filter"); a.push_back(id); } else a.push_back("--filters"); } else a.push_back("--plugins"); a.push_back("/work/doc.md");
    RunResult q = run_cli(a); (void)q; judge("running what was installed", d, dk);
    if (bad) fail("command-injected", "filter name", "an installed filter's name was run as '%s' [%s]", hexq(badcmd).c_str(), hexq(d, 300).c_str());
    probe("installed-filters-run", ok); if (r.status == 0) probe("hostile-installs-accepted"); else probe("hostile-installs-refused"); sample(hexq(d, 300)); R->work = 1;
}
static void p20() { own = new std::set<string>; set_env("IFS", " "); set_sched_bias(8); if (draw(W, 2)) directories(); else documents(); ihash_add(R->seams); }
static Reg r20({"P20", "input text is never run as a command", p20, "", "One case: a document (code languages, metadata, includes, links), a remote directory entry (id, repository, path, texts), a cloned manifest id or a file name containing shell syntax goes through conversion with highlighting, listing, installing or running of installed filters by the real code; the simulated shell parses every command line as /bin/sh would, with failing tools and steps injected; every command it then runs and every file that appears is judged. Non-trivial: at least one command line was parsed or an install was attempted; distinct: different sequence of (process, operation).", "exploration"});
