/* The simulated /bin/sh and the few tools Apex runs through it. All effects are on the in-memory tree. */
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

namespace {
struct Tok { enum T { WORD, AND, OR, SEMI, PIPE, REDIR, END } t; string w; int fd = 1; };
struct Shell {
    Proc &p; string *out; string cwd; string last_out;
    Shell(Proc &pp, string *o) : p(pp), out(o), cwd(g->fs.cwd) {}
    string abs(const string &x) {
        if (!x.empty() && x[0] == '/') return x;
        return cwd + "/" + x;
    }
    string subst(const string &cmd) { string o; Shell s(p, &o); s.cwd = cwd; s.run(cmd); while (!o.empty() && o.back() == '\n') o.pop_back(); return o; }
    string var(const string &s, size_t &i) { /* s[i]=='$' */
        if (i + 1 < s.size() && s[i + 1] == '(') { int d = 0; size_t j = i + 1; for (; j < s.size(); j++) { if (s[j] == '(') d++; if (s[j] == ')' && --d == 0) break; } string c = s.substr(i + 2, j - i - 2); i = j + 1; return subst(c); }
        size_t j = i + 1; bool br = j < s.size() && s[j] == '{'; if (br) j++;
        size_t st = j; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) j++;
        string n = s.substr(st, j - st); if (br && j < s.size() && s[j] == '}') j++;
        if (n.empty()) { i++; return "$"; }
        i = j; auto it = p.env.find(n); return it == p.env.end() ? string() : it->second;
    }
    vector<Tok> lex(const string &s, bool &bad) {
        vector<Tok> v; size_t i = 0; bad = false;
        while (i < s.size()) {
            char c = s[i];
            if (c == ' ' || c == '\t') { i++; continue; }
            if (c == '\n' || c == ';') { v.push_back({Tok::SEMI, ""}); i++; continue; }
            if (c == '#') { while (i < s.size() && s[i] != '\n') i++; continue; }
            if (c == '&') { if (i + 1 < s.size() && s[i + 1] == '&') { v.push_back({Tok::AND, ""}); i += 2; } else { v.push_back({Tok::SEMI, ""}); i++; } continue; }
            if (c == '|') { if (i + 1 < s.size() && s[i + 1] == '|') { v.push_back({Tok::OR, ""}); i += 2; } else { v.push_back({Tok::PIPE, ""}); i++; } continue; }
            if (c == '(' || c == ')') { i++; v.push_back({Tok::SEMI, ""}); continue; }
            if (c == '>' || c == '<' || (isdigit((unsigned char)c) && i + 1 < s.size() && s[i + 1] == '>')) {
                Tok t{Tok::REDIR, ""}; t.fd = c == '<' ? 0 : 1;
                if (isdigit((unsigned char)c)) { t.fd = c - '0'; i++; }
                i++; if (i < s.size() && s[i] == '>') i++;
                if (i < s.size() && s[i] == '&') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++; t.w = "&"; v.push_back(t); continue; }
                while (i < s.size() && s[i] == ' ') i++;
                while (i < s.size() && !strchr(" \t\n;&|<>", s[i])) { if (s[i] == '"' || s[i] == '\'') { char q = s[i++]; while (i < s.size() && s[i] != q) t.w += s[i++]; i++; } else t.w += s[i++]; }
                v.push_back(t); continue;
            }
            Tok t{Tok::WORD, ""};
            while (i < s.size() && !strchr(" \t\n;&|<>()", s[i])) {
                if (s[i] == '\'') { i++; while (i < s.size() && s[i] != '\'') t.w += s[i++]; if (i >= s.size()) { bad = true; return v; } i++; }
                else if (s[i] == '"') {
                    i++;
                    while (i < s.size() && s[i] != '"') {
                        if (s[i] == '\\' && i + 1 < s.size() && strchr("\"\\$`\n", s[i + 1])) { t.w += s[i + 1]; i += 2; }
                        else if (s[i] == '$') t.w += var(s, i);
                        else if (s[i] == '`') { size_t j = s.find('`', i + 1); if (j == string::npos) { bad = true; return v; } t.w += subst(s.substr(i + 1, j - i - 1)); i = j + 1; }
                        else t.w += s[i++];
                    }
                    if (i >= s.size()) { bad = true; return v; }
                    i++;
                }
                else if (s[i] == '\\' && i + 1 < s.size()) { t.w += s[i + 1]; i += 2; }
                else if (s[i] == '*' || s[i] == '?') t.w += s[i++] == '*' ? '\x01' : '\x02'; /* a pattern, expanded below */
                else if (s[i] == '$') t.w += var(s, i);
                else if (s[i] == '`') { size_t j = s.find('`', i + 1); if (j == string::npos) { bad = true; return v; } t.w += subst(s.substr(i + 1, j - i - 1)); i = j + 1; }
                else t.w += s[i++];
            }
            if (t.w.find_first_of("\x01\x02") == string::npos) v.push_back(t);
            else { vector<string> m; size_t lead = t.w.size() && t.w[0] == '/' ? 1 : 0; glob(lead ? g->fs.root : g->fs.lookup(cwd), lead ? "/" : "", t.w.substr(lead), m); std::sort(m.begin(), m.end()); if (m.empty()) { for (char &ch : t.w) { if (ch == 1) ch = '*'; if (ch == 2) ch = '?'; } v.push_back(t); } else for (auto &x : m) { t.w = x; v.push_back(t); } }
        }
        return v;
    }
    static bool match(const char *p, const char *s) { for (; *p; p++, s++) { if (*p == 1) { for (; ; s++) { if (match(p + 1, s)) return true; if (!*s) return false; } } if (!*s || (*p != 2 && *p != *s)) return false; } return !*s; }
    void glob(Inode *d, const string &pre, const string &pat, vector<string> &m) {
        if (!d || d->type != Inode::DIR_) return;
        size_t k = pat.find('/'); string comp = pat.substr(0, k), rest = k == string::npos ? "" : pat.substr(k + 1);
        if (comp.find_first_of("\x01\x02") == string::npos) { string at = pre + comp; Inode *n = at.empty() ? d : g->fs.lookup(abs(at)); if (!n) return; if (k == string::npos) m.push_back(at); else glob(n, at + "/", rest, m); return; }
        for (auto &e : d->kids) if ((e.first[0] != '.' || comp[0] == '.') && match(comp.c_str(), e.first.c_str())) { if (k == string::npos) m.push_back(pre + e.first); else glob(g->fs.lookup(abs(pre + e.first)), pre + e.first + "/", rest, m); }
    }
    bool exit_now = false; int exit_rc = 0;
    int run(const string &cmd) {
        bool bad; auto v = lex(cmd, bad);
        if (bad) { return 2; }
        v.push_back({Tok::END, ""});
        int rc = 0; bool skip = false; vector<string> argv; vector<Tok> red;
        for (auto &t : v) {
            if (t.t == Tok::WORD) { argv.push_back(t.w); continue; }
            if (t.t == Tok::REDIR) { red.push_back(t); continue; }
            if (!skip && !argv.empty() && !exit_now) {
                string o; bool to_null = false; string to_file;
                for (auto &r : red) if (r.fd == 1) { if (r.w == "/dev/null") to_null = true; else if (r.w != "&" && !r.w.empty()) to_file = r.w; }
                rc = simple(argv, o); if (rc < 0 && t.t != Tok::END) rc = 128 - rc;
                if (!to_file.empty()) g->fs.put(abs(to_file), o);
                else if (!to_null && out) *out += o;
                if (exit_now) rc = exit_rc;
            }
            argv.clear(); red.clear();
            if (t.t == Tok::AND) skip = rc != 0;
            else if (t.t == Tok::OR) skip = rc == 0;
            else skip = false;
            if (t.t == Tok::END || exit_now) break;
        }
        return rc;
    }
    static bool dotty(const string &x) { string y = x; while (y.size() > 1 && y.back() == '/') y.pop_back(); size_t k = y.rfind('/'); string l = k == string::npos ? y : y.substr(k + 1); return l == "." || l == ".." || y == "/"; }
    bool rm_rec(Inode *d, const string &leaf, const string &path) {
        Inode *n = d->kids[leaf];
        if (n->type == Inode::DIR_) {
            vector<string> names; for (auto &k : n->kids) names.push_back(k.first);
            for (auto &k : names) if (!rm_rec(n, k, path + "/" + k)) return false;
        }
        seam("rm");
        if (n->eperm || fault(FK_RM_FAIL, path.c_str())) return false;
        g->destroyed.push_back("R " + path); ev("sh-rm", "%s", path.c_str());
        d->kids.erase(leaf); return true;
    }
    int rm(const vector<string> &a) {
        bool rec = false, force = false; vector<string> ps; bool opts = true;
        for (size_t i = 1; i < a.size(); i++) { if (opts && a[i] == "--") { opts = false; continue; } if (opts && a[i].size() > 1 && a[i][0] == '-') { for (char c : a[i]) { if (c == 'r' || c == 'R') rec = true; if (c == 'f') force = true; } continue; } ps.push_back(a[i]); }
        int rc = 0;
        for (auto &x : ps) {
            if (x.empty()) { if (!force) rc = 1; continue; }
            if (dotty(x)) { rc = 1; continue; }
            string leaf; string ap = abs(x); Inode *d = g->fs.parent_of(ap, leaf);
            if (!d || !d->kids.count(leaf)) { if (!force) rc = 1; continue; }
            if (d->kids[leaf]->type == Inode::DIR_ && !rec) { rc = 1; continue; }
            if (!rm_rec(d, leaf, g->fs.abspath(ap))) rc = 1;
        }
        return rc;
    }
    void copy_in(Inode *src, Inode *dstdir, const string &name, bool &failed) {
        if (failed) return;
        seam("copy");
        if (src->type == Inode::DIR_) {
            Inode *n = new Inode; n->type = Inode::DIR_; n->mode = src->mode; n->id = g->fs.next_id++; dstdir->kids[name] = n;
            for (auto &k : src->kids) copy_in(k.second, n, k.first, failed);
            return;
        }
        Inode *n = new Inode; n->type = src->type; n->mode = src->mode; n->id = g->fs.next_id++; n->data = src->data.substr(0, src->data.size() / 2);
        dstdir->kids[name] = n;
        seam("copy");
        n->data = src->data;
    }
    int git(const vector<string> &a) {
        size_t i = 1; string dashC;
        while (i < a.size() && a[i][0] == '-') { if (a[i] == "-C" && i + 1 < a.size()) { dashC = a[++i]; } i++; }
        if (i >= a.size()) return 1;
        if (a[i] == "rev-parse") {
            if (g->git_toplevel.empty() || !g->tools.count("git")) return 128;
            last_out = g->git_toplevel + "\n"; return 0;
        }
        if (a[i] != "clone") return 1;
        vector<string> ps; bool opts = true;
        for (i++; i < a.size(); i++) {
            if (opts && a[i] == "--") { opts = false; continue; }
            if (opts && !a[i].empty() && a[i][0] == '-') { if (a[i] == "--depth" || a[i] == "-b" || a[i] == "--branch") i++; continue; }
            ps.push_back(a[i]);
        }
        if (ps.size() < 2) return 129;
        string dst = abs(ps[1]);
        seam("git");
        Inode *ex = g->fs.lookup(dst); bool existed = ex != nullptr;
        if (ex && (ex->type != Inode::DIR_ || !ex->kids.empty())) return 128;
        auto it = g->remotes.find(ps[0]);
        string leaf; 
        string ap = g->fs.abspath(dst); size_t k = ap.rfind('/');
        Inode *par = g->fs.mkdirs(k == 0 ? "/" : ap.substr(0, k)); leaf = ap.substr(k + 1);
        if (!par) return 128;
        if (!existed) { Inode *n = new Inode; n->type = Inode::DIR_; n->mode = 0755; n->id = g->fs.next_id++; par->kids[leaf] = n; ev("sh-git", "created %s", ap.c_str()); }
        Inode *top = par->kids[leaf];
        auto junk = [&]() { if (existed) top->kids.clear(); else par->kids.erase(leaf); };
        seam("git");
        if (it == g->remotes.end() || fault(FK_CLONE_FAIL, "connect")) { junk(); return 128; }
        Inode *gd = new Inode; gd->type = Inode::DIR_; gd->mode = 0755; gd->id = g->fs.next_id++; top->kids[".git"] = gd;
        { Inode *h = new Inode; h->data = "ref"; h->id = g->fs.next_id++; gd->kids["HEAD"] = h; }
        seam("git");
        /* killed by a signal: by SIGKILL without cleaning up */
        auto dies = [&]() { u32 h = draw(F, 3); if (h != 1) junk(); return h == 0 ? 128 : h == 1 ? -9 : -15; };
        if (fault(FK_CLONE_FAIL, "fetch")) return dies();
        bool bad = false;
        for (auto &kk : it->second->kids) {
            if (fault(FK_CLONE_FAIL, "checkout")) return dies();
            copy_in(kk.second, top, kk.first, bad);
        }
        seam("git");
        return 0;
    }
    int simple(vector<string> a, string &o) {
        while (!a.empty()) { size_t k = a[0].find('='); if (k != string::npos && k > 0 && a[0].find('/') == string::npos && a.size() > 1) a.erase(a.begin()); else break; }
        if (a.empty()) return 0;
        g->execs.push_back(a);
        string c = a[0]; size_t sl = c.rfind('/');
        string full = c; if (sl != string::npos && (c.compare(0, 5, "/bin/") == 0 || c.compare(0, 9, "/usr/bin/") == 0)) c = c.substr(sl + 1);
        { string l; for (auto &x : a) l += " " + x; ev("sh", "%s", hexq(l, 300).c_str()); }
        if (c == "true" || c == ":") return 0;
        if (c == "false") return 1;
        if (c == "exit") { exit_now = true; exit_rc = a.size() > 1 ? atoi(a[1].c_str()) : 0; return exit_rc; }
        if (c == "echo" || c == "printf") { for (size_t i = 1; i < a.size(); i++) o += (i > 1 ? " " : "") + a[i]; o += "\n"; return 0; }
        if (c == "cd") { string t = a.size() > 1 ? abs(a[1]) : "/"; Inode *d = g->fs.lookup(t); if (!d || d->type != Inode::DIR_) return 1; cwd = g->fs.abspath(t); return 0; }
        if (c == "mkdir") {
            bool pp = false; int rc = 0;
            for (size_t i = 1; i < a.size(); i++) {
                if (a[i][0] == '-') { if (a[i] == "-p") pp = true; if (a[i] == "-m") i++; continue; }
                seam("mkdir");
                if (fault(FK_MKDIR_FAIL, a[i].c_str())) { rc = 1; continue; }
                string ap = abs(a[i]);
                if (pp) { if (!g->fs.mkdirs(ap)) rc = 1; }
                else { string leaf; Inode *d = g->fs.parent_of(ap, leaf); if (!d || d->kids.count(leaf)) rc = 1; else g->fs.mkdirs(ap); }
            }
            return rc;
        }
        if (c == "[" || c == "test") {
            size_t i = 1; bool neg = false; if (i < a.size() && a[i] == "!") { neg = true; i++; }
            bool r = false;
            if (i + 1 < a.size()) {
                string f = a[i], x = a[i + 1];
                if (f == "-n") r = !x.empty();
                else if (f == "-z") r = x.empty();
                else if (f[0] == '-' && f.size() == 2) {
                    Inode *n = x.empty() ? nullptr : g->fs.lookup(abs(x), nullptr, f != "-L" && f != "-h");
                    if (f == "-d") r = n && n->type == Inode::DIR_;
                    else if (f == "-f") r = n && n->type == Inode::FILE_;
                    else if (f == "-L" || f == "-h") r = n && n->type == Inode::LINK_;
                    else if (f == "-x") r = n && (n->type == Inode::DIR_ || (n->mode & 0111));
                    else if (f == "-s") r = n && !n->data.empty();
                    else r = n != nullptr;
                } else if (i + 2 < a.size()) r = a[i + 1] == "=" || a[i + 1] == "==" ? a[i] == a[i + 2] : a[i] != a[i + 2];
            }
            return r != neg ? 0 : 1;
        }
        if (c == "git") { if (!g->tools.count("git")) return 127; int rc = git(a); o += last_out; last_out.clear(); return rc; }
        if (c == "rm" || c == "unlink") return rm(a);
        if (c == "rmdir") { string leaf; Inode *d = a.size() > 1 ? g->fs.parent_of(abs(a[1]), leaf) : nullptr; if (!d || !d->kids.count(leaf) || !d->kids[leaf]->kids.empty()) return 1; d->kids.erase(leaf); return 0; }
        if (c == "mv" || c == "cp") {
            vector<string> ps; bool opts = true, rec = false, noclob = false, T = false;
            for (size_t i = 1; i < a.size(); i++) { if (opts && a[i] == "--") { opts = false; continue; } if (opts && a[i].size() > 1 && a[i][0] == '-') { for (char ch : a[i]) { if (ch == 'r' || ch == 'R' || ch == 'a') rec = true; if (ch == 'n') noclob = true; if (ch == 'T') T = true; } continue; } ps.push_back(a[i]); }
            if (ps.size() != 2) return 1;
            seam(c.c_str());
            string la, lb; Inode *da = g->fs.parent_of(abs(ps[0]), la); Inode *src = g->fs.lookup(abs(ps[0]));
            if (!src || !da) return 1;
            Inode *dst = g->fs.lookup(abs(ps[1])); Inode *db; string tpath = abs(ps[1]);
            if (dst && dst->type == Inode::DIR_ && !T) { db = dst; lb = la; tpath += "/" + la; } else { db = g->fs.parent_of(abs(ps[1]), lb); if (abs(ps[1]).back() == '/' && !(src->type == Inode::DIR_ && c == "mv")) return 1; }
            if (!db || lb.empty()) return 1;
            if (c == "mv") {
                if (fault(FK_RENAME_FAIL, ps[0].c_str())) return 1;
                if (db->kids.count(lb)) { if (noclob) return 0; Inode *y = db->kids[lb]; if (y == src) return 1; if (y->type == Inode::DIR_ && (src->type != Inode::DIR_ || !y->kids.empty())) return 1; g->destroyed.push_back("R " + g->fs.abspath(tpath)); }
                /* into itself */
                string sa = g->fs.abspath(abs(ps[0])), ta = g->fs.abspath(tpath); if (ta.compare(0, sa.size() + 1, sa + "/") == 0) return 1;
                da->kids.erase(la); db->kids[lb] = src; ev("sh-mv", "%s -> %s", sa.c_str(), ta.c_str());
                seam("mv");
                return 0;
            }
            if (src->type == Inode::DIR_ && !rec) return 1;
            if (db->kids.count(lb)) { if (noclob) return 0; g->destroyed.push_back("T " + g->fs.abspath(tpath)); }
            if (fault(FK_CP_FAIL, ps[0].c_str())) { Inode *n = new Inode; n->id = g->fs.next_id++; n->data = src->data.substr(0, src->data.size() / 2); db->kids[lb] = n; return 1; }
            bool bad = false; copy_in(src, db, lb, bad); return bad;
        }
        if (c == "chmod") { int rc = 0; for (size_t i = 2; i < a.size(); i++) { seam("chmod"); Inode *n = g->fs.lookup(abs(a[i])); if (!n) rc = 1; else if (a[1].find('x') != string::npos || a[1].find_first_of("1357") != string::npos) n->mode |= 0111; } return rc; }
        if (c == "touch") { for (size_t i = 1; i < a.size(); i++) { seam("touch"); if (!g->fs.lookup(abs(a[i]))) g->fs.put(abs(a[i]), ""); } return 0; }
        if (c == "cat") { for (size_t i = 1; i < a.size(); i++) { Inode *n = g->fs.lookup(abs(a[i])); if (!n) return 1; o += n->data; } return 0; }
        if (c == "which" || c == "command" || c == "type") { string t = a.back(); if (fault(FK_TOOL_MISSING, t.c_str())) return 1; if (g->tools.count(t)) { o += "/usr/bin/" + t + "\n"; return 0; } return 1; }
        if (c == "curl") {
            if (!g->tools.count("curl")) return 127;
            string url; for (size_t i = 1; i < a.size(); i++) if (a[i][0] != '-') url = a[i];
            seam("curl"); g->pipe_eio_armed = true;
            auto it = g->web.find(url);
            if (it == g->web.end()) return 22;
            if (fault(FK_NET_FAIL, "connect")) { u32 how = draw(F, 4); if (how < 2) return 6 + (int)how; /* the server answers with an error page; it goes nowhere if curl was told to fail then */
                bool dash_f = false; for (size_t i = 1; i < a.size(); i++) if (a[i] == "--fail" || (a[i][0] == '-' && a[i][1] != '-' && a[i].find('f') != string::npos)) dash_f = true;
                if (dash_f) return 22; o += how == 2 ? it->second : "<html>404 Not Found</html>\n"; return 0; }
            if (fault(FK_NET_TRUNCATED, "transfer")) { o += it->second.substr(0, draw(F, (u32)it->second.size() + 1)); return 18; }
            o += it->second; return 0;
        }
        if (c == "pygmentize" || c == "skylighting" || c == "shiki") { if (!g->tools.count(c)) return 127; o += "<pre>HL</pre>\n"; return 0; }
        probe("unmodelled-command"); cmd_unmodelled = true;
        snprintf(R->unmodelled, sizeof R->unmodelled, "%s", a[0].c_str());
        return 127;
    }
};
} // namespace
Prog *shell_prog(const string &cmd, Proc &) {
    string c = cmd;
    return new BatchProg([c](Proc &p, string &out) { Shell s(p, &out); return s.run(c); });
}
/* the words of a command line that is one simple command; false if it is anything else */
bool shell_words(const string &cmd, Proc &p, vector<string> &argv) {
    Shell s(p, nullptr); bool bad; argv.clear(); if (cmd.find_first_of("$`") != string::npos && cmd.find('\'') == string::npos) return false;
    for (auto &t : s.lex(cmd, bad)) { if (t.t != Tok::WORD) return false; argv.push_back(t.w); }
    return !bad && !argv.empty();
}
Prog *argv_prog(const vector<string> &argv, Proc &) {
    vector<string> a = argv;
    return new BatchProg([a](Proc &p, string &out) { Shell s(p, &out); return s.simple(a, out); });
}
