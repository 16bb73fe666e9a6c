/* Files in, files out: reading inputs, expanding includes, delivering output, combining documents. */
#include "progs.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <regex.h>
#include <fnmatch.h>
extern "C" {
#include "extensions/metadata.h"
char *apex_process_includes(const char *text, const char *base_dir, apex_metadata_item *metadata, int depth);
}
using std::min;

/* ---------------------------------------------------------------- documents for whole conversions */
string gen_doc(size_t max, bool front) {
    string d; size_t n = 1 + draw(W, 8); 
    if (front && draw(W, 3) == 2) { d += "---\ntitle: T" + std::to_string(draw(W, 50)) + "\nauthor: A" + std::to_string(draw(W, 9)) + "\n---\n\n"; }
    for (size_t i = 0; i < n; i++) {
        string k = std::to_string(draw(W, 1000));
        switch (draw(W, 10)) {
        case 0: d += "Para " + k + " with *some* text and `code` " + k + ".\n\n"; break;
        case 1: d += "# Heading " + k + "\n\n"; break;
        case 2: d += "- item " + k + "\n- item two\n\n"; break;
        case 3: d += "```c\nint x" + k + ";\n```\n\n"; break;
        case 4: d += "| a | b |\n|---|---|\n| " + k + " | y |\n\n"; break;
        case 5: d += "> quote " + k + "\n\n"; break;
        case 6: d += "[link" + k + "](http://e.example/" + k + ") and [%title]\n\n"; break;
        case 7: d += "Note[^" + k + "].\n\n[^" + k + "]: the note\n\n"; break;
        case 8: d += "term " + k + "\n: definition\n\n"; break;
        default: { string t = gen_text(max, false); d += t + "\n\n"; }
        }
    }
    return d;
}
static void pick_file_fault(Inode *i, string &what) {
    u32 n = (u32)i->data.size();
    switch (draw(F, 3)) {
    case 0: i->eio_at = n ? (long)draw(F, n) : 0; if (draw(F, 3) == 2) i->eio_at = std::min<long>(n ? n - 1 : 0, (long)(draw(F, 4) + 1) * 4096); what = "read error at " + std::to_string(i->eio_at) + " of " + std::to_string(n); break;
    case 1: i->open_errno = draw(F, 2) ? EACCES : EMFILE; what = "cannot be opened"; break;
    default: i->open_errno = EIO; what = "open error"; break;
    }
}
static void describe(const string &s) { ihash_add(fnv(s)); } /* file scenarios: distinct cases by their descriptor as well */
static string first_diff(const string &a, const string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; return "at " + std::to_string(k) + ": got '" + hexq(a.substr(k, 70)) + "' expected '" + hexq(b.substr(k, 70)) + "'"; }
static void conversion_world() { g->heap_noise = false; set_sched_bias(4); g->tools = {"git", "curl"}; g->resolve = [](const string &, Proc &) -> Prog * { return nullptr; }; }

struct CliOut { int status; string out; bool sig; };
static CliOut cli(const vector<string> &a) { RunResult r = run_cli(a); return {r.killed_sigpipe ? 128 + 13 : r.status, g->out.data, r.killed_sigpipe}; }

/* ================================================================ P08 reading inputs */
static void p08() {
    conversion_world(); g->heap_check = false;
    string doc = gen_doc(draw(W, 6) == 5 ? 60000 : 600, true);
    vector<string> args; string victim; vector<string> expect; /* what shows that the input was used to its end */
    auto big = [&]() -> size_t { return draw(W, 10) ? 0 : draw(W, 5) ? draw(W, 60000) : 60000 + draw(W, 700000); };
    u32 kind = draw(W, 13);
    static const char *modes[] = {"unified", "mmd", "kramdown", "gfm", "commonmark"};
    string mode = modes[draw(W, 3)];
    args = {"-m", mode, "--no-progress"};
    if (draw(W, 3) == 2) args.push_back("-s");
    bool via_stdin = kind == 1;
    g->fs.put("/work/doc.md", doc);
    switch (kind) {
    case 0: victim = "/work/doc.md"; if (size_t b = big()) doc += "\n" + string(b, 'f') + "\n"; doc += "\nDLAST\n"; g->fs.put(victim, doc); expect = {"DLAST"}; break;
    case 1: break;
    case 2: victim = "/work/meta.yml"; { string m = "---\n"; u32 n = 2 + draw(W, 30); for (u32 i = 0; i < n; i++) m += "key" + std::to_string(i) + ": value" + std::to_string(i) + "\n"; if (size_t b = big()) m += "filler: \"" + string(b, 'f') + "\"\n"; m += "title: FromMeta\nauthor: MetaAuthor\nzlast: ZLAST\n---\n"; g->fs.put(victim, m); doc += "\n[%key1] [%key" + std::to_string(n - 1) + "] [%author] [%zlast]\n"; expect = {"value1", "value" + std::to_string(n - 1), "ZLAST"}; g->fs.put("/work/doc.md", doc); args.push_back("--meta-file"); args.push_back(victim); } break;
    case 3: { bool proj = draw(W, 2); victim = proj ? "/work/.apex/config.yml" : "/home/u/.config/apex/config.yml"; string m = "---\n"; u32 n = 2 + draw(W, 30); for (u32 i = 0; i < n; i++) m += "key" + std::to_string(i) + ": value" + std::to_string(i) + "\n"; if (size_t b = big()) m += "filler: \"" + string(b, 'f') + "\"\n"; m += "author: Conf\nzlast: ZLAST\n---\n"; g->fs.put(victim, m); doc += "\n[%key1] [%key" + std::to_string(n - 1) + "] [%author] [%zlast]\n"; expect = {"value1", "value" + std::to_string(n - 1), "ZLAST"}; g->fs.put("/work/doc.md", doc); } break;
    case 4: { victim = "/work/inc.md"; bool plain = draw(W, 2); if (plain) { doc = "Start of it.\n\n"; u32 n = draw(W, 6); for (u32 i = 0; i < n; i++) doc += "Words " + std::to_string(i) + " go here.\n\n"; } g->fs.put(victim, (plain ? "First line.\n" : gen_doc(9000, false)) + (draw(W, 10) ? "" : "\n" + string(draw(W, 300000), 'f') + "\n") + "\nILAST\n"); if (plain) expect = {"ILAST"}; doc += pick(W, vector<string>{"\n{{inc.md}}\n\nafter\n", "\n<<[inc.md]\n\nafter\n", "\n/inc.md\n\nafter\n", "\n<<(inc.md)\n\nafter\n"}); g->fs.put("/work/doc.md", doc); args[1] = "unified"; } break;
    case 5: { victim = "/work/refs.bib"; string b; u32 n = 1 + draw(W, 60); for (u32 i = 0; i < n; i++) b += "@article{k" + std::to_string(i) + ",\n  author = {Doe, J" + std::to_string(i) + "},\n  title = {Title " + std::to_string(i) + "},\n  year = {20" + std::to_string(10 + i % 80) + "}\n}\n\n"; if (size_t x = big()) b = "@comment{" + string(x, 'f') + "}\n\n" + b; g->fs.put(victim, b); doc += "\nSee [@k0] and [@k" + std::to_string(n - 1) + "].\n"; expect = {"Title 0", "Title " + std::to_string(n - 1)}; g->fs.put("/work/doc.md", doc); args[1] = "unified"; args.push_back("--bibliography"); args.push_back(victim); } break;
    case 6: { victim = "/work/style.css"; string c; u32 n = 1 + draw(W, 300); for (u32 i = 0; i < n; i++) c += ".c" + std::to_string(i) + " { color: red; }\n"; if (size_t b = big()) c += "/*" + string(b, 'f') + "*/\n"; c += ".zlast { color: blue; }\n"; expect = {".c0 {", ".zlast { color: blue; }"}; g->fs.put(victim, c); args.insert(args.end(), {"-s", "--css", victim, "--embed-css"}); } break;
    case 8: { /* a terminal theme */
        victim = "/home/u/.config/apex/terminal/themes/" + string(draw(W, 3) == 2 ? "default" : "mine") + ".theme"; string t; static const char *cols[] = {"red", "bold b_cyan", "green", "intense_black", "b_yellow"};
        vector<string> secs = {"h1:\n  color: C\n", "h2:\n  color: C\n  bold: true\n", "code_span:\n  color: C\n", "code_block:\n  color: C\n", "link:\n  text: C\n  url: C\n", "blockquote:\n  color: C\n  character: \"|\"\n", "table:\n  border: C\n", "span_classes:\n  cls: C\n  other: C\n"};
        u32 n = 1 + draw(W, (u32)secs.size()); for (u32 i = 0; i < n; i++) { string x = secs[draw(W, (u32)secs.size())]; size_t k; while ((k = x.find('C')) != string::npos) x.replace(k, 1, cols[draw(W, 5)]); t += x; if (draw(W, 6) == 5) t += "# " + string(3000, 'c') + "\n"; }
        g->fs.put(victim, t); args.insert(args.end(), {"-t", draw(W, 2) ? "terminal" : "terminal256"}); if (victim.find("mine") != string::npos) args.insert(args.end(), {"--theme", "mine"});
        doc += "\n# H one\n\n## H two\n\n`code` [l](http://u.v/) [s]{.cls}\n\n> quote\n\n```\nblock\n```\n\n|a|b|\n|-|-|\n|1|2|\n"; g->fs.put("/work/doc.md", doc); break; }
    case 9: { victim = "/work/style.css"; string c; u32 n = 1 + draw(W, 300); for (u32 i = 0; i < n; i++) c += ".c" + std::to_string(i) + " { color: red; }\n"; if (size_t b = big()) c += "/*" + string(b, 'f') + "*/\n"; c += ".zlast { color: blue; }\n"; expect = {".c0 {", ".zlast { color: blue; }"}; g->fs.put(victim, c); if (doc.compare(0, 4, "---\n")) doc = "---\ncss: style.css\n---\n\n" + doc; else doc.insert(4, "css: style.css\n"); g->fs.put("/work/doc.md", doc); args.insert(args.end(), {"-s", "--embed-css"}); } break;
    case 10: { bool json = draw(W, 2); victim = json ? "/work/refs.json" : "/work/refs.yml"; string b = json ? "[\n" : "references:\n"; u32 n = 1 + draw(W, 60); for (u32 i = 0; i < n; i++) { string k = std::to_string(i); b += json ? string(i ? ",\n" : "") + "{\"id\": \"k" + k + "\", \"type\": \"book\", \"title\": \"Title " + k + "\", \"author\": [{\"family\": \"Doe" + k + "\", \"given\": \"J\"}], \"issued\": {\"date-parts\": [[20" + std::to_string(10 + i % 80) + "]]}}" : "- id: k" + k + "\n  type: book\n  title: Title " + k + "\n  author:\n  - family: Doe" + k + "\n    given: J\n"; } if (json) b += "\n]\n"; g->fs.put(victim, b); doc += "\nSee [@k0] and [@k" + std::to_string(n - 1) + "].\n"; g->fs.put("/work/doc.md", doc); args[1] = "unified"; args.push_back("--bibliography"); args.push_back(victim); } break;
    case 11: { /* other things to include */
        u32 f = draw(W, 4); victim = f == 0 ? "/work/data.csv" : f == 1 ? "/work/data.tsv" : f == 2 ? "/work/prog.py" : "/work/part.md"; string c; u32 n = 1 + draw(W, f < 2 ? 60 : 400); for (u32 i = 0; i < n; i++) c += f == 0 ? "a" + std::to_string(i) + ",b,c\n" : f == 1 ? "a" + std::to_string(i) + "\tb\tc\n" : "line " + std::to_string(i) + "\n"; if (f == 0 || f == 1) c += f == 0 ? "zlast,b,c\n" : "zlast\tb\tc\n"; if (f == 2) { if (size_t b = big()) c += "# " + string(b, 'f') + "\n"; c += "zlast\n"; } if (f != 3) expect = {"zlast"}; g->fs.put(victim, c); string nm = victim.substr(6);
        doc += f == 2 ? "\n<<(prog.py)\n\nafter\n" : f == 3 ? "\n" + pick(W, vector<string>{"<<[part.md][2,5]", "<<[part.md][/line 1/,/line 3/]", "<<[part.md][1,400]"}) + "\n\nafter\n" : "\n" + pick(W, vector<string>{"{{" + nm + "}}", "<<[" + nm + "]", "/" + nm}) + "\n\nafter\n"; g->fs.put("/work/doc.md", doc); args[1] = "unified"; } break;
    case 12: { bool front = draw(W, 2); victim = "/work/.apex/plugins/p1/plugin.yml"; string m = string(front ? "---\n" : "") + "id: p1\ntitle: P\nphase: pre_parse\npattern: \"item\"\nreplacement: \"ITEM\"\npriority: 10\n"; if (draw(W, 2)) m += "bundle:\n  - id: q1\n    phase: pre_parse\n    pattern: \"Para\"\n    replacement: \"PARA\"\n  - id: q2\n    phase: post_render\n    pattern: \"some\"\n    replacement: \"SOME\"\n"; if (draw(W, 4) == 3) m += "# " + string(5000, 'z') + "\n"; if (front) m += "---\n"; g->fs.put(victim, m); doc += "\nPara some item here\n"; if (front) expect = {m.find("bundle:") == string::npos ? "ITEM" : "SOME"}; g->fs.put("/work/doc.md", doc); args.push_back("--plugins"); } break;
    default: { victim = "/work/pic.png"; string c; u32 n = 1 + draw(W, 9000); for (u32 i = 0; i < n; i++) c += (char)(i * 31 + 7); g->fs.put(victim, c); doc += "\n![p](/work/pic.png)\n"; g->fs.put("/work/doc.md", doc); args.push_back("--embed-images"); } break;
    }
    vector<string> a_file = args; a_file.push_back("/work/doc.md");
    g->faults_on = false;
    CliOut ref = cli(a_file);
    if (ref.status != 0) fail("conversion-failed", "reference", "fault-free conversion exited %d: %s", ref.status, hexq(g->err.data).c_str());
    if (kind == 2 || kind == 3) if (mode == "kramdown") expect.clear(); /* no variables there */
    for (auto &e : expect) if (ref.out.find(e) == string::npos) fail("partial-input", victim.substr(victim.rfind('/') + 1), "%s (%zu bytes) could be read, yet '%s' from it is not in the result [%s] %s", victim.c_str(), g->fs.get(victim).size(), e.c_str(), mode.c_str(), hexq(g->err.data, 200).c_str());
    g->faults_on = true;
    if (via_stdin) {
        g->in.data = doc; g->in.off = 0;
        if (draw(W, 3)) enable(FK_READ_EINTR, 3 + draw(W, 20));
        bool bad = draw(W, 2); if (bad) g->in.eio_at = (long)draw(F, (u32)doc.size() + 1);
        CliOut r = cli(args);
        if (bad && R->faults[FK_FILE_EIO]) {
            if (r.status == 0) fail("partial-input", "stdin", "reading stdin failed after %ld of %zu bytes, yet apex exited 0 with %zu bytes of output", g->in.eio_at, doc.size(), r.out.size());
            if (!r.out.empty()) fail("partial-input", "stdin", "reading stdin failed after %ld of %zu bytes, yet %zu bytes were printed", g->in.eio_at, doc.size(), r.out.size());
        } else {
            if (r.status != 0) fail("read-failed", "stdin", "stdin delivered all %zu bytes (interruptions %llu), yet apex exited %d: %s", doc.size(), (unsigned long long)R->faults[FK_READ_EINTR], r.status, hexq(g->err.data).c_str());
            if (r.out != ref.out) fail("input-changed", "stdin", "the same %zu bytes give another result through stdin than from a file, %s", doc.size(), first_diff(r.out, ref.out).c_str());
        }
        sample("stdin " + std::to_string(doc.size()) + "B eio_at=" + std::to_string(g->in.eio_at) + " status " + std::to_string(r.status));
        R->work = 1; return;
    }
    Inode *v = g->fs.lookup(victim);
    string what; bool again = false; /* the failure comes at a later opening, so the file may have been read before */
    if (draw(F, 4) == 0) what = ""; else { pick_file_fault(v, what); if (kind && draw(F, kind == 12 ? 2 : 4) % 2 == 1) { again = true; v->good_opens = 1 + (int)draw(F, 2); what += " at opening " + std::to_string(v->good_opens + 1); } }
    CliOut r = cli(a_file);
    bool fired = R->faults[FK_FILE_EIO] || R->faults[FK_OPEN_FAIL];
    if (!fired) { if (r.status != ref.status || r.out != ref.out) fail("input-changed", victim, "a second conversion of the same files differs, %s", first_diff(r.out, ref.out).c_str()); }
    else if (kind == 0) {
        if (r.status == 0) fail("partial-input", "document", "the document %s, yet apex exited 0 with %zu bytes of output", what.c_str(), r.out.size());
        if (!r.out.empty()) fail("partial-input", "document", "the document %s, yet %zu bytes were printed", what.c_str(), r.out.size());
    } else {
        /* an input that cannot be read completely counts as missing, never as its own beginning */
        g->fs.remove_tree(victim); u64 n0 = R->faults[FK_FILE_EIO]; (void)n0;
        g->faults_on = false; CliOut miss = cli(a_file); g->faults_on = true;
        if (r.status == 0 && (miss.status != 0 || r.out != miss.out) && !(again && r.out == ref.out)) fail("partial-input", victim.substr(victim.rfind('/') + 1), "%s %s; the result is neither an error nor that of the file being missing (exit %d), %s", victim.c_str(), what.c_str(), miss.status, first_diff(r.out, miss.out).c_str());
        probe("degraded-input-runs");
    }
    describe(mode + victim + what);
    sample(mode + " " + victim + " " + what + ": exit " + std::to_string(r.status) + ", " + std::to_string(r.out.size()) + "B of " + std::to_string(ref.out.size()) + "B");
    R->work = 1;
}
static Reg r08({"P08", "input read integrity", p08, "", "One case: a generated document plus one further input (metadata file, configuration, include, bibliography, stylesheet, image, terminal theme, CSV or code include, plugin manifest, or stdin in pieces) is converted by the real command line in the simulated file system while one input fails to open, fails to read at a seeded offset, or is interrupted; compared with the fault-free run and with the run where the file is missing. Non-trivial: the conversion ran to an end and was compared.", "exploration"});

/* ================================================================ P09 include expansion */
struct IncWorld {
    struct File { string text; bool broken = false; };
    bool fences_odd = false; std::map<string, File> files;               /* absolute path -> contents, in the model's eyes */
    string broken_mmd = "keep", broken_marked = "drop"; /* what an include of an unreadable file becomes */
    u64 expansions = 0; bool depth_hit = false;
};
static string dir_of(const string &p) { size_t k = p.rfind('/'); return k == 0 ? "/" : k == string::npos ? "." : p.substr(0, k); }
static string norm(const string &p) { return g->fs.abspath(p); }
static string ext_of(const string &p) { size_t k = p.rfind('.'); return k == string::npos ? "" : p.substr(k + 1); }
static string model_csv(const string &c, char delim) {
    vector<vector<string>> rows; size_t i = 0;
    while (i < c.size()) { size_t e = c.find('\n', i); if (e == string::npos) e = c.size(); string l = c.substr(i, e - i); vector<string> r; string cur; for (char ch : l) { if (ch == delim) { r.push_back(cur); cur.clear(); } else cur += ch; } r.push_back(cur); rows.push_back(r); i = e + 1; }
    if (rows.empty()) return "";
    size_t n = rows[0].size(); string o;
    vector<string> al; size_t first = 1;
    if (rows.size() > 1 && rows[1].size() == n) { bool all = true; for (auto x : rows[1]) { while (!x.empty() && x[0] == ' ') x.erase(0, 1); if (x == "left") al.push_back(" :--- "); else if (x == "right") al.push_back(" ---: "); else if (x == "center") al.push_back(" :---: "); else if (x == "auto") al.push_back(" --- "); else all = false; } if (all) first = 2; else al.clear(); }
    auto emit = [&](const vector<string> &r) { o += "|"; for (size_t k = 0; k < n; k++) o += " " + (k < r.size() ? r[k] : string()) + " |"; o += "\n"; };
    emit(rows[0]); o += "|"; for (size_t k = 0; k < n; k++) o += (al.empty() ? string(" --- ") : al[k]) + "|"; o += "\n";
    for (size_t k = first; k < rows.size(); k++) emit(rows[k]);
    return o;
}
/* the documents are made of these pieces, so that the model does not need to parse them */
struct Piece { int kind; string text, path, addr; }; /* kind 0 text; 1 /f  2 {{f}}  3 <<[f]  4 <<(f)  5 code span/fence with a directive in it */
static std::map<string, vector<Piece>> *inc_pieces; /* path -> pieces, parallel to the file's text */
static std::map<string, string> *inc_base;          /* path -> base directory for the includes in it, when it declares one */
/* "a" one line; "a,b" lines a up to before b; "a," to the end; "/re/,/re/" from a match up to before a later one;
 * each with ;prefix="..."; or only a prefix */
static string model_lines(const string &c, string addr) {
    string prefix; bool has_prefix = false; size_t q = addr.find("prefix=\"");
    if (q != string::npos) { has_prefix = true; prefix = addr.substr(q + 8, addr.rfind('"') - q - 8); addr = q ? addr.substr(0, q - 1) : ""; }
    vector<string> ls; for (size_t i = 0; i < c.size();) { size_t e = c.find('\n', i); if (e == string::npos) e = c.size(); ls.push_back(c.substr(i, e - i)); i = e + 1; }
    if (addr.empty()) { if (!has_prefix) return c; string o; for (auto &l : ls) o += (l.empty() ? string() : prefix) + l + "\n"; if (c.empty() || c.back() != '\n') { if (!o.empty()) o.pop_back(); } return o; }
    size_t from = 0, to = ls.size();
    if (addr[0] == '/') {
        size_t k = addr.find('/', 1); string ra = addr.substr(1, k - 1), rb; size_t k2 = addr.find('/', k + 1); if (k2 != string::npos) rb = addr.substr(k2 + 1, addr.size() - k2 - 2);
        auto match = [](const string &re, const string &l) { regex_t x; if (regcomp(&x, re.c_str(), REG_EXTENDED | REG_NOSUB)) return false; bool m = regexec(&x, l.c_str(), 0, nullptr, 0) == 0; regfree(&x); return m; };
        while (from < ls.size() && !match(ra, ls[from])) from++;
        if (from == ls.size()) return "";
        if (!rb.empty()) for (size_t i = from + 1; i < ls.size(); i++) if (match(rb, ls[i])) { to = i; break; }
    } else {
        size_t k = addr.find(','); long a = atol(addr.c_str()), b = k == string::npos ? a + 1 : k + 1 < addr.size() ? atol(addr.c_str() + k + 1) : -1;
        from = std::min<size_t>(ls.size(), (size_t)a - 1); if (b >= 0) to = std::min<size_t>(ls.size(), (size_t)b - 1);
    }
    string o; for (size_t i = from; i < to; i++) o += prefix + ls[i] + "\n"; return o;
}
/* which file a pattern names: name.* prefers html, md, txt, tex; else the first in sorted order */
static string model_glob(IncWorld &w, const string &full) {
    size_t s = full.rfind('/'); string name = full.substr(s + 1); if (name.find_first_of("*?") == string::npos) return full;
    if (name.size() > 2 && name.find_first_of("*?") == name.size() - 1 && name[name.size() - 2] == '.') for (const char *e : {"html", "md", "txt", "tex"}) { string p = full.substr(0, full.size() - 1) + e; if (w.files.count(p)) return p; }
    for (auto &f : w.files) if (dir_of(f.first) + "/" == full.substr(0, s + 1) && fnmatch(name.c_str(), f.first.c_str() + s + 1, 0) == 0) return f.first;
    return full;
}
static string model_file(IncWorld &w, const string &path, int depth);
static string model_pieces(IncWorld &w, const vector<Piece> &ps, const string &base, int depth) {
    string o;
    if (depth > 10) { w.depth_hit = true; for (auto &p : ps) o += p.text; return o; }
    for (auto &p : ps) {
        if (p.kind == 0) { o += p.text; continue; }
        if (p.kind == 5) { string t = p.text; if (w.fences_odd && t.compare(0, 5, "````\n") == 0) t = "`" + t + "`"; o += t; continue; }
        string full = norm(p.path[0] == '/' && p.kind != 1 ? p.path : base + "/" + p.path); if (p.kind == 2) full = model_glob(w, full); auto it = w.files.find(full);
        bool bad = it == w.files.end() || it->second.broken;
        string ex = ext_of(full);
        if (bad) { o += (p.kind <= 2 ? w.broken_mmd : w.broken_marked) == "keep" ? p.text : string(); continue; }
        w.expansions++;
        const string &c = it->second.text;
        if (p.kind == 4) { string lang = ex == "h" ? "c" : ex == "py" ? "python" : ex == "js" ? "javascript" : ex == "sh" ? "bash" : ex == "rb" ? "ruby" : ex; o += "\n```" + lang + "\n" + (p.addr.empty() ? c : model_lines(c, p.addr)) + "\n```\n"; continue; }
        if (ex == "csv" || ex == "tsv") { string t = model_csv(p.addr.empty() ? c : model_lines(c, p.addr), ex == "csv" ? ',' : '\t'); if (p.kind == 1 || !t.empty()) o += t; continue; }
        if (p.kind == 1 && ex == "png") { o += "![](" + p.path + ")\n"; continue; }
        if (p.kind == 1 && (ex == "c" || ex == "py" || ex == "sh" || ex == "js")) { o += "\n```" + ex + "\n" + c + "\n```\n"; continue; }
        if (!p.addr.empty()) { o += model_lines(c, p.addr); continue; } /* ranges only on plain files */
        o += model_file(w, full, depth + 1);
    }
    return o;
}
static string model_file(IncWorld &w, const string &path, int depth) {
    auto it = inc_pieces->find(path);
    if (it == inc_pieces->end()) return w.files[path].text; /* no directives in it */
    auto b = inc_base->find(path);
    return model_pieces(w, it->second, b != inc_base->end() ? b->second : dir_of(path), depth);
}
static string plain_lines(size_t max) { string t = gen_text(max, false); return t.empty() ? "word\n" : t + "\n"; }
static vector<Piece> gen_pieces(const string &dir, const vector<string> &targets, const std::set<string> &plain, u32 n, size_t maxtext) {
    vector<Piece> ps; u32 k = 1 + draw(W, n);
    for (u32 i = 0; i < k; i++) {
        ps.push_back({0, plain_lines(draw(W, 12) == 11 ? maxtext * 20 : maxtext), "", ""});
        if (targets.empty()) continue;
        string t = targets[draw(W, (u32)targets.size())]; string ex = ext_of(t);
        string rel; /* relative to dir */
        { vector<string> a, b; auto split = [](const string &p) { vector<string> v; string c; for (char ch : p + "/") { if (ch == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } return v; }; a = split(dir); b = split(t); size_t q = 0; while (q < a.size() && q + 1 < b.size() && a[q] == b[q]) q++; for (size_t z = q; z < a.size(); z++) rel += "../"; for (size_t z = q; z < b.size(); z++) rel += b[z] + (z + 1 < b.size() ? "/" : ""); }
        u32 kind = 1 + draw(W, 5); bool abs = kind != 1 && draw(W, 5) == 4; string p = abs ? t : rel;
        if (ex == "png") kind = 1, p = rel; 
        bool ranged = plain.count(t) && kind != 1 && kind != 5 && draw(W, 5) > 2;
        string addr; if (ranged) {
            u32 a = 1 + draw(W, draw(W, 4) == 3 ? 40 : 4), f = draw(W, 8);
            if (f < 2) addr = std::to_string(a) + ","; else if (f < 4) addr = std::to_string(a) + "," + std::to_string(a + 1 + draw(W, 20)); else if (f == 4) addr = std::to_string(a);
            else if (f < 7) { auto re = [] { return pick(W, vector<string>{"w.*1 ", "^w2", "w3", "^w(1|2|3|4)", "7$", "c1", "word|w9"}); }; addr = "/" + re() + "/,"; if (f == 5 || draw(W, 2)) addr += "/" + re() + "/"; }
            if (f == 7 || draw(W, 4) == 3) addr += (addr.empty() ? string() : string(";")) + "prefix=\"" + pick(W, vector<string>{"> ", "    ", "// ", "-", "C: "}) + "\"";
            probe("addressed-includes");
        }
        if (kind == 2 && draw(W, 4) == 3) { /* a pattern instead of the name */
            size_t sl = p.rfind('/'); string d = sl == string::npos ? "" : p.substr(0, sl + 1), nm = p.substr(sl == string::npos ? 0 : sl + 1); size_t dot = nm.rfind('.');
            if (nm.compare(0, 4, "leaf") == 0 && ex != "png") { bool any = draw(W, 3) == 2 && ex != "md" && ex != "markdown"; p = d + (any ? pick(W, vector<string>{"*." + ex, "leaf?." + ex, "l*." + ex}) : nm.substr(0, dot) + ".*"); if (any || ex == "csv" || ex == "tsv") addr.clear(); probe("patterns"); }
        }
        string ar = addr.empty() ? "" : "[" + addr + "]";
        switch (kind) {
        case 1: ps.push_back({1, "/" + p, p, ""}); break;
        case 2: if (draw(W, 2)) ps.push_back({0, "inline ", "", ""}); ps.push_back({2, "{{" + p + "}}" + ar, p, addr}); break;
        case 3: ps.push_back({3, "<<[" + p + "]" + ar, p, addr}); break;
        case 4: ps.push_back({4, "<<(" + p + ")" + ar, p, addr}); break;
        default: ps.push_back(draw(W, 2) ? Piece{5, "see `{{" + p + "}}` and `<<[" + p + "]`", "", ""} : draw(W, 3) == 2 ? Piece{5, "````\n{{" + p + "}}\n<<[" + p + "]\n/" + rel + "\n````", "", ""} : Piece{5, "```\n{{" + p + "}}\n<<[" + p + "]\n/" + rel + "\n```", "", ""}); break;
        }
        if (kind < 5 && kind != 1 && !addr.empty() && draw(W, 6) == 5) ps.push_back({0, pick(W, vector<string>{" tail [1,2]", "[2,3] and more", " - x"}), "", ""}); else if (kind == 2 && draw(W, 6) == 5) ps.push_back({0, " tail [1,2]", "", ""});
        ps.push_back({0, draw(W, 8) == 7 ? "\r\n" : "\n", "", ""});
        if (draw(W, 5) == 4) ps.push_back({0, pick(W, vector<string>{"\n[link](http://e.example/)\n", "[3,4]\n", "\n\n  [ref]: http://e.example/\n", "[x] task\n"}), "", ""});
        if (!addr.empty() || draw(W, 2)) ps.push_back({0, plain_lines(40), "", ""});
        else ps.push_back({0, "after\n", "", ""});
    }
    return ps;
}
static string pieces_text(const vector<Piece> &ps) { string o; for (auto &p : ps) o += p.text; return o; }
/* a tree of files that include each other; returns the pieces of a top-level document in `dir` */
static vector<vector<Piece>> gen_inc_world(IncWorld &w, const string &dir, u32 tops, bool cycles, bool faults, string &desc) {
    inc_pieces = new std::map<string, vector<Piece>>; inc_base = new std::map<string, string>;
    g->fs.mkdirs(dir + "/sub/deep"); g->fs.mkdirs(norm(dir + "/../other"));
    vector<string> leaves; std::set<string> plain; u32 n = 1 + draw(W, 5);
    static const string longdir = string("d") + string(90, 'x') + "/" + string(110, 'y') + "/"; static const char *dirs[] = {"", "sub/", "sub/deep/", "../other/", longdir.c_str()}; g->fs.mkdirs(dir + "/" + longdir);
    bool huge = draw(W, 25) == 24;
    for (u32 i = 0; i < n; i++) {
        static const char *exts[] = {"md", "txt", "c", "csv", "html", "py", "tsv", "png", "markdown"};
        string e = exts[draw(W, 9)], p = norm(dir + "/" + dirs[draw(W, draw(W, 4) == 3 ? 5 : 4)] + "leaf" + std::to_string(i) + "." + e), t;
        if (e == "csv" || e == "tsv") { char d = e == "csv" ? ',' : '\t'; u32 cols = 1 + draw(W, 6), rows = 1 + draw(W, draw(W, 6) == 5 ? 400 : 8); bool al = draw(W, 4) == 3; for (u32 r = 0; r < rows; r++) { u32 cc = draw(W, 8) == 7 ? 1 + draw(W, 9) : cols; if (r == 1 && al) { for (u32 k = 0; k < cols; k++) t += (k ? string(1, d) : "") + vector<string>{"left", "right", "center", "auto"}[draw(W, 4)]; } else for (u32 k = 0; k < cc; k++) t += (k ? string(1, d) : "") + "c" + std::to_string(draw(W, 1000)); t += "\n"; } }
        else { t = plain_lines(huge ? 700000 : 3000); if (huge && i == 0) while (t.size() < 600000) t += t; if (draw(W, 6) == 5) t.pop_back(); }
        plain.insert(p); w.files[p] = {t, false}; leaves.push_back(p);
        if (draw(W, 6) == 5 && e != "png") { static const char *sib[] = {"tex", "html", "aaa", "css", "txt"}; string q = p.substr(0, p.rfind('.') + 1) + sib[draw(W, 5)]; if (!w.files.count(q)) { w.files[q] = {plain_lines(300), false}; leaves.push_back(q); plain.insert(q); } }
    }
    /* files with includes of leaves and of earlier ones; in cycle mode one of them refers back */
    vector<string> all = leaves; u32 m = draw(W, 4);
    for (u32 i = 0; i < m; i++) {
        string p = norm(dir + "/" + dirs[draw(W, draw(W, 4) == 3 ? 5 : 4)] + "mid" + std::to_string(i) + ".md");
        string base = dir_of(p), head;
        if (draw(W, 6) == 5) { string b; switch (draw(W, 4)) { case 0: b = base = norm(dir + "/sub"); break; case 1: b = "."; break; case 2: b = "./"; break; default: b = "down"; base += "/down"; g->fs.mkdirs(base); } head = "---\ntransclude base: " + b + "\n---\n"; (*inc_base)[p] = base; probe("base-in-metadata"); }
        vector<Piece> ps = gen_pieces(base, all, plain, 3, 300);
        if (!head.empty()) ps.insert(ps.begin(), {0, head, "", ""});
        (*inc_pieces)[p] = ps; w.files[p] = {pieces_text(ps), false}; all.push_back(p);
    }
    if (cycles) { /* a ring of 1-3 files, each with a single reference to the next */
        u32 r = 1 + draw(W, 3); vector<string> ring; for (u32 i = 0; i < r; i++) ring.push_back(norm(dir + "/" + dirs[draw(W, 4)] + "ring" + std::to_string(i) + ".md"));
        for (u32 i = 0; i < r; i++) { string nx = ring[(i + 1) % r]; u32 kind = 1 + draw(W, 3); vector<Piece> ps; ps.push_back({0, "ring" + std::to_string(i) + " " + plain_lines(60), "", ""});
            string d = dir_of(ring[i]); if (kind == 1 && d != dir_of(nx)) kind = 2; string leafname = nx.substr(nx.rfind('/') + 1);
            if (kind == 1) ps.push_back({1, "/" + leafname, leafname, ""}); else if (kind == 2) ps.push_back({2, "{{" + nx + "}}", nx, ""}); else ps.push_back({3, "<<[" + nx + "]", nx, ""});
            ps.push_back({0, "\nend of ring" + std::to_string(i) + "\n", "", ""}); (*inc_pieces)[ring[i]] = ps; w.files[ring[i]] = {pieces_text(ps), false}; }
        all.push_back(ring[0]); probe("cycles");
    }
    all.push_back(norm(dir + "/missing.md"));
    vector<vector<Piece>> out; for (u32 i = 0; i < tops; i++) { auto ps = gen_pieces(dir, all, plain, 6, 500); if (cycles && i == 0) { string nx = all[all.size() - 2]; ps.push_back({2, "{{" + nx + "}}", nx, ""}); ps.push_back({0, "\nlast line\n", "", ""}); } out.push_back(ps); }
    for (auto &f : w.files) g->fs.put(f.first, f.second.text);
    if (faults) { u32 k = 1 + draw(F, 3); for (u32 i = 0; i < k; i++) { auto it = w.files.begin(); std::advance(it, draw(F, (u32)w.files.size())); string what; if (ext_of(it->first) == "png") continue; pick_file_fault(g->fs.lookup(it->first), what); if (g->fs.lookup(it->first)->eio_at >= (long)it->second.text.size()) { g->fs.lookup(it->first)->eio_at = -1; continue; } it->second.broken = true; desc += it->first.substr(it->first.rfind('/') + 1) + " " + what + "; "; } }
    return out;
}
static void inc_compare(IncWorld &w, const std::function<string()> &model, const string &got, const char *what, const string &desc) {
    string exp;
    for (const char *a : {"keep", "drop"}) for (const char *b : {"drop", "keep"}) for (bool odd : {true, false}) { w.fences_odd = odd; w.broken_mmd = a; w.broken_marked = b; string e = model(); if (e == got) return; if (exp.empty()) exp = e; }
    fail("wrong-expansion", what, "%s gave %zu bytes, expected %zu, %s [%s]", what, got.size(), exp.size(), first_diff(got, exp).c_str(), desc.c_str());
}
static void p09() {
    set_sched_bias(4); g->heap_noise = draw(W, 4) == 3;
    IncWorld w; string desc; bool faults = draw(W, 2), cycles = draw(W, 4) == 3;
    g->fs.mkdirs("/work"); auto tops = gen_inc_world(w, "/work", 1, cycles, faults, desc);
    string text = pieces_text(tops[0]), from = "/work"; bool meta = draw(W, 6) == 5; string mb = "/work"; if (meta) { u32 k = draw(W, 4); from = k == 0 ? "/tmp" : k == 1 ? "/" : "/work"; mb = k == 0 ? "/work" : k == 1 ? "work" : k == 2 ? "." : "./"; probe("base-in-metadata"); }
    int fds = open_fd_count(); char *res = nullptr; RunResult r = run_sut([&] { apex_metadata_item it{}; it.key = (char *)"Transclude Base"; it.value = (char *)mb.c_str(); res = apex_process_includes(text.c_str(), from.c_str(), meta ? &it : nullptr, 0); return 0; });
    if (r.exited || r.killed_sigpipe) fail("host-exited", "includes", "apex exited during include expansion");
    if (!res) fail("no-output", "includes", "include expansion returned nothing");
    string got = take(res);
    inc_compare(w, [&] { return model_pieces(w, tops[0], "/work", 0); }, got, "include expansion", desc);
    if (open_fd_count() != fds) fail("fd-leak", "includes", "%d file(s) left open after include expansion [%s]", open_fd_count() - fds, desc.c_str());
    heap_audit("include expansion");
    if (w.depth_hit) probe("depth-limit-reached"); if (got.size() > (1 << 20)) probe("expansion-over-1MB"); probe("includes-expanded", w.expansions);
    describe(text + desc); sample(std::to_string(tops[0].size()) + " pieces, " + std::to_string(w.files.size()) + " files, " + std::to_string(text.size()) + "B -> " + std::to_string(got.size()) + "B " + (cycles ? "cycle " : "") + desc);
    R->work = 1;
}
static Reg r09({"P09", "include expansion", p09, "", "One case: a seeded tree of files that include each other in all five syntaxes (nested directories, absolute paths, line ranges, tables, code, cycles, totals beyond 1 MB) in the simulated file system, with up to three of them failing to open or to read at a seeded offset; the real expansion is compared byte for byte with a reference expander. Non-trivial: the expansion ended and was compared; distinct: different file tree or fault.", "exploration"});

/* ================================================================ P10 output delivery */
static void p10() {
    conversion_world(); g->heap_check = false;
    u32 kind = draw(W, 5); /* 0,1 conversion; 2 combine; 3 merge; 4 conversion in place */
    string doc = gen_doc(draw(W, 6) == 5 ? 80000 : 2500, true); g->fs.put("/work/doc.md", doc); g->fs.put("/work/two.md", gen_doc(draw(W, 4) == 3 ? 30000 : 300, false)); g->fs.put("/work/idx.txt", "doc.md\n\ttwo.md\n");
    vector<string> a; static const char *modes[] = {"unified", "mmd", "kramdown", "gfm", "commonmark"}; string mode = modes[draw(W, 5)];
    if (kind == 2) a = {"--combine", "/work/doc.md", "/work/two.md"}; else if (kind == 3) a = {"--mmd-merge", "/work/idx.txt"}; else a = {"-m", mode, "--no-progress", "/work/doc.md"};
    if (kind < 2 || kind == 4) { if (draw(W, 3) == 2) a.push_back("-s"); if (draw(W, 5) == 4) a.push_back("--pretty"); if (draw(W, 6) == 5) { a.push_back("-t"); a.push_back(pick(W, vector<string>{"json", "markdown", "terminal", "man"})); } }
    g->faults_on = false; CliOut ref = cli(a); g->faults_on = true;
    if (ref.status != 0) fail("conversion-failed", "reference", "fault-free run exited %d: %s", ref.status, hexq(g->err.data).c_str());
    bool to_file = kind == 4 || draw(W, 2); string outp = kind == 4 ? "/work/doc.md" : draw(W, 3) == 2 ? "/work/out/x.html" : "/work/x.html";
    if (outp == "/work/out/x.html" && draw(W, 3)) g->fs.mkdirs("/work/out");
    bool old = to_file && kind != 4 && draw(W, 2) && g->fs.lookup("/work"); string oldtext = "OLD " + string(draw(W, 5000), 'o') + "\n";
    if (old && g->fs.lookup(outp.substr(0, outp.rfind('/')))) g->fs.put(outp, oldtext); else old = false;
    if (to_file) { a.push_back("-o"); a.push_back(outp); }
    string what = "none"; long lim = (long)draw(F, (u32)ref.out.size() + 2); if (draw(F, 4) == 3) lim = std::min<long>((long)ref.out.size() - 1, (long)(1 + draw(F, 8)) * 4096); if (lim < 0) lim = 0; if (draw(F, 5) == 4) lim = std::max<long>(0, (long)ref.out.size() - 1);
    bool early = false;
    switch (draw(F, to_file ? 7 : 6)) {
    case 0: break;
    case 1: if (to_file) { g->fs.space_left = lim; what = "disk full after " + std::to_string(lim); } else { g->out.cap = lim; what = "stdout full after " + std::to_string(lim); } break;
    case 2: if (to_file) { enable(FK_CLOSE_FAIL, 1); what = "close fails"; } else { g->out.eio_at = lim; what = "stdout error after " + std::to_string(lim); } break;
    case 3: if (to_file) { enable(FK_WRITE_EIO, 2 + draw(F, 3)); faults_left = 1; what = "write error"; } else { g->out.epipe_at = lim; what = "reader gone after " + std::to_string(lim); } break;
    case 4: if (to_file) { enable(FK_WRITE_PARTIAL, 2); what = "short writes"; } else { enable(FK_WRITE_PARTIAL, 2); what = "short writes"; } break;
    case 5: { early = true; Inode *i = g->fs.lookup(kind == 3 ? "/work/idx.txt" : "/work/doc.md"); string q; if (kind == 4) i->eio_at = i->data.empty() ? -1 : (long)draw(F, (u32)i->data.size()); else pick_file_fault(i, q); what = "input unreadable"; } break;
    default: { Inode *i = g->fs.lookup(outp); if (i && kind != 4) { i->open_errno = EACCES; what = "output cannot be opened"; } } break;
    }
    CliOut r = cli(a);
    bool fired = R->faults[FK_DISK_FULL] || R->faults[FK_CLOSE_FAIL] || R->faults[FK_WRITE_EIO] || R->faults[FK_STDOUT_EPIPE];
    Inode *oi = g->fs.lookup(outp); string got = to_file ? (oi ? oi->data : string("(no file)")) : r.out;
    bool in_bad = R->faults[FK_FILE_EIO] || (early && R->faults[FK_OPEN_FAIL]);
    if (in_bad && kind != 2 && kind != 3) {
        if (r.status == 0) fail("failed-silently", "input", "the document could not be read, yet apex exited 0");
        if (kind == 4 || old) { const string &e = kind == 4 ? doc : oldtext; if (got != e) fail("output-destroyed", "existing output", "the conversion failed (exit %d: %s), yet the existing output file has changed from %zu to %zu bytes", r.status, hexq(g->err.data).c_str(), e.size(), got.size()); probe("existing-output-kept"); }
        else if (to_file && oi && !oi->data.empty()) fail("output-after-failure", "output", "the document could not be read, yet %zu bytes were written", oi->data.size());
    } else if (in_bad) { if (kind == 3 && r.status == 0) fail("failed-silently", "merge index", "the merge index could not be read, yet apex exited 0"); }
    else if (r.status == 0) {
        if (got != ref.out) fail("output-lost", to_file ? "file" : "stdout", "apex exited 0, but %zu of %zu bytes arrived (%s), %s", got.size(), ref.out.size(), what.c_str(), first_diff(got, ref.out).c_str());
        probe("complete-output");
    } else {
        bool may_fail = fired || R->faults[FK_OPEN_FAIL] || (to_file && !oi) ;
        if (!may_fail) fail("needless-failure", "output", "nothing went wrong (%s), yet apex exited %d: %s", what.c_str(), r.status, hexq(g->err.data).c_str());
        if (g->err.data.empty() && !r.sig) fail("failed-silently", "message", "output was lost (%s) and the exit status is %d, but nothing was said on stderr", what.c_str(), r.status);
        probe("failure-reported");
    }
    if (open_fd_count() < 0) return;
    describe(mode + what + a[0] + outp + std::to_string(old)); sample(a[0] + " " + (to_file ? outp : string("stdout")) + " " + what + ": exit " + std::to_string(r.status) + " " + std::to_string(got.size()) + "/" + std::to_string(ref.out.size()));
    R->work = 1;
}
static Reg r10({"P10", "output delivery", p10, "", "One case: a conversion, combination or merge by the real command line to stdout or a file (new, existing, or the input itself) while the disk fills up, a write or close fails, the reader disappears, writes are short, the output cannot be opened, or the input cannot be read; exit status and delivered bytes are compared with the fault-free run. Non-trivial: the run ended and was compared; distinct: different command, target and fault.", "exploration"});

/* ================================================================ P11 combine and merge */
static string shift(const string &t, int n) { string o; bool bol = true; for (char c : t) { if (bol && c == '#') o += string((size_t)n, '#'); o += c; bol = c == '\n'; } return o; }
static void p11() {
    conversion_world(); g->heap_noise = draw(W, 4) == 3;
    IncWorld w; string desc; bool faults = draw(W, 2); bool merge = draw(W, 3) == 2;
    string dir = "/work/book"; g->fs.mkdirs(dir); u32 n = 1 + draw(W, 6); if (draw(W, 10) == 9) n = 8 + draw(W, 14);
    auto tops = gen_inc_world(w, dir, n, draw(W, 8) == 7, faults, desc);
    struct M { string path; bool broken; string text; }; vector<M> ms;
    for (u32 i = 0; i < n; i++) { auto ps = tops[i]; if (draw(W, 2)) ps.insert(ps.begin(), {0, pick(W, vector<string>{"# Title\n", "# One\n\n## Two\n", "text\n", "#\ntext\n", "##\n#tag\n", "\n#\n"}), "", ""}); if (draw(W, 5) == 4) ps.push_back({0, "## tail", "", ""}); if (draw(W, 12) == 11) ps = {}; tops[i] = ps; string p = dir + "/" + (draw(W, 3) == 2 ? "part/" : "") + "ch" + pick(W, vector<string>{"", "", "", ":", " x ", "_y"}) + std::to_string(i) + ".md"; if (p.find("/part/") != string::npos) for (auto &q : tops[i]) if (q.kind && q.kind != 5 && q.path[0] != '/') { /* its own directory is the base */ string f = norm(dir + "/" + q.path); q = q.kind == 1 ? Piece{0, "", "", ""} : Piece{q.kind, (q.kind == 2 ? "{{" + f + "}}" : q.kind == 3 ? "<<[" + f + "]" : "<<(" + f + ")") + (q.addr.empty() ? "" : "[" + q.addr + "]"), f, q.addr}; } ms.push_back({p, false, pieces_text(tops[i])}); g->fs.put(p, ms[i].text); }
    if (faults) { u32 k = draw(F, 3); for (u32 i = 0; i < k; i++) { u32 x = draw(F, n); string wh; Inode *ino = g->fs.lookup(ms[x].path); if (!ino) continue; if (draw(F, 4) == 3) g->fs.remove_tree(ms[x].path); else { pick_file_fault(ino, wh); if (ino->eio_at >= 0 && ms[x].text.empty()) { ino->eio_at = -1; continue; } } ms[x].broken = true; } }
    vector<string> args; struct Item { u32 m; int shift; }; vector<Item> seq; string usage; bool idx_broken = false;
    if (merge) {
        args = {"--mmd-merge"}; u32 files = 1 + draw(W, 2); u32 at = 0; if (n > 7 && draw(W, 2)) files = n;
        for (u32 f = 0; f < files; f++) {
            string t; u32 cnt = f + 1 == files ? n - at : files == n ? 1 : (n - at) / 2;
            for (u32 i = 0; i < cnt; i++) {
                if (draw(W, 4) == 3) t += pick(W, vector<string>{"\n", "# comment\n", "   # indented comment\n", "\t\n", "\t# comment\n", "\t\t #x\n", "\r\n"});
                int s = (int)draw(W, 4); u32 style = draw(W, 3); string ind; for (int q = 0; q < s; q++) ind += style == 0 ? "\t" : style == 1 ? "    " : q % 2 ? "    " : "\t";
                if (s == 0 && draw(W, 6) == 5) ind = "  ";
                string rel = ms[at].path.substr(dir.size() + 1); string nm = draw(W, 5) == 4 ? ms[at].path : rel;
                t += ind + nm + (draw(W, 6) == 5 ? "  " : "") + (draw(W, 8) == 7 ? "\r\n" : "\n"); seq.push_back({at, s}); at++;
            }
            if (draw(W, 4) == 3 && !t.empty() && t.back() == '\n') { t.pop_back(); if (!t.empty() && t.back() == '\r') t.pop_back(); }
            string ip = dir + "/index" + std::to_string(f) + ".txt"; g->fs.put(ip, t); args.push_back(ip);
        }
    } else {
        args = {"--combine"}; u32 at = 0;
        while (at < n) {
            if (draw(W, 3) == 2) { u32 cnt = 1 + draw(W, n - at); string t = "# Summary\n\n"; for (u32 i = 0; i < cnt; i++, at++) { string rel = ms[at].path.substr(dir.size() + 1); if (draw(W, 6) == 5) t += pick(W, vector<string>{"* [Ext](https://e.example/x.md)\n", "text only\n", "* [empty]()\n", "* no link [a] (b)\n"}); t += string(draw(W, 3) * 2, ' ') + "* [Title " + std::to_string(at) + "](" + rel + (draw(W, 4) == 3 ? "#anchor" : "") + ")\n"; seq.push_back({at, 0}); } string sp = dir + "/" + (args.size() == 1 ? "SUMMARY.md" : "summary.md"); if (g->fs.exists(sp)) { for (u32 i = 0; i < cnt; i++) args.push_back(ms[at - cnt + i].path); } else { g->fs.put(sp, t); args.push_back(sp); } }
            else { args.push_back(ms[at].path); seq.push_back({at, 0}); at++; }
        }
    }
    if (faults && draw(F, 6) == 5) for (auto &x : args) { size_t k = x.rfind('/'); string b = k == string::npos ? "" : x.substr(k + 1); if (b == "SUMMARY.md" || b == "summary.md" || b.compare(0, 5, "index") == 0) { Inode *i = g->fs.lookup(x); string wh; if (i->data.empty()) continue; pick_file_fault(i, wh); idx_broken = true; usage = x; break; } }
    if (!idx_broken && !merge && n > 1 && draw(W, 6) == 5) { args.push_back(ms[0].path); seq.push_back({0, 0}); } /* the same file again */
    if (draw(W, 3) == 2) { g->fs.cwd = dir; for (auto &x : args) if (x.compare(0, dir.size() + 1, dir + "/") == 0 && draw(W, 2)) x = (draw(W, 3) == 2 ? "./" : "") + x.substr(dir.size() + 1); }
    bool to_file = draw(W, 2); if (to_file) { args.push_back("-o"); args.push_back("/work/all.md"); }
    CliOut r = cli(args); string got = to_file ? g->fs.get("/work/all.md") : r.out;
    if (idx_broken) { /* what it lists is not known: that is an error */
        if (r.status == 0) fail("failed-silently", merge ? "merge" : "combine", "%s could not be read, yet apex exited 0: %s", usage.c_str(), hexq(g->err.data).c_str());
        if (g->err.data.find(usage.substr(usage.rfind('/') + 1)) == string::npos) fail("no-warning", merge ? "merge" : "combine", "%s could not be read, but stderr does not mention it: %s", usage.c_str(), hexq(g->err.data).c_str());
        probe("index-unreadable"); describe(usage + desc); sample(usage + " unreadable"); R->work = 1; return;
    }
    if (r.status != 0) fail("combine-failed", merge ? "merge" : "combine", "exited %d: %s [%s]", r.status, hexq(g->err.data).c_str(), desc.c_str());
    auto model = [&] { string o; bool sep = false; for (auto &it : seq) { M &m = ms[it.m]; if (m.broken) continue; if (merge) o += shift(m.text, it.shift) + "\n\n"; else { if (sep) o += "\n\n"; o += model_pieces(w, tops[it.m], dir_of(m.path), 0); sep = true; } } return o; };
    inc_compare(w, model, got, merge ? "merging" : "combining", desc);
    for (auto &it : seq) if (ms[it.m].broken && g->err.data.find(ms[it.m].path.substr(ms[it.m].path.rfind('/') + 1)) == string::npos) fail("no-warning", merge ? "merge" : "combine", "%s could not be read and is missing from the result, but stderr does not mention it: %s", ms[it.m].path.c_str(), hexq(g->err.data).c_str());
    { bool any = false; for (auto &m : ms) any |= m.broken; if (merge && !any && !g->err.data.empty()) fail("false-warning", "merge", "every listed file could be read, yet stderr says %s [%s]", hexq(g->err.data).c_str(), desc.c_str()); }
    string d; for (auto &a : args) d += a + " "; describe(d + desc + got); sample(d + desc + " -> " + std::to_string(got.size()) + "B");
    R->work = 1;
}
static Reg r11({"P11", "combine and merge", p11, "", "One case: a book of 1-6 files (with includes, empty files, missing final newlines) combined directly or through SUMMARY files, or merged through indented index files with comments, blank lines and CRLF, by the real command line, while members fail to open or read; the result is compared byte for byte with a reference concatenation and stderr must name every skipped member. Non-trivial: the run ended and was compared; distinct: different command, files or fault.", "exploration"});
