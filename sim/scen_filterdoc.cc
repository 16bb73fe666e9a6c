/* Filters see and give back the whole document. */
#include "gen.h"
#include <cstring>

/* ---- a strict JSON reader and a writer that may choose any legal spelling ---- */
struct J { char t = 'n'; string s; vector<J> a; vector<std::pair<string, J>> o; const J *get(const char *k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; } };
static bool jws(const string &s, size_t &i) { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; return i < s.size(); }
static bool jstr(const string &s, size_t &i, string &out) {
    if (i >= s.size() || s[i] != '"') return false; i++; out.clear();
    auto hex = [&](size_t at) -> long { if (at + 4 > s.size()) return -1; long v = 0; for (int k = 0; k < 4; k++) { if (!isxdigit((unsigned char)s[at + k])) return -1; v = v * 16 + (isdigit((unsigned char)s[at + k]) ? s[at + k] - '0' : (s[at + k] | 32) - 'a' + 10); } return v; };
    for (; i < s.size(); i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"') { i++; return true; }
        if (c < 0x20) return false;
        if (c != '\\') { out += (char)c; continue; }
        if (++i >= s.size()) return false;
        switch (s[i]) {
        case '"': case '\\': case '/': out += s[i]; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': { long v = hex(i + 1); if (v < 0) return false; i += 4; if (v >= 0xD800 && v < 0xDC00 && i + 6 < s.size() && s[i + 1] == '\\' && s[i + 2] == 'u') { long w = hex(i + 3); if (w < 0xDC00 || w > 0xDFFF) return false; v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); i += 6; }
            if (v < 0x80) out += (char)v; else if (v < 0x800) { out += (char)(0xC0 | (v >> 6)); out += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { out += (char)(0xE0 | (v >> 12)); out += (char)(0x80 | ((v >> 6) & 63)); out += (char)(0x80 | (v & 63)); } else { out += (char)(0xF0 | (v >> 18)); out += (char)(0x80 | ((v >> 12) & 63)); out += (char)(0x80 | ((v >> 6) & 63)); out += (char)(0x80 | (v & 63)); } break; }
        default: return false;
        }
    }
    return false;
}
static bool jval(const string &s, size_t &i, J &v, int depth) {
    if (depth > 500 || !jws(s, i)) return false;
    char c = s[i];
    if (c == '"') { v.t = 's'; return jstr(s, i, v.s); }
    if (c == '{') { v.t = 'o'; i++; if (!jws(s, i)) return false; if (s[i] == '}') { i++; return true; }
        for (;;) { string k; J x; if (!jws(s, i) || !jstr(s, i, k) || !jws(s, i) || s[i] != ':') return false; i++; if (!jval(s, i, x, depth + 1)) return false; v.o.push_back({k, x}); if (!jws(s, i)) return false; if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; return true; } return false; } }
    if (c == '[') { v.t = 'a'; i++; if (!jws(s, i)) return false; if (s[i] == ']') { i++; return true; }
        for (;;) { J x; if (!jval(s, i, x, depth + 1)) return false; v.a.push_back(x); if (!jws(s, i)) return false; if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; return true; } return false; } }
    v.t = 'n'; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("+-.", s[i]))) v.s += s[i++];
    if (v.s == "true" || v.s == "false" || v.s == "null") return true;
    size_t k = v.s[0] == '-'; if (k >= v.s.size() || !isdigit((unsigned char)v.s[k]) || (v.s[k] == '0' && k + 1 < v.s.size() && isdigit((unsigned char)v.s[k + 1]))) return false;
    return true;
}
static bool jparse(const string &s, J &v) { size_t i = 0; if (!jval(s, i, v, 0)) return false; jws(s, i); return i == s.size(); }
struct Style { u32 seed; bool rev, ws, uni, slash, drop_c, spaces; u32 nx() { seed = seed * 1103515245u + 12345u; return seed >> 8; } };
static void wstr(const string &s, string &o, Style &st) {
    o += '"'; char b[16];
    for (size_t i = 0; i < s.size(); i++) { unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else if (c == '/' && st.slash) o += "\\/";
        else if (st.uni && c >= 0xC2) { int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; bool ok = i + n <= s.size(); for (int k = 1; ok && k < n; k++) if (((unsigned char)s[i + k] & 0xC0) != 0x80) ok = false;
            if (!ok) { o += (char)c; continue; } long v = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31; for (int k = 1; k < n; k++) v = v << 6 | ((unsigned char)s[i + k] & 63); i += n - 1;
            if (v >= 0x10000) { v -= 0x10000; snprintf(b, sizeof b, st.nx() % 2 ? "\\u%04lx\\u%04lx" : "\\u%04lX\\u%04lX", 0xD800 + (v >> 10), 0xDC00 + (v & 1023)); } else snprintf(b, sizeof b, st.nx() % 2 ? "\\u%04lx" : "\\u%04lX", v); o += b; }
        else if (st.uni && st.nx() % 16 == 0 && c < 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c; }
    o += '"';
}
static void wsp(string &o, Style &st) { if (st.ws && st.nx() % 3 == 0) o += (st.nx() % 4 ? " " : "\n  "); }
static void wval(const J &v, string &o, Style &st) {
    wsp(o, st);
    if (v.t == 's') wstr(v.s, o, st); else if (v.t == 'n') o += v.s;
    else if (v.t == 'a') { o += '['; for (size_t i = 0; i < v.a.size(); i++) { if (i) o += ','; wval(v.a[i], o, st); } wsp(o, st); o += ']'; }
    else { const J *t = v.get("t"), *c = v.get("c"); bool drop = st.drop_c && t && c && c->t == 'a' && c->a.empty() && (t->s == "SoftBreak" || t->s == "LineBreak" || t->s == "HorizontalRule" || t->s == "Space");
        o += '{'; bool first = true; for (size_t i = 0; i < v.o.size(); i++) { auto &p = v.o[st.rev ? v.o.size() - 1 - i : i]; if (drop && p.first == "c") continue; if (!first) o += ','; first = false; wsp(o, st); wstr(p.first, o, st); wsp(o, st); o += ':'; wval(p.second, o, st); } wsp(o, st); o += '}'; }
    wsp(o, st);
}
static void split_spaces(J &v) { /* "a b" -> Str a, Space, Str b, as Pandoc itself writes */
    if (v.t == 'a') { vector<J> n; for (J &x : v.a) { const J *t = x.t == 'o' ? x.get("t") : nullptr; const J *c = t ? x.get("c") : nullptr;
            if (t && t->s == "Str" && c && c->s.find(' ') != string::npos) { string w; auto str = [&](const string &y) { J q = x; for (auto &p : q.o) if (p.first == "c") p.second.s = y; n.push_back(q); }; for (char ch : c->s) if (ch == ' ') { if (!w.empty()) str(w); w.clear(); J sp; sp.t = 'o'; J nm; nm.t = 's'; nm.s = "Space"; sp.o.push_back({"t", nm}); n.push_back(sp); } else w += ch; if (!w.empty()) str(w); }
            else { split_spaces(x); n.push_back(x); } } v.a.swap(n); }
    for (auto &p : v.o) split_spaces(p.second);
}
/* ---- the shape of a Pandoc document, and the text in it ---- */
static string bad; static string words_seen;
static bool no(const string &w) { if (bad.empty()) bad = w; return false; }
static bool attr(const J &v) { if (v.t != 'a' || v.a.size() != 3 || v.a[0].t != 's' || v.a[1].t != 'a' || v.a[2].t != 'a') return no("attributes"); for (auto &c : v.a[1].a) if (c.t != 's') return no("class"); for (auto &k : v.a[2].a) if (k.t != 'a' || k.a.size() != 2 || k.a[0].t != 's' || k.a[1].t != 's') return no("key and value"); return true; }
static bool inlines(const J &v); static bool blocks(const J &v);
static bool inl(const J &v) {
    if (v.t != 'o' || !v.get("t") || v.get("t")->t != 's') return no("an inline without a tag"); const string &t = v.get("t")->s; const J *c = v.get("c");
    if (t == "Space" || t == "SoftBreak" || t == "LineBreak") { words_seen += ' '; return true; }
    if (!c) return no(t + " without content");
    if (t == "Str") { if (c->t != 's') return no("Str"); words_seen += c->s; return true; }
    if (t == "Emph" || t == "Strong" || t == "Strikeout" || t == "Superscript" || t == "Subscript" || t == "SmallCaps" || t == "Underline") return inlines(*c) || no(t);
    if (t == "Code") { if (c->t != 'a' || c->a.size() != 2 || !attr(c->a[0]) || c->a[1].t != 's') return no(t); words_seen += c->a[1].s; return true; }
    if (t == "RawInline") { if (c->t != 'a' || c->a.size() != 2 || c->a[0].t != 's' || c->a[1].t != 's') return no(t); words_seen += c->a[1].s; return true; }
    if (t == "Math") { if (c->t != 'a' || c->a.size() != 2 || c->a[0].t != 'o' || c->a[1].t != 's') return no(t); words_seen += c->a[1].s; return true; }
    if (t == "Link" || t == "Image") { if (c->t != 'a' || c->a.size() != 3 || !attr(c->a[0]) || !inlines(c->a[1]) || c->a[2].t != 'a' || c->a[2].a.size() != 2 || c->a[2].a[0].t != 's' || c->a[2].a[1].t != 's') return no(t); words_seen += " " + c->a[2].a[0].s + " " + c->a[2].a[1].s + " "; return true; }
    if (t == "Span") return (c->t == 'a' && c->a.size() == 2 && attr(c->a[0]) && inlines(c->a[1])) || no(t);
    if (t == "Note") return blocks(*c) || no(t);
    if (t == "Quoted" || t == "Cite") return (c->t == 'a' && c->a.size() == 2 && inlines(c->a[1])) || no(t);
    return no("inline " + t);
}
static bool inlines(const J &v) { if (v.t != 'a') return no("inlines are no list"); for (auto &x : v.a) if (!inl(x)) return false; return true; }
static bool block(const J &v) {
    if (v.t != 'o' || !v.get("t") || v.get("t")->t != 's') return no("a block without a tag"); const string &t = v.get("t")->s; const J *c = v.get("c"); words_seen += ' ';
    if (t == "HorizontalRule" || t == "Null") return true;
    if (!c || c->t != 'a') return no(t + " without content");
    if (t == "Para" || t == "Plain") return inlines(*c) || no(t);
    if (t == "Header") return (c->a.size() == 3 && c->a[0].t == 'n' && attr(c->a[1]) && inlines(c->a[2])) || no(t);
    if (t == "CodeBlock") { if (c->a.size() != 2 || !attr(c->a[0]) || c->a[1].t != 's') return no(t); words_seen += c->a[1].s; return true; }
    if (t == "RawBlock") { if (c->a.size() != 2 || c->a[0].t != 's' || c->a[1].t != 's') return no(t); words_seen += c->a[1].s; return true; }
    if (t == "BlockQuote") return blocks(*c) || no(t);
    if (t == "BulletList") { for (auto &x : c->a) if (!blocks(x)) return no(t); return true; }
    if (t == "OrderedList") { if (c->a.size() != 2 || c->a[0].t != 'a' || c->a[0].a.size() != 3 || c->a[0].a[0].t != 'n' || c->a[1].t != 'a') return no(t + " attributes"); for (int k = 1; k < 3; k++) if (c->a[0].a[k].t != 'o') return no(t + " style"); for (auto &x : c->a[1].a) if (!blocks(x)) return no(t); return true; }
    if (t == "Div") return (c->a.size() == 2 && attr(c->a[0]) && blocks(c->a[1])) || no(t);
    if (t == "DefinitionList" || t == "LineBlock" || t == "Table" || t == "Figure") return true;
    return no("block " + t);
}
static bool blocks(const J &v) { if (v.t != 'a') return no("blocks are no list"); for (auto &x : v.a) if (!block(x)) return false; return true; }

/* ---- documents of the constructs that have a place in the filters' format ---- */
static int wn; static vector<string> all_words;
static string word() { static const vector<string> X = {"", "", "", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x98\x80", "A&B", "don't", "\"q\"", "...", "--", "a/b", "\\\\", "x\\*y", "&copy;", "3 < 4", "tab\there", "esc\x1b[1m", "\x10\x1f", "cr&#13;", "&#9;", "&quot;&lt;&gt;", "\xc2\x80\xdf\xbf", "\xe0\xa0\x80\xef\xbf\xbd", "\xf4\x8f\xbf\xbd\xf0\x90\x80\x80"}; string w = "w" + std::to_string(wn++) + "w"; all_words.push_back(w); string x = pick(W, X); return x.empty() ? w : draw(W, 2) ? w + " " + x : x + " " + w; }
static string plain_word() { string w = "w" + std::to_string(wn++) + "w"; all_words.push_back(w); return w; }
static string inl_text(u32 depth) {
    string s; u32 n = 1 + draw(W, 5);
    for (u32 i = 0; i < n; i++) { if (i) s += draw(W, 10) == 9 ? "\n" : " "; u32 k = draw(W, depth ? 22 : 8);
        switch (k) { default: s += word(); break;
        case 8: case 9: s += "*" + inl_text(depth - 1) + "*"; break; case 10: case 11: s += "**" + inl_text(depth - 1) + "**"; break; case 12: s += "`" + word() + " <c> \\n`"; break;
        case 13: case 14: s += "[" + inl_text(depth - 1) + "](http://x.y/z?a=1&b=2" + (draw(W, 2) ? " \"" + plain_word() + "\"" : string()) + ")"; break; case 15: s += "![" + inl_text(0) + "](img.png)"; break; case 16: s += "<b class=\"x\">" + word() + "</b>"; break;
        case 17: s += "~~" + word() + "~~"; break; case 18: s += word() + "  \n" + word(); break; case 19: s += word() + "\\\n" + word(); break; case 20: s += "[" + word() + "](<u v> )"; break; case 21: s += "*" + word() + " **" + word() + "** " + word() + "*"; break; } }
    return s;
}
static string ind(const string &s, const string &p) { string o; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); o += (j > i ? p : "") + s.substr(i, j - i) + "\n"; i = j + 1; } return o; }
static string blk(u32 depth) {
    auto one = [&](u32 d) { string s = inl_text(d); for (char &c : s) if (c == '\n') c = ' '; return s; };
    auto head = [&]() { string s = one(1); return s.find("](") == string::npos ? s : one(0); }; /* a heading that ends in a link may name its ID with it, which the format of the filters does not carry */
    switch (draw(W, depth ? 18 : 8)) {
    default: return inl_text(2) + "\n\n";
    case 2: return string(1 + draw(W, 6), '#') + " " + head() + "\n\n";
    case 3: return head() + "\n" + (draw(W, 2) ? "=====" : "-----") + "\n\n";
    case 4: { string f = pick(W, vector<string>{"```", "~~~"}); string o = f + pick(W, vector<string>{"", "c", "python", "inc", "js"}) + "\n"; u32 n = 1 + draw(W, 4); for (u32 i = 0; i < n; i++) o += word() + (draw(W, 4) == 3 ? "\n" : "") + "  \"<a>\" & \\1;\n"; if (draw(W, 5) == 4) o += string(1 + draw(W, 3), '\n'); return o + f + "\n\n"; }
    case 5: return "    " + word() + "\n        deeper <x>\n\n";
    case 6: return "***\n\n";
    case 7: return "<div class=\"d\">\n" + word() + "\n</div>\n\n";
    case 8: case 9: case 10: { u32 m = draw(W, 7); bool loose = draw(W, 3) == 2; string o; u32 n = 1 + draw(W, 4), st = draw(W, 3) == 2 ? (draw(W, 4) == 3 ? pick(W, vector<u32>{0, 99999, 1000, 123456, 999999000}) : 2 + draw(W, 50)) : 1;
        for (u32 i = 0; i < n; i++) { string mk = m < 2 ? "- " : m == 2 ? "* " : m == 3 ? std::to_string(st + i) + ". " : m == 4 ? std::to_string(st + i) + ") " : m == 5 ? "- [ ] " : "- [x] "; string b = one(1) + "\n"; if (draw(W, 4) == 3) b += "\n" + blk(depth - 1); string in = ind(b, string(m == 3 || m == 4 ? mk.size() : 2, ' ')); o += mk + in.substr(in.find_first_not_of(' ')); if (loose) o += "\n"; }
        return o + "\n"; }
    case 11: case 12: return ind(one(1) + "\n\n" + blk(depth - 1), "> ") + "\n";
    case 13: case 14: { u32 c = 2 + draw(W, 2), n = 1 + draw(W, 3); string o; for (u32 r = 0; r <= n; r++) { o += "|"; for (u32 i = 0; i < c; i++) { string w = "w" + std::to_string(wn++) + "w"; all_words.push_back(w); o += " " + w + " |"; } o += "\n"; if (!r) { o += "|"; for (u32 i = 0; i < c; i++) o += pick(W, vector<string>{" --- |", " :-- |", " --: |", " :-: |"}); o += "\n"; } } return o + "\n"; }
    case 15: { static int fn; if (!draw(W, 3)) fn = 0; fn++; string k = "f" + std::to_string(wn); return one(1) + "[^" + k + "] " + word() + "\n\n[^" + k + "]: " + one(1) + "\n\n" + (draw(W, 3) == 2 ? "    " + word() + "\n\n" : ""); }
    }
}
static bool wrapped;
static void wrap_blocks(J &doc) { /* all blocks in a Div without attributes: the result may be marked up otherwise, but has the same words */
    string t = "{\"t\":\"Div\",\"c\":[[\"\",[],[]],[]]}"; J d; jparse(t, d); for (auto &p : doc.o) if (p.first == "blocks") { for (auto &q : d.o) if (q.first == "c") q.second.a[1] = p.second; J l; l.t = 'a'; l.a.push_back(d); p.second = l; }
}
static string words_of(const string &html) { string o; for (auto &w : all_words) { size_t n = 0, k = 0; while ((k = html.find(w, k)) != string::npos) n++, k++; o += w + "*" + std::to_string(n) + " "; } return o; }
static Style gen_style() { Style st; st.seed = draw(W, 1u << 30); st.rev = draw(W, 2); st.ws = draw(W, 2); st.uni = draw(W, 2); st.slash = draw(W, 2); st.drop_c = draw(W, 2); st.spaces = draw(W, 2); return st; }
static vector<Spec *> *cast21; static std::map<string, Spec *> *by_path;
static void p21() {
    static const size_t caps[] = {65536, 4096, 8192, 16384}; g->pipe_cap = caps[draw(W, 4)]; static const int biases[] = {4, 1, 2, 16, 64}; set_sched_bias(biases[draw(W, 5)]); g->heap_check = draw(W, 2); g->heap_noise = draw(W, 4) == 3; g->tools.insert("lua");
    wn = 100; wrapped = false; all_words.clear(); string doc; u32 nb = draw(W, 10) == 9 ? range(W, 10, 60) : range(W, 1, 8); for (u32 i = 0; i < nb; i++) doc += blk(2);
    cast21 = new vector<Spec *>; by_path = new std::map<string, Spec *>;
    bool xdg = draw(W, 2); if (xdg) set_env("XDG_CONFIG_HOME", "/cfg"); string conf = xdg ? "/cfg/apex" : "/home/u/.config/apex"; g->fs.mkdirs(conf + "/filters"); g->fs.mkdirs("/docs");
    vector<string> base; if (draw(W, 4) == 3) base.push_back("-s");
    string file = draw(W, 3) == 2 ? "" : "/docs/doc.md"; auto feed = [&](vector<string> &a) { if (!file.empty()) { g->fs.put(file, doc); a.push_back(file); } else { g->in.data = doc; g->in.off = 0; } };
    vector<string> ra = base; feed(ra); RunResult q = run_cli(ra); if (q.status != 0) fail("failed", "reference", "converting without filters exited with %d: %s", q.status, hexq(g->err.data, 200).c_str()); string ref = g->out.data;
    vector<string> a = base; u32 n = 1 + draw(W, 3); bool all = draw(W, 3) == 2; string styles;
    for (u32 i = 0; i < n; i++) {
        string nm = "f" + std::to_string(i), path = conf + "/filters/" + nm; bool lua = !all && draw(W, 3) == 2; if (lua) path = "/docs/" + nm + ".lua"; g->fs.put(path, "#!/bin/sh\n", 0755);
        Spec *s = new Spec; s->cmd = path; cast21->push_back(s); (*by_path)[path] = s; bool verbatim = draw(W, 3) == 0, wrap = !verbatim && draw(W, 8) == 7; if (wrap) wrapped = true; Style st = gen_style(); styles += verbatim ? "same " : string("re-spelt") + (st.rev ? " keys" : "") + (st.uni ? " \\u" : "") + (st.ws ? " ws" : "") + (st.spaces ? " Space" : "") + "; ";
        s->transform = [verbatim, wrap, st](const string &in) { J v; if (verbatim || !jparse(in, v)) return in; string o; Style x = st; if (x.spaces) split_spaces(v); if (wrap) wrap_blocks(v); wval(v, o, x); return o; };
        if (draw(W, 3) == 2) s->mode = Spec::CLOSE_OUT_EARLY; if (draw(W, 5) == 4) s->slow_us = 100 + draw(W, 200000); if (draw(W, 6) == 5) s->hold_open = true;
        if (!all) { a.push_back(lua ? "--lua-filter" : "--filter"); a.push_back(lua ? path : nm); } }
    if (all) a.push_back("--filters");
    g->resolve = [](const string &cmd, Proc &p) -> Prog * { vector<string> w; if (!shell_words(cmd, p, w) || w.empty() || !by_path->count(w.back())) return nullptr; Spec *s = (*by_path)[w.back()]; return s->started ? nullptr : script_prog(s); };
    if (draw(W, 3)) { u32 den = 4 + draw(W, 60); if (draw(W, 2)) enable(FK_WRITE_EINTR, den); if (draw(W, 2)) enable(FK_WRITE_PARTIAL, den); if (draw(W, 2)) enable(FK_READ_EINTR, den); if (draw(W, 2)) enable(FK_WAIT_EINTR, 3 + draw(W, 6)); if (draw(W, 2)) enable(FK_POLL_EINTR, den); }
    feed(a); string cmdl; for (auto &x : a) cmdl += x + " ";
    RunResult r = run_cli(a); g->faults_on = false; string hist = cmdl + "[" + styles + "] " + hexq(doc, 900);
    size_t ran = 0; for (Spec *s : *cast21) if (s->started) { ran++; J v; if (!jparse(s->received, v)) { size_t i = 0; J w; jval(s->received, i, w, 0); fail("malformed", "request", "a filter was given text that is not JSON, near '%s' [%s]", hexq(s->received.substr(i > 60 ? i - 60 : 0, 120)).c_str(), hist.c_str()); }
            const J *b = v.get("blocks"); if (!b || !v.get("pandoc-api-version") || !v.get("meta")) fail("malformed", "document", "the JSON given to a filter is no Pandoc document [%s]", hist.c_str());
            bad.clear(); words_seen.clear(); if (!blocks(*b)) fail("malformed", "shape", "the JSON given to a filter is no Pandoc document: %s [%s]", bad.c_str(), hist.c_str());
            for (auto &w : all_words) if (ref.find(w) != string::npos && words_seen.find(w) == string::npos) fail("text-lost", "request", "'%s' is in the document but not in what the filter was given [%s]", w.c_str(), hist.c_str()); }
    if (r.status != 0) fail("failed", "conversion", "apex exited with %d: %s [%s]", r.status, hexq(g->err.data, 200).c_str(), hist.c_str());
    if (ran != n) fail("not-run", "filters", "%zu of %u filters ran [%s]", ran, n, hist.c_str());
    string got = g->out.data; if (wrapped) { if (words_of(got) != words_of(ref)) { string x = words_of(got), y = words_of(ref); size_t k = 0; while (x[k] == y[k]) k++; fail("text-lost", "conversion", "after a filter put the blocks into a Div the words are '%s' instead of '%s' [%s]", hexq(x.substr(k > 10 ? k - 10 : 0, 60)).c_str(), hexq(y.substr(k > 10 ? k - 10 : 0, 60)).c_str(), hist.c_str()); } probe("wrapped"); }
    else if (got != ref) { size_t k = 0; while (k < ref.size() && k < got.size() && ref[k] == got[k]) k++; size_t s = k > 60 ? k - 60 : 0; fail("document-changed", "conversion", "filters that change nothing changed the result at byte %zu: '%s' instead of '%s' [%s]", k, hexq(got.substr(s, 160)).c_str(), hexq(ref.substr(s, 160)).c_str(), hist.c_str()); }
    probe("documents-compared"); ihash_add(fnv(ref)); sample(hist); R->work = ref.size() > 20;
}
static Reg r21({"P21", "filters keep the document", p21, "", "One case: a generated document (CommonMark and GFM constructs, nested) is converted by the real command line once without filters and once with one to three filters that change nothing: each returns the document it was given, byte for byte or re-spelt as any JSON writer may (key order, white space, \\u escapes and surrogate pairs, escaped slashes, Str and Space split). Pipe sizes, schedule of every system call, short transfers and interrupted calls are seeded. What each filter was given is parsed by a strict JSON reader and checked against the shape of a Pandoc document and the words of the text; both results must be equal. Non-trivial: the result has more than 20 bytes; distinct: different results.", "exploration"});
