/* Documents and conversion options for the whole-pipeline scenarios. Everything is drawn from the workload tape. */
#include "gen.h"
#include <cstring>

static const vector<string> WORDS = {"alpha", "Bravo", "charlie", "delta", "e\xcc\x81" "cho", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "HTML", "CSS", "x", "don't", "3.14", "50%", "a_b_c", "A&B", "1 < 2", "\"q\"", "--", "...", "e-mail", "\xf0\x9f\x98\x80", "TOK"};
static const vector<string> NAMES = {"one", "two", "three", "sec-1", "fig", "note"};
static string words(u32 n) { string s; for (u32 i = 0; i < n; i++) s += (i ? " " : "") + pick(W, WORDS); return s; }
static string ial() { return pick(W, vector<string>{"{: .cls}", "{: #id1}", "{: .a .b #c key=\"v\"}", "{:.x}", "{#id2 .y}", "{.z w=1}", "{:ref}", "{: width=50% }", "{:ref .more}", "{:ref #own k=\"v\"}", "{:nope .x}"}); }
/* blocks of real documents (the project's documentation, examples and test inputs), between bytes 0x1e */
__asm__(".section .rodata\n.global corpus_begin\n.global corpus_end\ncorpus_begin: .incbin \"" CORPUS "\"\ncorpus_end:\n.byte 0\n.text\n");
extern "C" const char corpus_begin[], corpus_end[];
static const vector<string> &corpus() { static vector<string> v; if (v.empty()) { const char *p = corpus_begin; while (p < corpus_end) { const char *q = (const char *)memchr(p, 0x1e, corpus_end - p); if (!q) q = corpus_end; v.push_back(string(p, q - p)); p = q + 1; } } return v; }
static string gen_real() { auto &c = corpus(); u32 i = draw(W, (u32)c.size()), n = 1 + draw(W, 4); string s; for (u32 k = i; k < i + n && k < c.size(); k++) s += c[k] + (draw(W, 12) == 11 ? "" : "\n"); return s; }
string gen_transform() {
    string k = pick(W, vector<string>{"title", "author", "date", "tags", "missing"});
    u32 n = 1 + draw(W, 2); for (u32 i = 0; i < n; i++) k += ":" + pick(W, vector<string>{"upper", "lower", "trim", "title", "capitalize", "slugify", "length", "reverse", "split(,):join(+)", "split(,):first", "split(,):last", "split(,):slice(1,2):join(;)", "strftime(%Y)", "strftime(%d %B)", "replace(T,x)", "replace(regex:[aeiou],_)", "substr(1,4)", "truncate(5,...)", "default(none)", "html_escape", "basename", "urlencode", "urldecode", "prefix(pre-)", "suffix(-suf)", "remove(e)", "repeat(3)", "format(%s)", "pad(12,.)", "contains(a)", "bogus(1)"});
    return k;
}
string gen_inline(u32 depth) {
    string s; u32 n = 1 + draw(W, 4);
    for (u32 i = 0; i < n; i++) {
        if (i) s += draw(W, 12) == 11 ? "\n" : " ";
        u32 k = draw(W, depth ? 50 : 10); string in = depth && k >= 10 ? (draw(W, 3) ? pick(W, WORDS) : gen_inline(depth - 1)) : "";
        switch (k) {
        default: s += words(1 + draw(W, 3)); break;
        case 10: s += "*" + in + "*"; break;
        case 11: s += "**" + in + "**"; break;
        case 12: s += "`" + in + "`"; break;
        case 13: s += "[" + in + "](http://x.y/z?a=1&b=2 \"" + pick(W, WORDS) + "\")"; break;
        case 14: s += "![" + in + "](img.png)"; break;
        case 15: s += "[^" + pick(W, NAMES) + "]"; break;
        case 16: s += "^[" + in + "]"; break;
        case 17: s += "$" + pick(W, vector<string>{"x^2", "a_b", "\\frac{1}{2}", "5"}) + "$"; break;
        case 18: s += "\\(" + pick(W, vector<string>{"x^2", "a_b"}) + "\\)"; break;
        case 19: s += "{++" + in + "++}"; break;
        case 20: s += "{--" + in + "--}"; break;
        case 21: s += "{~~" + pick(W, WORDS) + "~>" + in + "~~}"; break;
        case 22: s += "{==" + in + "==}{>>" + pick(W, WORDS) + "<<}"; break;
        case 23: s += "[[" + pick(W, vector<string>{"Page", "Some Page|shown", "Page#sec", "a/b c"}) + "]]"; break;
        case 24: s += "~~" + in + "~~"; break;
        case 25: s += "H~2~O x^2^ y^3 "; break;
        case 26: s += "==" + in + "=="; break;
        case 27: s += "++" + in + "++"; break;
        case 28: s += ":" + pick(W, vector<string>{"smile", "rocket", "heart", "notanemoji", "smlie", "+1"}) + ":"; break;
        case 29: s += "[" + in + "]" + ial(); break;
        case 30: s += "[@" + pick(W, vector<string>{"doe99", "smith, p. 3", "a; @b", "none"}) + "]"; break;
        case 31: s += pick(W, vector<string>{"[#doe99]", "[#doe99;]", "[p. 7][#doe99]", "[?term]", "@doe99"}); break;
        case 32: s += pick(W, vector<string>{"word{^}", "[a phrase]{^}", "(!item)", "(!item, sub)", "{i: \"term\"}", "x{^\"see\"}"}); break;
        case 33: s += "<span class=\"h\">" + in + "</span>"; break;
        case 34: s += "[%" + gen_transform() + "]"; break;
        case 48: s += "[^" + in + " note]"; break;
        case 49: s += "[%" + pick(W, vector<string>{"title", "author", "missing", "title:upper", "tags:split(,):first", "title:slug", "date:strftime(%Y)", "author:default(x)", "title:replace(a,b)", "tags:split(,):join(+)", "title:length", "author:title:truncate(4)", "tags:split(+):join(-)", "title:regex(T,x)"}) + "]"; break;
        case 35: s += "http://example.com/" + pick(W, NAMES) + " foo@example.com"; break;
        case 36: s += "<http://a.b/c> <me@x.org>"; break;
        case 37: s += "\\*esc\\* \\$ \\[x\\] \\<<"; break;
        case 38: s += "&copy; &#169; &amp; &notent;"; break;
        case 39: s += "[" + in + "][" + pick(W, NAMES) + "]"; break;
        case 40: s += "[" + pick(W, NAMES) + "]"; break;
        case 41: s += "#tag #" + pick(W, NAMES); break;
        case 42: s += "<<[code]<< [>abbr] [>(HT) HyperText]"; break;
        case 43: s += "line end  \nnext"; break;
        case 44: s += "*" + in + "*" + ial(); break;
        case 45: s += "![" + in + "](img.png \"title\" width=100 height=50px)"; break;
        case 46: s += "$$" + pick(W, vector<string>{"x+y", "\\sum_i i"}) + "$$"; break;
        case 47: s += "<!-- c " + in + " -->"; break;
        }
    }
    return s;
}
static string table(u32 rows) {
    u32 c = draw(W, 10) == 9 ? 1 : 2 + draw(W, 3); string t; bool relaxed = draw(W, 8) == 7;
    auto cell = [&]() { switch (draw(W, 14)) { default: return gen_inline(draw(W, 3) == 2); case 9: return string("^^"); case 10: return string(""); case 11: return string(": " + pick(W, WORDS) + " :"); case 12: return string("<<"); case 13: return string("a \\| b"); } };
    auto row = [&]() { string r = "|"; for (u32 i = 0; i < c; i++) { string x = cell(); for (char &ch : x) if (ch == '\n') ch = ' '; if (draw(W, 2)) { string y; for (char ch : x) if (ch != '|') y += ch; x = y; } r += " " + x + (draw(W, 20) == 19 ? " ||" : " |"); } return r + "\n"; };
    u32 capt = draw(W, 8); if (capt == 1) t += "[Caption " + pick(W, WORDS) + "]\n"; if (capt == 2) t += "Table: cap\n\n";
    t += row(); if (!relaxed) { t += "|"; for (u32 i = 0; i < c; i++) t += pick(W, vector<string>{"---|", ":--|", "--:|", ":-:|"}); t += "\n"; }
    for (u32 i = 0; i < rows; i++) { t += row(); if (draw(W, 24) == 23) t += "|" + string(c > 1 ? "===|===|" : "===|") + "\n"; if (draw(W, 30) == 29) t += "\n"; }
    if (capt == 3) t += "[After " + pick(W, WORDS) + "][cap]\n"; if (capt == 4) t += ial() + "\n"; if (capt == 5) t += "[Cap " + pick(W, WORDS) + "]\n"; if (capt == 6) t += "\n: Cap " + pick(W, WORDS) + " " + ial() + "\n"; if (capt == 7) t += "\nTable: late " + pick(W, WORDS) + "\n";
    return t + "\n";
}
static string indent(const string &s, const string &p) { string o; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); o += (j > i ? p : "") + s.substr(i, j - i) + "\n"; i = j + 1; } return o; }
string gen_block(u32 depth) {
    u32 k = draw(W, 41); auto sub = [&]() { return depth ? gen_block(depth - 1) : words(3) + "\n\n"; };
    switch (k) {
    default: return gen_inline(2) + "\n\n";
    case 4: case 5: return string(1 + draw(W, 6), '#') + " " + gen_inline(1).substr(0, 60) + pick(W, vector<string>{"", " #", " [manual]", " {#kid}", " {: .c}", " [second id]", " {#other .c}", " {: #third}"}) + "\n\n";
    case 6: return gen_inline(0) + "\n" + pick(W, vector<string>{"====", "----"}) + "\n\n";
    case 7: { string m = pick(W, vector<string>{"- ", "* ", "1. ", "a. ", "3) ", "- [ ] ", "- [x] ", "A. ", "iv. "}); string o; u32 n = 1 + draw(W, 5); for (u32 i = 0; i < n; i++) { o += (draw(W, 9) == 8 ? "+ " : m) + gen_inline(1) + "\n"; if (depth && draw(W, 5) == 4) o += "\n" + indent(sub(), "    "); } return o + "\n"; }
    case 8: return "> " + gen_inline(1) + "\n> \n" + indent(sub(), "> ") + "\n";
    case 9: return "> [!" + pick(W, vector<string>{"NOTE", "WARNING", "TIP", "custom"}) + "]" + pick(W, vector<string>{"", "+", "-", " Title"}) + "\n" + indent(sub(), "> ") + "\n";
    case 10: { string f = pick(W, vector<string>{"```", "~~~", "````"}); return f + pick(W, vector<string>{"", "c", "python", " {.ruby}", "{=html}"}) + "\nint *x = \"<a>\" & 1;\n\n[^one] *no* $x$ {++a++}\n" + f + "\n\n"; }
    case 11: return "    indented " + words(2) + "\n    more <x>\n\n";
    case 12: case 13: return table(1 + draw(W, 5));
    case 14: { string o; u32 n = 1 + draw(W, 3); for (u32 i = 0; i < n; i++) { o += "Term " + pick(W, WORDS) + "\n: " + gen_inline(1) + "\n"; if (draw(W, 3) == 2) o += ": second *def*\n"; if (draw(W, 4) == 3) o += "\n    para " + pick(W, WORDS) + "\n"; } return o + "\n"; }
    case 15: return "[^" + pick(W, NAMES) + "]: " + gen_inline(1) + "\n" + (draw(W, 3) == 2 ? "\n    " + words(2) + "\n\n    - li\n" : "") + "\n";
    case 16: return "[" + pick(W, NAMES) + "]: http://r.e/f \"T\"" + pick(W, vector<string>{"", " width=40", " class=q"}) + "\n\n";
    case 17: return "*[" + pick(W, vector<string>{"HTML", "CSS", "TOK"}) + "]: Long Form\n\n";
    case 18: return "[>HTML]: Hyper Text\n\n";
    case 19: return "$$\n\\sum_{i} x_i\n$$\n\n";
    case 20: return pick(W, vector<string>{"<!--TOC-->", "{{TOC}}", "{{TOC:2-3}}", "<!--TOC max2-->", "{:toc}"}) + "\n\n";
    case 21: return pick(W, vector<string>{"<!--BREAK-->", "{::pagebreak /}", "<!--PAUSE:3-->", "{{PAUSE:2}}", "^", "***", "---", "_ _ _"}) + "\n\n";
    case 22: return "<div markdown=\"1\" class=\"k\">\n" + sub() + "</div>\n\n";
    case 23: return "<div>\nraw *html*\n</div>\n\n";
    case 24: return "::: " + pick(W, vector<string>{"note", "{.warn #d1}", "aside", ">section", ">aside {.x #d2}", ">article note", ">span {.q}"}) + "\n" + sub() + ":::\n\n";
    case 25: return gen_inline(1) + "\n" + ial() + "\n\n";
    case 26: return "{:ref: .cls data-x=\"1\"}\n\n";
    case 27: { u32 c = 1 + draw(W, 3), r = 1 + draw(W, 3); u32 w = 12; string line = "+", o; for (u32 i = 0; i < c; i++) line += pick(W, vector<string>{string(w, '-'), string(w, '-'), ":" + string(w - 1, '-'), string(w - 1, '-') + ":"}) + "+"; o = line + "\n";
        for (u32 k = 0; k < r; k++) { u32 h = 1 + draw(W, 3); for (u32 l = 0; l < h; l++) { o += "|"; for (u32 i = 0; i < c; i++) { string x = pick(W, vector<string>{"", "- it", "1. n", "text", "more *x*", "```", "a", "B & c", "`k`"}); o += " " + x + string(w - 1 - x.size(), ' ') + (draw(W, 20) == 19 ? " " : "|"); } o += "\n"; } if (!k && draw(W, 2)) { string e = line; for (char &ch : e) if (ch == '-') ch = '='; o += e + "\n"; } else o += line + "\n"; } return o + pick(W, vector<string>{"", ": Cap\n", "[Cap]\n", "Table: c\n"}) + "\n"; }
    case 28: return "```table\na,b,c\n1,\"x, y\",3\n```\n\n";
    case 29: return pick(W, vector<string>{"a,b,c\n1,2,3\n<!--TABLE-->\n\n", "<!--INDEX-->\n\n", "{index}\n\n", "<!-- REFERENCES -->\n\n"});
    case 30: return "![" + words(2) + "](img.png \"cap\")\n\n";
    case 31: return "<details>\n<summary>s</summary>\n\n" + sub() + "</details>\n\n";
    case 32: return "+++ " + words(2) + " +++\n\n";
    case 33: { string f = pick(W, vector<string>{"inc.md", "inc.md", "code.py", "data.csv", "inc.*", "two.*", "two.md", "rows.csv"}), ad = pick(W, vector<string>{"", "", "[1,2]", "[2,4;prefix=\"> \"]", "[/one/,/four/]", "[/two/]", "[prefix=\"C: \"]", "[2,]", "[3,1]", "[/x"}); return pick(W, vector<string>{"{{" + f + "}}" + ad, "<<[" + f + "]" + ad, "<<(" + f + ")" + ad, "<<{" + f + "}" + ad, "/" + f + ad, "{{" + f + "}}\n\n<<[" + f + "]"}) + "\n\n"; }
    case 34: return "<span markdown=\"span\">*a*</span> text\n\n<p markdown='block'>\n- x\n</p>\n\n";
    case 35: return "Para one\nPara two  \nPara three\\\nend\n\n";
    case 36: return "[?gl]: glossary entry\n\n[#doe99]: Doe, *Book*, 1999.\n\n";
    case 37: return "<video src=\"a.mp4\"></video>\n\n![](v.mp4)\n\n<img src=\"img.png\" alt=\"\">\n\n";
    case 38: return "- a\n\n- b\n  continued\n    - deep\n        - deeper\n\n1. x\n1. y\n\n";
    case 40: { u32 n = draw(W, 4) == 3 ? 520 + draw(W, 80) : 90 + draw(W, 60); string h; for (u32 i = 0; h.size() < n; i++) h += "word" + std::to_string(draw(W, 900)) + " "; return "## " + h + "\n\n"; }
    case 39: return "| " + pick(W, WORDS) + " | b\n1 | 2\n3 | 4\n\n";
    }
}
string gen_doc() {
    string s; switch (draw(W, 8)) {
    default: break;
    case 4: s += "---\ntitle: The Title\nauthor: \"Ann O'Nym\"\ndate: 2024-03-05\ntags: a, b, c\n---\n\n"; break;
    case 5: s += "Title: My Doc\nAuthor: Me\nDate: 2024-03-05\ntags: x,y+z\n\n"; break;
    case 6: s += "% Title\n% Author\n% 2024-03-05\n\n"; break;
    case 7: s += "---\ntitle: T\n" + pick(W, vector<string>{"toc: true", "csl: x", "critic: accept", "hardbreaks: true", "wikilinks: true", "autolink: false", "relaxed-tables: true", "id-format: mmd", "css: style.css", "html header: <meta name=\"k\">", "bibliography: refs.bib", "bibliography: refs.yml", "bibliography: refs.json", "bibliography: more.yml", "quotes language: de", "base header level: 2", "script: mermaid", "list:\n  - a: 1\n    b: two\n  - c: 3\n  - plain", "authors:\n  - Ann\n  - Bob\nnested:\n  deep:\n    key: val", "tags: [x, y, z]", "text: >\n  folded\n  lines\nlit: |\n  a\n  b", "title: [%title]"}) + "\n---\n\n"; break;
    }
    u32 n = draw(W, 8) == 7 ? range(W, 10, 40) : range(W, 1, 7); u32 real = draw(W, 4); for (u32 i = 0; i < n; i++) s += real && draw(W, 4) < real ? gen_real() : gen_block(2);
    if (draw(W, 40) == 39) { string t = table(range(W, 40, 110)); s += t; }
    if (draw(W, 12) == 11 && !s.empty()) s.resize(draw(W, (u32)s.size() + 1)); /* cut anywhere */
    if (draw(W, 24) == 23) { string c; for (char ch : s) { if (ch == '\n') c += '\r'; c += ch; } s = c; }
    return s;
}
static bool apex_options::*const FLAGS[] = {&apex_options::enable_tables, &apex_options::enable_footnotes, &apex_options::enable_definition_lists, &apex_options::enable_smart_typography, &apex_options::enable_math, &apex_options::enable_critic_markup, &apex_options::enable_wiki_links, &apex_options::enable_task_lists, &apex_options::enable_attributes, &apex_options::enable_callouts, &apex_options::enable_marked_extensions, &apex_options::enable_divs, &apex_options::enable_spans, &apex_options::strip_metadata, &apex_options::enable_metadata_variables, &apex_options::enable_metadata_transforms, &apex_options::unsafe, &apex_options::validate_utf8, &apex_options::github_pre_lang, &apex_options::standalone, &apex_options::pretty, &apex_options::hardbreaks, &apex_options::nobreaks, &apex_options::generate_header_ids, &apex_options::header_anchors, &apex_options::relaxed_tables, &apex_options::per_cell_alignment, &apex_options::allow_mixed_list_markers, &apex_options::allow_alpha_lists, &apex_options::enable_sup_sub, &apex_options::enable_strikethrough, &apex_options::enable_autolink, &apex_options::obfuscate_emails, &apex_options::enable_image_captions, &apex_options::title_captions_only, &apex_options::enable_citations, &apex_options::suppress_bibliography, &apex_options::link_citations, &apex_options::show_tooltips, &apex_options::enable_indices, &apex_options::enable_mmark_index_syntax, &apex_options::enable_textindex_syntax, &apex_options::enable_leanpub_index_syntax, &apex_options::suppress_index, &apex_options::group_index_by_letter, &apex_options::wikilink_sanitize, &apex_options::enable_aria, &apex_options::enable_emoji_autocorrect, &apex_options::enable_widont, &apex_options::code_is_poetry, &apex_options::enable_markdown_in_html, &apex_options::random_footnote_ids, &apex_options::enable_hashtags, &apex_options::style_hashtags, &apex_options::proofreader_mode, &apex_options::hr_page_break, &apex_options::title_from_h1, &apex_options::page_break_before_footnotes};
apex_options gen_options(string *text) {
    u32 mode = draw(W, 5) == 0 ? draw(W, 4) : 4; apex_options o = apex_options_for_mode((apex_mode_t)mode); u32 fmt = draw(W, 2) ? draw(W, 12) : 0; o.output_format = (apex_output_format_t)fmt;
    *text = "mode " + std::to_string(mode) + " format " + std::to_string(fmt); u32 nf = sizeof FLAGS / sizeof *FLAGS;
    u32 n = draw(W, 6); for (u32 i = 0; i < n; i++) { u32 k = draw(W, nf); o.*FLAGS[k] = !(o.*FLAGS[k]); *text += " ^" + std::to_string(k); }
    if (draw(W, 8) == 7) { *text += " half:"; for (u32 k = 0; k < nf; k++) if (draw(W, 4) == 3) { o.*FLAGS[k] = !(o.*FLAGS[k]); *text += " " + std::to_string(k); } }
    if (draw(W, 6) == 5) { o.critic_mode = (int)draw(W, 3); o.id_format = (int)draw(W, 3); o.caption_position = (int)draw(W, 2); o.wikilink_space = (int)draw(W, 4); o.terminal_width = pick(W, vector<int>{0, 20, 40, 80}); *text += " knobs " + std::to_string(o.critic_mode) + std::to_string(o.id_format) + std::to_string(o.caption_position) + std::to_string(o.wikilink_space) + "/" + std::to_string(o.terminal_width); }
    if (draw(W, 5) == 4) { o.standalone = true; o.embed_stylesheet = draw(W, 2); *text += o.embed_stylesheet ? " standalone+embed" : " standalone"; }
    o.base_directory = "/work"; o.enable_plugins = false; return o;
}
void gen_world() {
    g->fs.mkdirs("/work"); g->fs.put("/work/inc.md", "included *text* TOK\nline one\nline two\nline three\nline four\n"); g->fs.put("/work/code.py", "def one():\n    return 2\n\n# four\n"); g->fs.put("/work/data.csv", "h1,h2\n1,\"two, 2\"\nthree,four\n");
    g->fs.put("/work/two.md", "second *file*\nwith two\nlines\n"); g->fs.put("/work/two.html", "<b>two</b>\n"); g->fs.put("/work/inc.html", "<i>inc</i>\n"); g->fs.put("/work/rows.csv", "k;v\na;1\nb;2\n"); g->fs.put("/work/more.py", "x = 5\ny = 6\nz = 7\n"); g->fs.put("/work/refs.yml", "references:\n- id: doe99\n  type: book\n  title: Book\n  author:\n  - family: Doe\n    given: J\n  issued:\n    date-parts:\n    - - 1999\n- id: smith\n  title: Other\n"); g->fs.put("/work/more.yml", "references:\n- id: doe99\n  type: book\n  title: Tome\n  author:\n  - family: Roe\n    given: K\n  issued:\n    date-parts:\n    - - 1998\n- id: a\n  title: Alpha\n"); g->fs.put("/work/refs.json", "[{\"id\":\"doe99\",\"type\":\"book\",\"title\":\"Json\",\"author\":[{\"family\":\"Jay\",\"given\":\"S\"}],\"issued\":{\"date-parts\":[[1997]]}}]"); g->fs.put("/work/style.css", "body { color: red; }\n"); g->fs.put("/work/two.css", "p { color: blue; }\n"); g->fs.put("/work/refs.bib", "@book{doe99, author={Doe, J}, title={Book}, year={1999}}\n"); g->fs.put("/work/more.bib", "@book{roe98, author={Roe, K}, title={Tome}, year={1998}}\n"); if (draw(W, 3) == 2) g->fs.put("/home/u/.config/apex/terminal/themes/default.theme", "h1:\n  color: \"red bold\"\nlink:\n  text: \"b_cyan\"\nblockquote:\n  marker:\n    character: \"|\"\nspan_classes:\n  c: \"green\"\n  cls: \"bold\"\n  a: \"b_yellow\"\n  x: \"red\"\n  note: \"cyan\"\n  hl: \"intense_black\"\n  kid: \"blue\"\nlist_marker: \"magenta\"\n"); g->fs.put("/work/img.png", "\x89PNG\r\n\x1a\n0000");
}
