PURE = "A pure function of the text and options: no schedule, clock, I/O, fault or second party takes part in it, so deterministic simulation has nothing to decide (generating inputs alone would be another technique). "
prop("N01", "Standard Markdown renders as CommonMark and GFM prescribe",
 "In commonmark and gfm mode every document is rendered to the HTML the respective specification prescribes; in the other modes each documented extension renders as documented.",
 ["inputs"], "all documents and modes", "Tests sample documents.", ["src/apex.c", "src/extensions"], [("rendering", "src/apex.c: apex_markdown_to_html")],
 na=PURE + "That the result does not depend on history, memory, clock or threads is decided by P16 and P17.")
prop("N02", "Text of a document is escaped in HTML and raw HTML is removed in safe mode",
 "Characters with a meaning in HTML that come from text, code or attributes are escaped wherever they are put into the result; with --no-unsafe no raw HTML and no script URL of the document reaches it.",
 ["inputs"], "all documents, modes and output options", "Tests sample documents.", ["src/apex.c", "src/html_renderer.c", "src/extensions"], [("HTML output", "src/html_renderer.c")],
 na=PURE)
prop("N03", "Headings get unique IDs of the chosen format, and the contents link to them",
 "IDs follow the chosen header ID format, are unique in the document, and each entry of the table of contents within the level bounds points to an existing heading.",
 ["inputs", "configurations"], "all documents and ID formats", "Tests sample headings.", ["src/html_renderer.c", "src/extensions/header_ids.c", "src/extensions/toc.c"], [("header IDs", "src/extensions/header_ids.c"), ("TOC", "src/extensions/toc.c")],
 na=PURE)
prop("N04", "Metadata parses as written, and variables and transforms yield their values",
 "YAML, MultiMarkdown and Pandoc metadata blocks of a document are recognised exactly when they are blocks, all keys and values are kept, and [%key:transform] is replaced by the transformed value.",
 ["inputs"], "all metadata blocks and transforms", "Tests sample keys.", ["src/extensions/metadata.c"], [("parsing and transforms", "src/extensions/metadata.c")],
 na=PURE + "Which layer a value comes from under failing files is P15.")
prop("N05", "Declarative plugins replace exactly what their pattern matches",
 "A regex plugin replaces each match of its pattern in its phase by its replacement with groups substituted, and changes nothing else; invalid patterns change nothing.",
 ["inputs"], "all patterns, replacements and texts", "Tests use two patterns.", ["src/plugins.c"], [("regex plugins", "src/plugins.c")],
 na=PURE + "Their place among the plugins that run programs (order, priority, failures of neighbours) is part of P03 and P06.")
prop("N06", "Tables keep every cell",
 "Each cell of a pipe table, with row and column spans, captions, alignment and advanced syntax, appears exactly once in the rendered table at its place.",
 ["inputs"], "all tables", "Tests sample tables.", ["src/extensions/advanced_tables.c", "src/extensions/table_html_postprocess.c"], [("tables", "src/extensions/advanced_tables.c")],
 na=PURE)
prop("N07", "Citations are replaced and listed once, in order",
 "Every citation whose key is in a bibliography is replaced in the chosen style, unknown keys are kept visible, and the bibliography lists each cited entry once.",
 ["inputs"], "all citations and bibliographies", "Tests sample a few citations.", ["src/extensions/citations.c"], [("citations", "src/extensions/citations.c")],
 na=PURE + "Bibliography files that cannot be read are P08.")
prop("N08", "Critic Markup is accepted, rejected or shown consistently",
 "Accepting and rejecting all changes give the texts with all additions and without any, and the marked-up form contains both.",
 ["inputs"], "all documents with Critic Markup", "Tests sample marks.", ["src/extensions/critic.c"], [("critic markup", "src/extensions/critic.c")],
 na=PURE)
prop("N09", "Converting arbitrary bytes is memory safe and takes time linear in them",
 "No input makes a conversion read or write outside its memory, overflow the stack, or take more than near-linear time.",
 ["inputs"], "all byte strings and options", "Tests contain well-formed documents.", ["src/apex.c", "src/extensions"], [("whole pipeline", "src/apex.c")],
 na=PURE + "Out-of-bounds accesses and endless loops that change a result or stop a simulated run are seen by P16 as a by-product, but this is not claimed.")
prop("N10", "Terminal output never exceeds the width and keeps the text",
 "Terminal output wraps at the given width, closes every style it opens, and contains all words of the document in order.",
 ["inputs", "configurations"], "all documents, widths and themes", "Tests sample documents.", ["src/ast_terminal.c"], [("terminal output", "src/ast_terminal.c")],
 na=PURE)
