prop("P09", "Included files appear in full, in place, and recursion ends",
 "Every include that can be resolved is replaced by exactly the content it names (the whole file or the requested lines, with nested includes expanded relative to the file that contains them) and all text around it stays unchanged and in order (the length of code fences aside). Includes of missing or unreadable files leave the rest of the document intact. Expansion always ends, also for files that include themselves or each other.",
 ["inputs", "fault_sequences", "configurations"], "all include graphs over all file sizes and syntaxes, with unreadable or vanishing files at any place",
 "The tests include a few small files; growth of buffers, nesting, cycles and files failing half-way need generated trees and injected errors.",
 ["src/extensions/includes.c"], [("include expansion", "src/extensions/includes.c: apex_process_includes")],
 "Oracle: an independent reference model of include expansion over the simulated files. Includes whose text is transformed rather than copied (CSV tables, images) are compared only where stated in DESIGN.md.")
prop("P10", "Success means the whole output was delivered",
 "Apex exits with status 0 only if every byte of its output reached standard output or the output file, however the writes are split or interrupted. If writing, flushing or closing fails (full disk, I/O error, reader gone), Apex reports failure. When a conversion fails before it has a result, an existing output file keeps its content.",
 ["fault_sequences", "inputs", "configurations"], "all commands that produce output, output sizes and failure points",
 "No test writes to a full or failing device.",
 ["cli/main.c"], [("writing the result", "cli/main.c"), ("combine and merge output", "cli/main.c")],
 "Oracle: bytes on the simulated device after exit against the fault-free run.")
prop("P11", "Combining and merging keep every readable file, in order",
 "--combine and --mmd-merge write the content of every listed file, in the listed order (index and SUMMARY files expanded in their own order, headings shifted by indentation), with nothing of a readable file lost, repeated or altered otherwise (the length of code fences aside). A file that cannot be read is reported and does not disturb the others; an index or SUMMARY file that cannot be read is an error.",
 ["inputs", "fault_sequences", "configurations"], "all sets and orders of files, index files and unreadable files among them",
 "Tests combine two or three small healthy files.",
 ["cli/main.c"], [("combine", "cli/main.c: --combine"), ("MultiMarkdown merge", "cli/main.c: --mmd-merge")],
 "Oracle: an independent reference model of combining and merging.")
prop("P06", "Which plugins and filters run does not depend on directory order",
 "For each plugin id the first directory of the search path that has a usable plugin of that id provides it (project, base directory, repository root, then user configuration) and it runs exactly once. Plugins of a phase run by ascending priority, ties by id. --filters runs exactly the executable files of the filters directory in sorted order, before the filters named with --filter, which run in the order named, each from its own file; a named filter that does not exist is an error and gives no output. Broken, hidden or unreadable entries change nothing for the others, and neither does the order in which the file system lists entries.",
 ["configurations", "inputs", "fault_sequences"], "all installations, working directories, enumeration orders and unusable entries",
 "Tests use at most one plugin directory and the enumeration order of one file system; order dependence only shows on another.",
 ["src/plugins.c", "src/filters_ast.c", "cli/main.c", "man/apex-plugins.7.md"],
 [("discovery and sorting", "src/plugins.c: apex_plugins_load"), ("--filters", "cli/main.c")],
 "Oracle: an independent model of search path, precedence and order; each installation is discovered twice under different enumeration orders.")
prop("P12", "Installing is all or nothing",
 "Installing a plugin or filter, by id, URL or shorthand, either makes the complete entry available under its name and reports success, or reports failure and leaves no entry. This holds wherever a step fails or the process is killed; a later attempt then succeeds. An entry that already exists, and every other file, is never changed or removed. An install from a URL that the user did not confirm with yes, or from a repository whose manifest id is not a plain name, is refused.",
 ["crash_points", "fault_sequences", "histories"], "all install commands, kill points and failing steps, and sequences of attempts",
 "Tests cannot clone anything, and never interrupt an installation.",
 ["cli/main.c"], [("plugin install", "cli/main.c: --install-plugin"), ("filter install", "cli/main.c: --install-filter")],
 "Git, curl and the shell are simulated; 'killed' means Apex and its children stop at a seeded operation and only the simulated disk survives. Post-install hooks are checked for running once on success.")
prop("P13", "Uninstalling removes exactly the confirmed entry",
 "Uninstalling removes only the named installed plugin or filter, and only after the user answered yes; a link is removed, not what it points to. Ids that are empty, contain path components or shell syntax, or name nothing installed remove nothing. Success is reported exactly when the entry is gone; after a failed or killed attempt another one completes.",
 ["inputs", "fault_sequences", "crash_points"], "all ids, answers, installations, remove failures and kill points",
 "Nothing in the tests uninstalls; the dangerous cases are unusual ids, an unreadable answer and failures half-way.",
 ["cli/main.c"], [("plugin uninstall", "cli/main.c: --uninstall-plugin"), ("filter uninstall", "cli/main.c: --uninstall-filter")],
 "Oracle: the whole simulated disk before and after.")
prop("P14", "A remote directory is used completely or not at all",
 "Listing shows each installed plugin once, as described by the first directory of the search path that has it. Listing available plugins or filters shows every entry of the remote directory that has a repository and is not installed, each with its own title, author, description and link. If the directory cannot be fetched, the transfer aborts or the list arrives incomplete, no remote entry is shown or installed from it, and the failure is reported. Installing by id clones exactly the repository of that entry and, for filters, takes exactly its file.",
 ["inputs", "fault_sequences"], "all directory contents and layouts, connection failures and truncation points",
 "Tests have no network, so no test parses a fetched directory.",
 ["src/plugins_remote.c", "cli/main.c"], [("fetching and parsing", "src/plugins_remote.c"), ("listing and install by id", "cli/main.c")],
 "Escape sequences in shown texts are compared with backslashes ignored, because Apex shows them undecoded.")
prop("P19", "A plugin's time limit bounds its run",
 "A plugin with timeout_ms that has not finished within that time is stopped together with the processes it started, and is treated as failed: the document stays as it was before it and the following plugins run. A plugin that finishes in time is not disturbed, one without a limit is never stopped. Interrupted calls and changes of the wall clock make no difference.",
 ["schedules", "fault_sequences", "inputs"], "all ways a plugin can stall, limits, interruptions and clock changes",
 "Tests would have to wait in real time and cannot set the clock; no test has a stalling plugin.",
 ["src/plugins.c", "src/plugins_env.c", "man/apex-plugins.7.md"],
 [("time limit", "src/plugins_env.c")],
 "Simulated time; 60 ms of slack per plugin for scheduling. A plugin that ended but whose helper holds its output counts as unfinished.")
prop("P15", "The nearest setting wins, and a broken layer leaves the others in force",
 "A setting present in several layers takes its value from the nearest one: command-line flags over --meta over document metadata over --meta-file over project configuration over user configuration, for metadata keys and for conversion options alike, where the project configuration is the first usable one of working directory, base directory and repository root. Each value comes whole from one layer. A layer that is missing, unreadable or not a file contributes nothing, and never hides or alters what the other layers define or the document itself.",
 ["configurations", "fault_sequences", "inputs"], "all combinations of layers, overlapping keys and failures of each layer, of git and of the working directory",
 "Tests check single layers that can be read; that a failing or absent layer disturbs no other needs every combination with injected failures.",
 ["cli/main.c", "src/extensions/metadata.c", "man/apex-config.5.md"],
 [("loading and merging of layers", "cli/main.c"), ("merging", "src/extensions/metadata.c: apex_merge_metadata")],
 "Oracle: a reference model of the precedence over every value that reaches the output. With --meta-file, both using and skipping the user configuration are accepted (manual and code differ); a project file that opens but cannot be read may count as empty or be passed over.")
prop("P20", "Text from documents, directories and repositories is never run as a command",
 "No text of a document, its metadata, a remote directory entry, a cloned repository or a file name is ever interpreted as shell syntax or as an option of a tool: converting, highlighting, listing and installing run only the tools Apex names itself, with such text as single arguments, and installed filters are run by exactly their file name. Converting and listing change no file.",
 ["inputs", "fault_sequences"], "all texts in all places that reach a command line, with tools missing or failing",
 "Tests contain no hostile names and have no highlighter, git remote or network, so no command line with foreign text is ever built in them.",
 ["cli/main.c", "src/extensions/syntax_highlight.c", "src/plugins_env.c", "src/filters_ast.c"],
 [("highlighter command", "src/extensions/syntax_highlight.c"), ("install and uninstall commands", "cli/main.c"), ("filter command", "cli/main.c")],
 "The simulated shell parses each command line as sh does and records each program it would run; nothing is run for real. Handler commands of manifests the user installed are commands by design and exempt.")
prop("P16", "A conversion depends on its document and options alone",
 "Converting the same document with the same options gives the same bytes every time: in a new process or after any number and kind of other conversions in this one, whatever the memory it is given contained before, and however the clock moves meanwhile. On the command line that also holds from a file or stdin, to a file or stdout, with progress or diagnostics shown on stderr or not. The conversion ends, leaves the caller's text and options as they were, and leaves no descriptor, child or changed environment variable behind.",
 ["histories", "inputs", "fault_sequences"], "all documents, options, output formats, sequences of earlier conversions, contents of recycled memory and clock changes",
 "Tests convert each document once in one process and compare fragments; state that leaks into a later conversion, or bytes read from recycled memory, shows only in other histories.",
 ["src/apex.c", "src/extensions", "src/ast_man.c", "src/ast_terminal.c", "src/ast_json.c", "include/apex/apex.h"],
 [("whole pipeline", "src/apex.c: apex_markdown_to_html"), ("definition list node types", "src/extensions/definition_list.c"), ("table post-processing", "src/extensions/table_html_postprocess.c"), ("man page output", "src/ast_man.c")],
 "Differential oracle: first conversion in a fresh simulated process against a later one. Plugins and filters are off here (P01-P06 cover them). Heap-bound errors that do not change a result are not judged.")
prop("P17", "Conversions in several threads do not disturb each other",
 "Any number of threads may convert documents at the same time, each with its own options, from the first conversion of the process on. Every conversion gives exactly the bytes it gives alone, whatever the others convert and however they are interleaved; none crashes or waits forever, no lock stays held, and the callers' texts are unchanged.",
 ["schedules", "inputs", "configurations"], "all numbers of threads, documents, options and interleavings",
 "No test starts a thread; a race needs two conversions at the same place at the same time.",
 ["src/apex.c", "src/extensions", "src/ast_terminal.c", "src/ast_man.c", "docs/API_REFERENCE.md"],
 [("whole pipeline", "src/apex.c: apex_markdown_to_html"), ("cmark-gfm's global registry and special characters", "src/cmark_lock.h"), ("table extension", "src/extensions/advanced_tables.c")],
 "Differential oracle: each conversion alone in a fresh process. Sequentially consistent interleavings at memory accesses of Apex, allocations (in the libraries as well) and locks; effects of weaker memory order are not modelled. Plugins, filters and highlighters are off here.")
prop("P18", "Running out of memory in an exchange loses no text",
 "If an allocation fails while Apex exchanges text with plugins or a highlighter, that program's result is either used completely or not at all: the document is otherwise as the remaining programs leave it, never cut or mixed. Apex does not crash, leaves no descriptor, child or memory behind and restores its environment.",
 ["fault_sequences", "schedules", "inputs"], "every allocation of every exchange",
 "Allocations never fail in tests.",
 ["src/plugins.c", "src/plugins_env.c", "src/extensions/syntax_highlight.c"],
 [("request building and reply collection", "src/plugins_env.c"), ("plugin phase loop", "src/plugins.c: apex_plugins_run_text_phase"), ("highlighting pass", "src/extensions/syntax_highlight.c")],
 "One failing allocation per run. The parser (cmark-gfm aborts without memory), AST filters, which need it, plugin discovery and file handling are outside: they do not survive failing allocations on this tree.")

prop("P21", "Filters see the whole document and give it back whole",
 "Whatever the document, what a filter is given is one well-formed JSON document in Pandoc's shape that contains all of the document's text, and what a filter returns is used as a whole: filters that change nothing - whether they return the same bytes or the same document spelt by another JSON writer (key order, white space, \\u escapes, Str and Space instead of one Str, omitted empty contents) - leave the resulting HTML byte for byte as it is without filters, however many are chained and however the data is cut on its way.",
 ["inputs", "schedules", "histories"], "all documents of CommonMark and GFM constructs (headings, emphasis, links, images, code, raw HTML, quotes, lists, task lists, tables, strikethrough, footnotes), all JSON spellings, all schedules of the exchange, chains of filters",
 "The tests parse three short JSON texts and run one filter on one paragraph; text lost between the tree, the JSON and the tree again shows only for other constructs, nestings and spellings.",
 ["src/ast_json.c", "src/filters_ast.c", "src/apex.c"],
 [("tree to JSON", "src/ast_json.c: apex_cmark_to_pandoc_json"), ("JSON to tree", "src/ast_json.c: apex_pandoc_json_to_cmark"), ("filter chain", "src/filters_ast.c: apex_run_ast_filters")],
 "Attributes (attribute lists, manual heading IDs) have no place in the JSON Apex writes and are outside this property, as is safe mode, where the HTML of tables counts as raw HTML.")
