#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, note=None, na=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a}, note, na))

SIMNOTE = "Seeded sampling of schedules and faults over the real code; a clean batch is evidence, not proof. Trusts the simulated kernel/shell in /verif/sim and gcc -O1; no hooks in /repo. "

prop("P01", "External programs get and return the document byte for byte",
 "For every document, a plugin, AST filter or code highlighter that reads its input receives exactly the complete request Apex made for it, whatever the size of the document, the capacity of the pipes and the pace at which both sides transfer. When the program succeeds, Apex goes on with exactly what it printed: nothing lost, added, reordered or cut.",
 ["schedules", "inputs", "fault_sequences"], "all documents, pipe capacities, interleavings of program and Apex, short and interrupted transfers",
 "The tests run no external program with more than a few bytes, at one schedule; short reads, interrupted calls and requests larger than a pipe never happen in them.",
 ["src/plugins.c", "src/plugins_env.c", "src/filters_ast.c", "src/extensions/syntax_highlight.c"],
 [("plugin exchange", "src/plugins_env.c"), ("filter exchange", "src/filters_ast.c"), ("highlighter exchange", "src/extensions/syntax_highlight.c")],
 "Oracle: request and output recorded by each scripted program, compared with the reference pipeline.")
prop("P02", "Exchanges with external programs always end and never kill Apex",
 "Whatever a plugin, filter or highlighter does with its standard streams (reads late, in part or never, closes them, writes before reading, exits or is killed at any point), Apex completes the exchange once that program has ended. It neither deadlocks with the program nor is itself ended by a signal.",
 ["schedules", "fault_sequences", "inputs"], "all behaviours of the external program, document sizes and interleavings",
 "A deadlock needs both pipes full at once and a broken pipe needs a program that stops reading; no test does either.",
 ["src/plugins_env.c", "src/filters_ast.c", "src/extensions/syntax_highlight.c"],
 [("feeding and draining a child", "src/plugins_env.c"), ("filter exchange", "src/filters_ast.c"), ("highlighter exchange", "src/extensions/syntax_highlight.c")],
 "A run in which no simulated process can move while Apex waits is a deadlock; SIGPIPE is modelled.")
prop("P03", "A failing plugin is a no-op",
 "A plugin that cannot be started, exits with an error, is killed, or prints nothing leaves the document as it was before that plugin. All other plugins of the phase still run, in priority order, on the unharmed text.",
 ["fault_sequences", "schedules", "inputs"], "all sets of plugins, ways and moments of failure",
 "The tests have no failing plugin; failures after partial output or half-way through the request need a fault at that instant.",
 ["src/plugins.c", "src/plugins_env.c", "man/apex-plugins.7.md"],
 [("plugin phase loop", "src/plugins.c: apex_plugins_run_text_phase"), ("plugin process", "src/plugins_env.c")],
 "Oracle: a reference pipeline over the programs' recorded endings.")
prop("P04", "Filter failures abort in strict mode and are skipped otherwise",
 "In strict mode a filter that cannot be started, fails, or returns something that is not a document makes the conversion fail; it never continues with the unfiltered or a partly filtered document. In non-strict mode such a filter is skipped and the remaining filters are applied, in the given order, to the document as it was before it.",
 ["fault_sequences", "schedules", "configurations"], "all filter chains, strictness settings, ways and moments of failure",
 "The tests check one failing and one identity filter; failure at other chain positions, after partial output or by signal is not reached.",
 ["src/filters_ast.c"], [("filter chain", "src/filters_ast.c: apex_run_ast_filters")],
 "Oracle: JSON documents recorded at each filter and a reference chain.")
prop("P05", "Running external programs leaves nothing behind",
 "After a plugin phase, filter chain or highlighting pass, successful or not, Apex has no open descriptor, unreaped or running child, or allocated memory besides its result more than before, and its environment, signal handling and pending signals are as before; children of the calling process that Apex did not start are not waited for. While it runs, each plugin sees its own directory, support directory and the input file in its environment.",
 ["fault_sequences", "schedules", "histories"], "all ways an exchange can end, including pipe and process creation failing",
 "Descriptor, process and environment leaks are not observed by any test and most occur only on error paths.",
 ["src/plugins.c", "src/plugins_env.c", "src/filters_ast.c", "src/extensions/syntax_highlight.c"],
 [("plugin environment", "src/plugins.c"), ("child handling", "src/plugins_env.c"), ("filter child", "src/filters_ast.c"), ("highlighter child", "src/extensions/syntax_highlight.c")],
 "Simulated descriptor table, process table and environment compared before and after.")
prop("P07", "Highlighting replaces code blocks only by complete highlighter output",
 "After code highlighting, everything outside highlighted code blocks is unchanged and in place, and each code block is either exactly as before or replaced by the complete output of one successful highlighter run on exactly that block's code. A highlighter that is missing, fails, is killed or prints nothing leaves its block as it was.",
 ["fault_sequences", "schedules", "inputs"], "all HTML documents, numbers and sizes of code blocks, highlighter behaviours",
 "No highlighter is installed where the tests run, so they reach only the missing-tool path.",
 ["src/extensions/syntax_highlight.c"], [("highlighting pass", "src/extensions/syntax_highlight.c: apex_apply_syntax_highlighting")],
 "Oracle: output split into verbatim pieces and recorded program outputs.")
prop("P08", "An input is used completely or treated as unreadable",
 "If reading the document itself fails at any point, Apex fails without printing a conversion of its beginning. Any other input whose reading fails (metadata file, configuration, included file, bibliography, stylesheet, image, terminal theme, plugin manifest) has the same effect as if it were missing, never as if it ended where the reading failed; interrupted reads lose nothing. An input that can be read is used to its end, up to the built-in limits (1 MB for metadata files, 10 MB for included files and bibliographies).",
 ["fault_sequences", "inputs", "configurations"], "all inputs, and read or open failures at every offset of every input",
 "Tests only read healthy local files; an error after part of a file was read needs injection.",
 ["cli/main.c", "src/extensions/metadata.c", "src/extensions/includes.c", "src/extensions/citations.c", "src/plugins.c"],
 [("document reading", "cli/main.c"), ("metadata files", "src/extensions/metadata.c"), ("include reading", "src/extensions/includes.c"), ("bibliography reading", "src/extensions/citations.c")],
 "Differential oracle: fault-free run and missing-file run of the same command.")
#MORE
NA = []

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None
exec(open(os.path.join(HERE, "tools", "props_na.py")).read())

P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 sim/build.py build/setup && rm -r build/setup",
 "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: the system calls, libc I/O, clock, heap and thread functions that Apex uses are renamed to the simulator's in the object files (objcopy), so the shipped sources are compiled unchanged."}
for p, note, na in P:
    i = p["id"]
    if na: m["not_applicable"].append({"property": i, "reason": na})
    else: m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
      "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": SIMNOTE + (note or "")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
