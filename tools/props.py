#!/usr/bin/env python3
"""Writes properties.jsonl (the list is easier to edit here than there)."""
import json, os
D = "ginko/src/dts/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state], "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": hook}})


prop("C01", "Analysing any text ends without a panic",
     "For every text given as the contents of a file (any valid UTF-8, well-formed or not, cut off anywhere), adding it to a project ends: no panic, no overflow, no endless loop, no exhausted stack. The same holds for everything that can be asked about the file afterwards: its diagnostics and their rendering, the item under any cursor, where references lead and how they are described.",
     ["inputs"], "every text of the lengths and shapes in bounds, every cursor",
     "The unit tests feed a few dozen hand-written snippets; a slip of one index needs one unusual byte at one unusual place.",
     [D + "tokens/lexer.rs", D + "parser.rs", D + "analysis.rs", D + "project.rs", D + "diagnostics.rs", D + "data.rs"],
     [("byte reader and lexer", D + "tokens/lexer.rs"), ("recursive descent parser", D + "parser.rs"), ("analysis of the tree", D + "analysis.rs"), ("rendering", D + "diagnostics.rs")],
     ["Project::add_file_with_text", "Project::get_diagnostics", "Project::find_at_pos", "DiagnosticPrinter"], hook="dts::verif_hooks (cfg ginko_verif) for the crate-private lexer and parser types")
prop("C02", "Text is split into tokens faithfully",
     "Every text is split from its first to its last byte into white space, comments and the longest tokens of the language (names, labels, numbers, strings, references, directives, punctuation), each with exactly the contents and the place it has in the text. A string, comment, path reference or directive that the end of the file cuts off, and any character that begins no token, is never taken for a valid token, and nothing behind it is lost.",
     ["inputs"], "every UTF-8 text of the bounded lengths; every concatenation of token fragments",
     "Tests cover one sample per kind of token; what follows what (a quote at the end, '/' before '*', '#' in a name, a multi-byte character) is not sampled.",
     [D + "tokens/lexer.rs", D + "reader.rs", D + "tokens/mod.rs"],
     [("state machine for names vs. values", D + "tokens/lexer.rs"), ("byte reader that counts lines and columns", D + "reader.rs")], ["tokens as seen by the parser", "tree and diagnostics"],
     state=[("state", "whether a node or property name may come next", D + "tokens/lexer.rs")], hook="dts::verif_hooks (cfg ginko_verif)")
prop("C03", "Positions lie in the text and count characters",
     "Every diagnostic and every element of the syntax tree carries a span that lies in the text of the file it belongs to: the start is not behind the end, lines and columns count from zero, columns count characters rather than bytes, and a span ends at most one column behind the end of its line. An element's span covers exactly its own text, what a node contains lies within the node, and siblings come in order without overlapping.",
     ["inputs"], "every text made of the bounded tokens, bytes (any UTF-8) and contexts",
     "Tests compare positions of ASCII one-liners; multi-line tokens, non-ASCII text and errors at line and file ends are not reached.",
     [D + "reader.rs", D + "data.rs", D + "tokens/lexer.rs", D + "parser.rs", D + "ast.rs"],
     [("position arithmetic", D + "data.rs"), ("counting in the reader", D + "reader.rs"), ("spans of tree elements (HasSpan)", D + "ast.rs"), ("position of the previous token", D + "parser.rs")], ["Diagnostic::span", "Project::get_root"])
prop("C04", "Integer literals have exactly their value",
     "A decimal, hexadecimal (0x...) or octal (leading 0) literal in a cell list or after /memreserve/ has exactly its mathematical value in the syntax tree, up to 2^32-1 in cells and 2^64-1 after /memreserve/. A literal with digits outside its base, or one that does not fit, is reported at its place and never silently read as another number.",
     ["inputs"], "every literal of the bounded numbers of digits in each base, in particular around the limits",
     "Values are a range of 2^64; tests take a handful, none at a limit.",
     [D + "parser.rs", D + "tokens/lexer.rs"], [("u32 and u64 literal parsing", D + "parser.rs"), ("number tokens", D + "tokens/lexer.rs")], ["cells and memreserve entries of the tree", "diagnostics of kind int_error"])
prop("C05", "Byte strings have exactly their bytes",
     "Between [ and ], every group of hexadecimal digits (upper or lower case, white space between groups) stands for its bytes, two digits each, in order, and nothing else adds or removes bytes. A group with an odd number of digits or with a character that is no hexadecimal digit is reported at its place.",
     ["inputs"], "every sequence of the bounded number of bytes between the brackets",
     "Tests try two or three byte strings; signs, letters beyond f and odd groups in later positions are not sampled.",
     [D + "parser.rs"], [("byte string parsing", D + "parser.rs")], ["byte strings of the tree", "diagnostics"])
prop("C06", "Strings keep their exact contents",
     "A string literal ends at its first unescaped quote, also several lines later, and its contents are exactly the characters between the quotes, in any script, where \\\" stands for a quote and \\\\ for a backslash. That holds wherever strings occur: property values, lists of values, names of included files.",
     ["inputs"], "every sequence of the bounded number of bytes (any UTF-8) between the quotes",
     "Tests use short ASCII strings; sequences of backslashes and quotes, line breaks and other scripts are not sampled.",
     [D + "tokens/lexer.rs", D + "parser.rs"], [("string tokens", D + "tokens/lexer.rs")], ["string values of the tree", "include file names"])
prop("C07", "Names are checked character by character",
     "In names of nodes, properties and labels, unit addresses, references and every part of a path, the first character that is not allowed there is reported exactly at its place (for any script), and otherwise a name of more than 31 characters, an empty one, or one whose first character cannot start it is reported at the name. A name without such a flaw gets no such report.",
     ["inputs"], "names of 0 to 61 characters with every bounded combination of symbolic characters at the start, middle or end, in 20 syntactic places",
     "The combinations of place, length, position and character are thousands; tests have a few names.",
     [D + "parser.rs"], [("checks of names", D + "parser.rs")], ["diagnostics illegal_char, illegal_start, name_too_long, expected_name, path_cannot_be_empty"])
prop("C08", "Exactly the well-formed files are accepted, with the right tree",
     "A text that follows the grammar of device tree sources gets no syntax error and a syntax tree with exactly the elements of the text (directives, nodes, properties, values, labels, deletions), in order, with their names and values. A text that does not gets an error, and the first one lies between the end of the last part that was still valid and the end of the offending token.",
     ["inputs", "programs"], "every sequence of the bounded number of tokens in 10 contexts; of statements; of bytes in 38 contexts, also cut off by the end of the file",
     "The grammar has hundreds of (state, token) pairs and error paths; tests follow the main ones.",
     [D + "parser.rs", D + "ast.rs", D + "tokens/lexer.rs"], [("recursive descent parser", D + "parser.rs"), ("recovery", D + "parser.rs")], ["Project::get_root", "Project::get_diagnostics"], hook="dts::verif_hooks (cfg ginko_verif) exposes the tree types")
prop("C09", "A missing semicolon costs one diagnostic and nothing else",
     "When a single ';' behind a statement, property or node is missing, that is reported once, as \"Expected ';'\", directly behind the statement it belongs to. Everything else is read as if it were there: the same tree, the same other diagnostics, nothing skipped.",
     ["programs"], "every bounded sequence of statements and every one of their semicolons; also at the end of the file",
     "Recovery depends on what precedes and follows; tests remove two or three semicolons.",
     [D + "parser.rs"], [("handling of a missing ';'", D + "parser.rs")], ["Project::get_diagnostics", "Project::get_root"])
prop("C10", "References resolve to the nodes they name",
     "In a source file that is no plugin, a reference to a label or path that no node or property visible to it has is reported as unresolved, at its place, and no other reference is: extensions of nodes (&label { }, &{/path} { }), /delete-node/ and /omit-if-no-ref/ see only what precedes them (included files count where they are included), property values see the whole file. A reference that resolves leads to the name of a node that it means, in the file that defines it, also through extensions and several definitions of a node.",
     ["programs"], "every bounded sequence of top-level statements that define, extend, delete and reference nodes, in one file or over several included ones",
     "Resolution depends on order, nesting, extension and includes; tests have one example of each.",
     [D + "analysis.rs", D + "project.rs", D + "visitor.rs"], [("collection of labels and paths", D + "analysis.rs"), ("resolution of references", D + "analysis.rs")], ["diagnostics unresolved_reference", "Project::get_node_position", "Project::document_reference"])
prop("C11", "File-level rules are enforced exactly",
     "A .dts file without /dts-v1/ gets a non_dts_v1 error at its start; a header behind other contents (C includes, /include/ and comments aside) is misplaced, a second one a duplicate; compatible properties with other than strings, properties behind child nodes, /omit-if-no-ref/ before a property, and errors in an included file are reported at their place. Included files (.dtsi) and overlays (.dtso, .overlay) need no header; in them and in plugins references are not required to resolve, and where no rule is violated nothing is reported.",
     ["programs"], "every bounded sequence of directives and statements in every type of file, with an included file",
     "The rules interact (order, type of file, plugin, include); tests have single cases.",
     [D + "analysis.rs", D + "parser.rs", D + "data.rs"], [("analysis of the file", D + "analysis.rs"), ("property order and directives", D + "parser.rs")], ["Project::get_diagnostics"])
prop("C12", "Includes are followed completely, cycles are reported",
     "When a file is opened, every file it includes directly or indirectly becomes part of the project once, and no other; names defined in an included file are visible behind the include, through any number of levels and however often files are shared. A cycle of includes always ends in a report of the cycle, and none is reported where there is none; an include that cannot be found, or that has errors, is reported at the include.",
     ["configurations", "inputs"], "every include graph over three files out of the bounded texts; chains up to the bounded depth with every back edge; every sequence of dependencies given to the cycle detector",
     "The number of graphs grows exponentially; tests have a two-file chain and one cycle.",
     [D + "project.rs", D + "import_guard.rs", D + "analysis.rs"], [("following includes and ordering the analysis", D + "project.rs"), ("cycle detection", D + "import_guard.rs")], ["Project::files", "Project::get_diagnostics", "Project::all_diagnostics"])
prop("C13", "After any edits the project is as if freshly opened",
     "After any history of opening, changing and closing files in an editor, diagnostics, syntax trees and targets of references of every open file and of all it includes are those of a fresh project in which only the open files were opened, with their last texts. Files that are not open count with their contents on disk, and a change in one file takes effect in the files that include it.",
     ["histories"], "every history of the bounded length over two or three files with three to five texts each",
     "State survives between edits; tests apply at most one edit.",
     [D + "project.rs"], [("update of a file and of the files that include it", D + "project.rs")], ["Project::add_file_with_text", "Project::remove_file", "Project::get_diagnostics"],
     state=[("files", "texts, trees, diagnostics and dependencies per file", D + "project.rs")])
prop("C14", "Includes are looked up in one fixed order",
     "An included file is taken from the directory of the including file if it is there, else from the first of the configured include directories that has it, else from the working directory; include directories that do not exist are ignored; absolute names are taken as they are, and names with directories, ./ or ../ are understood relative to each of these directories. That also holds for includes within included files, and when the include directories change while files are open. If none has it, or if it cannot be read, exactly one error is reported, at the include.",
     ["configurations"], "all combinations of where copies of the file exist, how it is spelled and which include directories are given",
     "Tests include files of the same directory only.",
     [D + "project.rs", D + "parser.rs", D + "ast.rs"], [("search for an included file", D + "project.rs")], ["Project::set_include_paths", "Project::get_diagnostics", "Project::get_node_position"])
prop("C15", "The command line tool reports truthfully",
     "The command line tool prints every diagnostic of the given file and of the files it includes, each file's rendered with its own lines, and exits with an error code when there is one; for a file without diagnostics it says \"OK; No issues found\" and exits with zero. The directories given with -i or --include, in any spelling and number, are where includes are looked up, in their order. A file that cannot be read and wrong arguments are reported on standard error with an error code.",
     ["inputs", "configurations"], "every bounded text of the file and of included files; 12 shapes of the command line; files missing or in any of the directories",
     "No test runs the command line tool.",
     ["ginko/src/main.rs"], [("main", "ginko/src/main.rs")], ["standard output", "exit code"])
prop("C16", "A rendered diagnostic shows the right line and underline",
     "A diagnostic is rendered as its severity, file, line and column (counted from one), the line of the text it starts in, and carets under exactly the characters of its span in that line (at least one), followed by the message; the carets stand below these characters whatever they are (tabs are kept, characters of any script count one). Several diagnostics are rendered one after the other, each with the severity of its kind.",
     ["inputs"], "every span in every text of two lines of the bounded length; every kind of diagnostic; the diagnostics of bounded real texts",
     "Tests render two or three diagnostics on ASCII lines.",
     [D + "diagnostics.rs"], [("DiagnosticPrinter", D + "diagnostics.rs"), ("SeverityMap", D + "diagnostics.rs")], ["Display of DiagnosticPrinter"])
prop("C17", "The item under the cursor is the one the cursor is in",
     "For every position in a well-formed file, the label, reference or include found there is the one whose text covers the position (start included, end excluded), also inside nested nodes, values, deletions and directives. Where no such text is, nothing is found.",
     ["inputs"], "every line and column, in and beyond the text, of 6 documents extended by bounded statements",
     "Tests query a few positions.",
     [D + "visitor.rs", D + "project.rs", D + "ast.rs"], [("search of the tree", D + "visitor.rs")], ["Project::find_at_pos"])
prop("C18", "The language server publishes what the analysis says",
     "After any sequence of open, change, save and close notifications, the diagnostics last published for every open file and every file it includes are exactly those of its last text, with the same severities, messages and codes, at the same places (counted in UTF-16 code units, as the protocol does), and when a file is closed, no file that is neither open nor included by an open one keeps any. Include directories come from the initialization options or a change of the configuration and apply to files that are already open. For a document that is no file a message is shown, and nothing is published or answered.",
     ["histories", "inputs"], "every bounded sequence of notifications over bounded texts; every bounded sequence of tokens; every arrangement of include directories",
     "No test drives the server.",
     ["ginko_ls/src/server.rs"], [("notification handlers", "ginko_ls/src/server.rs"), ("conversion of diagnostics", "ginko_ls/src/server.rs")], ["LanguageServer trait of the backend", "Client::publish_diagnostics"])
prop("C19", "White space and comments carry no meaning",
     "Adding or removing white space and comments between tokens never changes the syntax tree (apart from positions) nor the diagnostics (apart from their positions), however they are written: /* */ over several lines, // to the end of the line, tabs, carriage returns, comments that contain any other syntax.",
     ["inputs"], "every bounded choice of gaps and of comments with any bounded contents in documents that use all syntax",
     "Gaps times contents; tests have comments in a few places.",
     [D + "tokens/lexer.rs", D + "parser.rs"], [("skipping of comments", D + "parser.rs"), ("white space", D + "tokens/lexer.rs")], ["Project::get_root", "Project::get_diagnostics"])
prop("C20", "Results do not depend on hash seeds",
     "Analysing the same files twice gives the same diagnostics, trees and targets of references, whatever order the hash tables happen to iterate in, also with nodes defined several times, shared includes and include cycles.",
     ["configurations"], "the bounded files and include graphs under pairs of hash seeds",
     "A test run has one random seed and passes or fails by chance.",
     [D + "project.rs", D + "analysis.rs", D + "import_guard.rs"], [("hash maps of files, labels and dependencies", D + "project.rs")], ["Project::get_diagnostics", "Project::get_node_position"])
prop("C21", "The outline mirrors the file",
     "For a well-formed file, the document symbols of the language server are exactly its nodes, extensions of nodes, properties, includes, deletions and /omit-if-no-ref/ directives, in order and nested as in the file. Each has the name it has in the text (the unit address may be left out), the kind of its element, the range of the whole element and the selection range of its name (in UTF-16 code units); deletions and nothing else are marked as deprecated. A file without a syntax tree has no outline.",
     ["inputs"], "every bounded sequence of statements at the top of a file and inside a node",
     "No test drives the server.",
     ["ginko_ls/src/server.rs", D + "ast.rs"], [("document_symbol", "ginko_ls/src/server.rs"), ("spans of tree elements", D + "ast.rs")], ["textDocument/documentSymbol"])
prop("C22", "Definition and hover follow the cursor",
     "At every position of a document (counted in UTF-16 code units), going to the definition from a reference that resolves leads to the name of the node it means, in the file that defines it; from an include that is found, to the start of the included file; and from anywhere else nowhere. Hovering shows the label, the name of the included file or the node that the reference means, and nothing elsewhere. The answers are those of the last text of the document.",
     ["inputs", "histories"], "every position in and beyond the bounded documents; every bounded sequence of edits before",
     "No test drives the server.",
     ["ginko_ls/src/server.rs", D + "project.rs", D + "visitor.rs"], [("goto_definition and hover", "ginko_ls/src/server.rs"), ("search of the tree", D + "visitor.rs")], ["textDocument/definition", "textDocument/hover"])
prop("C23", "A printed syntax tree is the source of the same tree",
     "The syntax tree of a file without syntax errors, printed (the Display of the tree that Project::get_root returns, and of its parts), is a device tree source without syntax errors that is read back as the same tree: the same directives, nodes, extensions, deletions, properties, labels of nodes and properties, /omit-if-no-ref/, strings, numbers, bytes and references, in the same order. What the tree does not keep (comments, the contents of expressions, labels within values, /bits/, bytes that were reported as invalid) need not come back. Printed once more, it gives the same text.",
     ["inputs", "programs"], "every text of the bounded tokens, statements, characters and literals that has a syntax tree",
     "A slip shows only with one construct (a byte below 16, a quote in a string, a labelled property); hardly any test looks at a printed tree.",
     [D + "ast.rs"], [("Display of the tree", D + "ast.rs")], ["format!(\"{}\", project.get_root(path))"], hook="dts::verif_hooks (cfg ginko_verif) exposes the tree types")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
