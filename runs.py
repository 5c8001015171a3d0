"""What each check runs: harness entries, their bounds, and the labels that must be reached."""

CRATES = {
    "gh": {"harness": "harness", "replay": "replay", "lib": "gh", "bin": "replay"},
    "gls": {"harness": "ls", "replay": "ls-replay", "lib": "gls", "bin": "ls-replay"},
    "gcli": {"harness": "cli", "replay": "cli-replay", "lib": "gcli", "bin": "cli-replay"},
}


def R(entry, *need, **params):
    crate = params.pop("crate", "gh")
    # with z3all, Z3 also decides what the finite-domain layer of the executor can decide
    z3all = params.pop("z3all", True)
    steps = params.pop("steps", 40000000)
    return {"entry": entry, "params": params, "need": list(need), "crate": crate, "z3all": z3all, "steps": steps}


def P(entry, **params):
    """the text is printed from its tree and read back"""
    return R(entry, "printed and read back", print=1, **params)


TREE = ["accepted", "accepted with diagnostics"]
REJ = ["rejected: token", "rejected: semicolon", "rejected: end"]
FS = "files live in a modelled file system that does not change while a project reads it"
LS = "the server is driven through its LanguageServer trait and tower-lsp's service and client; transport and runtime (tokio) are not encoded; only h_ls_interleaved interleaves notifications"
TOOL = ["usage", "unreadable", "ok", "one file", "several files"]
CURSOR = ["include", "label", "nothing", "path", "ref", "resolved", "broken"]

BIG = 400000000
SCALE = R("h_scale", *TREE, *REJ, free=1, z3all=False)
SMALL_SCALE = R("h_scale", *TREE, "rejected: token")
LARGE = R("h_scale", *TREE, large=1, steps=BIG)
LARGE1 = R("h_scale", *TREE, large=1, free=1, steps=BIG)
CHARS = R("h_grammar_chars", *TREE, *REJ, n=1)
CHARS2 = R("h_grammar_chars", *TREE, *REJ, n=2, z3all=False)
WORDS = R("h_grammar_words", *TREE, n=8, z3all=False)
SCALE_BOUNDS = {
    "h_grammar_words": "words of n arbitrary characters out of the set that belongs there (names, numbers of up to three digits, contents of strings and comments, directives, names of C includes) in each of 16 contexts",
    "h_scale, h_scale_tokens, h_scale_render, h_scale_cursor": "57 shapes of documents in which one construct is repeated or stretched 27 times between 0 and 300 (or nested up to 126 deep); large=1: 15 times between 1000 and 70000 (400 million instructions per path); free=1: any ASCII character behind the last repetition",
    "h_grammar_chars": "n arbitrary characters (the whole of Unicode; in a path one of up to two bytes) in each of 38 contexts",
}

CHECKS = {
    "C01": {
        "runs": {
            "quick": [
                R("h_total_bytes", "diagnostics", n=5),
                R("h_total_slots", "diagnostics", "clean", k=4, z3all=False),
                R("h_total_holes", "diagnostics", "clean", n=2),
                R("h_total_tails", "diagnostics", n=2),
                R("h_total_nesting", "diagnostics", "clean", steps=BIG),
                SCALE, LARGE, CHARS,
            ],
            "thorough": [
                R("h_total_bytes", "diagnostics", n=6),
                R("h_total_slots", "diagnostics", "clean", k=5),
                R("h_total_holes", "diagnostics", "clean", n=3),
                R("h_total_tails", "diagnostics", n=3),
                R("h_total_nesting", "diagnostics", "clean", steps=BIG),
                SCALE, LARGE1, CHARS2,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_total_bytes": "every ASCII text of n bytes",
            "h_total_slots": "every sequence of k tokens or token fragments out of the alphabet in harness/src/total.rs",
            "h_total_holes": "every valid UTF-8 sequence of n bytes (characters of one to three bytes; three-byte ones start with E2) in each context of harness/src/total.rs",
            "h_total_tails": "the same at the end of the file, the rest being cut off",
            "h_total_nesting": "8 ways of opening something, repeated 1 to 30000 times, then closed or cut off",
            "steps": "40 million instructions and 1 MiB of stack per path; more counts as a hang or overflow",
        },
    },
    "C02": {
        "runs": {
            "quick": [
                R("h_lex_bytes", "token", "cut off", n=4, z3all=False),
                R("h_lex_heads", "token", "cut off", n=3, z3all=False),
                R("h_lex_frags", "token", "cut off", k=3),
                R("h_grammar_holes", *TREE, *REJ, n=1),
                R("h_grammar_tails", *TREE, *REJ, n=1),
                R("h_scale_tokens", "token", "cut off", free=1, z3all=False), R("h_scale_tokens", "token", large=1, steps=BIG), CHARS, WORDS,
            ],
            "thorough": [
                R("h_lex_bytes", "token", "cut off", n=5, multi=0),
                R("h_lex_heads", "token", "cut off", n=4),
                R("h_lex_frags", "token", "cut off", k=4),
                R("h_grammar_holes", *TREE, *REJ, n=2),
                R("h_grammar_tails", *TREE, *REJ, n=3),
                R("h_scale_tokens", "token", "cut off", free=1), R("h_scale_tokens", "token", "cut off", large=1, free=1, steps=BIG), CHARS2,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_lex_bytes": "every UTF-8 text of n bytes (ASCII only with multi=0)",
            "h_lex_heads": "each of the token starts in harness/src/lex.rs, followed by up to n arbitrary bytes",
            "h_lex_frags": "every concatenation of k fragments out of the alphabet in harness/src/lex.rs",
            "h_grammar_holes": "n arbitrary bytes in each context of harness/src/grammar.rs",
            "h_grammar_tails": "up to n arbitrary bytes at the end of a file, after each of the contexts",
        },
    },
    "C03": {
        "runs": {
            "quick": [
                R("h_positions", "diagnostic", "tree", k=2),
                R("h_position_holes", "diagnostic", "tree", n=3),
                R("h_lex_bytes", "token", "cut off", n=3),
                R("h_grammar_holes", *TREE, *REJ, n=1),
                R("h_grammar_slots", *TREE, *REJ, k=2),
                R("h_trivia_bytes", "compared", n=2),
                SMALL_SCALE, LARGE, CHARS,
            ],
            "thorough": [
                R("h_positions", "diagnostic", "tree", k=3),
                R("h_position_holes", "diagnostic", "tree", n=4),
                R("h_lex_bytes", "token", "cut off", n=4),
                R("h_grammar_holes", *TREE, *REJ, n=2),
                R("h_grammar_slots", *TREE, *REJ, k=3),
                R("h_trivia_bytes", "compared", n=3),
                SCALE, LARGE1, CHARS2,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_positions": "k tokens (some outside ASCII, some with line breaks), separated or not, in each of 5 contexts",
            "h_position_holes": "n arbitrary bytes in each of the contexts",
            "others": "as in C02, C08 and C19: all positions against the reference",
        },
    },
    "C04": {
        "runs": {
            "quick": [
                R("h_numbers", *TREE, n=5, base=10),
                R("h_numbers", "accepted", n=4, base=16),
                R("h_numbers", *TREE, n=5, base=8),
                R("h_numbers", *TREE, n=3, base=0),
                R("h_numbers", *TREE, n=10, base=10, free=4),
                R("h_numbers", *TREE, n=20, base=10, free=4),
                R("h_numbers", "accepted", n=8, base=16, free=4),
                R("h_numbers", *TREE, n=9, base=16, free=4),
                R("h_numbers", *TREE, n=17, base=16, free=4),
                R("h_numbers", *TREE, n=11, base=8, free=4),
                R("h_numbers", *TREE, n=22, base=8, free=4),
                R("h_number_limits", *TREE, free=2, z3all=False),
                SMALL_SCALE,
            ],
            "thorough": [
                R("h_numbers", *TREE, n=6, base=10),
                R("h_numbers", "accepted", n=6, base=16),
                R("h_numbers", *TREE, n=7, base=8),
                R("h_numbers", *TREE, n=4, base=0),
                SCALE,
            ] + [R("h_numbers", "accepted", n=n, base=10, free=4) for n in range(7, 23)]
              + [R("h_numbers", "accepted", n=n, base=16, free=4) for n in range(7, 19)]
              + [R("h_numbers", "accepted", n=n, base=8, free=4) for n in range(7, 25)]
              + [R("h_number_limits", *TREE, free=3)],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_numbers": "every literal of n digits (after 0x, 0 or nothing), as a cell and as either number of /memreserve/; base=0: a digit followed by any n letters and digits; free=4: only the two outermost digits at each end vary, those between are all 0 or all 9/f/7",
            "h_number_limits": "the largest cell and /memreserve/ literals of each base with any `free` adjacent digits changed and optionally one more digit",
        },
    },
    "C05": {
        "runs": {
            "quick": [
                R("h_bytestrings", *TREE, n=5, set=0, z3all=False),
                R("h_bytestrings", "accepted", n=4, set=1),
                R("h_bytestrings", *TREE, n=3, set=2),
                R("h_grammar_slots", *TREE, *REJ[:2], k=3, only=7),
                SMALL_SCALE, LARGE,
            ],
            "thorough": [
                R("h_bytestrings", *TREE, n=6, set=0),
                R("h_bytestrings", "accepted", n=8, set=1),
                R("h_bytestrings", *TREE, n=4, set=2),
                R("h_grammar_slots", *TREE, *REJ[:2], k=4, only=7),
                SCALE, LARGE1,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_bytestrings": "every sequence of n bytes between [ and ] (set=0: out of 24 characters that matter; set=1: hexadecimal digits; set=2: any UTF-8), at two places of a property",
            "h_grammar_slots": "every sequence of k tokens out of the value alphabet between [ and ]",
        },
    },
    "C06": {
        "runs": {
            "quick": [
                R("h_strings", "accepted", n=3, set=0),
                R("h_strings", "accepted", n=6, set=1, z3all=False),
                R("h_lex_heads", "token", "cut off", n=2),
                SMALL_SCALE, LARGE, CHARS,
            ],
            "thorough": [
                R("h_strings", "accepted", n=5, set=0),
                R("h_strings", "accepted", n=7, set=1),
                R("h_lex_heads", "token", "cut off", n=3),
                SCALE, LARGE1, CHARS2,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_strings": "every sequence of n bytes inside the quotes of a string (set=0: any UTF-8; set=1: quotes, backslashes, blanks, line ends, comment characters, a two-byte character), in four places of a file, one of them an include",
            "h_lex_heads": "unfinished strings followed by any n bytes",
        },
    },
    "C07": {
        "runs": {
            "quick": [
                R("h_names", *TREE, n=2, base=0),
                R("h_names", *TREE, n=2, base=1),
                R("h_names", *TREE, n=1, base=29, lengths=4),
                R("h_names", *TREE, n=1, base=1, set=1),
                R("h_names", *TREE, n=1, base=60),
                SMALL_SCALE, CHARS, WORDS,
            ],
            "thorough": [
                R("h_names", *TREE, n=3, base=0),
                R("h_names", *TREE, n=3, base=1),
                R("h_names", *TREE, n=2, base=27, lengths=6),
                R("h_names", *TREE, n=2, base=1, set=1),
                R("h_names", *TREE, n=2, base=60),
                SCALE, LARGE1, CHARS2,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_names": "names of `base` letters with n symbolic characters before, amid or behind them (24 characters that matter; set=1: any UTF-8), as each of 15 kinds of name, label, unit address or reference; lengths=4: each of four numbers of letters",
        },
    },
    "C08": {
        "runs": {
            "quick": [
                R("h_grammar_slots", *TREE, *REJ, k=3),
                R("h_grammar_bodies", *TREE, k=2),
                R("h_grammar_files", *TREE, k=3),
                R("h_grammar_holes", *TREE, *REJ, n=2),
                R("h_grammar_tails", *TREE, *REJ, n=2),
                SCALE, LARGE, CHARS2, WORDS,
            ],
            "thorough": [
                R("h_grammar_slots", *TREE, *REJ, k=4),
                R("h_grammar_slots", *TREE, *REJ, k=3, types=3),
                R("h_grammar_bodies", *TREE, k=3),
                R("h_grammar_files", *TREE, k=4),
                R("h_grammar_holes", *TREE, *REJ, n=3),
                R("h_grammar_tails", *TREE, *REJ, n=3),
                SCALE, LARGE1, CHARS2,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_grammar_slots": "every sequence of k tokens out of the alphabet of each of 10 contexts (harness/src/grammar.rs)",
            "h_grammar_bodies": "k statements in the body of the root node, a node or an extension, in each type of file",
            "h_grammar_files": "k top-level statements in each type of file",
            "h_grammar_holes": "n arbitrary bytes in each of 38 contexts",
            "h_grammar_tails": "the same at the end of the file",
        },
    },
    "C09": {
        "runs": {
            "quick": [
                R("h_unterminated", "recovered", k=2),
                R("h_unterminated", "recovered", k=2, lines=0),
                R("h_unterminated", "recovered", k=2, lines=2),
                R("h_histories", "compared", k=2, files=2),
            ],
            "thorough": [
                R("h_unterminated", "recovered", k=3),
                R("h_unterminated", "recovered", k=3, lines=0),
                R("h_unterminated", "recovered", k=3, lines=2),
                R("h_unterminated", "recovered", k=3, lines=3),
                R("h_histories", "compared", k=3, files=3),
            ],
        },
        "bounds": {
            "h_unterminated": "k statements of a node body or of a file, any one of whose semicolons is missing; the file optionally ends there; the statements are separated by blanks (lines=0), line ends (1), or comments (2, 3)",
        },
    },
    "C10": {
        "runs": {
            "quick": [
                R("h_references", "acyclic", "target", k=3),
                R("h_grammar_files", *TREE, k=3),
                R("h_graphs", "acyclic", "target", c_includes=2, libs=3),
                R("h_chains", "acyclic", "target", k=4),
                R("h_many", "acyclic", "cyclic", "target", steps=BIG), SMALL_SCALE,
                R("h_directives", "acyclic", k=2),
            ],
            "thorough": [
                R("h_references", "acyclic", "target", k=4),
                R("h_grammar_files", *TREE, k=4),
                R("h_grammar_bodies", *TREE, k=3),
                R("h_graphs", "acyclic", "target"),
                R("h_chains", "acyclic", "target", k=6),
                R("h_many", "acyclic", "cyclic", "target", steps=BIG), SCALE,
            ],
        },
        "bounds": { "h_many": "1 to 40 (17 numbers) included files: included by one file forwards or backwards, in a row, each including the next two, or in a tree; no back edge or one of three; opened at the first, the middle or the last file", **SCALE_BOUNDS,
            "h_references": "k top-level statements defining, extending, deleting and referencing labelled nodes: which references are unresolved, and where every resolved one leads",
            "h_grammar_files": "k top-level statements in each type of file",
            "h_graphs": "two included files, include graphs over the three (harness/src/multi.rs)",
            "h_chains": "chains of up to k includes, with or without a back edge",
        },
        "assumptions": [FS, "labels that name a node and a property, and paths below an extension of an unknown node, are outside the claim"],
    },
    "C11": {
        "runs": {
            "quick": [
                R("h_directives", "acyclic", k=3),
                R("h_grammar_files", *TREE, k=3),
                R("h_grammar_slots", *TREE, *REJ, k=2, types=3),
                R("h_grammar_bodies", *TREE, k=2),
                SMALL_SCALE, WORDS,
            ],
            "thorough": [
                R("h_directives", "acyclic", k=4),
                R("h_grammar_files", *TREE, k=4),
                R("h_grammar_slots", *TREE, *REJ, k=3, types=3),
                R("h_grammar_bodies", *TREE, k=3),
                SCALE,
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_directives": "k directives and other top-level statements in a .dts, .dtsi, .dtso or .overlay file, which may include a second file (.dts, .dtsi or .dtso) with 9 different contents",
            "h_grammar_files": "k top-level statements in each type of file",
            "h_grammar_slots": "k tokens in 10 contexts in each type of file",
            "h_grammar_bodies": "k statements in node bodies in each type of file",
        },
        "assumptions": [FS],
    },
    "C12": {
        "runs": {
            "quick": [
                R("h_graphs", "acyclic", "cyclic", "target", c_includes=3, libs=4),
                R("h_graphs", "acyclic", "cyclic", "target", spelled=1, mains=1, libs=2),
                R("h_chains", "acyclic", "cyclic", "target", k=5),
                R("h_guard", "accepted", "refused", k=3, n=3),
                R("h_many", "acyclic", "cyclic", "target", steps=BIG),
            ],
            "thorough": [
                R("h_graphs", "acyclic", "cyclic", "target"),
                R("h_graphs", "acyclic", "cyclic", "target", spelled=1),
                R("h_chains", "acyclic", "cyclic", "target", k=6),
                R("h_guard", "accepted", "refused", k=4, n=4),
                R("h_many", "acyclic", "cyclic", "target", steps=BIG),
            ],
        },
        "bounds": { "h_many": "1 to 40 (17 numbers) included files: included by one file forwards or backwards, in a row, each including the next two, or in a tree; no back edge or one of three; opened at the first, the middle or the last file",
            "h_graphs": "three files, each with one of 8 (the last: c_includes) include lists, 3 (mains) contents of the first and 7 (libs) of the others; spelled=1: the includes have ./ and sub/../ in their names",
            "h_chains": "chains of up to k includes, with or without a back edge to any of the files, opened at either end",
            "h_guard": "k dependencies among n elements, added one at a time to the cycle detector",
        },
        "assumptions": [FS],
    },
    "C13": {
        "runs": {
            "quick": [
                R("h_histories", "compared", "close", "all closed", "as the reference says", k=3),
                R("h_histories", "compared", "close", "all closed", "as the reference says", k=3, files=3),
                R("h_histories", "compared", "close", "all closed", "as the reference says", k=3, disk=1),
                R("h_histories", "compared", "close", "all closed", k=3, unreadable=1),
                R("h_histories", "compared", "close", "all closed", "directories", k=3, dirs=2),
                R("h_histories", "compared", "close", "all closed", "directories", k=3, dirs=2, unsaved=1),
                R("h_histories", "compared", "close", "other spelling", k=2, spelled=1),
                R("h_histories", "compared", "close", "saved", "as the reference says", k=2, start=1, saved=1),
                R("h_histories", "compared", "close", "directories", k=2, start=1, unsaved=1, dirs=1),
                R("h_histories", "compared", "close", "late", "as the reference says", k=2, late=1),
                R("h_edits", "compared", n=1),
                R("h_long_histories", "compared", "all closed", m=1, steps=BIG),
            ],
            "thorough": [
                R("h_histories", "compared", "close", "all closed", k=4),
                R("h_histories", "compared", "close", "all closed", k=4, files=3),
                R("h_histories", "compared", "close", "all closed", "as the reference says", k=4, disk=1),
                R("h_histories", "compared", "close", "all closed", "as the reference says", k=4, disk=4),
                R("h_histories", "compared", "close", "all closed", k=4, unreadable=1),
                R("h_histories", "compared", "close", "all closed", "directories", k=4, dirs=2),
                R("h_histories", "compared", "close", "all closed", "directories", k=3, dirs=2, files=3),
                R("h_histories", "compared", "close", "all closed", "directories", k=4, dirs=2, unsaved=1),
                R("h_histories", "compared", "close", "other spelling", k=3, spelled=1),
                R("h_histories", "compared", "close", "saved", "as the reference says", k=2, start=1, saved=1, disk=1),
                R("h_histories", "compared", "close", "saved", "as the reference says", k=3, saved=1, files=3),
                R("h_histories", "compared", "close", "directories", k=2, start=1, unsaved=1, dirs=2, files=3),
                R("h_histories", "compared", "close", "late", "as the reference says", k=3, late=1),
                R("h_edits", "compared", n=2),
                R("h_long_histories", "compared", "all closed", m=2, steps=BIG),
            ],
        },
        "bounds": { "h_long_histories": "a cycle of m opens, edits and closes of three files, run through up to 33 times (14 numbers), and one more step",
            "h_histories": "every history of k opens, edits and closes of 2 or 3 files with 5, 5 and 3 texts (valid, broken, including each other, including missing files; unreadable=1: the second one cannot be read from disk; spelled=1: paths with sub/../ in them; disk=1, 4: on disk it includes the third or the first file; dirs=2: with changes of the include directories among three lists; unsaved=1: the first file is not on disk; start=1: all files are opened before; saved=1: a file may be saved before it is closed; late=1: the third file appears on disk before any one of the steps) compared with a fresh project and with the reference",
            "h_edits": "one edit that replaces n bytes by any ASCII bytes at 3 places (a reference, an include, a label)",
        },
        "assumptions": [FS],
    },
    "C14": {
        "runs": {
            "quick": [R("h_include_paths", "missing", "found", "unreadable"), R("h_include_nested", "missing", "found"), R("h_histories", "compared", "close", "directories", k=2, files=3, dirs=2), R("h_ls_includes", "found", "missing", crate="gls")],
            "thorough": [R("h_include_paths", "missing", "found", "unreadable"), R("h_include_nested", "missing", "found"), R("h_histories", "compared", "close", "directories", k=3, files=3, dirs=2), R("h_ls_includes", "found", "missing", crate="gls")],
        },
        "bounds": {"h_histories": "as in C13, with changes of the include directories", "h_ls_includes": "as in C18", "h_include_paths": "a file of which up to four copies exist (own directory, two include directories, working directory), spelled in 5 ways, in the directory or a subdirectory, with 6 lists of include directories (one with a directory that does not exist, one relative), set before the file is opened or changed afterwards; the first copy may be unreadable, the file may lack a ';'", "h_include_nested": "a file found in any of the directories includes another one, of which up to four copies exist; the directories are set before or changed afterwards"},
        "assumptions": [FS],
    },
    "C16": {
        "runs": {
            "quick": [
                R("h_rendering", "rendered", n=2),
                R("h_rendering_kinds", "rendered", k=2),
                R("h_rendering_texts", "rendered", n=2),
                R("h_scale_render", "rendered"), R("h_scale_render", "rendered", large=1, steps=BIG),
            ],
            "thorough": [
                R("h_rendering", "rendered", n=3),
                R("h_rendering_kinds", "rendered", k=3),
                R("h_rendering_texts", "rendered", n=3),
                R("h_scale_render", "rendered", free=1), R("h_scale_render", "rendered", large=1, free=1, steps=BIG),
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_rendering": "every span in every text of two lines of up to n characters (any ASCII character or a three-byte one), the line numbers having one or two digits",
            "h_rendering_kinds": "k diagnostics of any of the 22 kinds",
            "h_rendering_texts": "the diagnostics of n arbitrary bytes in 5 contexts",
        },
    },
    "C17": {
        "runs": {
            "quick": [R("h_cursor", "label", "ref", "path", "include", "nothing"), R("h_cursor", "label", "ref", "path", "include", "nothing", stmts=1), R("h_scale_cursor", "label", "ref", "path", free=1, z3all=False), R("h_scale_cursor", "ref", large=1, steps=BIG)],
            "thorough": [R("h_cursor", "label", "ref", "path", "include", "nothing", stmts=2), R("h_scale_cursor", "label", "ref", "path", free=1), R("h_scale_cursor", "ref", large=1, free=1, steps=BIG)],
        },
        "bounds": { **SCALE_BOUNDS,"h_cursor": "any line up to 5 and any character up to 255 in 6 documents, followed by a node with `stmts` statements out of 18"},
    },
    "C15": {
        "runs": {
            "quick": [R("h_cli", *TOOL, k=2, crate="gcli")],
            "thorough": [R("h_cli", *TOOL, k=3, crate="gcli")],
        },
        "bounds": {"h_cli": "12 shapes of the command line (8 of them valid, with up to two include directories), a first file of k lines out of 9 with or without header, an included file with 5 contents in any of three directories, a third file with two contents"},
        "assumptions": [FS, "clap and std run as compiled; the environment has no variables"],
    },
    "C18": {
        "runs": {
            "quick": [
                R("h_ls_sequences", "clean", "diagnostics", "close", "definition", k=4, crate="gls", z3all=False),
                R("h_ls_sequences", "clean", "diagnostics", "close", "definition", k=3, files=3, crate="gls"),
                R("h_ls_interleaved", "clean", "diagnostics", "close", k=2, texts=2, crate="gls", z3all=False),
                R("h_ls_sequences", "clean", "diagnostics", "close", "definition", "directories", k=3, dirs=2, crate="gls"),
                R("h_ls_names", "saved", "not saved", crate="gls"),
                R("h_ls_any", "outline", "no outline", k=2, crate="gls"),
                R("h_ls_places", "no file", "not on disk", crate="gls"),
                R("h_ls_includes", "found", "missing", crate="gls"),
                R("h_ls_chars", "broken", "clean", "diagnostics", "include", "label", "path", "ref", "resolved", n=1, crate="gls"), R("h_ls_scale", "broken", "clean", "diagnostics", "label", "path", "ref", "resolved", crate="gls", steps=BIG),
            ],
            "thorough": [
                R("h_ls_sequences", "clean", "diagnostics", "close", "definition", k=5, crate="gls"),
                R("h_ls_sequences", "clean", "diagnostics", "close", "definition", k=4, files=3, crate="gls"),
                R("h_ls_interleaved", "clean", "diagnostics", "close", k=2, texts=3, crate="gls"),
                R("h_ls_sequences", "clean", "diagnostics", "close", "definition", "directories", k=4, dirs=2, crate="gls"),
                R("h_ls_names", "saved", "not saved", crate="gls"),
                R("h_ls_any", "outline", "no outline", k=4, crate="gls"),
                R("h_ls_places", "no file", "not on disk", crate="gls"),
                R("h_ls_includes", "found", "missing", crate="gls"),
                R("h_ls_chars", "broken", "clean", "diagnostics", "include", "label", "path", "ref", "resolved", n=2, crate="gls"), R("h_ls_scale", "broken", "clean", "diagnostics", "label", "path", "ref", "resolved", crate="gls", steps=BIG, free=1),
            ],
        },
        "bounds": { "h_ls_chars": "n arbitrary characters (the whole of Unicode) in 7 places of a document: published diagnostics, outline, definitions, hovers", "h_ls_scale": "the documents of h_scale: the same answers",
            "h_ls_sequences": "every sequence of k notifications (open, change with one or two texts, save, close) for two files with 5 and 3 texts; files=3: for three files with 3 texts each, including each other in all directions; dirs=2: with changes of the include directories among three lists, the first document saved or not",
            "h_ls_names": "4 names of directories, 11 names of documents and of files that they include (blanks, '%', '#', '?', reserved and non-ASCII characters), three ways in which a client may spell them, documents saved or not",
            "h_ls_interleaved": "k notifications (open, change, close; up to two files already open, `texts` texts each) whose handlers run interleaved: every order in which handlers go on when woken, the client receives a message, and the next handler begins",
            "h_ls_any": "every sequence of k out of 29 tokens at the top of a file or in a node",
            "h_ls_places": "documents of 4 other schemes; files that are not on disk, in a directory that exists or not",
            "h_ls_includes": "every combination of where the included file exists and 4 lists of include directories, given at the start, before or after opening; the file may lack a ';'",
        },
        "assumptions": [FS, LS],
    },
    "C21": {
        "runs": {
            "quick": [R("h_ls_outline", "outline", k=2, n=2, crate="gls"), R("h_ls_any", "outline", "no outline", k=3, crate="gls", z3all=False), R("h_ls_chars", "broken", "clean", "diagnostics", "include", "label", "path", "ref", "resolved", n=1, crate="gls"), R("h_ls_scale", "broken", "clean", "diagnostics", "label", "path", "ref", "resolved", crate="gls", steps=BIG)],
            "thorough": [R("h_ls_outline", "outline", k=3, n=2, crate="gls"), R("h_ls_outline", "outline", k=1, n=4, crate="gls"), R("h_ls_any", "outline", "no outline", k=4, crate="gls"), R("h_ls_chars", "broken", "clean", "diagnostics", "include", "label", "path", "ref", "resolved", n=2, crate="gls"), R("h_ls_scale", "broken", "clean", "diagnostics", "label", "path", "ref", "resolved", crate="gls", steps=BIG, free=1)],
        },
        "bounds": { "h_ls_chars": "n arbitrary characters (the whole of Unicode) in 7 places of a document: published diagnostics, outline, definitions, hovers", "h_ls_scale": "the documents of h_scale: the same answers",
            "h_ls_outline": "k top-level statements out of 10 and n statements inside a node out of 7",
            "h_ls_any": "every sequence of k out of 29 tokens at the top of a file or in a node: there is an outline where there is a tree",
        },
        "assumptions": [LS],
    },
    "C22": {
        "runs": {
            "quick": [R("h_ls_cursor", *CURSOR, crate="gls"), R("h_ls_names", "saved", "not saved", crate="gls", z3all=False), R("h_ls_sequences", "definition", "close", k=3, crate="gls"), R("h_ls_sequences", "definition", "close", k=3, files=3, crate="gls"), R("h_ls_includes", "found", "missing", crate="gls"), R("h_ls_chars", "broken", "clean", "diagnostics", "include", "label", "path", "ref", "resolved", n=1, crate="gls"), R("h_ls_scale", "broken", "clean", "diagnostics", "label", "path", "ref", "resolved", crate="gls", steps=BIG)],
            "thorough": [R("h_ls_cursor", *CURSOR, crate="gls"), R("h_ls_names", "saved", "not saved", crate="gls"), R("h_ls_sequences", "definition", "close", k=5, crate="gls"), R("h_ls_includes", "found", "missing", crate="gls"), R("h_ls_chars", "broken", "clean", "diagnostics", "include", "label", "path", "ref", "resolved", n=2, crate="gls"), R("h_ls_scale", "broken", "clean", "diagnostics", "label", "path", "ref", "resolved", crate="gls", steps=BIG, free=1)],
        },
        "bounds": { "h_ls_chars": "n arbitrary characters (the whole of Unicode) in 7 places of a document: published diagnostics, outline, definitions, hovers", "h_ls_scale": "the documents of h_scale: the same answers",
            "h_ls_cursor": "every line up to 5 and every character up to 255 in 8 documents",
            "h_ls_sequences": "every sequence of k notifications for two files with 5 and 3 texts; every reference in them",
            "h_ls_includes": "as in C18: the definition is in the file that is included",
            "h_ls_names": "as in C18",
        },
        "assumptions": [FS, LS],
    },
    "C19": {
        "runs": {
            "quick": [R("h_trivia", "compared", gaps=1), R("h_trivia_bytes", "compared", n=3), SMALL_SCALE, LARGE],
            "thorough": [R("h_trivia", "compared", gaps=2), R("h_trivia_bytes", "compared", n=4), SCALE, LARGE1],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_trivia": "5 documents that use all syntax, with one of 9 separators in any `gaps` of the gaps between their tokens",
            "h_trivia_bytes": "a comment with any n bytes (UTF-8), or any n white space characters, in any gap",
        },
    },
    "C20": {
        "runs": {
            "quick": [R("h_hash_seeds", "compared", k=3, seeds=4), R("h_hash_cycles", "compared", seeds=6)],
            "thorough": [R("h_hash_seeds", "compared", k=4, seeds=4), R("h_hash_seeds", "compared", k=2, seeds=15), R("h_hash_cycles", "compared", seeds=15)],
        },
        "bounds": {
            "h_hash_seeds": "k top-level statements out of 9, two of which include a file, analysed under two hash seeds (seed 0 and one of `seeds` others)",
            "h_hash_cycles": "all include graphs over three files with up to two includes in fixed order, under two hash seeds",
        },
        "assumptions": [FS, "the hash seeds compared are `seeds` concrete ones; std's SipHash runs as compiled"],
    },
    "C23": {
        "runs": {
            "quick": [
                P("h_grammar_slots", k=2),
                P("h_grammar_bodies", k=2),
                P("h_grammar_files", k=2),
                P("h_grammar_chars", n=1),
                P("h_strings", n=3, set=1), P("h_strings", n=2, set=0),
                P("h_bytestrings", n=2), P("h_bytestrings", n=2, set=1),
                P("h_numbers", n=2),
                P("h_number_limits", free=1),
                P("h_names", n=1, base=1),
                P("h_grammar_words", n=4),
                P("h_scale"),
            ],
            "thorough": [
                P("h_grammar_slots", k=3),
                P("h_grammar_bodies", k=3),
                P("h_grammar_files", k=3),
                P("h_grammar_holes", n=2),
                P("h_strings", n=4, set=1), P("h_strings", n=3, set=0),
                P("h_bytestrings", n=3), P("h_bytestrings", n=4, set=1),
                P("h_numbers", n=3),
                P("h_number_limits", free=2),
                P("h_names", n=2, base=1),
                P("h_grammar_words", n=8),
                P("h_scale", free=1),
            ],
        },
        "bounds": { **SCALE_BOUNDS,
            "h_grammar_slots": "any k tokens in each of 10 contexts",
            "h_grammar_bodies, h_grammar_files": "k statements out of 18 in a node, k top-level statements out of 17",
            "h_grammar_holes": "any n bytes (UTF-8) in each of 38 contexts",
            "h_strings, h_bytestrings, h_numbers, h_names": "the n symbolic characters of C04 to C07",
            "h_number_limits": "the six largest numbers with any `free` digits replaced, at any place, optionally one digit more",
            "print": "every text within these bounds that the reference reading accepts",
        },
    },
}

# the deeper runs rely on the finite-domain layer where it can decide
for _c in CHECKS.values():
    for _r in _c["runs"]["thorough"]:
        _r["z3all"] = False
