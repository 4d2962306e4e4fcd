#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description per property."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(pid, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, note=note,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


GET = "src/argtable3.c"
p("C01", "Parsing any command line is safe, terminates and leaves argv alone",
  "For every argument table and every command line, including an empty one without a program name, parsing and reporting terminate without reading or writing outside the caller's data or using indeterminate memory. The caller's argv array, its texts and the table's definition are left as they were, everything allocated while parsing is released again, and every stored text and every reported offending value points into the caller's argv.",
  ["inputs", "configurations"], "all command lines (any bytes) and tables of all entry kinds",
  "The tests parse a few hundred fixed, mostly well-formed command lines; memory safety and termination are claims about every byte sequence.",
  [GET, "src/arg_getopt_long.c", "src/arg_end.c"],
  [("arg_parse copies argv before getopt permutes it", "src/argtable3.c: arg_parse"), ("option table built from the argument table", "src/argtable3.c: alloc_longoptions, alloc_shortoptions"), ("getopt_long", "src/arg_getopt_long.c")],
  "Every table of the harness, every command line within the bounds.")
p("C02", "A clean parse satisfies every occurrence limit, and no entry exceeds its maximum",
  "After parsing, no entry holds more values than its maximum, whatever the command line. Parsing reports no error only if every entry occurs at least its minimum and at most its maximum number of times, and an entry given as many times as its limits allow is accepted with all its values stored in command-line order. A maximum below the minimum counts as the minimum.",
  ["inputs", "configurations"], "all command lines, limits and entry kinds",
  "Tests pick one or two limits per entry kind; off-by-one and per-kind differences need all combinations of limit, kind and occurrence count.",
  ["src/arg_int.c", "src/arg_dbl.c", "src/arg_str.c", "src/arg_file.c", "src/arg_lit.c", "src/arg_date.c", "src/arg_rex.c", GET],
  [("count against maxcount in each scan function", "src/arg_*.c: arg_*_scanfn"), ("count against mincount in each check function", "src/arg_*.c: arg_*_checkfn"), ("checks run after scanning", "src/argtable3.c: arg_parse_check")],
  "Limits 0..3 for all entry kinds, storage for up to 6 values.")
p("C03", "Every rejected argument is recorded once, in order, and the parse says how many",
  "Parsing returns the number of errors recorded in the table's end entry, which is zero exactly when the command line is valid. Each error is recorded in command-line order (options first, then positional arguments) with the entry that refused it (or the end entry itself for command-line errors), the offending text and, for command-line errors, the code for unknown short option, unknown or ambiguous long option, missing value or unexpected argument. When more errors occur than the end entry has room for, the last slot says so and nothing beyond it is written.",
  ["inputs", "configurations"], "all command lines, tables and sizes of the end entry",
  "Tests check single errors with a large end entry; order, attribution and overflow combine all error kinds.",
  [GET, "src/arg_end.c"],
  [("error registration and limit", "src/argtable3.c: arg_register_error"), ("option errors", "src/argtable3.c: arg_parse_tagged"), ("positional errors", "src/argtable3.c: arg_parse_untagged")],
  "Differential against an independent reference grammar.")
p("C04", "Short options, clusters and attached or separate values are read exactly",
  "A short option counts for the first entry in the table that lists its letter, alone or anywhere in a cluster, and letters of one entry are interchangeable. An option that takes a value takes the rest of its argument as the value, or the next argument if nothing follows; nothing else is consumed and the value is the argument's own text. Unknown letters and missing values are errors and do not disturb the options around them.",
  ["inputs"], "all command lines over tables with switches, aliases and valued options",
  "Tests use a few spellings per option; clusters of valued, unknown and repeated letters have combinatorially many forms.",
  ["src/arg_getopt_long.c", GET],
  [("short option scanner", "src/arg_getopt_long.c: getopt_internal"), ("short option string", "src/argtable3.c: alloc_shortoptions"), ("lookup by letter", "src/argtable3.c: find_shortoption")],
  "Differential against an independent reference grammar.")
p("C05", "Long options match exactly or by a unique abbreviation, with exact values",
  "A long option is recognised by its full name, any of its comma-separated aliases, or any abbreviation that fits the names of one entry only; a full name always wins over abbreviations. Its value is the text after '=' or, without one, the next argument. Unknown and ambiguous names, a value given to a switch, and a missing or empty required value are errors.",
  ["inputs"], "all command lines over tables whose names are prefixes and aliases of each other",
  "Tests try a few names; prefix relations between names, aliases and arguments are quadratic in the names and exponential in the text.",
  ["src/arg_getopt_long.c", GET],
  [("long option matching", "src/arg_getopt_long.c: parse_long_options"), ("long option table, aliases", "src/argtable3.c: alloc_longoptions")],
  "Differential against an independent reference grammar.")
p("C06", "Positional arguments reach positional entries in order, wherever options stand",
  "Arguments that are not options, their values or '--' are handed in command-line order to the entries without names in table order: an entry takes arguments until it refuses one, which is then offered to the following entries, and what no entry takes is an error. Options may stand before, between or after positional arguments; everything after '--' and a lone '-' is positional. With POSIXLY_CORRECT in the environment the first positional argument ends the options.",
  ["inputs", "configurations"], "all command lines and tables with several positional entries, both settings of POSIXLY_CORRECT",
  "Tests use a few fixed orders; permutation of options and positionals is a claim about every interleaving.",
  ["src/arg_getopt_long.c", GET],
  [("argv permutation", "src/arg_getopt_long.c: permute_args, getopt_internal"), ("distribution to untagged entries", "src/argtable3.c: arg_parse_untagged")],
  "Differential against an independent reference grammar.")
p("C07", "Options with optional values take a value only when it is attached",
  "An option whose value is optional takes a value only from its own argument (the rest of a short option's argument, or the text after '=' of a long one), never the next argument. Given without a value it is counted, raises no error and leaves the stored value as it was after reset: a text reads as empty. Given with a value, the value is treated as for any other option.",
  ["inputs"], "all command lines over tables with optional values of every entry kind",
  "Tests cover a handful of spellings of one optional-value table.",
  [GET, "src/arg_getopt_long.c", "src/arg_str.c", "src/arg_int.c"],
  [("optional_argument handling", "src/arg_getopt_long.c: getopt_internal, parse_long_options"), ("scan functions accept an absent value", "src/arg_*.c: arg_*_scanfn")],
  "Differential for string and integer entries, safety and limits for every kind.")
p("C08", "Parsing depends on the command line alone, not on earlier parses",
  "Parsing a command line with a table that has been used before gives exactly the counts, values and errors that a fresh table gives. This holds whatever was parsed before, successfully or not, with this table or another one, and whatever POSIXLY_CORRECT was then. (Only the number an integer or floating-point option holds when its optional value is left out is whatever it held before.)",
  ["histories", "inputs"], "all pairs of command lines",
  "Tests re-parse after a few fixed lines; leftover scanner state shows only after particular aborted or permuted lines.",
  [GET, "src/arg_getopt_long.c"],
  [("reset of every entry", "src/argtable3.c: arg_reset"), ("scanner state reset", "src/argtable3.c: arg_parse_tagged (optreset/optind)"), ("static scanner state", "src/arg_getopt_long.c: place, nonopt_start, nonopt_end")],
  "Two-run comparison: fresh table against a used one.")
p("C09", "Integer values: exactly the documented texts are accepted, with exact values",
  "An integer entry accepts optional blanks and sign, decimal digits or 0x/0o/0b (either case) with digits of that base, an optional KB, MB or GB suffix (any case) and trailing blanks, and stores exactly the number written, times 1024, 1024^2 or 1024^3. Every other text is refused, as is every number that does not fit an int after scaling; a refused text stores nothing.",
  ["inputs"], "all texts",
  "Tests try about a hundred texts; acceptance is a claim about every text and overflow about every value near the limits.",
  ["src/arg_int.c"],
  [("prefix and digits", "src/arg_int.c: strtol0X"), ("suffix and overflow", "src/arg_int.c: arg_int_scanfn")],
  "Differential against an independent exact reference.")
p("C10", "Floating-point values: exactly the texts strtod reads whole are accepted",
  "A floating-point entry accepts a text exactly when the C library's conversion consumes all of it and it is not empty, and stores exactly the converted value. Every other text is refused and stores nothing.",
  ["inputs"], "all texts",
  "Tests try about twenty texts.",
  ["src/arg_dbl.c"], [("conversion and trailing text", "src/arg_dbl.c: arg_dbl_scanfn")],
  "strtod itself is modelled: acceptance by an exact grammar, values by known constants and native validation.")
p("C11", "String and file values are the argument itself, split at the right places",
  "String and file entries accept every text and store the argument itself, not a copy. A file's base name is the part after the last separator (empty for '.' and '..'), its extension the part of the base name from its last dot unless that dot is its first or last character, and both point into the argument.",
  ["inputs"], "all texts", "Tests try about thirty paths.",
  ["src/arg_file.c", "src/arg_str.c"], [("base name", "src/arg_file.c: arg_basename"), ("extension", "src/arg_file.c: arg_extension")],
  "Differential against an independent reference.")
p("C12", "Dates: a value is accepted exactly when its format reads all of it",
  "A date entry accepts a value exactly when the entry's format reads it to its end, each conversion within its documented range, and stores exactly the fields read (%C, %y and %Y all as years since 1900, %p with 12-hour clocks); fields not mentioned stay zero. Any other value is refused, stores nothing, and reading never leaves the value or the format.",
  ["inputs", "configurations"], "all values and formats",
  "Tests use three formats and a few dates.",
  ["src/arg_date.c"], [("format interpreter", "src/arg_date.c: arg_strptime"), ("number reader", "src/arg_date.c: conv_num"), ("whole value consumed", "src/arg_date.c: arg_date_scanfn")],
  "Differential against an independent reference interpreter.")
p("C13", "Regular-expression values: the documented constructs match what they say",
  "A regular-expression entry accepts a value exactly when the whole value matches its pattern, for patterns of literals, '.', character classes and ranges, escapes, groups, alternatives, anchors, word boundaries (words are separated by white space) and the repetitions ?, *, + and {n,m} whose repeated part cannot also match what follows it. Where it can (outside alternatives and repeated groups), this still holds for values in which the repeated part occurs at least once and the one literal character that follows it appears nowhere else; what such a pattern does with other values is not specified. With the ignore-case flag letters match in either case. The accepted value is the argument itself; other values are refused and store nothing.",
  ["inputs"], "all values, for patterns covering every construct, with and without the ignore-case flag",
  "Tests try nine patterns with a value or two each.",
  ["src/arg_rex.c"], [("compiler", "src/arg_rex.c: trex_list .. trex_element"), ("matcher", "src/arg_rex.c: trex_matchnode, trex_match"), ("whole value", "src/arg_rex.c: arg_rex_scanfn")],
  "Differential against an independent backtracking matcher. Whether a repetition gives back what it took is left open by the documentation: the matcher does not backtrack into repetitions.")
p("C14", "No pattern and value make the regular-expression entry unsafe or unsound",
  "For every pattern, well-formed or not, and every value, compiling and matching terminate without memory errors, and the value is either stored or reported as refused. A value is never accepted that the pattern does not match, and a pattern that does not compile accepts nothing: a group or class left open or empty, a range whose ends are reversed or a class of characters, a count that is missing, unclosed or beyond 65535, a repeated repetition, a ')' too many behind something, an alternative missing at the end, a backslash at the end.",
  ["inputs", "configurations"], "all patterns and all values",
  "No test uses a malformed pattern, or an arbitrary one.",
  ["src/arg_rex.c"], [("compiler", "src/arg_rex.c: trex_compile and below"), ("matcher", "src/arg_rex.c: trex_matchnode"), ("use of a failed compilation", "src/arg_rex.c: arg_rex_scanfn")],
  "Soundness differential for well-formed patterns, refusal of listed malformed ones, safety for all.")
p("C15", "Error reports name each error, option and value, in order",
  "The error report has, for every recorded error and in their order, the program name, what was wrong, and the option names and offending value concerned: missing, excess, invalid, overflowing or mismatching value, unknown option, missing value, unexpected argument, too many errors. A clean parse reports nothing, the report to a stream and to a dynamic string are the same text, and no memory is kept.",
  ["inputs"], "all offending values, error kinds, naming styles and numbers of errors",
  "Tests compare about ten messages.",
  ["src/arg_end.c", "src/arg_int.c", "src/arg_dbl.c", "src/arg_str.c", "src/arg_file.c", "src/arg_lit.c", "src/arg_date.c", "src/arg_rex.c", GET],
  [("dispatch to the entries", "src/arg_end.c: arg_print_errors_ds"), ("messages", "src/arg_*.c: arg_*_errorfn, src/arg_end.c: arg_end_errorfn"), ("option notation", "src/argtable3.c: arg_print_option_ds")],
  "Byte-for-byte comparison with an independent composition of the messages.")
p("C16", "Usage lines show every entry once, in the documented notation",
  "The short and the verbose usage line show every entry of the table, in table order, with its names, value type, optional parts in brackets and repetition as its limits say, switches with only a short name clustered in the short form; entries without names and remarks show their type. Texts longer than the internal limits are cut, never overflow, stream and dynamic-string variants produce the same text ending in the given suffix, and no memory is kept.",
  ["configurations"], "all tables of entries: kinds, names, types, limits",
  "Tests print two or three tables.",
  [GET], [("short form", "src/argtable3.c: arg_print_syntax_ds, arg_print_gnuswitch_ds"), ("verbose form", "src/argtable3.c: arg_print_syntaxv_ds"), ("name notation", "src/argtable3.c: arg_cat_option, arg_cat_optionv")],
  "Byte-for-byte comparison with an independent composition.")
p("C17", "Glossaries list exactly the described entries, in table order",
  "The glossary has one line for each entry that has a description, in table order, with its names, type and description in the given column format; the GNU-style glossary lays names and wrapped descriptions out in their columns. Entries without a description do not appear, stream and dynamic-string variants produce the same text, and no memory is kept.",
  ["configurations"], "all tables, descriptions and formats",
  "Tests print two or three tables.",
  [GET], [("glossary", "src/argtable3.c: arg_print_glossary_ds"), ("GNU glossary", "src/argtable3.c: arg_print_glossary_gnu_ds"), ("wrapping", "src/argtable3.c: arg_print_formatted_ds")],
  "Byte-for-byte comparison with an independent composition.")
p("C18", "Wrapped text keeps every word, in order, within its column",
  "Text laid out between two margins contains every word of the text in order and nothing else. No line is longer than the column; lines end where the text has a newline or at white space, and inside a word only when the word is longer than the column; every line after the first is indented to the left margin, the last line is ended and no memory is kept.",
  ["inputs", "configurations"], "all texts, column widths and margins",
  "Tests wrap a few sentences at two widths.",
  [GET], [("line breaking", "src/argtable3.c: arg_print_formatted_ds")],
  "Byte-for-byte comparison with an independent layout.")
p("C19", "A dynamic string always holds exactly the text put into it",
  "After any sequence of set, append, append-character, append-formatted, reset and release operations a dynamic string holds exactly the resulting text, terminated, whatever the lengths and even when the new text is part of the old one. Texts handed over are released exactly once, by the function given for them and no earlier than they are replaced; static texts are never modified, volatile ones are copied, and nothing is leaked.",
  ["histories", "inputs"], "all sequences of operations and text lengths",
  "Tests append a few short texts.",
  ["src/arg_dstr.c"], [("set and ownership", "src/arg_dstr.c: arg_dstr_set, arg_dstr_free"), ("growth", "src/arg_dstr.c: setup_append_buf"), ("append", "src/arg_dstr.c: arg_dstr_cat, arg_dstr_catc, arg_dstr_catf")],
  "History exploration against a reference text.", state=[dict(name="append_data/append_used/append_data_size", meaning="growth buffer", where="src/arg_dstr.c: struct _internal_arg_dstr")])
p("C20", "The hash table is a faithful map for every hash function and history",
  "After any sequence of insertions, removals, changes, lookups and iterator operations, the hash table holds exactly the entries put in and not removed: count, lookup and iteration agree with it, whatever the hash values and while the table grows. Removal, by key or through an iterator, releases the key and the value once; destroying the table releases every key, and the values if asked to, once.",
  ["histories", "inputs"], "all sequences of operations and all hash values",
  "Tests insert and remove a few keys with one hash function.",
  ["src/arg_hashtable.c"], [("buckets and growth", "src/arg_hashtable.c: arg_hashtable_insert, arg_hashtable_expand"), ("removal", "src/arg_hashtable.c: arg_hashtable_remove, arg_hashtable_itr_remove"), ("iteration", "src/arg_hashtable.c: arg_hashtable_itr_*")],
  "History exploration against a reference map.", state=[dict(name="table, entrycount, loadlimit", meaning="chains, number of entries, when to grow", where="src/arg_hashtable.c: struct arg_hashtable")])
p("C21", "A sub-command is found, dispatched and listed exactly as last registered",
  "After any sequence of registrations, re-registrations and removals the registry holds exactly the commands registered and not removed, each with the procedure, description and context last given, found by name, by iterator and in the count. Dispatching calls that command's procedure once with the given arguments and its context and returns its result. The registry copies the texts it is given, which may be the ones it returned itself, and returns all its memory when uninitialised.",
  ["histories", "inputs"], "all sequences of registry operations and names",
  "Tests register three commands once.",
  ["src/arg_cmd.c", "src/arg_hashtable.c"], [("registration", "src/arg_cmd.c: arg_cmd_register, arg_cmd_unregister"), ("dispatch", "src/arg_cmd.c: arg_cmd_dispatch"), ("listing", "src/arg_cmd.c: arg_cmd_itr_*")],
  "History exploration against a reference registry.")
p("C22", "Running out of memory always stops the program through the panic function",
  "Whenever any allocation fails, in any operation, the panic function is called exactly once with the out-of-memory message before anything else happens, and no null result is used or returned. By default it writes the message to standard error and exits with a failure status, or aborts if EF_DUMPCORE is set to a non-empty value; an installed panic function is called instead.",
  ["fault_sequences", "inputs"], "every allocation that can fail, in every operation",
  "No test makes an allocation fail.",
  ["src/argtable3.c", "src/arg_utils.c"], [("checked allocation", "src/arg_utils.c: xmalloc, xcalloc, xrealloc"), ("panic", "src/arg_utils.c: panic, arg_set_panic")],
  "Failure of each allocation is a branch of the exploration.")
p("C23", "Entries are built as asked, complete or reported missing, and freed exactly once",
  "Every constructor returns an entry with exactly the names, type (or the documented default), limits and description given, with no occurrence counted (no error, for the end of a table), empty values and room for as many as its maximum. The table check reports a table with a missing entry and no other; releasing a table frees every entry present once, clears its slots, skips missing entries and touches nothing behind the given number of slots.",
  ["inputs", "configurations"], "all constructor arguments and all subsets of missing entries",
  "Tests construct a few tables, none with a missing entry.",
  [GET, "src/arg_int.c", "src/arg_lit.c", "src/arg_str.c", "src/arg_dbl.c", "src/arg_file.c", "src/arg_date.c", "src/arg_rex.c", "src/arg_rem.c"],
  [("constructors", "src/arg_*.c"), ("null check", "src/argtable3.c: arg_nullcheck"), ("release", "src/argtable3.c: arg_freetable, arg_free")],
  "Symbolic names, limits and missing slots.")
p("C24", "Entries written by the application have their callbacks called as documented",
  "For entries with callbacks of the application: reset is called once for each entry before anything is scanned, scan once per occurrence in order with the value itself, check once for each entry and only if scanning gave no error, and report once per recorded error with its code and value. Absent callbacks are skipped. Callbacks are handed the entry their header names. Whatever non-zero code a callback returns is recorded with the value and entry concerned.",
  ["inputs", "programs"], "all callback results and command lines",
  "No test uses an entry of its own.",
  [GET], [("callback protocol", "src/argtable3.c: arg_reset, arg_parse_tagged, arg_parse_untagged, arg_parse_check"), ("reporting", "src/arg_end.c: arg_print_errors_ds")],
  "The harness's entries record every call; their results are symbolic.")
p("C25", "Help and syntax-error messages are composed of the right parts",
  "The ready-made help message names the module, describes the command if it is registered, and shows usage and options; the syntax-error message shows the errors and usage; both are appended to what the string held. The combined helper makes a message exactly when help was asked for or errors occurred, help taking precedence, and sets the exit code to success for help, failure for errors, and leaves it alone otherwise. Module name and version are the ones last set, and earlier ones are released.",
  ["inputs", "histories"], "all names, versions, descriptions and parse results",
  "No test covers these functions.",
  ["src/arg_cmd.c"], [("messages", "src/arg_cmd.c: arg_make_help_msg, arg_make_syntax_err_msg, arg_make_syntax_err_help_msg, arg_make_get_help_msg"), ("module identity", "src/arg_cmd.c: arg_set_module_name, arg_set_module_version")],
  "Byte-for-byte comparison with an independent composition.")
p("C26", "Sorting a range orders it and only moves whole elements within it",
  "Sorting a range of an array leaves it ordered by the given comparison, holding the same elements, each moved whole. Elements outside the range are untouched and no memory is kept.",
  ["inputs"], "all arrays, ranges, element sizes and comparisons",
  "No test calls it directly.",
  ["src/arg_utils.c"], [("merge sort", "src/arg_utils.c: arg_mgsort, merge")],
  "Symbolic keys.")
p("C27", "The bundled getopt functions read a command line as getopt documents",
  "Called directly, getopt, getopt_long and getopt_long_only return each option in turn with its value, result and entry index (long names in full or as unambiguous abbreviations, setting the entry's variable when it has one), name the offending option for unknown options, missing and unexpected values, and stop at '--'. getopt_long leaves the options first and the other arguments behind them in order, unless '+', '-' or POSIXLY_CORRECT ask otherwise. A scan can be started anew at any point, and error messages appear only when switched on.",
  ["inputs", "histories"], "all command lines and earlier scans",
  "No test calls them; the library uses them in one way only.",
  ["src/arg_getopt_long.c", "src/arg_getopt.h"], [("scan", "src/arg_getopt_long.c: getopt_internal, permute_args"), ("long names", "src/arg_getopt_long.c: parse_long_options")],
  "Comparison with a reference that reads the whole command line at once.")

TECH = "bounded symbolic execution of the real code (clang LLVM IR) with z3"


def main():
    from checks import CHECKS
    ids = [x["id"] for x in P]
    assert ids == list(CHECKS), (ids, list(CHECKS))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({k: v for k, v in x.items() if k != "note"}) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=[dict(
        property=x["id"], quick_cmd="python3 run.py check %s --tier quick" % x["id"], thorough_cmd="python3 run.py check %s --tier thorough" % x["id"],
        evidence_file="evidence/%s.json" % x["id"], technique=TECH, level="model_checking",
        level_note="Every feasible path of the library code within the bounds is enumerated and every assertion and memory access on it decided by the solver. %s Bounds: %s. Trusted: clang's front end, the executor in engine/, the libc models in models/libc.c (sampled paths are re-run natively and compared), z3." % (x["note"], CHECKS[x["id"]]["bounds"]))
        for x in P], not_applicable=[], notes="Own symbolic executor for LLVM IR (engine/vsym.cpp) on z3; harnesses in harness/. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
