#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The one place the property texts are edited."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FL = ["handlers/flash/handler.go", "handlers/flash/composer.go", "handlers/flash/pools.go"]
SL = ["handlers/sloggy/handler.go", "handlers/sloggy/composer.go"]

add("H01", "Derived loggers are isolated from their siblings and parents",
 "What a flash or sloggy logger writes for a record depends only on the With/WithGroup calls on its own derivation path and on that record. Deriving or using any other logger from the same root, in any order, before or after, never changes it, and neither does logging any other record.",
 ["histories", "schedules"], "every history of With, WithGroup and log calls over a tree of loggers sharing ancestors, including concurrent derivation and use",
 "The tests derive one logger at a time and log through it immediately; leaks between siblings need two derivations from one parent followed by use of the older one, with particular attribute sizes.",
 FL + SL, [("WithAttrs/WithGroup copy the derived state", "handlers/flash/handler.go WithAttrs, WithGroup; handlers/sloggy/handler.go WithAttrs, WithGroup"), ("pooled buffers and composers", "handlers/flash/pools.go")],
 [("prefix/suffix/groups", "pre-rendered attributes, closing braces and open group names of a logger", "handlers/flash/handler.go Handler")], "bytes handed to the io.Writer")
add("H02", "A record is rendered as exactly the tree its calls describe",
 "Each enabled record logged through flash or sloggy becomes one JSON object holding, in order, time (unless zero), level, msg and source (when requested and known), then every attribute of With calls and of the record, nested in the groups opened before it. Attributes without key and value are dropped, groups without any rendered content (however nested, whether from WithGroup, a group attribute or a value that resolves to a group) are omitted, unnamed groups are inlined, and no attribute is lost, duplicated, reordered or moved to another group.",
 ["programs", "inputs"], "every derivation path and every attribute tree of any depth and width, with empty attributes, empty groups and unnamed groups at any position",
 "The suite samples about forty fixed programs; separators, group closing and empty-group removal interact combinatorially with where the empties sit.",
 FL + SL, [("group elision", "handlers/flash/group.go Handle; handlers/sloggy/group.go Handle"), ("attribute composition", "handlers/flash/composer.go addAttribute, addGroup; handlers/sloggy/composer.go")],
 None, "bytes handed to the io.Writer")
add("H03", "Every record is one valid JSON line and text round-trips",
 "Whatever bytes appear in the message, in keys, in group names or in string-like values, every record flash or sloggy writes is a syntactically valid JSON object on a single line followed by exactly one line terminator. Decoding it gives back precisely the original text wherever that text is valid UTF-8, and replacement characters only where it is not.",
 ["inputs"], "all byte strings, including control characters, quotes, truncated and overlong UTF-8 sequences and noncharacters, in every position where text can occur",
 "Escaping is a byte-level state machine; tests use a short list of escape examples, all of them well-formed UTF-8.",
 ["handlers/flash/composer.go", "handlers/sloggy/composer.go"], [("string escaping", "handlers/flash/composer.go addEscaped; handlers/sloggy/composer.go addString"), ("line framing", "handlers/flash/handler.go Handle; handlers/sloggy/handler.go Handle")], None, "bytes handed to the io.Writer")
add("H04", "Attribute values are rendered faithfully for every kind",
 "In flash and sloggy a value logged under a key decodes to that same value: integers, unsigned integers and finite floats exactly, booleans as booleans, times as RFC 3339 with nanoseconds, durations as integer nanoseconds, errors, stringers and marshalers as their text, and other values as their JSON encoding. LogValuers are resolved repeatedly wherever they occur, and values JSON cannot represent become a string instead of breaking the record.",
 ["inputs"], "all values of every slog kind, including extremes of the numeric ranges, NaN and infinities, nested LogValuers, and each kind both in With attributes and in record attributes, at top level and in groups",
 "Rendering is written by hand per kind and per position; tests log a handful of ordinary values.",
 ["handlers/flash/composer.go", "handlers/sloggy/composer.go"], [("per-kind rendering", "handlers/flash/composer.go addAttribute, addAny; handlers/sloggy/composer.go addAttribute, addAny")])
add("H05", "ReplaceAttr sees every leaf once with its group path and its result is final",
 "For flash and sloggy a ReplaceAttr function is consulted once for each basic field and each non-group attribute with the resolved value and the exact list of open groups (empty for the basic fields), and never for a group itself. The attribute it returns is what is rendered, with any LogValuer in it resolved, an empty attribute removes the field, and a group left without content disappears.",
 ["programs", "inputs"], "every derivation path and attribute tree combined with functions that rename, replace, remove or expand attributes by key and group path",
 "Tests exercise a few fixed functions on one chain of groups; wrong paths show only for inline or nested groups and for attributes named like the basic fields.",
 FL + SL, [("replacement in attribute composition", "handlers/flash/composer.go addAttribute; handlers/sloggy/composer.go addAttribute")], None, "arguments seen by the ReplaceAttr function and bytes handed to the io.Writer")
add("H06", "Concurrent records never interleave, tear, vanish or repeat",
 "However many goroutines log through loggers derived from one flash or sloggy handler, the shared writer receives each record exactly once, as one contiguous complete line in a single write, and writes never overlap. Each line carries only its own record's data, whatever else is being composed at the same time.",
 ["schedules"], "every interleaving of composing and writing records by any number of goroutines using the same logger or different loggers derived from one handler",
 "The tests log from one goroutine; torn lines and reuse of a pooled buffer still in use depend on the schedule.",
 FL + SL, [("write under a shared mutex", "handlers/flash/handler.go Handle; handlers/sloggy/handler.go Handle"), ("buffer and composer pools", "handlers/flash/pools.go")],
 [("mutex", "serializes writers of all handlers derived from one root", "Handler.mutex")], "calls of the io.Writer's Write")
add("H07", "Level gating follows the configured level at every moment",
 "A flash or sloggy logger and everything derived from it emits a record exactly when its level is at or above the level configured at that moment, INFO if none was configured, following a dynamic level variable immediately and regardless of context cancellation. The rendered level is the standard name of that level, including offsets such as INFO+2.",
 ["histories", "configurations"], "every integer level, every static or dynamic level configuration and every history of level changes interleaved with derivation and logging",
 "Levels are integers and the threshold may change between derivation and use; tests probe four named levels and one change.",
 FL[:2] + SL[:2] + ["handlers/flash/extras.go"], [("Enabled", "handlers/flash/handler.go Enabled; handlers/sloggy/handler.go Enabled"), ("level names", "handlers/flash/handler.go Handle; handlers/flash/extras.go fixExtras")])
add("H08", "Failures stay confined to the record that failed",
 "When the writer fails or a value being logged panics, flash and sloggy report it to the caller of that record only (error result or the panic itself) and every later record through any related logger is complete and correct. A value that cannot be marshaled is shown as an error text in its own field and harms neither the other fields of the record nor later records, also when it was attached with With.",
 ["fault_sequences", "histories"], "every sequence of writer errors, partial writes, marshal errors and panics in user code at any point of any record, interleaved with good records",
 "A fault leaves its damage in pooled buffers, locks or pre-rendered prefixes, to be seen only by records logged afterwards; the tests inject no faults.",
 FL + SL, [("error paths of Handle", "handlers/flash/handler.go Handle; handlers/sloggy/handler.go Handle"), ("marshaling", "handlers/flash/composer.go addAny; handlers/sloggy/composer.go addAny")])
add("H09", "Handler configuration is honored and never written back",
 "Creating or using flash or sloggy handlers never modifies the option structures the caller passed, so handlers built from shared or reused options do not influence each other. A flash handler uses exactly the configured field names, level names and time format, with each unset one falling back to its documented default.",
 ["configurations", "histories"], "every combination of set and unset options and extras, shared between any number of handlers created in any order, with records of every level",
 "Tests check defaults once per field and one full override; they never reuse a structure or mix set and unset entries.",
 ["handlers/flash/extras.go", "handlers/flash/handler.go", "handlers/sloggy/handler.go"], [("fixExtras", "handlers/flash/extras.go fixExtras"), ("fixOptions", "handlers/flash/handler.go fixOptions; handlers/sloggy/handler.go fixOptions")])
add("H10", "The trace handler reports every call once, in order, with its depth",
 "The trace handler accepts every level and prints exactly one line for each Enabled, Handle, WithAttrs and WithGroup call, in call order, naming the call and its argument (texts without line breaks appear as they are). The line is indented by the handler's initial indent plus one step for each derivation on its path, independent of sibling handlers.",
 ["histories"], "every history of calls over a tree of derived trace handlers", "There is no test for this handler; depth depends on the derivation path, not on the call sequence.",
 ["handlers/trace/handler.go"], [("show", "handlers/trace/handler.go show, recordImage, WithAttrs, WithGroup")], None, "standard output")
add("R11", "Replacement functions touch exactly the attributes they name",
 "A function built by the replace package changes an attribute only if its key matches (ignoring case only when asked to) and its group check accepts the group path, and then only in the advertised way: new key, new value, changed letter case, or removal. All other attributes pass through unchanged, and Multiple applies its functions left to right on each other's results until one removes the attribute.",
 ["inputs", "programs"], "all keys, values, group paths and compositions of the provided functions, nested to any depth", "Composition order, early removal and matching on rewritten keys multiply; tests use one composition.",
 ["replace/change.go", "replace/multiple.go", "replace/group.go"], [("checkFieldGroups", "replace/change.go"), ("Multiple", "replace/multiple.go")])
add("G12", "Each gin write becomes one log record of the right level and text",
 "Every write to a gin writer produces exactly one record through the default logger (besides a debug notice when traffic parsing is on and the line is no traffic), carrying the text left after the recognized prefixes, the timestamp column and trailing newlines are removed, at the level those prefixes or else the options select, and reports all bytes as consumed. Text with an unknown bracketed level is refused with an error and without a record.",
 ["inputs", "configurations", "histories"], "every sequence of up to ten prefixes in any order, every configured level including dynamic and non-standard ones, and every order of writes",
 "Prefix stripping is a loop over alternatives whose order and count matter; tests use real-world lines with one or two prefixes and constant levels.",
 ["gin/writer.go"], [("Write", "gin/writer.go Write")])
add("G13", "Gin traffic lines yield all five fields, other lines pass through",
 "With traffic parsing on, a line of status, elapsed time, client and request columns becomes a record with the configured message, level and grouping that carries code, elapsed, client, method and URL exactly as in the line. Any other line, including one with a malformed status or column count, is logged as plain text instead of being lost or partly parsed.",
 ["inputs", "configurations"], "all column contents and spacings, and every combination of traffic options", "Column content is arbitrary client-controlled text; tests parse two sample lines.",
 ["gin/parser.go", "gin/writer.go"], [("Parse", "gin/parser.go Parse"), ("traffic handling", "gin/writer.go Write, NewWriter")])
add("W14", "A warning manager reports exactly the warnings added to it",
 "After any history of calls a warning manager lists each warning that was added once, with its level, its count and its instances in order of addition, ordered from most to least severe and then by name. 'Unused' notices survive only for warnings that never occurred, reading the list does not change it, and a warning counts as expected exactly when it was declared warn-only. The closing summary of all managers lists each warning shown with exactly the managers that reported it.",
 ["histories"], "every sequence of predefine, warn-only, add, skip and report calls, with reports taken in the middle of the history", "Tests never drive a manager through a history; pruning, counting and sorting depend on the whole of it.",
 ["infra/warning/manager.go", "infra/warning/warning.go", "infra/warning/level.go"], [("GetWarnings, AddWarningFnText, SkipTestIf", "infra/warning/manager.go")], [("warnings", "instances per warning name", "infra/warning/manager.go Manager")])
add("W15", "A printed warning report reads back as the same warnings",
 "Parsing the report a warning manager prints recovers, for its handler, exactly the warnings reported, with their severity, number of instances, test function, text and log record. This holds for any number of managers printed one after another, for handlers without warnings, for texts of several lines (blanks around a line aside) and for log records that are JSON objects.",
 ["histories", "inputs"], "every content of one or more warning managers, including empty ones, multi-line texts and records", "Printer and parser live in different packages and are tested separately on one sample; the format is ambiguous for many texts.",
 ["infra/warning/manager.go", "internal/data/warnings_parser.go", "internal/data/warnings.go"], [("ShowWarnings", "infra/warning/manager.go ShowWarnings"), ("ParseWarningData", "internal/data/warnings_parser.go")])
add("V16", "The verification suite convicts exactly the faulty behavior",
 "Run against a handler whose only deviations are known, the verification suite passes every test the deviations do not concern and fails each test they do. With the matching warn-only setting, the tests that watch for it pass and report that warning instead, and only settings that are made are reported. A conforming handler passes every test without a warning, and a warn-only setting it does not need is reported as unused by the tests that watch for it. The recorded defects of some tests (known findings) are excepted.",
 ["configurations", "programs"], "every combination of handler defects in a catalogue covering each warning the suite can issue, with and without warn-only settings", "The suite is only ever run on real handlers, so nothing shows that it would notice a defect or that it does not blame a correct handler.",
 ["verify/tests/slogtest.go", "verify/tests/documented.go", "verify/tests/replace.go", "verify/tests/other.go", "verify/tests/complex.go", "verify/tests/checks.go", "verify/tests/duplicate.go"], [("test functions and checks", "verify/tests/*.go")])
add("V17", "The benchmark suite's record checks accept only correct output",
 "For every benchmark that checks output, the check accepts the record a conforming handler writes and reports a problem when the record lacks a field the benchmark expects, has a wrong value for it, nests it wrongly or, with attributes, contains a top-level field twice. A disabled log call counts as correct only if nothing was written, the logging benchmark needs every one of its lines, and a run in which a benchmark's lines are lost or doubled fails.",
 ["inputs", "configurations"], "every benchmark of the suite combined with every single-field corruption of its expected record", "The checks are themselves test code that only ever sees correct handlers.",
 ["bench/tests/checks.go", "bench/tests/benchmarks.go", "bench/tests/data.go", "bench/tests/suite.go"], [("verify functions", "bench/tests/checks.go"), ("suite driver", "bench/tests/suite.go")])
add("D18", "Parsed benchmark data holds exactly the lines of the input",
 "After parsing benchmark output, the record of a handler and test carries exactly the numbers of its last data line, and lookup by test and lookup by handler always agree. Lines that are no benchmark data add nothing, comment lines are kept as warning text in order (leading blank ones aside), and the order of lines for different handler and test pairs does not matter.",
 ["inputs", "histories"], "every sequence of benchmark (names without blanks), definition, comment and unrelated lines, with optional columns present or absent, parsed in one or several passes", "Two tables are filled separately from optional columns matched by patterns; only a sample file is ever parsed.",
 ["internal/data/bench_parser.go", "internal/data/bench.go", "internal/data/tags.go"], [("ParseBenchmarkData", "internal/data/bench_parser.go")], [("byTest, ByHandler", "the two indexes of the same records", "internal/data/bench.go")])
add("D19", "Parsed warnings from all sources add up in every view",
 "After parsing warning reports from any number of sources, every reported instance appears exactly once under its handler and once under its test, with its severity, warning, text and log record, and the per-warning counts, handlers and tests equal what the instances imply. A handler reported without warnings in one source keeps what other sources said about it, and no input makes parsing crash.",
 ["inputs", "histories"], "every sequence of report blocks, summaries, empty reports and unrelated lines in one or more sources, in any order", "The parser is a line-driven state machine with state carried between lines; the test feeds it one well-formed sample.",
 ["internal/data/warnings_parser.go", "internal/data/warnings.go"], [("ParseWarningData", "internal/data/warnings_parser.go"), ("views", "internal/data/warnings.go")])
add("D20", "Loaded data can be queried by concurrent requests",
 "Once loaded, benchmark data, warning data and scores may be queried from any number of goroutines at the same time, as web requests do. Every query returns the same complete, duplicate-free, sorted answer it would return alone, and no access conflicts with another.",
 ["schedules"], "every interleaving of first and later queries over the loaded data by concurrent readers", "Query results are computed lazily on first use; sequential tests never overlap two first uses.",
 ["internal/data/bench.go", "internal/data/warnings.go", "internal/data/tags.go", "internal/scoring/axis/benchmarks.go", "internal/scoring/axis/warnings.go", "internal/scoring/score/keeper.go", "internal/markdown/html.go"], [("lazy caches", "internal/data/bench.go HandlerTags, TestTags, HandlerLookup; internal/data/warnings.go; internal/data/tags.go Name")])
add("J21", "The field counter counts top-level fields of any JSON object",
 "For every valid JSON object the field counter reports exactly its top-level field names, how many there are, and which occur more than once and how often, whatever the nesting, spacing and values; a top-level object named 'fields' is counted by its members. Text that breaks off or violates the structure it checks is reported as an error and never crashes it.",
 ["inputs"], "all JSON objects of any depth with any strings, numbers and white space, and their corruptions", "It is a hand-written parser whose states are reached only by particular token sequences; tests count four documents.",
 ["internal/json/field.go"], [("Parse", "internal/json/field.go Parse, parseObject, parseValue, parseNumber, parseString")])
add("S22", "Benchmark scores are sound rankings between 0 and 100",
 "For any benchmark data and weights, each handler's score for a test in which handlers differ lies between 0 and 100 (up to floating-point rounding), is 100 if it is best and 0 if it is worst in every weighted measure, never improves when one of its measures gets worse, and does not depend on input order. Measures in which all handlers are equal carry no weight and tests without any other measure have no score, tests outside the selection have no influence, and every overall score is the weighted average of its parts.",
 ["inputs", "configurations"], "all tables of measurements and weights, including ties, zeros, missing tests and single handlers, with any test selection", "Scoring divides by ranges that can be empty and averages over whatever is present; one data file is tested.",
 ["internal/scoring/axis/benchmarks.go", "internal/scoring/axis/bench/data.go", "internal/scoring/axis/common/range.go", "internal/scoring/score/average.go"], [("Setup", "internal/scoring/axis/benchmarks.go Setup"), ("ranges", "internal/scoring/axis/common/range.go")])
add("S23", "Warning scores reflect the share of warnings a handler avoids",
 "For any warning data and level weights, a handler's warning score lies between 0 and 100, is 100 exactly if it has no weighted warning, falls with each further distinct warning in proportion to that level's weight, and ignores how often a warning repeats. Handlers with the same set of warnings get the same score, and the order of input does not matter.",
 ["inputs", "configurations"], "all assignments of warnings to handlers and all level weights", "The score depends on the union of warnings over all handlers; tests do not vary it.",
 ["internal/scoring/axis/warnings.go", "internal/scoring/axis/warn/original.go", "internal/scoring/axis/warn/data.go"], [("Setup", "internal/scoring/axis/warnings.go Setup")])
add("S24", "Keepers select and list exactly what their filters say",
 "A filter keeps a handler exactly when it is named by the filter's items or nested groups (include) or not named (exclude), and a keeper lists, in order, exactly the benchmarked handlers its filter keeps. Registered keepers are found by tag, duplicates are refused without replacing the first, and the list of tags is sorted with the specially marked ones last after any sequence of registrations.",
 ["histories", "configurations"], "all filter groups with nesting, all sets of handlers, and every sequence of registrations and listings", "Lists are cached and filters compose; tests check a few filters and no registration history.",
 ["internal/scoring/score/filter.go", "internal/scoring/score/keeper.go"], [("Keep", "internal/scoring/score/filter.go"), ("AddKeeper, Keepers, Setup", "internal/scoring/score/keeper.go")])
add("T25", "The tabular report shows every measurement once, in the right place",
 "For any benchmark and warning input the tabular command prints one table per test with one row per handler that ran it, showing that handler's own numbers, tests and handlers in order, followed by the warnings of each handler. Nothing from the input is missing, repeated or attributed to another handler or test.",
 ["inputs"], "all benchmark inputs with missing combinations and all warning inputs", "The command has no tests at all; its output depends on both parsers and all orderings.",
 ["cmd/tabular/tabular.go", "internal/data/bench.go", "internal/data/warnings.go", "internal/language/setup.go"], [("main", "cmd/tabular/tabular.go")], None, "standard output of the command")
add("P26", "Every server page shows exactly the loaded data of what it names",
 "For any benchmark and verification output the server has loaded, each of its pages shows exactly what was loaded about the handler, test, check, score keeper or text file its address names: the same numbers, warnings, records, references and scores, under the right names, each once, and as text whatever characters they contain. Its menus and links lead to every page there is and to no page without content, and what is shown does not depend on the pages asked for before or at the same time.",
 ["inputs", "histories", "schedules"], "all input files, with handlers and tests missing from either, any names and texts, and every order of requests by concurrent clients", "The server and its page templates have no tests; their output depends on two parsers, several lazily filled caches and the characters in names and messages.",
 ["cmd/server/server.go", "cmd/server/text.go", "cmd/server/pages", "cmd/server/parts", "internal/data/bench.go", "internal/data/warnings.go", "internal/markdown/html.go"],
 [("pages", "cmd/server/server.go pageFunction"), ("templates", "cmd/server/pages"), ("warnings by handler and test", "internal/data/warnings.go ForHandler, ForTest")], None, "bodies of the server's responses")
add("C27", "A chart shows exactly the values of what it names, whoever asks first",
 "For any loaded data, the bar chart of a handler or test and a measure has one labelled bar per record, as long as that measure's value on the chart's scale, and the score chart of a keeper and size has one labelled point per handler the keeper lists within that size, at its two scores. This does not depend on which charts were drawn before or are drawn at the same time.",
 ["inputs", "histories", "schedules"], "all benchmark inputs, names, measures, keepers and sizes, and every order of requests by concurrent clients", "Charts are kept after they are first drawn and have no tests; a chart kept under the wrong key is only seen in a second request.",
 ["cmd/server/chart/bar.go", "cmd/server/chart/score.go", "cmd/server/chart/cache.go"], [("kept charts", "cmd/server/chart/cache.go Cache"), ("Bar", "cmd/server/chart/bar.go"), ("Score", "cmd/server/chart/score.go")], None, "SVG text of the server's responses")
add("K28", "Loggers from every bundled creator follow the options they were made with",
 "A logger made by any bundled creator, and any logger derived from it, writes each record whose level is at least the one its options name at that moment (also after a slog.LevelVar changed, in either direction) as one JSON line with its message, level, time, source where asked for and attributes, to the writer it was made for and nowhere else; records below are dropped and Enabled says so. Repeated keys come out as the creator promises: the deduplicating creators keep the first or last value, a list of all, or numbered keys, by their mode, and those without deduplication keep them all. Loggers of different creators, writers and options do not influence each other, and the caller's options are not changed.",
 ["inputs", "configurations", "histories"], "every bundled creator that can be built, all options and level changes, all derivations and attribute lists with repeated keys, standard levels", "The suites make one logger at a time with a fixed level, and what a creator does with an option that changes later depends on the history of calls.",
 ["infra/creator.go", "creator/samberzap/creator.go", "creator/samberlogrus/creator.go", "creator/samberzerolog/creator.go", "creator/veqryndedup/creator.go", "creator/utilzap/conversion.go", "creator/utillogrus/conversion.go", "creator/madkinsreplattr/creator.go"],
 [("NewLogger, NewHandler", "infra/creator.go"), ("handlerFn", "creator/*/creator.go"), ("modes", "creator/veqryndedup/creator.go handler")], None, "lines in the writer, Enabled, the options passed")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
