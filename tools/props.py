import json
IV="packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs"
CH="packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs"
CI="packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs"
SH="packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs"
FL="packages/swc-coverage-instrument/src/macros/visit_mut_for_like.rs"
CV="packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs"
SW="packages/swc-coverage-instrument/src/visitors/switch_case_visitor.rs"
FI="packages/swc-coverage-instrument/src/visitors/finders.rs"
SC="packages/swc-coverage-instrument/src/source_coverage/mod.rs"
DO="packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs"
FD="packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs"
GS="packages/swc-coverage-instrument/src/coverage_template/create_global_stmt_template.rs"
IC="packages/swc-coverage-instrument/src/instrument/create_increase_counter_expr.rs"
IT="packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs"
LR="packages/swc-coverage-instrument/src/utils/lookup_range.rs"
HC="packages/swc-coverage-instrument/src/utils/hint_comments.rs"
OP="packages/swc-coverage-instrument/src/options/instrument_options.rs"
PL="packages/swc-plugin-coverage/src/lib.rs"
FC="packages/istanbul-oxide/src/file_coverage.rs"
CM="packages/istanbul-oxide/src/coverage_map.rs"
CS="packages/istanbul-oxide/src/coverage_summary.rs"
PC="packages/istanbul-oxide/src/percent.rs"
TY="packages/istanbul-oxide/src/types.rs"
SM="packages/istanbul-oxide/src/source_map.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("P01","Instrumented programs behave exactly like the originals",
 "Running the instrumented output of a program produces the same observable behaviour as running the program without instrumentation: same values and exceptions, same order of side effects and evaluation, same function/class names, arities, `this`, generator and async interleavings, and the same strict or sloppy mode. This holds for module and script inputs and under every combination of options. Only the coverage data itself, source text obtained from Function.prototype.toString and stack traces may differ.",
 ["programs","configurations"],"every JavaScript/TypeScript program the compiler accepts (decorators in each of swc's versions and namespaces included), instrumented before or after types and decorators are lowered, every option combination (reportLogic, coverageVariable, ignoreClassMethods, debug comment, compact, hint comments)",
 "Fixture tests compare one returned value for about a hundred hand-written snippets; interactions between nested constructs (a counter inserted inside a switch inside a logical operand inside a default parameter...) form an unbounded product they sample at a handful of points.",
 [IV,CH,SH,FL,SW,CV,IC,IT,FD],
 [("statement counters prepended through the `before` list",SH),("expression wrapping in (counter, expr) sequences",CH),("arrow/loop/if bodies turned into blocks",IV),("reportLogic temp slot",IT),("preamble placement",CV)],
 ["stdout/trace of the executed output vs executed original"])
p("P02","Instrumentation never fails and always emits valid code",
 "For every program the compiler can parse and every option value, instrumenting it succeeds without a crash and the emitted code is accepted by a conforming JavaScript parser under the same goal (module or script). This includes deeply nested, empty, comment-only, JSX and TypeScript sources (also when instrumented before types and decorators are stripped) and filenames, coverage variable names and source maps holding arbitrary characters.",
 ["inputs","configurations"],"every parseable source text in ES, JSX, TS and TSX syntax, module and script goal; every filename, coverage variable, input source map and option set",
 "The fixtures contain small well-formed snippets with benign names; a crash or an invalid output needs a particular nesting or a particular character in a particular place.",
 [IV,CH,SW,DO,FD,LR],[("statement/expression rewriting",IV),("data object emission",DO),("debug comment emission",FD)],["result of the transform; node/acorn parse of the emitted code"])
p("P03","Every counter has exactly one map entry and the reverse",
 "In the emitted code every counter update refers to an entry of the embedded coverage data, and every statement, function and branch-path entry of the embedded coverage data has exactly one place in the code that updates it. The initial object is well formed: ids are numeric, hit maps and location maps have the same keys, each branch has as many counts as locations, truthiness counts exist exactly for the logical-expression branches when logical reporting is on, and every count starts at zero.",
 ["programs","configurations"],"every program and every option set",
 "Tests only check the counts of the fixture programs they run; an orphan entry (which would be reported uncovered for ever) or a counter without an entry (NaN or a TypeError at run time) shows only for particular nestings, ignore hints and branch shapes.",
 [SC,IC,IT,DO,CH,IV,SW],[("id allocation",SC),("pruning of empty branches",SC),("counter emission",IC)],["the emitted code and the coverage object it registers"],
 [("s/f/b/bT maps","counts keyed by id",SC)])
p("P04","Statement counts equal the number of executions",
 "After a program has run, every statement (and initialiser) of the source is reported with a count that equals the number of times it was executed, including zero, abrupt completion, loops, recursion, generators and async code, and no other statement is reported.",
 ["programs","histories"],"every program and every execution path through it",
 "The fixtures assert counts for a few fixed arguments; whether a counter sits at the right place relative to exceptions, breaks, labels, hoisting, switch fallthrough and nested functions depends on every combination of those constructs.",
 [IV,CH,SH,FL,CV],[("prepending of statement counters",SH),("initialiser covering",CH),("loop handling",FL)],["`s` and `statementMap` of the registered object after execution"])
p("P05","Function counts equal the number of calls",
 "After a program has run, every function of the source is reported with a count that equals the number of times its body was entered, for declarations, expressions, arrows, object methods, getters, setters, constructors and class methods (private ones included), sync, async and generator, and no other function is reported.",
 ["programs","histories"],"every program and every execution path through it",
 "Fixtures call a few functions a fixed number of times.",
 [IV,CH],[("function instrumentation",CH),("arrow body conversion",IV),("getter/setter instrumentation",IV)],["`f` and `fnMap` of the registered object after execution"])
p("P06","Branch counts equal the number of times each path was taken",
 "After a program has run, every branch of the source is reported with its paths, and the count of each path equals the number of times it was taken: the then/else side of an if (also when there is no else), the selected side of a conditional, each switch case entered (by match or fallthrough), each operand of a logical expression evaluated, and each default value applied.",
 ["programs","histories"],"every program and every execution path through it",
 "Fixtures cover each branch kind with a couple of argument vectors; nested and mixed branches, empty cases, fallthrough and short-circuit orders multiply beyond what they sample.",
 [IV,CH,SW,SC,FI],[("if wrapping",IV),("switch case counters",SW),("logical leaf search",FI),("conditional/default argument wrapping",CH)],["`b` and `branchMap` of the registered object after execution"])
p("P07","reportLogic counts truthiness exactly and changes nothing else",
 "With logical reporting on, the truthy count of each logical operand equals the number of times the operand evaluated to a truthy value other than an empty array or an empty plain object, each operand being evaluated exactly once. Turning the option on adds only these truthy counts: the statement, function and branch entries and their counts are the same as with it off.",
 ["programs","configurations"],"every program with logical expressions, every operand value",
 "truthy.yaml exercises a handful of operand values in flat expressions; nested operands containing functions, conditionals or further logical expressions are not sampled.",
 [IT,CH,SC],[("temp slot and non-trivial truth test",IT),("b_t bookkeeping",SC)],["`bT`, `b`, `s`, `f` of the registered object, option on vs off"])
p("P08","Every executable statement, function and branch is reported once",
 "Unless a hint or an option excludes it, every executable statement, every function with a body, and every if, conditional, switch case, logical operand and default value of the source has exactly one entry in the coverage data, whatever surrounds it and whatever precedes it in the file.",
 ["programs"],"every program; every position of a construct inside other constructs and after other constructs",
 "Fixture programs place each construct in one or two contexts; an entry that is dropped or duplicated only in a particular context (inside a case, after a logical expression, in a class member, in a default value) is not seen.",
 [IV,CH,SW,CV,SH],[("per-construct visitor methods",IV),("node stack used for hoisting decisions",CI)],["statementMap/fnMap/branchMap of the registered object vs the constructs of the source"])
p("P09","Reported locations and names point at the right source text",
 "Every statement, function and branch location in the coverage data is the 1-based line and 0-based column range of exactly the source text of that construct, function names are the source names, and both are unaffected by layout, preceding text, comments, line-terminator style, non-ASCII text or other files compiled before. For every source, compiler-transformed syntax included, each location lies inside the source text, or is the empty location when the construct is not in the source.",
 ["programs","inputs"],"every program and every layout of it (indentation, blank lines, comments, CR LF, tabs, non-ASCII characters of the basic plane)",
 "Fixtures assert line numbers for a few snippets with one layout and ASCII text.",
 [LR,IV,CH,SC],[("span to range conversion",LR),("range selection per construct",IV),("function naming",SC)],["statementMap/fnMap/branchMap of the registered object"])
p("P10","Ignore hints remove exactly the hinted code from the report",
 "An `istanbul ignore next` comment before a statement, function, class or object member, block, switch case, declarator or default value removes it, with everything inside it, from the coverage data; before a side of a conditional or an operand of a logical expression it removes that branch path; `ignore if` and `ignore else` remove only that side of the if they precede. Everything else in the file keeps the entries and counts it has without the hint, and comments that are not hints have no effect.",
 ["programs","configurations"],"every position of a hint comment in every program, line and block comment style, every hint kind",
 "if-hints.yaml, statement-hints.yaml and ignore.yaml hold a few dozen placements; leakage of a hint to following siblings or to outer constructs depends on what follows it.",
 [HC,CI,IV,CH],[("hint lookup",HC),("ignore state saved and restored around each node",CI)],["coverage data with the hint vs without it"],
 [("should_ignore","hint scope in force",CI)])
p("P11","A file-level ignore hint leaves the file uninstrumented",
 "A file whose opening comments (before any code, after the hashbang if there is one) or closing comments (after all code) contain an `istanbul ignore file` hint is emitted exactly as if no instrumentation had been requested, and registers no coverage. A comment that only resembles the hint, or a hint between other code, does not switch instrumentation off.",
 ["inputs"],"every program, every comment wording and placement",
 "ignore.yaml tests three files.",
 [HC,CV],[("file hint lookup",HC)],["emitted code vs emitted code without instrumentation"])
p("P12","ignoreClassMethods removes exactly the named methods",
 "Methods, accessors, constructors and named function expressions whose name is listed in ignoreClassMethods contribute no statements, functions or branches to the coverage data, and every other construct of the file keeps its entry and count; a name that matches nothing changes nothing.",
 ["programs","configurations"],"every program with classes and every list of names",
 "classes.yaml lists one name against one class.",
 [IV,OP],[("method name lookup",IV)],["coverage data with the option vs without it"])
p("P13","Coverage registers under the right variable and path, isolated per file",
 "Running instrumented files registers, on the global object under the configured coverage variable, one entry per file keyed by its exact filename and carrying that file's data (as soon as the file is loaded, also when nothing in it has run yet), without disturbing entries already there. Any number of files, instrumented in any order in one process and evaluated in any order and any number of times, in separate or one shared scope, each count only into their own entry. Evaluating a file again either adds to its counts or starts them afresh, and never loses the entry or mixes it with another.",
 ["histories","configurations"],"every set of files, filename and coverage variable strings, order of compilation and order of evaluation",
 "Every fixture runs one file alone in a fresh process-like state with a benign name.",
 [FD,GS,CV],[("coverage function and registration template",FD),("global scope lookup",GS),("unique function name per file",FD)],["globalThis[coverageVariable] after evaluation"],
 [("cov fn ident","name of the injected accessor",FD)])
p("P14","Output depends only on source, filename and options",
 "Instrumenting the same source with the same filename and options always yields the same output, whatever other files were instrumented before in the same process and however often; logging options have no effect on the output.",
 ["histories","configurations"],"every sequence of instrumentation requests in one process",
 "Tests instrument each fixture once and never compare outputs across histories.",
 [FD,SC,DO,CV],[("coverage function naming",FD),("hash of the data object",DO),("ordered maps",SC)],["emitted code"],
 [("process-wide cells","state surviving between files",FD)])
p("P15","Embedded coverage data is complete: maps, source map, debug comment and hash",
 "The coverage data embedded in the code, the data in the debug comment put in the comment table (when requested) and the data model's own JSON form are the same data, the input source map given in the options is carried through without loss, and the schema marker identifies it. Two files whose coverage data differ carry different hashes, and equal data carry equal hashes.",
 ["programs","configurations"],"every program and every source map (optional fields, null contents, arbitrary strings)",
 "Unit tests build the object from hand-made records and look at its printed syntax; one fixture has one source map.",
 [DO,FD,SM,SC,OP],[("data object builder",DO),("debug comment",FD),("source map serialisation",SM)],["registered object; parsed debug comment; embedded hash"])
p("P16","Options text is read faithfully with documented defaults",
 "Any options object with known fields is read with exactly the given values, omitted fields take the documented defaults independently of the others, unknown fields are tolerated, and reading back the written form yields the same options.",
 ["configurations"],"every subset of fields and every value of each",
 "No test reads options text.",
 [OP,SM],[("serde defaults and camelCase names",OP)],["options written back as JSON; behaviour of the transform"])
p("P17","The plugin excludes exactly the files matching the exclude globs",
 "With exclusion globs configured, the plugin returns a file unchanged exactly when its filename matches one of the globs, treating forward and backslash separators in globs and filenames alike and disregarding a Windows drive or share prefix; all other files are instrumented as if no globs were given, and an unparsable glob list is ignored.",
 ["configurations","inputs"],"every glob list and every filename in plain form (no empty, `.` or `..` components), POSIX or Windows style",
 "One unit test normalises five paths; nothing exercises matching or the plugin entry point.",
 [PL],[("glob matching",PL),("path normalisation",PL)],["program returned by the compiled plugin"])
p("P18","The plugin produces what the library pass produces",
 "For every program, filename and options text, the compiled plugin returns the same program as the library's own instrumentation pass with those options; a missing filename or missing or malformed options fall back to the default name and default options instead of failing.",
 ["programs","configurations"],"every program, filename and options text including malformed ones",
 "The end-to-end tests need a JavaScript compiler host and sample the fixtures only.",
 [PL,CV,OP],[("plugin entry point",PL)],["program returned by the compiled plugin vs the library pass"])
p("P19","Source positions and comments survive instrumentation",
 "In the instrumented output every identifier, keyword and literal of the source still maps, through the source map the compiler emits, to the place in the source it maps to without instrumentation, so that stack traces and debuggers of an instrumented run point at the right place; and every comment of the source that is emitted without instrumentation is emitted with it, once, in the same order and before the same piece of source.",
 ["programs","configurations"],"every program and every layout and placement of comments, with and without logical reporting",
 "No test emits a source map or a comment; a node that is rebuilt with another span, or whose comments are taken along, shows only for particular constructs.",
 [IV,CH,SH,FL,CV,IC,IT],[("rewriting of statements and expressions",IV),("wrapping of expressions",CH),("arrow, loop and if bodies turned into blocks",IV)],["source map and comments of the emitted code, with and without instrumentation"])
p("P20","Merging file coverage adds counts per source location and loses nothing",
 "Merging one file's coverage into another yields exactly the union of the statements, functions and branches of both, identified by their source location, with counts added where both have the location and kept where only one has it, branch path by branch path. Location maps and counts stay consistent with each other and the merged-in object is unchanged.",
 ["inputs","histories"],"every pair of coverage objects of a file (no location twice within one object), with overlapping, disjoint or identical maps and any numbering",
 "Unit tests merge three hand-made pairs.",
 [FC],[("location keyed merge",FC)],["fields of the merged coverage"])
p("P21","Merged truthiness counts follow their branches",
 "Merging coverage carrying logical-truthiness counts adds the truthy counts branch by branch and path by path for the same logical expression, never attributes them to another branch, and keeps them when only one side has them, whatever the branch numbering on either side.",
 ["inputs","histories"],"every pair of coverage objects with truthiness counts, including mixed branch kinds and differing numberings",
 "One unit test merges objects with a single, equally numbered logical branch.",
 [FC],[("truthiness merge",FC)],["bT of the merged coverage"])
p("P22","Merging is order independent, with empty and all-files stubs neutral",
 "Up to renumbering, merging any set of coverage objects of a file gives the same result in every order and grouping; an object with no entries changes nothing, and a placeholder produced for a never-loaded file never changes real data and is replaced by it.",
 ["histories"],"every multiset of coverage objects (no location twice within one object) and every merge order and grouping",
 "Unit tests merge in one order.",
 [FC,CM],[("merge",FC)],["fields of the merged coverage, compared by location"])
p("P23","Line, uncovered-line and per-line branch reports match the counts",
 "Line coverage maps each line on which a statement starts to the largest count among those statements, the uncovered lines are exactly the lines with zero, and per-line branch coverage reports for each line all branch paths of the branches on it with the covered number and percentage.",
 ["inputs"],"every coverage object",
 "Unit tests use one hand-made object each.",
 [FC,"packages/istanbul-oxide/src/coverage.rs"],[("line map",FC),("branch-by-line map",FC)],["results of the line and branch reports"])
p("P24","Summary totals and percentages are exact and never round up to 100",
 "A file summary's totals are the numbers of lines, statements, functions, branch paths and truthy branch paths, covered is the number of those with a positive count, and the percentage is covered over total truncated to two decimals, 100 for an empty category and 100 only when everything is covered. Percentages are exact for every pair of counts in the 32-bit range.",
 ["inputs"],"every coverage object and every covered/total pair",
 "Unit tests check two percentages and two objects.",
 [FC,PC,CS],[("totals",FC),("percentage",PC)],["summary values"])
p("P25","Coverage map behaves as a path-keyed collection of merged files",
 "Through any sequence of additions, merges of whole maps, filters and lookups, a coverage map holds exactly one entry per file path in first-insertion order, equal to the merge of everything added for that path and not filtered away; inputs are never modified.",
 ["histories"],"every sequence of operations on coverage maps",
 "Unit tests perform one operation each on empty files.",
 [CM,FC],[("add/merge/filter",CM)],["files, per-file coverage and summary of the map"])
p("P26","Combined summaries equal the summary of the sum",
 "Combining summaries adds total, covered and skipped per category and recomputes each percentage from the sums, in any order and grouping, and truthy branch totals present on either side are kept; the summary of a coverage map is the combination of its files' summaries.",
 ["histories","inputs"],"every multiset of summaries and every combination order",
 "One unit test combines two summaries.",
 [CS,CM,PC],[("summary merge",CS)],["summary values"])
p("P27","Coverage data survives JSON unchanged",
 "Coverage data written as JSON has the field names and shapes Istanbul tools expect and reads back equal, and any Istanbul-shaped coverage JSON, with or without the optional fields, is read with nothing lost.",
 ["inputs"],"every coverage object as Istanbul's instrumenter or this one writes it: any names, paths, locations, counts, branch kinds, optional fields",
 "Unit tests never read or write JSON.",
 [FC,TY,SM,"packages/istanbul-oxide/src/range.rs"],[("serde derives",FC),("branch type names",TY)],["JSON text and the object read back"])
p("P28","Resetting hits zeroes every count and nothing else",
 "Resetting a coverage object sets every statement, function, branch-path and truthy count to zero and leaves locations, names, path, shapes and metadata unchanged; merging runs after a reset gives the same result as merging them into the original zero object.",
 ["inputs","histories"],"every coverage object and every merge/reset history",
 "One unit test resets one object.",
 [FC],[("reset",FC)],["fields after reset"])
p("P29","Coverage of many runs collects, adds up and totals exactly",
 "The coverage a program leaves after a run can be written as JSON and read by the coverage data model. Adding the coverage of any number of runs of any number of instrumented programs to coverage maps, in any order and grouping, gives for every file and every statement, function, branch path and truthy count the sum of what was executed in all runs, and the totals and percentages of the map are those of these sums, the same as Istanbul's own tools find in the same JSON.",
 ["programs","inputs","histories"],"every set of programs, every set of runs of them with any inputs, every order and grouping of the merges, reportLogic on and off",
 "No test carries the coverage of an executed program into the data model: the instrumenter's fixtures stop at one run, and the data model's tests use hand-written objects with a handful of entries.",
 [DO,IC,FC,CM,CS],[("embedded data and counters",DO),("merge by location",FC),("map of files",CM),("totals",CS)],["JSON of the coverage global after each run; coverage map and summary after merging"])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d)+'\n')
print(len(P))
