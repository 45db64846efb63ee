import json
L={}
def t(ids,tech):
    for i in ids.split(): L[i]={"technique":tech,"note":"randomised generated-input search with shrinking against the stated oracle, sharded over 8 processes; exploration of an unbounded input space, no proof of absence"}
t("P01","property-based differential testing: generated programs run with and without instrumentation, traces compared")
t("P02","grammar-based fuzzing: generated, mutated and deeply nested sources with hostile options; oracle = no crash and acceptance by acorn and V8")
t("P03","property-based testing: invariant between counter updates found in the emitted code and the embedded data")
t("P04 P05 P06 P07","property-based testing against a reference model: the generated program printed with a probe at every construct and run uninstrumented gives the expected counts")
t("P08 P09","property-based testing against a reference model: the printer of the generated program records every construct with its source range; metamorphic layout changes")
t("P10 P12","property-based testing, metamorphic: report with hints or names against the model and against the report without them")
t("P11","property-based testing, differential: hinted file against the output without instrumentation")
t("P13","stateful property-based testing: generated sets of files compiled and evaluated in generated orders and realms against a per-file model")
t("P14","stateful property-based testing, differential: outputs within a generated history against outputs of a fresh process")
t("P15","property-based testing: generated programs and source maps; the four forms of the data compared with each other and the input")
t("P16","property-based testing, round trip: generated options texts against a reference reading")
t("P17","property-based testing of the compiled wasm plugin: generated globs and filenames against a reference matcher")
t("P18","property-based differential testing: compiled wasm plugin against the library pass on the same generated program")
t("P19","property-based differential testing: source map and comments of the output with and without instrumentation")
t("P20 P21 P22 P23 P24 P26 P27 P28","property-based testing: generated coverage objects against a reference model in JavaScript, with algebraic relations")
t("P25","model-based stateful testing: generated operation sequences on coverage maps against a reference model")
t("P29","property-based testing, end to end: runs of generated programs collected as JSON and merged with istanbul-oxide, against summed probe counts and differentially against istanbul-lib-coverage")
json.dump(L,open('/verif/tools/levels.json','w'),indent=1)
