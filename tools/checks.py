SCHED = ["sched/par.cpp", "sched/rt.cpp", "harness/vp.cpp"]
SCHED_MEASURE = dict(states="distinct_traces", transitions="scheduling_decisions",
                     traces="schedules",
                     rule="every schedule of the real code within the bounds; distinct: different orders of synchronisation operations")
CHECKS = {}
META = {}


def sched(pid, note, **k):
    CHECKS[pid] = dict(sources=SCHED, flavour="sched", bin="par", level="model_checking",
                       ldflags=["-no-pie"], measure=SCHED_MEASURE, **k)
    META[pid] = dict(technique="stateless model checking of the implementation under a controlled scheduler (DPOR and preemption-bounded enumeration)", note=note)


SA = ["sequentially consistent memory between synchronisation operations; unsynchronised accesses are reported by the happens-before detector of C02",
      "scheduling points: thread start and end, join, mutex, condition variable, 64-bit atomics (C04) and accesses found racing"]
sched("C01", "All schedules up to equivalence for two-thread evaluations, all schedules within a preemption bound for training steps with 2-4 threads, each compared with the single threaded run of the same code; scenarios are small graphs.", assumptions=SA)
sched("C02", "Vector-clock race and use-after-free detection plus deadlock detection on every explored schedule of the real code; scenarios are small graphs.", assumptions=SA)
sched("C03", "All schedules up to equivalence for 2-3 threads and 2-3 programs, compared with the sequential code.", assumptions=SA)
sched("C04", "All schedules up to equivalence, with every access to a counter as a scheduling point, for two threads; preemption-bounded beyond.", assumptions=SA)


def seq(pid, harness, note, technique="bounded exhaustive exploration of the implementation against a reference model", **k):
    d = dict(sources=["harness/%s.cpp" % harness, "harness/vp.cpp"], flavour="san", bin=harness,
             level="model_checking")
    d.update(k)
    CHECKS[pid] = d
    META[pid] = dict(technique=technique, note=note)
seq("C06", "graph", "Every history of the operation alphabet up to the stated length is executed on the real graph and compared with a list-based model after every operation, under the address and undefined behaviour sanitizers.",
    measure=dict(states="graph_states", transitions="operations", traces="runs", rule="every operation history within the bounds, states merged by the canonical model state"))
seq("C12", "graph", "Every graph shape and data vector of the stated domain is executed by the real engines and compared with a reference inference, with archive content and usage counters.",
    measure=dict(states="outcomes", transitions="inferences", traces="runs", rule="every graph shape, data vector and pair of successive executions within the bounds"))

MUT = dict(wrap=True, sources=["harness/mut.cpp", "harness/draws.cpp", "harness/vp.cpp"])
seq("C07", "mut", "The random draws made by the mutators are turned into decisions and all their outcomes (or all within a number of deviations) are executed on the real code; program contents are fixed there and covered by C08.",
    measure=dict(states="graphs", transitions="transitions", traces="runs", rule="every outcome of the draws within the bounds from each start graph and parameter combination"), **MUT)
seq("C08", "mut", "The random draws made by the mutators are turned into decisions; for the elementary mutations the set of results over all draws is compared with the set computed by a reference, so that both invalid and unreachable results are reported.",
    measure=dict(states="programs", transitions="transitions", traces="runs", rule="every outcome of the draws within the bounds from each start program and parameter combination"), flavour="fast", **MUT)

PR = dict(states="outcomes", transitions="lines_run", traces="executions", rule="every program of the stated spaces on every stated data content")
seq("C09", "prog", "Every program of bounded length over several instruction sets and data layouts is analysed by the real code and compared with an independent data-flow model, and executed with and without its introns; histories of edits are compared with a list.",
    measure=dict(PR, states="programs"))
seq("C10", "prog", "Every program of bounded length over several instruction sets and data layouts is executed by the real engine and compared with a reference interpreter, including engines with a history, other data sources and exceptions.",
    measure=PR)
seq("C11", "prog", "The verdict is computed for every pair of programs of bounded length and compared with the results of the two programs on discriminating data.",
    measure=dict(states="verdicts", transitions="comparisons", traces="comparisons", rule="every pair of programs of the stated spaces"))
seq("C13", "data", "Every history of additions, removals by overflow and clears up to the stated length is executed on the real archive with counted copies of the data, and compared with a list model after every operation; equivalence queries are enumerated in every state.",
    wrap=True, sources=["harness/data.cpp", "harness/draws.cpp", "harness/vp.cpp"],
    measure=dict(states="archive_states", transitions="operations", traces="runs", rule="every history of the stated length, states merged by recordings"))
seq("C14", "data", "Every kind of data handler, dimension, accessed type, address and order of queries within the bounds is compared with an independent model of the layout.",
    wrap=True, sources=["harness/data.cpp", "harness/draws.cpp", "harness/vp.cpp"],
    measure=dict(states="access_patterns", transitions="reads", traces="handlers", rule="every handler, type, address and query order of the stated domain"))
seq("C15", "data", "All contents over small alphabets, and all histories of writes, copies, assignments and redirections up to the stated length, with hashes asked at every subset of moments.",
    wrap=True, sources=["harness/data.cpp", "harness/draws.cpp", "harness/vp.cpp"],
    measure=dict(states="contents", transitions="operations", traces="runs", rule="every content and history of the stated domain"))
seq("C26", "rng", "The distribution template is run on generators of 8 and 16 bits for every range and every output, which gives the exact probabilities; the generator of the library is run on chosen outputs of its engine and on all histories of draws, seedings and copies.",
    flavour="fast", measure=dict(states="ranges", transitions="generator_outputs", traces="draws", rule="every range and every output of the small generators; every listed range and limit output of the real one"))
FI = dict(states="graphs", transitions="operations", traces="imports", rule="every graph, program, history, prefix and damage within the bounds")
seq("C16", "files", "Every graph of the stated domain is exported by the real exporter, imported by the real importer and compared; every prefix of an exported file stands for an interrupted export.",
    flavour="fast", measure=FI)
seq("C17", "files", "Every pair of parameters is set to boundary values, written, and read back over other values; files with few keys and every prefix of a file are read.",
    flavour="fast", measure=dict(FI, states="graphs"))
seq("C18", "codegen", "Every program and graph of the stated domain is translated by the real generators; the code is compiled and executed, and compared with the execution engines on all stated data.",
    flavour="fast", measure=dict(states="generated", transitions="results", traces="results", rule="every program and graph of the stated domain"))
LE = dict(states="states", transitions="operations", traces="episodes", rule="every score, decision of the environment and operation history within the bounds")
seq("C19", "learn", "Every score of the policies and every history of training, evaluation and selection operations within the bounds is executed by the real agents and compared with a model of the selection and of the records after every step.",
    measure=LE)
seq("C20", "eval", "Every decision of the environment (terminal or not, scores) within the bounds is given to the real agents, whose calls are followed by a protocol monitor; every pair of results of small values is combined and compared with a reference.",
    measure=LE)
seq("C21", "eval", "Every sequence of classes and answers within the bounds is played by the real environment and agents, and every table of scores per class of small values is given to the real selection; all compared with references.",
    measure=LE)
seq("C22", "eval", "Every configuration and history of operations within the bounds is executed by the real adversarial agent, with the roots, positions, scores and champions of every evaluation compared with a reference.",
    measure=LE)
seq("C05", "det", "The training is executed under every policy of memory addresses and contents, every listed previous use and observer, and every placement of new programs at addresses of removed ones within a number of deviations, and its complete trace is compared with that of a fresh execution.",
    flavour="fast", measure=LE)
ST = dict(states="states", transitions="operations", traces="runs", rule="every graph, program, execution and history within the bounds")
seq("C23", "stats", "Every graph, program and sequence of executions of the stated domain is analysed by the real code and compared with a declarative reference computed on the model of the graph, printed text and JSON file included.", measure=ST)
seq("C24", "stats", "Every graph and sequence of executions of the stated domain is executed and pruned by the real code; counters, remaining elements and later executions are compared with a model.", measure=ST)
seq("C25", "stats", "The loggers are attached to real agents driven through every score, configuration and history within the bounds, or to every small graph, and what they write is parsed and compared with a reference.", measure=ST)
seq("C27", "env", "Every list of instructions and data sources of the stated domain is given to the real environment with several numbers of registers and constants; the instructions kept, dimensions, sources and copies are compared with a model, under the address sanitizer.", measure=ST)
seq("C28", "refuse", "Every type requested from every kind of pointer, every vector of arguments given to every instruction, and every history of lifetimes, line settings and program edits of the stated domain, values out of range included, is executed by the real code and compared with a model of what is accepted, under the address sanitizer.", measure=ST)
