# The properties, one entry each; tools/gen.py writes properties.jsonl and MANIFEST.json from this table.
L = "gegelatilib/"
P = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [L + f for f in files],
                     "mechanism": [{"name": n, "where": L + w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": L + w} for n, m, w in state]
    P[id] = d


prop("C01", "Parallel evaluation and training give the single-threaded result",
     "Whatever the number of evaluation threads and however they are interleaved, evaluating the roots of a graph or training one or more generations leaves the same scores per root, the same archive content and order, the same graph, best root, records per root and random generator state as the single-threaded run. This holds for the standard, classification and adversarial agents, in training, validation and testing mode.",
     ["schedules", "configurations"], "all interleavings of the evaluation threads; thread counts, agents, archive sizes and probabilities, iteration counts, modes",
     "The tests compare one free-running parallel run with a sequential one: they sample a single interleaving of a short run and cannot see one where a late job, an archive merge or a shared generator depends on the order of threads.",
     ["src/learn/parallelLearningAgent.cpp", "src/learn/adversarialLearningAgent.cpp", "src/learn/learningAgent.cpp", "src/archive.cpp"],
     [("jobs with a pre-drawn archive seed and index", "src/learn/parallelLearningAgent.cpp:slaveEvalJobThread"),
      ("ordered merge of the archives", "src/learn/parallelLearningAgent.cpp:mergeArchiveMap"),
      ("results collected in job order", "src/learn/parallelLearningAgent.cpp:evaluateAllRootsInParallelCompileResults")],
     [("jobsToProcess", "queue of jobs shared by the threads", "src/learn/parallelLearningAgent.cpp"),
      ("archiveMap", "archive of each job", "src/learn/parallelLearningAgent.cpp")],
     ["results of evaluateAllRoots", "archive content", "graph after trainOneGeneration"])
prop("C02", "Concurrent evaluation and mutation are free of races and always terminate",
     "No interleaving of the threads used to evaluate roots or to mutate programs lets two threads access the same memory without synchronisation with at least one write, use memory after it was released, or block for ever. Every job is executed and all threads have ended when the call returns.",
     ["schedules"], "all interleavings of the threads of one evaluation, mutation or training step",
     "A data race or deadlock depends on the schedule; the tests run a few free schedules without a race detector and pass when the race happens to be benign.",
     ["src/learn/parallelLearningAgent.cpp", "src/mutator/tpgMutator.cpp", "include/data/arrayWrapper.h", "src/data/dataHandler.cpp", "src/tpg/instrumented/tpgEdgeInstrumented.cpp"],
     [("mutex around the job queue, results and archives", "src/learn/parallelLearningAgent.cpp:slaveEvalJobThread"),
      ("mutex around the list of programs to mutate", "src/mutator/tpgMutator.cpp:mutateNewProgramBehaviors"),
      ("private clone of the learning environment per thread", "src/learn/parallelLearningAgent.cpp:evaluateAllRootsInParallelExecute")])
prop("C03", "Parallel program mutation equals sequential program mutation",
     "Mutating the new programs of a generation with several threads yields, for every interleaving, exactly the programs (instructions, operands, constants and detected introns) that a single thread yields from the same random generator, and leaves the archive unchanged.",
     ["schedules"], "all interleavings of the mutation threads; seeds, numbers of programs and threads, forced behaviour change on or off",
     "The tests compare one free run with a sequential one; a dependence on the order in which programs are taken needs a particular interleaving.",
     ["src/mutator/tpgMutator.cpp", "src/mutator/programMutator.cpp", "src/archive.cpp"],
     [("one pre-drawn seed per program", "src/mutator/tpgMutator.cpp:mutateNewProgramBehaviors"),
      ("generator private to the job", "src/mutator/tpgMutator.cpp:mutateNewProgramBehaviorsParallel")])
prop("C04", "Usage counters of instrumented graphs are exact under concurrency",
     "When several threads execute policies of one instrumented graph, each visit of a vertex, evaluation of an edge and traversal of an edge is counted exactly once: after the threads have ended the counters are those of the same executions made one after the other.",
     ["schedules"], "all interleavings of the threads at the granularity of single counter reads and writes",
     "A lost update needs two threads to interleave inside one increment; free running tests practically never produce it.",
     ["src/tpg/instrumented/tpgEdgeInstrumented.cpp", "src/tpg/instrumented/tpgVertexInstrumentation.cpp", "src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp"],
     [("atomic counters", "include/tpg/instrumented/tpgEdgeInstrumented.h")],
     [("nbVisits, nbTraversal", "usage counters", "include/tpg/instrumented/tpgEdgeInstrumented.h")])
prop("C06", "Graph operations keep the graph consistent; failed ones leave it unchanged",
     "After any sequence of additions, removals, clonings and rewirings of vertices and edges, each edge is listed exactly once by its source and by its destination, the root vertices are exactly those without incoming edge, removing a vertex removes exactly its edges, and cloning a vertex or an edge duplicates its outgoing edges with their programs and nothing else. An operation that is refused (foreign element, outgoing edge of an action) reports it and leaves the graph unchanged. A graph moved or assigned to another one keeps its content and remains usable.",
     ["histories"], "all sequences of graph operations, arguments included, on plain and instrumented graphs",
     "Tests apply each operation once or twice to a small graph; a stale list, a dangling edge or a half-done failed operation needs a particular sequence such as self-loops, parallel edges or removal after rewiring.",
     ["src/tpg/tpgGraph.cpp", "src/tpg/tpgVertex.cpp", "src/tpg/tpgAction.cpp", "src/tpg/tpgFactory.cpp", "include/tpg/tpgGraph.h"],
     [("double registration of edges", "src/tpg/tpgGraph.cpp:addNewEdge"),
      ("rewiring", "src/tpg/tpgGraph.cpp:setEdgeDestination"),
      ("removal of the edges of a vertex", "src/tpg/tpgGraph.cpp:removeVertex")],
     [("vertices, edges", "content of the graph", "include/tpg/tpgGraph.h")])
prop("C12", "Inference follows the best-bidding edges from the root to an action",
     "Executing a policy from a root evaluates the program of every outgoing edge of each team it visits exactly once and in order, follows the edge with the highest bid (a bid that is not a number counting as minus infinity, ties going to the last of the tied edges) and ends on an action. The visited path, the archive recordings made on the way and, for an instrumented graph, the usage counters and the recorded trace are exactly those of that walk, for every graph and data; inference neither changes the graph nor depends on earlier executions.",
     ["inputs", "programs"], "all acyclic graphs whose teams have edges, all data values including infinities and NaN, successive executions",
     "Tests check one hand-made graph with one data vector; ties, NaN bids, nested teams and shared destinations depend on combinations the tests do not contain.",
     ["src/tpg/tpgExecutionEngine.cpp", "src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp", "src/program/programExecutionEngine.cpp", "src/archive.cpp"],
     [("bid of an edge", "src/tpg/tpgExecutionEngine.cpp:evaluateEdge"),
      ("choice of the edge", "src/tpg/tpgExecutionEngine.cpp:evaluateTeam"),
      ("walk", "src/tpg/tpgExecutionEngine.cpp:executeFromRoot")])
prop("C07", "Graph mutation preserves well-formedness and existing policies for all draws",
     "Whatever the outcomes of the random draws, initialising a graph or populating it up to the requested number of roots yields an acyclic graph in which every team has at least two edges and at most the configured maximum, every walk can reach an action and the requested number of roots is obtained, while the existing vertices, edges and programs stay as they were. New teams are roots leading only to pre-existing vertices, each with at least one new mutated program that no other team uses; what has probability zero never happens, what has probability one always does, and every pre-existing team or action may become the destination of a rewired edge.",
     ["inputs", "histories"], "all outcomes of the random draws, start graphs, mutation parameters, plain and instrumented graphs",
     "A test draws from one seed: it sees one outcome among millions, and the rare ones (last edge removed, same program drawn twice, a root subsumed, more actions than teams) are those that break the structure.",
     ["src/mutator/tpgMutator.cpp", "src/tpg/tpgGraph.cpp"],
     [("initialisation", "src/mutator/tpgMutator.cpp:initRandomTPG"), ("removal and addition of edges", "src/mutator/tpgMutator.cpp:mutateTPGTeam"),
      ("rewiring", "src/mutator/tpgMutator.cpp:mutateEdgeDestination"), ("number of roots", "src/mutator/tpgMutator.cpp:populateTPG")])
prop("C08", "Program mutation yields only valid programs and can yield all of them",
     "Whatever the outcomes of the random draws, initialised and mutated programs have between one and the maximum number of lines, each line uses an existing instruction, register, data source and location with sources able to provide the operand types, constants stay within their bounds and the detected introns are up to date. Each elementary mutation changes exactly what it is meant to, can produce every possible result, never happens with probability zero and always with probability one. When a new behaviour is requested the mutated program differs from the original one, and its results are never those of an archived program.",
     ["inputs", "programs"], "all outcomes of the random draws, programs, environments with typed operands and constants, mutation parameters",
     "Tests draw from a few fixed seeds; off-by-one draws, an operand type left invalid by an instruction change or an alternative never drawn only show over all outcomes.",
     ["src/mutator/programMutator.cpp", "src/mutator/lineMutator.cpp", "src/mutator/tpgMutator.cpp", "src/environment.cpp", "src/program/program.cpp"],
     [("choice of the altered part", "src/mutator/lineMutator.cpp:alterCorrectLine"), ("typed choice of operands", "src/mutator/lineMutator.cpp:initRandomCorrectLineOperand"),
      ("forced change of behaviour", "src/mutator/tpgMutator.cpp:mutateProgramBehaviorAgainstArchive")])

prop("C09", "Dead lines of a program never influence its result",
     "For every program, the lines marked as introns are exactly those which cannot contribute to the returned register, whatever the operand types, and executing the program with or without these lines, or after removing them, gives the same result on all data. The marks follow their line through every edit and copy of the program until the next analysis.",
     ["programs", "inputs", "histories"], "all programs up to a length over several instruction sets, register counts and data layouts; all edit histories up to a length",
     "The tests analyse a handful of hand-written programs; a wrong liveness rule only shows for particular chains of destinations and operands (an operand equal to its destination, an array operand covering several registers, a wrapped location).",
     ["src/program/program.cpp", "src/program/programEngine.cpp"],
     [("backward liveness analysis", "src/program/program.cpp:identifyIntrons"),
      ("skipping of introns", "src/program/programEngine.cpp:next"),
      ("removal of introns", "src/program/program.cpp:clearIntrons")],
     [("lines", "lines with their intron mark", "include/program/program.h")],
     ["isIntron", "result of executeProgram"])
prop("C10", "A program computes exactly what its lines say",
     "Executing a program returns the value that its lines give to the first register when applied in order to zeroed registers, with each operand read at its scaled address in its register, constant or data source, whatever the operand types and layouts. The result does not depend on what the engine executed before, on the program or data it was given before, or on a previous exception; programs and data sources of another environment are refused, which leaves the engine as it was.",
     ["programs", "inputs", "histories"], "all programs up to a length over several instruction sets and layouts, several data contents and constants; all histories of engine operations up to a length",
     "The tests execute single lines with fixed operands; a wrong address scaling, operand order, stale register or stale constant only shows for particular combinations of source kind, location, dimension and engine history.",
     ["src/program/programExecutionEngine.cpp", "src/program/programEngine.cpp", "include/instructions/lambdaInstruction.h", "include/data/arrayWrapper.h", "include/data/array2DWrapper.h"],
     [("operand fetch and scaling", "src/program/programEngine.cpp:fetchCurrentOperands"),
      ("execution loop", "src/program/programEngine.cpp:iterateThroughtProgram"),
      ("change of program and data", "src/program/programEngine.cpp:setProgram")],
     [("registers", "registers of the engine", "include/program/programEngine.h")],
     ["value returned by executeProgram"])
prop("C11", "Programs declared identical always return the same result",
     "Whenever two programs are declared to have an identical behaviour, they return the same result on all data. The verdict is symmetric, holds between a program and itself, and ignores lines which do not contribute to the result.",
     ["programs", "inputs"], "all pairs of programs up to a length over several instruction sets, with all constant vectors over two values",
     "The tests compare a few programs; an unsound verdict needs two programs which differ only in the one thing which the comparison forgets, such as the second constant of an array operand.",
     ["src/program/program.cpp", "src/program/line.cpp"],
     [("comparison of the contributing lines and constants", "src/program/program.cpp:hasIdenticalBehavior"),
      ("line equality", "src/program/line.cpp:operator==")],
     [], ["hasIdenticalBehavior", "result of executeProgram"])
prop("C13", "The archive keeps exactly the latest recordings and the data they refer to",
     "After any history of additions and clears, the archive holds the most recent recordings, in order, up to its maximum size, and exactly one intact copy of the data for each recorded data hash, unaffected by later changes of the sources and released exactly once. A set of results is declared already known exactly when an archived program has recordings for some of the same data and all of them agree within the tolerance.",
     ["histories", "configurations"], "all histories of additions over several programs, data contents and results, with maximum sizes 0-4, archiving probabilities and forced additions; all equivalence queries over small result sets in each state",
     "The tests follow one sequence of additions; eviction, sharing of a data copy between recordings and per-program bookkeeping interact, and a mistake shows only for particular orders of programs and data around the maximum size.",
     ["src/archive.cpp"],
     [("recording, sharing of data copies and eviction", "src/archive.cpp:addRecording"),
      ("equivalence of results", "src/archive.cpp:areProgramResultsUnique"),
      ("release of data copies", "src/archive.cpp:clear")],
     [("recordings", "recordings in order", "include/archive.h"), ("dataHandlers", "data copies per hash", "include/archive.h"),
      ("recordingsPerProgram", "recordings of each program", "include/archive.h")],
     ["at", "getNbRecordings", "getDataHandlers", "areProgramResultsUnique"])
prop("C14", "Every address of every data source gives the documented elements",
     "For every kind of data source, dimension, requested type and address, the source states whether and at how many addresses it can provide the type, returns exactly the elements of its content located at that address, and reports exactly these elements as accessed. This does not depend on what was asked before to this or another source, arrays returned are snapshots, data are never reinterpreted as another type, and reading a source which points to no data is refused.",
     ["inputs", "configurations", "histories"], "all kinds of data sources, dimensions up to a bound, element types, requested scalar and 1D/2D array types, every address, several orders of queries including other sources before",
     "The tests read a few addresses of one or two shapes; row/column confusions, off-by-one window counts and answers cached under an incomplete key need specific shapes and orders of queries.",
     ["include/data/arrayWrapper.h", "include/data/array2DWrapper.h", "include/data/pointerWrapper.h", "include/data/primitiveTypeArray.h", "include/data/primitiveTypeArray2D.h", "include/data/untypedSharedPtr.h"],
     [("address spaces of types", "include/data/array2DWrapper.h:getAddressSpace"),
      ("windows of 2D arrays", "include/data/array2DWrapper.h:getDataAt"),
      ("accessed addresses", "include/data/arrayWrapper.h:getAddressesAccessed"),
      ("typed access", "include/data/untypedSharedPtr.h:getSharedPointer")],
     [("cachedAddressSpace", "address spaces computed so far", "include/data/arrayWrapper.h")],
     ["getDataAt", "getAddressSpace", "getAddressesAccessed"])
prop("C15", "The hash of a data source always identifies its current content",
     "After any history of writes, resets, assignments, redirections and copies, the hash of a data source is a function of its identity and current content only: equal for equal contents and for copies, different for different contents or identities. Copies keep the identity and the content of their original at the time of the copy, and are independent of it afterwards.",
     ["histories", "inputs"], "all histories up to a length over all kinds of data sources with hashes requested at every subset of moments; all contents over small alphabets",
     "The hash is cached and the archive relies on it to identify data: a mutation path which forgets to invalidate it, or a weak combination of the elements, silently merges different data and shows only if the hash was requested before that very operation.",
     ["include/data/arrayWrapper.h", "include/data/pointerWrapper.h", "include/data/primitiveTypeArray.h", "include/data/primitiveTypeArray2D.h", "src/data/dataHandler.cpp"],
     [("hash computation", "include/data/arrayWrapper.h:updateHash"),
      ("cache of the hash", "src/data/dataHandler.cpp:getHash"),
      ("copies", "include/data/primitiveTypeArray.h:clone")],
     [("cachedHash", "last hash computed", "include/data/dataHandler.h"), ("invalidCachedHash", "whether it is out of date", "include/data/dataHandler.h")],
     ["getHash", "getDataAt"])
prop("C26", "Random draws are unbiased and depend only on the seed and the past draws",
     "Every value drawn lies in the requested range, for every range of every supported type, and all values of an integer range are produced by exactly the same number of outputs of the underlying generator. The values drawn depend only on the last seed and on the draws made since, identically for copies of a generator.",
     ["inputs", "histories"], "all ranges and all outputs of generators of 8 bits (16 bits: the smallest and largest ranges), limit outputs of the 64-bit generator for 34 ranges, all histories of draws, seedings and copies up to a length",
     "A biased, truncated or out of range mapping appears for ranges and outputs which are astronomically rare in sampled tests (the rejected tail of the generator, full ranges, sign changes), and reproducibility is a statement on all histories.",
     ["include/mutator/deterministicRandom.h", "src/mutator/rng.cpp"],
     [("unbiased mapping of generator outputs to a range", "include/mutator/deterministicRandom.h:operator()"),
      ("signed ranges", "include/mutator/deterministicRandom.h:_Adjust"),
      ("draws of the library", "src/mutator/rng.cpp:getUnsignedInt64")],
     [("engine", "the state of the generator", "include/mutator/rng.h")],
     ["getUnsignedInt64", "getInt32", "getDouble"])
prop("C16", "An exported graph is imported back with the same structure and programs",
     "Importing the file exported from a graph, or from the part reachable from a root, gives a graph with the same teams, actions, edges in the same order, programs, constants and sharing of programs, whatever the size of its programs and the previous use of the exporter and importer. A file left incomplete by an interrupted export is rejected, unless nothing of the graph is missing, and damaged files never corrupt the importing graph.",
     ["inputs", "programs", "histories", "crash_points"], "all graphs up to a number of vertices and edges with all sharings of programs; all lines of five environments; all histories of changes, exports and imports up to a length; every prefix of several files",
     "The tests import one graph and look at one program; programs shared by different edges, extreme identifiers, long programs, repeated exports or a file cut in the middle of a line are not among them.",
     ["src/file/tpgGraphDotExporter.cpp", "src/file/tpgGraphDotImporter.cpp", "src/tpg/tpgAbstractEngine.cpp"],
     [("edges and sharing of programs", "src/file/tpgGraphDotExporter.cpp:printTPGEdge"),
      ("content of programs", "src/file/tpgGraphDotExporter.cpp:printProgram"),
      ("reading of lines", "src/file/tpgGraphDotImporter.cpp:readLineFromFile"),
      ("reading of programs", "src/file/tpgGraphDotImporter.cpp:readLine")],
     [("programID", "programs already printed", "include/tpg/tpgAbstractEngine.h"), ("vertexID", "teams already read", "include/file/tpgGraphDotImporter.h")],
     ["print", "printSubGraph", "importGraph"])
prop("C17", "Parameter files give back exactly the parameters written",
     "Parameters written to a file and read back are unchanged (reals up to the six digits written), whatever the parameters they are read over. Reading a file changes exactly the parameters it names, and an ill-formed or incomplete file changes nothing.",
     ["inputs", "configurations", "crash_points"], "all pairs of the 30 parameters over boundary values; all files with one or two keys; every prefix of a file",
     "The tests read one file with one value per parameter; a parameter mapped to another, missing from the writer, truncated, or half of a broken file being applied is not seen by them.",
     ["src/file/parametersParser.cpp"],
     [("reading of values", "src/file/parametersParser.cpp:setParameterFromString"),
      ("writing", "src/file/parametersParser.cpp:writeParametersToJson"),
      ("ill-formed files", "src/file/parametersParser.cpp:readConfigFile")],
     [], ["loadParametersFromJson", "writeParametersToJson"])
prop("C18", "Generated C code takes the same action as the execution engine",
     "The C code generated for a graph without cycles, in either form, compiles, and on every data the function of each program returns the result that the execution engine gives to the program and the graph takes the action that the engine takes, bids which are not numbers and ties included.",
     ["programs", "inputs"], "all programs of one and two lines of six environments; all acyclic graphs up to 3 teams with all shared programs and orders of creation; all bids over {NaN, 0, 1}",
     "The tests compile a few graphs and compare them on some data; operands with a shape of their own, values that wrap, ties, actions sharing an identifier or graphs reduced to an action are not among them.",
     ["src/codeGen/programGenerationEngine.cpp", "src/codeGen/tpgStackGenerationEngine.cpp", "src/codeGen/tpgSwitchGenerationEngine.cpp", "src/data/dataHandlerPrinter.cpp", "include/instructions/lambdaInstruction.h"],
     [("translation of a line", "src/codeGen/programGenerationEngine.cpp:generateCurrentLine"),
      ("access to operands", "src/data/dataHandlerPrinter.cpp:printDataAt"),
      ("choice of the best edge", "src/codeGen/tpgStackGenerationEngine.cpp:initTpgFile"),
      ("jump to the next vertex", "src/codeGen/tpgSwitchGenerationEngine.cpp:generateTeam")],
     [], ["generateTPGGraph", "executeFromRoot"])
prop("C19", "Selection keeps the best policies and their records",
     "After the evaluation of a generation exactly the requested share of the roots is removed, all of them being teams whose score is not better than that of any kept team, and root actions and vertices which are not roots stay. The best policy announced after a generation is one of the graph, with its latest result, and at least as good as every surviving policy of the generation, and previous results are used for the policy they were obtained by only, whatever the addresses of the vertices created later and the history of initialisations and selections.",
     ["inputs", "histories", "configurations"], "all score vectors over small values including ties, infinities and NaN-free extremes, all ratios of a list, root actions, all histories of training, evaluation, initialisation, selection up to a length, three policies of reuse of freed addresses",
     "Ties, ratios 0 and 1, root actions, or a new vertex created at the address of a removed one whose record was kept need specific scores or allocator behaviours that the tests do not control.",
     ["src/learn/learningAgent.cpp"],
     [("removal of the worst roots", "src/learn/learningAgent.cpp:decimateWorstRoots"),
      ("records of the policies", "src/learn/learningAgent.cpp:updateEvaluationRecords"),
      ("skipped evaluations", "src/learn/learningAgent.cpp:isRootEvalSkipped"),
      ("best policy only", "src/learn/learningAgent.cpp:keepBestPolicy")],
     [("resultsPerRoot", "results of the current policies", "include/learn/learningAgent.h"), ("bestRoot", "best policy and its result", "include/learn/learningAgent.h")],
     ["trainOneGeneration", "decimateWorstRoots", "getBestRoot", "keepBestPolicy"])
prop("C20", "Every policy is evaluated by the announced protocol and averaged",
     "For each policy evaluated alone the environment is reset once per iteration with the mode, iteration and generation of the evaluation and the same seeds for all policies, then receives the actions chosen by the policy in its current state until it says it is terminal or the maximal number of actions is reached, and no other call changes it. The result is the mean of the scores with their number: in training it is combined with the previous results of the policy by a mean weighted by the numbers of evaluations, or kept without evaluation once the maximal number is reached, while validation and testing use new scores only and leave the policies, the archive and the draws of the training unchanged. Training runs the requested number of generations with the phases in order and stops at the end of the one where it is asked to.",
     ["histories", "inputs", "configurations"], "all terminal decisions and two-valued scores of episodes (or all within a number of changed decisions for longer ones), three modes, several generations and iteration counts, four kinds of agents, sequences of evaluations of recorded policies, all pairs of results of five kinds",
     "The tests use one environment which ends after a fixed number of actions; an action done in a terminal state, a limit off by one or a wrongly weighted mean depend on when the environment ends and on the scores.",
     ["src/learn/learningAgent.cpp", "src/learn/parallelLearningAgent.cpp", "src/learn/evaluationResult.cpp", "include/learn/classificationLearningAgent.h"],
     [("episodes of a policy", "src/learn/learningAgent.cpp:evaluateJob"),
      ("episodes of a classifier", "include/learn/classificationLearningAgent.h:evaluateJob"),
      ("combination of results", "src/learn/evaluationResult.cpp:operator+="),
      ("loop over generations", "src/learn/learningAgent.cpp:train")],
     [], ["evaluateAllRoots", "evaluateOneRoot", "train"])
prop("C21", "Classification scores and the selection by class follow their definition",
     "After any sequence of elements and answers since the last reset, the table of a classification environment counts each of them, its score is the mean of the F1 scores of the classes, and the result of a policy holds the F1 score and number of elements of each class, combined over successive evaluations. Selection keeps for each class the best policies for it, completes with the best policies overall up to the requested number, and removes the others with their results.",
     ["inputs", "histories"], "all sequences of classes and answers up to a length for 2-4 classes, all tables of scores per class of 3-7 roots over small values, several ratios, root actions",
     "F1 scores degenerate (classes without element or without right answer) and ties or overlaps between the policies kept for several classes need specific sequences and tables of scores.",
     ["include/learn/classificationLearningAgent.h", "src/learn/classificationLearningEnvironment.cpp", "src/learn/classificationEvaluationResult.cpp"],
     [("table and score", "src/learn/classificationLearningEnvironment.cpp:getScore"),
      ("scores per class of a policy", "include/learn/classificationLearningAgent.h:evaluateJob"),
      ("selection", "include/learn/classificationLearningAgent.h:decimateWorstRoots"),
      ("combination per class", "src/learn/classificationEvaluationResult.cpp:operator+=")],
     [("classificationTable", "answers per class", "include/learn/classificationLearningEnvironment.h")],
     ["getClassificationTable", "getScore", "decimateWorstRoots"])
prop("C22", "Adversarial evaluation is fair and uses living champions only",
     "Each policy plays the required number of evaluations (rounded up to whole jobs), the same at every position and against the same opponents as all other policies, players act in turn, and its result is the mean of the scores it obtained as the studied player. Opponents are vertices of the current graph, taken among the best policies of the previous evaluation as long as some of them survive, whatever the ratio of selection and the history of training, evaluation, initialisation and selection.",
     ["histories", "configurations", "inputs"], "1-3 players, 1-7 evaluations per policy, 1-2 per job, 21 ratios of selection, 2-10 roots, root actions, histories of four operations up to a length, three policies of reuse of freed addresses",
     "The tests look at one configuration; champions removed by selection or initialisation, counts which do not divide, extreme ratios and score attribution at other positions are not visited.",
     ["src/learn/adversarialLearningAgent.cpp", "src/learn/adversarialEvaluationResult.cpp", "src/learn/adversarialJob.cpp"],
     [("jobs", "src/learn/adversarialLearningAgent.cpp:makeJobs"),
      ("episodes", "src/learn/adversarialLearningAgent.cpp:evaluateJob"),
      ("attribution of scores and champions", "src/learn/adversarialLearningAgent.cpp:evaluateAllRootsInParallelCompileResults")],
     [("champions", "opponents of the next evaluation", "include/learn/adversarialLearningAgent.h")],
     ["evaluateAllRoots", "trainOneGeneration"])
prop("C05", "The result of a training depends only on its seed and parameters",
     "Training an agent initialised with a seed gives, at each generation, the same graph, results, best policy, archive and random generator, whatever the addresses and initial content of the memory it obtains, the previous use of this agent or of others in the same process, and whether it is observed by loggers, exports, statistics or test evaluations. The same holds for what is written about the result.",
     ["histories", "configurations", "inputs"], "four kinds of agents, parameter sets and seeds; five policies of memory addresses and three initial contents; nine previous uses; four observers; every placement of a new program at the address of a removed one within a number of deviations",
     "A test runs with one allocator and one history; identifications by address, uninitialised members and state surviving an initialisation show only when a new object is created where a removed one was, or after a specific previous use.",
     ["src/archive.cpp", "src/learn/learningAgent.cpp", "src/mutator/tpgMutator.cpp", "src/mutator/rng.cpp"],
     [("programs of the recordings", "src/archive.cpp:addRecording"),
      ("initialisation", "src/learn/learningAgent.cpp:init"),
      ("seeds of the mutations", "src/mutator/tpgMutator.cpp:mutateNewProgramBehaviors"),
      ("seeds of the archive", "src/learn/learningAgent.cpp:makeJob")],
     [("recordingsPerProgram", "recordings of each program", "include/archive.h")],
     ["init", "trainOneGeneration", "getBestRoot", "getArchive"])
prop("C23", "Statistics of policies and executions equal what they announce",
     "The statistics of a policy (uses of teams, actions and programs, lines, introns, uses of instructions and data by the useful lines, vertices per stage, depth) are those of the part of the graph reachable from its root, whatever was analysed before with the same object after it was cleared. The statistics of executions (means, distributions and per trace) are those of the executions made since the last reset from any root, and the printed text and the exported file give the same values.",
     ["inputs", "histories"], "all acyclic graphs of 1-3 teams with parallel edges, shared programs and actions with the same identifier; all programs of 1-2 lines over five instruction sets; all sequences of 0-3 executions from any root, actions included, with or without reset",
     "The tests analyse one graph; sharing, teams met at two depths, arrays, introns, root actions, analyses repeated with one object and empty sequences change the counts in ways which this graph does not show.",
     ["src/tpg/policyStats.cpp", "src/tpg/instrumented/executionStats.cpp"],
     [("policy scan", "src/tpg/policyStats.cpp:analyzePolicy"),
      ("uses of data", "src/tpg/policyStats.cpp:analyzeLine"),
      ("means", "src/tpg/instrumented/executionStats.cpp:analyzeInstrumentedGraph"),
      ("distributions", "src/tpg/instrumented/executionStats.cpp:analyzeInferenceTrace"),
      ("export", "src/tpg/instrumented/executionStats.cpp:writeStatsToJson")],
     [], ["analyzePolicy", "analyzeExecution", "writeStatsToJson"])
prop("C24", "Usage counters are exact and removal keeps exactly what was used",
     "The counters of an instrumented graph give for each vertex the number of its visits, and for each edge the numbers of its evaluations and choices, since the last reset. Removing unused elements removes exactly the vertices never visited and the edges never chosen, in any state of the graph, and executions done before give the same path afterwards; graphs without counters are not modified.",
     ["inputs", "histories"], "all acyclic graphs of 1-3 teams with parallel edges and shared programs; all sequences of executions from any vertex, removal, same executions, reset or not, other executions, second removal",
     "The tests remove once in one graph after one execution; ties between bids, parallel edges, executions from inner vertices, removals without any execution or repeated ones are not tried.",
     ["src/tpg/instrumented/tpgInstrumentedFactory.cpp", "src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp", "src/tpg/instrumented/tpgEdgeInstrumented.cpp", "src/tpg/instrumented/tpgVertexInstrumentation.cpp"],
     [("counters", "src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp:evaluateTeam"),
      ("removal", "src/tpg/instrumented/tpgInstrumentedFactory.cpp:clearUnusedTPGGraphElements"),
      ("reset", "src/tpg/instrumented/tpgInstrumentedFactory.cpp:resetTPGGraphCounters")],
     [("nbVisits", "visits", "include/tpg/instrumented/tpgVertexInstrumentation.h"), ("nbTraversal", "choices of an edge", "include/tpg/instrumented/tpgEdgeInstrumented.h")],
     ["clearUnusedTPGGraphElements", "getNbVisits", "getNbTraversal"])
prop("C25", "Loggers report what happened in each generation",
     "The table of a training has one row per generation with its number, the number of vertices, and the minimum, mean and maximum of the results of the policies, in training and in validation when it is enabled. A graph is reported as having a cycle if and only if it has one, with a single verdict, and the statistics of the best policy are written exactly in the generations where it is another policy than the one written before, whatever initialisations happened and wherever vertices are stored.",
     ["histories", "inputs", "configurations"], "all scores over 3-4 values for several generations, ratios 0 to 1, with and without validation; all graphs of up to 4 teams with at most one edge between two vertices; all histories of generations, initialisations and best policy selections with three policies of reuse of freed addresses",
     "The tests read the output of a few generations; cycles without root, selections removing everything and a new best policy stored at the address of the previous one need specific graphs, ratios or allocator behaviour.",
     ["src/log/laBasicLogger.cpp", "src/log/cycleDetectionLALogger.cpp", "src/log/laPolicyStatsLogger.cpp"],
     [("rows", "src/log/laBasicLogger.cpp:logResults"),
      ("cycles", "src/log/cycleDetectionLALogger.cpp:logAfterPopulateTPG"),
      ("best policy", "src/log/laPolicyStatsLogger.cpp:logAfterDecimate")],
     [("lastBestRoot", "last policy written", "include/log/laPolicyStatsLogger.h")],
     ["trainOneGeneration"])
prop("C27", "An environment offers the usable instructions and data, and nothing else",
     "An environment keeps, in their order, exactly the instructions each operand of which can be provided by the registers, the constants when there are some, or a data source, and refuses configurations in which no line can be built. Its numbers of registers, constants, operands, sources and addresses and the size of its lines describe these, and a copy of an environment is equivalent to it and independent of its lifetime.",
     ["configurations"], "all lists of 1-3 instructions over eleven operand signatures, 0-3 data sources of seven kinds, five numbers of registers and three of constants; copies used after the end of the original; environments of agents",
     "The tests build two environments; an instruction needing an array longer than the registers, constants without constants or the lifetime of copies are outside them.",
     ["src/environment.cpp", "include/environment.h", "src/instructions/set.cpp"],
     [("instructions kept", "src/environment.cpp:filterInstructionSet"),
      ("size of a line", "src/environment.cpp:computeLineSize"),
      ("sources", "include/environment.h:Environment")],
     [("fakeDataSources", "sources by index", "include/environment.h")],
     ["getInstructionSet", "getFakeDataSources", "getLineSize"])
prop("C28", "Pointers, instructions and lines accept exactly what they announce",
     "A data pointer gives access to its value exactly as the type it announces, constness being only added, refuses any other type, and releases the value once, when the last access to it ends. An instruction accepts exactly the operands whose number and types it announces and returns its function of them. A line takes exactly the destinations, instructions and operands of its environment and equals another one exactly when all of them are equal, and what is refused by a line, a program, a set of instructions, a learning environment, an agent or a sum of results leaves it unchanged.",
     ["inputs", "histories"], "32 types requested from 48 kinds of pointers; all histories of creations, copies, ends and accesses on two untyped and two typed pointers; all vectors of arguments of up to two operands and one wrong argument beyond, for 91 instructions; all histories of settings and edits of lines and programs with values at and beyond the limits",
     "The tests ask for a few pairs of types and indices; which pairs of constness, arrays and element types are exchanged, or what remains after a refused operation, depends on combinations they do not form.",
     ["include/data/untypedSharedPtr.h", "include/instructions/lambdaInstruction.h", "src/instructions/instruction.cpp", "src/program/line.cpp", "src/program/program.cpp"],
     [("access to a value", "include/data/untypedSharedPtr.h:getSharedPointer"),
      ("operands", "include/instructions/lambdaInstruction.h:checkOperandTypes"),
      ("settings of a line", "src/program/line.cpp:setOperand"),
      ("edits of a program", "src/program/program.cpp:swapLines")],
     [("sharedPtrContainer", "value and its type", "include/data/untypedSharedPtr.h")],
     ["getSharedPointer", "execute", "setOperand", "doAction"])
