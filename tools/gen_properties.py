#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": observe or ["the public call's return"], "hook_needed": hook}})

prop("C01", "Boolean operations compute exactly the Boolean function they name",
 "Every Boolean connective offered by the package (conjunction, disjunction, exclusive or, their negations, if-then-else, complement, identity, the many-operand and the pairwise-array variants) returns a decision diagram whose value, under every assignment of the variables, is the named connective of the operands' values. This holds for constants, complemented, shared and repeated operands, for operands whose top variables differ, and whatever earlier operations, collections or reorderings the manager has been through. The operands themselves are left unchanged.",
 ["inputs", "histories"], "all operands, all variable orders, all prior histories of the manager, all array lengths >= 1 (multiway) / even lengths (pairwise)",
 "The unit tests compare a handful of random 5-variable truth tables in one fresh manager and never mix pairs with different top variables, repeated operands, or caches left behind by earlier operations.",
 ["src/calBddOp.c", "src/calApplyReduce.c", "src/calTerminal.c", "src/calBddITE.c", "src/cal.c", "src/calHashTable.c", "src/calHashTableThree.c"],
 [("breadth-first apply/reduce over per-variable request queues", "src/calApplyReduce.c CalHashTableApply/CalHashTableReduce"),
  ("operator terminal cases and operand normalisation", "src/calTerminal.c CalOpAnd/CalOpOr/CalOpXor/CalOpNand/CalOpITE"),
  ("array and pairwise drivers", "src/calBddOp.c BddArrayOpBF, BddMultiwayOp, BddArrayToRequestNodeListArray")],
 [("reqQue", "pending requests per depth and variable id", "src/calInt.h Cal_BddManagerStruct")])

prop("C02", "Canonicity: equal functions have equal handles, different ones differ",
 "At any moment two live diagrams of one manager compare equal exactly when they denote the same Boolean function, and a diagram and its negation share one representation that differs only in polarity. This holds however the two diagrams were computed (different operations, operand orders, before or after a collection or reordering, by reading them from a file, or via the pipeline).",
 ["inputs", "histories"], "all pairs of live handles at every point of every history",
 "Tests compare results with a freshly rebuilt expected diagram once; they never check that functions built long apart, across collections, table resizes and reorderings, still share one node.",
 ["src/calHashTable.c", "src/calApplyReduce.c", "src/calGC.c", "src/calReorderBF.c", "src/calReorderDF.c", "src/cal.c"],
 [("unique tables, one per variable", "src/calHashTable.c CalUniqueTableForIdFindOrAdd, CalHashTableFindOrAdd"),
  ("then-edge never complemented", "src/calApplyReduce.c, src/calInt.h CalRequestNode macros"),
  ("user handles themselves hash-consed", "src/cal.c CalBddGetExternalBdd")],
 [("uniqueTable", "hash tables of nodes; table 0 holds user handles", "src/calInt.h")],
 ["Cal_BddIsEqual and handle identity after each call", "snapshots of the node graph"])

prop("C03", "Garbage collection reclaims all and only the unreferenced nodes",
 "A collection, explicit or automatic, never changes the function of any diagram the user still holds, of any variable, or of any diagram held by a variable association, and later operations remain correct. After an explicit collection the manager's node count is exactly one constant plus one node per variable plus the number of distinct further nodes, modulo complement, of the diagrams still held. Diagrams freed and later rebuilt are equal to what they were, and while automatic collection is turned off nothing is discarded; while it is on, garbage does not pile up: the node count stays within a fixed multiple of what is held, plus a fixed allowance.",
 ["histories", "schedules"], "all interleavings of operations, frees, un-frees and (explicit or automatic) collections",
 "Each test ends with freeing everything; none checks the reclaimed amount, repacking of pages, or operations hitting cache entries that mention dead or moved nodes.",
 ["src/calGC.c", "src/calMemoryManagement.c", "src/calCacheTableTwo.c", "src/calBddManager.c", "src/cal.c"],
 [("reference-count sweep by level", "src/calGC.c Cal_BddManagerGC, CalHashTableGC"),
  ("cache fix-up for dead or forwarded nodes", "src/calCacheTableTwo.c CalCacheTableTwoGCFlush, CalCacheTableTwoRepackUpdate"),
  ("page repacking", "src/calGC.c CalRepackNodesAfterGC"),
  ("automatic trigger", "src/cal.c CalBddPostProcessing")],
 [("numNodes", "count of nodes in all tables except user handles", "src/calInt.h"), ("refCount", "8-bit count in low pointer bits", "src/calInt.h CalBddNodeGetRefCount")],
 hook="tiny collection and reordering thresholds so that short histories reach the automatic paths")

prop("C04", "Reference counts of handles are exact up to saturation",
 "Each handle counts the references the user holds on it: every result returned, identity taken, negation taken and un-free adds one and every free removes one, independent of collections, reorderings and of how many other diagrams share its nodes. A count that reaches its maximum of 255 stays there and its diagram is never reclaimed. A diagram whose count is positive is usable, and one whose count is zero may be revived by an un-free or by recomputing it any time before the next collection.",
 ["histories"], "all sequences of result creation, identity, negation, un-free and free, including more than 255 references",
 "No test holds more than a few references on one diagram, and none counts them.",
 ["src/calInt.h", "src/cal.c", "src/calGC.c", "src/calReorderBF.c", "src/calReorderDF.c"],
 [("saturating counter macros", "src/calInt.h CalBddNodeIcrRefCount/DcrRefCount/AddRefCount"),
  ("find-or-add of the user handle", "src/cal.c CalBddGetExternalBdd")],
 [("refCount of user handle", "references held by the user", "src/calInt.h")])

prop("C05", "Variable reordering changes the order only, never any function",
 "Reordering, explicit or automatic, by sifting or by window permutation, with the breadth-first or the depth-first method, leaves every held diagram, variable and association value denoting the same function through the same handle, keeps canonicity and reference counts, and yields an order that is a permutation of the variables with consistent index and identifier maps. Requested reordering with no technique selected, and operations with reordering disabled, never change the order. Every later operation is as correct as in a manager that was never reordered.",
 ["histories", "configurations", "schedules"], "all techniques and methods, all points in a history at which reordering runs, all node graphs and orders",
 "The reorder tests run one technique on random 5- to 10-variable functions and look at the result once; automatic reordering in the middle of an operation is reached only above 10000 nodes.",
 ["src/calReorderBF.c", "src/calReorderDF.c", "src/calReorderUtil.c", "src/calInteract.c", "src/cal.c"],
 [("adjacent level swap, breadth first", "src/calReorderBF.c BddReorderSwapVarIndex"),
  ("adjacent level swap, depth first", "src/calReorderDF.c BddExchange"),
  ("forwarding fix-up of user handles, associations, caches, pipeline", "src/calReorderUtil.c"),
  ("interaction matrix", "src/calInteract.c")],
 [("idToIndex/indexToId", "the order", "src/calInt.h")],
 hook="tiny reordering threshold")

prop("C06", "Variable blocks are honoured by depth-first reordering",
 "With depth-first reordering, the variables of a declared block stay contiguous in the order, and a block marked as not reorderable keeps the relative order of its members (sub-blocks or variables), at every nesting depth and under both techniques. A block covers its first variable and the requested number of consecutive variables at the time of declaration, and keeps covering the variables that are inserted inside it later.",
 ["histories", "configurations"], "all laminar families of blocks, reorderable flags, insertions of variables and reorderings",
 "No test declares a block.",
 ["src/calBlk.c", "src/calReorderDF.c", "src/calBddManager.c"],
 [("block tree insertion", "src/calBlk.c AddBlock"), ("index shift upon variable creation", "src/calBlk.c CalBddShiftBlock"),
  ("exchange of whole blocks", "src/calReorderDF.c BddExchangeBlocks/BddSiftBlock/BddWindow*")],
 [("superBlock", "tree of blocks", "src/calInt.h")])

prop("C07", "New variables appear where requested and disturb nothing",
 "Creating a variable first, last, or directly before or after the top variable of a given diagram places it at that place in the order, keeps the relative order of all others, and gives it a fresh identifier one larger than the number of variables so far. Lookup by identifier and by index, identifier-of and index-of agree with each other and with the order at all times, and out-of-range lookups yield the null diagram. All held diagrams, associations and pending state keep their meaning, however many variables are created.",
 ["histories"], "all sequences of variable creations mixed with other operations, beyond the initial variable capacity",
 "Tests create all variables up front with the last-position call only, fewer than the initial capacity of 30.",
 ["src/calBddManager.c", "src/calBlk.c", "src/calAssociation.c", "src/calMemoryManagement.c"],
 [("creation and growth of per-variable arrays", "src/calBddManager.c CalBddManagerCreateNewVar"),
  ("order maps", "src/calBddManager.c idToIndex, indexToId")],
 [("numVars, maxNumVars", "variables and capacity", "src/calInt.h")])

prop("C08", "Variable associations are stable, shared and reference counted",
 "Declaring an association returns an identifier that equals an existing one exactly when an equal association is alive, and it stays valid, with the same mapping, until it has been quit as many times as it was declared. Selecting the current association returns the previously selected one, and quantification, substitution and support-satisfaction always use the mapping of the currently selected (or temporary) association as last initialised or augmented. Associations keep the diagrams they mention alive and correct across collections, reorderings, variable creation and the death of the user's own handles.",
 ["histories"], "all histories of association init/quit/select and temporary init/augment/quit mixed with all other operations",
 "TestAssoc creates a few associations and quits them; nothing mixes them with collection, reordering or new variables, or reuses identifiers with cached results around.",
 ["src/calAssociation.c", "src/calCacheTableTwo.c", "src/calBddManager.c", "src/calReorderUtil.c"],
 [("find or create, reference count", "src/calAssociation.c Cal_AssociationInit/Quit"),
  ("cache flush when an association dies", "src/calCacheTableTwo.c CalCacheTableTwoFlushAssociationId"),
  ("temporary association operation codes", "src/calQuant.c tempOpCode")],
 [("associationList, tempAssociation, currentAssociation", "the mappings", "src/calInt.h")])

prop("C09", "Quantification and relational product are exact",
 "Existential and universal quantification return the function obtained by disjoining respectively conjoining over all values of exactly the variables in the current association, and the relational product returns the existential quantification of the conjunction. This holds for all operands, orders, association contents and sizes, whichever internal algorithm is chosen, and independently of which quantifications were computed before.",
 ["inputs", "histories", "configurations"], "all operands, all associations, all orders, all prior histories",
 "TestQnt and TestRelProd use one association in a fresh manager on 5-variable functions; the combined breadth/depth-first path and repeated use of temporary associations are never reached.",
 ["src/calQuant.c", "src/calTerminal.c", "src/calApplyReduce.c", "src/calAssociation.c"],
 [("depth-first and breadth-first-plus-depth-first quantifiers", "src/calQuant.c BddExistsStep, BddRelProdStep, BddExistsBFPlusDF, BddRelProdBFPlusDF"),
  ("cache keyed by association", "src/calQuant.c, src/calCacheTableTwo.c")],
 [("tempOpCode", "cache code of the temporary association", "src/calInt.h")],
 hook="tiny size threshold for the breadth-first path")

prop("C10", "Substitution, composition and variable swapping are exact",
 "Composition replaces one variable by a function, substitution simultaneously replaces every associated variable by its associated function, variable substitution does the same for variables, and swapping exchanges two variables; in each case the result is exactly the simultaneous substitution in the operand, for all operands and orders. Variables without an association are left alone.",
 ["inputs", "histories"], "all operands, all associations, all orders, all prior histories",
 "The unit tests compare against a truth-table oracle for a few random functions over 5 variables with the default order and a fresh manager.",
 ["src/calBddCompose.c", "src/calBddSubstitute.c", "src/calBddVarSubstitute.c", "src/calBddSwapVars.c"],
 [("compose apply/reduce", "src/calBddCompose.c"), ("substitute apply/reduce", "src/calBddSubstitute.c"),
  ("variable substitution", "src/calBddVarSubstitute.c"), ("swap", "src/calBddSwapVars.c")])

prop("C11", "Cofactor, reduce and between respect their care sets",
 "The generalised cofactor and the reduction of a function by a care set agree with the function wherever the care set is true, the cofactor by a cube is the ordinary restriction, and the reduction is never larger than the function. The between operation returns a function implied by the lower and implying the upper bound whenever the lower implies the upper.",
 ["inputs", "histories"], "all functions, all care sets including constants, all orders",
 "Tests check a few random pairs, never the extreme care sets and never the size guarantee.",
 ["src/calReduce.c"],
 [("cofactor and reduce recursions", "src/calReduce.c BddCofactorDF, BddReduceBF, Cal_BddBetween")])

prop("C12", "Satisfaction, implication and cube queries return correct witnesses",
 "The satisfying diagram of a satisfiable function is a cube that implies it, the support variant additionally mentions every associated variable, and both are false exactly for the false function. The satisfying fraction is the exact fraction of satisfying assignments. The intersection and implication queries return the constant false exactly when the two functions are disjoint respectively when the first implies the second, and otherwise a witness below the conjunction respectively below the counterexamples; and the cube test answers whether the function is a conjunction of literals.",
 ["inputs", "histories"], "all functions, associations and orders",
 "Tests check a few random functions over 5 variables.",
 ["src/calBddSatisfy.c", "src/cal.c", "src/calUtil.c"],
 [("satisfy recursions", "src/calBddSatisfy.c"), ("intersects step", "src/cal.c BddIntersectsStep"), ("cube test", "src/cal.c Cal_BddIsCube, CalBddIsCubeStep")])

prop("C13", "Pipelined evaluation equals immediate evaluation",
 "For every dependency structure and every depth setting, executing a pipeline yields for each provisional result the same diagram that immediate evaluation of the same operation on the same operands would have returned. Until the pipeline is quit, provisional results can be told from ordinary ones, other operations on ordinary diagrams stay correct, and collections and reorderings happening in between affect neither; afterwards the manager is as usable as before.",
 ["inputs", "histories", "configurations"], "all operation kinds, all dependency graphs, all depth settings, all interleavings with collections and reorderings",
 "TestPipeline runs one dependency shape with one depth.",
 ["src/calPipeline.c", "src/calApplyReduce.c", "src/calReorderUtil.c"],
 [("provisional request nodes and dependence depth", "src/calPipeline.c Cal_PipelineCreateProvisionalBdd, CalBddGetDepth"),
  ("execution by depth slices", "src/calPipeline.c Cal_PipelineExecute"),
  ("fix-up under collection and reordering", "src/calPipeline.c CalBddReorderFixProvisionalNodes, src/calGC.c")],
 [("pipelineState, currentPipelineDepth", "pipeline phase", "src/calInt.h")])

prop("C14", "Dumped diagrams read back exactly; malformed files are rejected safely",
 "A diagram dumped to a file and read back, into the same or another manager and under any other variable order, is the same function of the corresponding variables of the given variable array; read back in the same manager with the same array it is the identical diagram. A file that is truncated, corrupted or refers to variables or nodes it may not is rejected with the null diagram and an error code, or yields some diagram, but never corrupts or crashes the manager.",
 ["inputs", "fault_sequences", "configurations"], "all functions, variable arrays and orders, all byte strings as files",
 "TestDump writes and reads one function per round in one manager and order, with one-byte indices, and no test offers a damaged file.",
 ["src/calDump.c"],
 [("encoding of nodes and shared indices", "src/calDump.c Dump/BddDumpBddStep, Write"), ("decoder", "src/calDump.c BytesNeeded, Read, BddUndumpBddStep, Cal_BddUndumpBdd")])

prop("C15", "Inspection functions report the true structure and change nothing",
 "Size, profile, function profile, support, dependence test, type, top variable, branches, and the multi-diagram variants report exactly the values determined by the functions and the current order. They are repeatable and leave every diagram, reference count and node mark as they were, so that no later query or operation is affected.",
 ["inputs", "histories"], "all functions and orders, all sequences of queries",
 "TestSize looks at a few single functions; arrays with repeated or complemented members, constants, function profiles and repeated calls are not covered.",
 ["src/calBddSize.c", "src/calBddSupport.c", "src/cal.c", "src/calUtil.c"],
 [("mark, count, unmark passes", "src/calBddSize.c"), ("support marks", "src/calBddSupport.c"), ("node accessors", "src/cal.c Cal_BddIf/Then/Else/Type")])

prop("C16", "The node limit and null operands fail cleanly",
 "When a node limit is set, an operation that leaves the manager above it either returns a correct result or returns null and raises the overflow flag, which reading reports once and clears; nothing held by the user changes, and after the limit is raised or nodes are freed the manager works as before. Passing the null diagram to an operation returns null (or the documented neutral answer) without any effect.",
 ["histories", "fault_sequences"], "all limits, all operations, all points of a history at which the limit is hit; all operand positions that may be null",
 "No test sets a node limit or passes a null diagram.",
 ["src/cal.c", "src/calBddOp.c", "src/calBddITE.c", "src/calQuant.c", "src/calReduce.c", "src/calPipeline.c", "src/calBddManager.c"],
 [("pre- and post-processing", "src/cal.c CalBddPreProcessing, CalBddPostProcessing"), ("limit", "src/calBddManager.c Cal_BddNodeLimit")],
 [("overflow, nodeLimit", "flag and limit", "src/calInt.h")])

prop("C17", "Memoisation and internal scheduling are never observable",
 "Repeating any operation with equal operands at any later time, after arbitrary other operations, frees, collections, reorderings, association changes or cache and table resizes, gives the same function as the first time. No result ever depends on stale memoised results or on identifiers of associations that have been reused.",
 ["histories"], "all histories between two equal calls, including more than 65536 quantifications with temporary associations",
 "The cache test exercises the cache as a data structure; no test repeats operations across events that must invalidate cached results.",
 ["src/calCacheTableTwo.c", "src/calQuant.c", "src/calBddOp.c", "src/calHashTable.c"],
 [("operation cache", "src/calCacheTableTwo.c"), ("per-operation codes", "src/calInt.h CAL_OP_*")],
 [("cacheTable", "memoised results", "src/calCacheTableTwo.c")])

prop("C18", "The block allocator hands out disjoint, preserved memory",
 "Every block obtained from the package's memory manager is suitably aligned, at least as large as requested and disjoint from every other live block; resizing keeps the contents up to the smaller size. Freed memory serves later requests: while a freed block or record that fits has not been handed out again, and whenever nothing is live and no larger block was ever asked for, no further memory is taken from the system. Fixed-size record managers obey the same rules.",
 ["histories", "inputs"], "all sequences of get, resize, free and record operations with all sizes",
 "No test calls the allocator directly.",
 ["src/calMem.c", "src/calMem.h"],
 [("buddy-style block lists", "src/calMem.c Cal_MemGetBlock/Cal_MemFreeBlock/Cal_MemResizeBlock"), ("record managers", "src/calMem.c Cal_MemNewRec/FreeRec")],
 [("availableBlocks", "free lists by size class", "src/calMem.c")])

prop("C19", "The C++ wrapper keeps exact reference counts and matches the C API",
 "Every construction, copy, move, assignment (including self assignment), temporary and destruction of wrapper objects leaves each underlying diagram with exactly one reference per live wrapper object denoting it, and every wrapper operation returns what the corresponding C function returns. Functions that return collections return all elements.",
 ["programs", "histories"], "all programs over wrapper objects",
 "No test uses the C++ wrapper.",
 ["src/calObj.hh"],
 [("RAII over free/un-free", "src/calObj.hh BDD special members"), ("array conversions", "src/calObj.hh C_Bdd_vector, From_C_Array")],
 observe=["reference count of each handle after each statement"])

prop("C20", "Managers are independent and release everything when quit",
 "Operations on one manager never influence results, counts, orders or settings of another manager that exists at the same time, and creating and quitting managers in any order leaves the others intact. Quitting a manager releases the memory it acquired, and settings such as user hooks, node limit, reordering technique and parameters are kept exactly as set until changed.",
 ["histories", "schedules"], "all interleavings of calls on several managers, including creation and quitting",
 "All tests use a single manager per process.",
 ["src/calBddManager.c", "src/calMemoryManagement.c", "src/calMem.c"],
 [("manager state", "src/calBddManager.c Cal_BddManagerInit/Quit")])

prop("C21", "Printed output describes the diagram faithfully",
 "The printed form of a diagram names each node once and, read back as nested if-then-else text with the chosen variable names, denotes the function that was printed; printed profiles show exactly the counts that the profile functions return. Printing changes neither the diagram nor any later result.",
 ["inputs", "histories"], "all functions, orders and naming functions",
 "No test inspects printed output.",
 ["src/calPrint.c", "src/calPrintProfile.c", "src/cal.c"],
 [("recursive printer", "src/calPrint.c BddPrintBddStep"), ("profile printer", "src/calPrintProfile.c CalBddPrintProfileAux")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
