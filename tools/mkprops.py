import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
      "observe_at":observe,"hook_needed":hook}})

p("D01","Written sites are intact after any write fault, crash or restart",
 "Whenever a build or rebuild reports success, every document of the written site is complete JSON, every asset hash those documents refer to is present in the repository, and every repository file they refer to has exactly the bytes its hash names. This holds whatever disk errors, short or torn writes, full disks, interrupts, process crashes and restarts earlier builds in the same directory suffered. A failed build never leaves a document cut short, and the package written by a successful `build` command is likewise complete.",
 ["crash_points","fault_sequences","histories"],
 "every history of builds, rebuilds, edits, disk faults, Ctrl-C, process deaths and restarts over one build directory, with the fault at any file operation and any byte of a write",
 "The build tests write into an empty directory on a disk that never fails; no test interrupts a build between two writes and builds again over what is left, and the property is about exactly those left-overs.",
 ["sonolus/build/collection.py","sonolus/build/cli.py","sonolus/build/dev_server.py","sonolus/build/engine.py"],
 [("Collection.write / _write_repository_items","sonolus/build/collection.py"),("write_collection, build_project","sonolus/build/cli.py"),("RebuildCommand.execute","sonolus/build/dev_server.py")],
 ["files under <build_dir>/site and <build_dir>/dist","GET /sonolus/..."])

p("D02","Clients of the dev server only ever see complete, resolvable documents",
 "While the dev server runs, every successful HTTP response to any client, at any moment of any rebuild, is a complete document or asset of some build: never cut short, never a mix of two versions, and a repository file always has the bytes its hash names. Every asset a received document refers to can be fetched from then on, and a document the server has published does not become unavailable because a rebuild is in progress.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of clients' requests (fast, slow, aborted) with the file operations of rebuilds, for every edit history",
 "The dev server is never run by the tests together with a client; the interleavings of a rebuild's writes with the HTTP thread's reads are decided by the OS.",
 ["sonolus/build/collection.py","sonolus/build/dev_server.py","sonolus/build/cli.py"],
 [("write order and per-file publication in Collection.write","sonolus/build/collection.py"),("write_collection(clear=False) on rebuild","sonolus/build/cli.py"),("run_server HTTP thread","sonolus/build/dev_server.py")],
 ["HTTP responses of the dev server"])

p("D03","A rebuild serves exactly what a fresh build would serve",
 "After any history of edits, failed rebuilds and successful rebuilds in one dev server session, the site served after a successful rebuild is the same, document by document and asset by asset, as the site a newly started dev server would serve for the sources and resources then on disk. In particular nothing of earlier versions remains visible: removed levels, archetypes, resources or converters are gone, nothing is converted twice, and changed modules, helper functions and resource files take effect wherever in the project they are.",
 ["histories","fault_sequences","inputs"],
 "every history of source, level, converter and resource edits (including edits while a build runs, edits with old timestamps, clock steps) mixed with rebuilds that fail at any stage",
 "The unit tests of the rebuild command check single rebuild steps with a freshly made state; caches, module state and the reused collection only matter over histories of several edits and failures.",
 ["sonolus/build/dev_server.py","sonolus/build/project.py","sonolus/build/collection.py","sonolus/backend/utils.py","sonolus/script/internal/visitor.py"],
 [("RebuildCommand.execute: module purge, cache clearing, resource reload","sonolus/build/dev_server.py"),("build_project_to_existing_collection, path_was_modified_after","sonolus/build/project.py"),("get_function/get_tree_from_file caches","sonolus/backend/utils.py"),("clear_frontend_caches","sonolus/script/internal/visitor.py")],
 ["GET /sonolus/... after each rebuild"])

p("D04","The dev server stays live: commands run once, in order, and quit ends it",
 "Every command line entered at the dev server prompt is executed exactly once, in the order entered, and a new prompt follows, whatever earlier commands did: invalid lines, rebuilds that fail in import, compilation, resources or disk, projects that raise an exception or exit while being imported or built. The HTTP side keeps answering well-behaved clients however many other clients stall, reset or send garbage, and quit (or Ctrl-C) ends the process within a bounded time.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of input thread, command loop, HTTP threads and clients, with every mix of failing commands and misbehaving clients",
 "Tests call command objects directly; the prompt/queue hand-over between the threads, the HTTP server under stalled clients and the shutdown path are never run together.",
 ["sonolus/build/dev_server.py"],
 [("command_input_thread, prompt_event and command_queue hand-over","sonolus/build/dev_server.py"),("main command loop and its exception handling, httpd.shutdown()","sonolus/build/dev_server.py"),("parse_dev_command","sonolus/build/dev_server.py")],
 ["stdout transcript","prompt (calls of input())","HTTP responses","process end"])

p("D05","Debug message codes decode to the message that was compiled",
 "At any point of a dev server session (except after a rebuild cut off by a write error, until the next one succeeds), decoding a code that the engine currently served logs when a runtime check or debug call fires yields the message text given at that place in the sources of that build, under the trace of source lines that leads there. Two different messages never share a code within one build, in any mode of the engine, and a code that the served build does not contain is reported as unknown.",
 ["histories","inputs","programs"],
 "every project (messages shared or distinct across callbacks, archetypes and modes), every history of edits and of successful and failed rebuilds, every triggering execution",
 "No test runs the served engine until it logs a code and then asks the same session to decode it, and none does so across failed rebuilds.",
 ["sonolus/script/internal/context.py","sonolus/script/debug.py","sonolus/build/dev_server.py","sonolus/build/engine.py"],
 [("ProjectContextState.debug_str_mappings, map_debug_message","sonolus/script/internal/context.py"),("error/notify/require","sonolus/script/debug.py"),("DecodeCommand.execute; project_state hand-over in RebuildCommand","sonolus/build/dev_server.py")],
 ["debug log calls of the served engine data when executed","output of the decode command"])

p("D06","A rebuild that fails leaves the served site untouched",
 "If a rebuild fails because of the project itself - a syntax error, an exception while importing, a compilation error anywhere in the engine, a missing resource - then every document and asset the dev server served before is still served unchanged afterwards, and fixing the error and rebuilding gives the fresh-build result. A rebuild cut off by a write error leaves each document either at its previous or at its new version.",
 ["histories","fault_sequences"],
 "every failing edit at every stage of a build (import, each mode's compilation, levels, resources, writing), after every history",
 "Tests check that an error is printed; the state of the site and of the session after the failure, over several failures in a row, is not examined.",
 ["sonolus/build/dev_server.py","sonolus/build/project.py","sonolus/build/cli.py"],
 [("RebuildCommand.execute: build completely before writing","sonolus/build/dev_server.py"),("write_collection","sonolus/build/cli.py")],
 ["GET /sonolus/... before and after the failed rebuild"])

p("D07","Builds are reproducible",
 "Building the same project with the same configuration gives byte-identical output whatever the process does not control: directory enumeration order, hash seed and object addresses, clock values, garbage collection moments, the current contents of the build directory, and other builds, checks or failed builds done before in the same process.",
 ["configurations","schedules","histories","fault_sequences"],
 "every environment (enumeration orders, hash seeds, allocation layouts, clocks, GC points) and every prior build history in the process, for every project",
 "A test run has one hash seed, one directory order and one allocation history, and compares nothing across processes.",
 ["sonolus/build/project.py","sonolus/build/collection.py","sonolus/build/engine.py","sonolus/build/compile.py","sonolus/backend/_opt/driver.pyx","sonolus/script/internal/context.py"],
 [("sequential, first-touch-ordered mode builds","sonolus/build/engine.py"),("load_resources_files_to_collection, load_from_source","sonolus/build/project.py, sonolus/build/collection.py"),("gzip mtime=0","sonolus/build/engine.py, sonolus/build/collection.py"),("edge and node ordering in the optimizer","sonolus/backend/_opt")],
 ["files under <build_dir>"])

p("D08","Assets are published exactly or not at all when reading them fails",
 "Whatever I/O faults occur while resources are read from disk or downloaded - read errors, short reads, vanishing files, truncated or reset responses, HTTP errors - an asset that ends up in the collection has exactly the bytes of its source (compressed where specified), and a source that could not be read is reported or fails the build. A fault in one resource never changes, drops or misattributes any other resource or item.",
 ["fault_sequences","inputs"],
 "every fault kind at every read of every resource file, archive or download, for every resource tree",
 "Tests load intact files from a healthy disk; no read ever fails or comes up short.",
 ["sonolus/build/collection.py","sonolus/build/project.py"],
 [("load_from_source, load_from_scp","sonolus/build/collection.py"),("load_asset","sonolus/build/collection.py"),("load_resource","sonolus/build/project.py")],
 ["site documents and repository after the build","build output (stdout, stderr, warnings, exit)"])

p("C01","An aborted compilation leaves nothing behind",
 "If compiling or checking a project stops at any point - a compilation error, an exception out of user code, an interrupt, an out-of-memory error - then a later build of the same or another project in the same process gives exactly the output it would have given in a fresh process. The same holds for a check or build that completed.",
 ["crash_points","histories"],
 "every point of a compilation at which an exception can surface, every sequence of aborted and completed compilations",
 "Tests compile programs that fail at one statically chosen statement; state left in global contexts, caches and class-level registries by a failure at other points is never compared with a fresh process.",
 ["sonolus/script/internal/context.py","sonolus/script/internal/visitor.py","sonolus/build/compile.py","sonolus/script/archetype.py","sonolus/backend/_opt/driver.pyx"],
 [("using_ctx / context stack restoration","sonolus/script/internal/context.py"),("clear_frontend_caches","sonolus/script/internal/visitor.py"),("compile_mode, callback_to_cfg","sonolus/build/compile.py")],
 ["output of the next build"])

p("R01","Optimization levels never change what a callback does",
 "Compiled at any optimization level, for any mode and callback, a callback's observable behaviour - the ordered host calls with their arguments, the values left in memory that outlives the call, the value returned, termination - is that of its unoptimized control flow graph, in every host environment the mode and callback permissions allow. That includes values the host changes between invocations, any sequence of random draws, and extreme arguments for which the engine's arithmetic stays defined (no multiplication of zero by NaN or infinity). A random draw whose value nothing uses need not be made.",
 ["programs","histories","inputs","configurations"],
 "every control flow graph a frontend can emit, every optimization level, every mode/callback, every history of invocations with host-chosen memory contents and random draws",
 "The random-CFG tests run each program once from one memory image at the test interpreter; histories of invocations over changing host memory, all mode/callback permission sets and the per-level pipelines are sampled thinly and with the interpreter the project itself maintains.",
 ["sonolus/backend/_opt/midend.pyx","sonolus/backend/_opt/lower.pyx","sonolus/backend/_opt/driver.pyx","sonolus/backend/_opt/emit.pyx","sonolus/backend/_opt/analysis.pyx","sonolus/backend/_opt/kernels.pyx","sonolus/backend/ops.py","sonolus/backend/blocks.py"],
 [("pass pipelines per level","sonolus/backend/_opt/driver.pyx"),("SCCP/GVN/DCE/LICM/switch rewriting, if-conversion","sonolus/backend/_opt/midend.pyx"),("out-of-SSA, coalescing, scheduling, allocation","sonolus/backend/_opt/lower.pyx"),("writability by mode and callback","sonolus/backend/blocks.py")],
 ["emitted engine nodes when executed by a host"])

p("R02","Compiled callbacks do not depend on leftover scratch memory",
 "Whatever an earlier callback of this or another entity left in the temporary memory of the engine, a compiled callback behaves the same, except where the source itself reads an element it never wrote. Two values that are live at the same time never share a temporary slot, and no callback addresses temporary memory outside what the engine provides.",
 ["histories","programs","schedules"],
 "every program and optimization level, every garbage content of temporary memory at entry, every order of callbacks",
 "Tests start each program with pristine memory, so a value read before it is written, or a slot shared by two live values along a rare path, goes unnoticed.",
 ["sonolus/backend/_opt/lower.pyx","sonolus/backend/_opt/analysis.pyx","sonolus/backend/_opt/emit.pyx"],
 [("allocators (bump, packing) and the 4096-slot limit","sonolus/backend/_opt/lower.pyx"),("liveness, dead store elimination","sonolus/backend/_opt/analysis.pyx")],
 ["emitted engine nodes when executed over dirty temporary memory"])

p("R03","Parallel callbacks of different entities cannot interfere",
 "For an engine whose parallel callbacks use only what those callbacks may access, running the parallel callbacks of all entities in any order, or interleaved operation by operation on separate engine threads, gives every entity the same result; and each optimized callback writes only to memory its source writes to. Writes to memory that a callback may not write are rejected when the engine is compiled.",
 ["schedules","programs"],
 "every interleaving, at the granularity of single engine operations, of the parallel callbacks of any number of entities on any number of engine threads",
 "No test runs two callbacks interleaved; the test interpreter is sequential.",
 ["sonolus/backend/blocks.py","sonolus/script/archetype.py","sonolus/script/internal/context.py","sonolus/backend/_opt/midend.pyx","sonolus/backend/_opt/lower.pyx","sonolus/backend/_opt/emit.pyx"],
 [("block readability/writability per callback","sonolus/backend/blocks.py"),("write checks","sonolus/backend/place.py, sonolus/script/internal/context.py"),("rmw fusion and store motion","sonolus/backend/_opt")],
 ["entity memory and host calls after each frame"])

p("R04","Streams replay what was recorded, exactly once per key",
 "Data written to a stream or stream group during play is read back in watch mode with the value and key it was written with, at exact keys, between keys and by every direction of iteration. Under any frame timing - stalled, repeated, very short, very long frames - iterating over what arrived since the previous frame delivers every key exactly once and in order over the whole replay.",
 ["schedules","histories","inputs"],
 "every history of writes (any keys, order, overwrites, several streams and groups) and every sequence of frame times in watch mode, including skipped and zero-length frames",
 "The test interpreter does not implement stream operations, so no test reads a stream.",
 ["sonolus/script/stream.py","sonolus/script/runtime.py"],
 [("Stream / StreamGroup accessors and iterators","sonolus/script/stream.py"),("prev_time/time","sonolus/script/runtime.py")],
 ["values host calls receive in the watch engine"])

p("R05","Containers in persistent memory behave like their models over any history",
 "VarArray, ArraySet, ArrayMap, FrozenNumSet, linked-list sorting, and array operations kept in memory across callbacks and frames behave like the corresponding Python list, set, dict and stable sort over any sequence of operations, at any capacity and element type, in every order of callbacks and at every optimization level. An operation that fails its runtime check (full, empty, missing, out of range) leaves the container's contents as they were.",
 ["histories","inputs","configurations"],
 "every sequence of operations spread over frames, callbacks and entities, every capacity including empty and full, every failing check",
 "Unit tests run short fixed scripts inside one callback on fresh memory, and a failing check ends the test.",
 ["sonolus/script/containers.py","sonolus/script/array_like.py","sonolus/script/array.py","sonolus/script/internal/generic.py"],
 [("VarArray, ArraySet, ArrayMap, FrozenNumSet","sonolus/script/containers.py"),("sort_linked_entities, LinkedNode","sonolus/script/containers.py"),("ArrayLike algorithms","sonolus/script/array_like.py")],
 ["memory contents and host calls after each step"])

p("R06","Randomness APIs stay in contract for every sequence of draws",
 "For every sequence of values the engine's random source can produce, including the extremes, random choices and integers lie in the requested range, shuffles are permutations, and every outcome of the requested range is reachable. The draws whose values are used are the same, in the same order, at every optimization level.",
 ["inputs","histories","configurations"],
 "every sequence of engine random draws (adversarial, biased, extreme), every argument, every optimization level",
 "Tests seed one pseudo-random generator and check statistics-free facts on a few draws; the extreme values of the range are practically never drawn.",
 ["sonolus/script/internal/random.py","sonolus/script/num.py"],
 [("_random, _randrange, _choice, _shuffle, _uniform","sonolus/script/internal/random.py")],
 ["results passed to host calls"])

p("R07","A compiled engine behaves as its Python source, entity by entity",
 "For a packaged engine and level run by a host - entities created, imported data filled, callbacks run in the declared order frame after frame with any timing and input, entities spawned and despawned - every archetype's callbacks leave the same memory, make the same host calls and spawn the same entities as the Python source they were written in, at every optimization level. Level data, exports, inheritance of archetypes and callback order reach the host as the source says.",
 ["programs","histories","schedules","configurations"],
 "every engine in the supported language subset, every level, every history of frames, inputs, spawns and despawns, every optimization level",
 "Tests compile single functions and compare one return value; no test runs a packaged engine with several entities over several frames.",
 ["sonolus/script/internal/visitor.py","sonolus/script/archetype.py","sonolus/build/compile.py","sonolus/build/node.py","sonolus/build/engine.py","sonolus/build/level.py","sonolus/script/num.py","sonolus/script/internal"],
 [("Visitor: Python AST to CFG","sonolus/script/internal/visitor.py"),("archetype memory layout, spawn, callback order","sonolus/script/archetype.py"),("compile_mode and OutputNodeGenerator","sonolus/build/compile.py, sonolus/build/node.py"),("package_level_data","sonolus/build/level.py")],
 ["packaged engine and level data executed by a host"])

p("R08","Runtime checks fire exactly when violated, in the configured way",
 "With checks on, an assertion, out-of-range index, full or empty container or other documented error condition stops the callback at that point - no later effect of the callback happens - and, in notify mode, logs its message code and pauses the game; when no condition is violated, checks have no observable effect. With checks off, a callback that violates no condition behaves exactly the same as with checks on.",
 ["inputs","histories","configurations","programs"],
 "every check mode, optimization level, error condition, and history that reaches it",
 "Tests exercise one check mode of a function at a time with a violated condition; equivalence of the modes over histories in which conditions are violated now and then is not looked at.",
 ["sonolus/script/debug.py","sonolus/script/internal/context.py","sonolus/script/array.py","sonolus/script/containers.py","sonolus/script/array_like.py"],
 [("require/assert_true/error/terminate","sonolus/script/debug.py"),("RuntimeChecks in ProjectContextState","sonolus/script/internal/context.py"),("assert statement translation","sonolus/script/internal/visitor.py")],
 ["host calls, memory and termination of the executed engine data"])

# not applicable ones
p("N01","Constant folding is bit-exact with the engine's arithmetic",
 "Folding an operation on constants gives bit for bit the value the engine computes at run time, for every operand including NaN, infinities, signed zero and denormals.",
 ["inputs"],"every operand of every foldable operation",
 "Property tests sample the operand space; the statement is for all operands.",
 ["sonolus/backend/_opt/kernels.pyx","sonolus/backend/ops.py"],[("fold kernels","sonolus/backend/_opt/kernels.pyx")],["folded constants in emitted nodes"])
p("N02","Geometry, easing and interval helpers satisfy their algebra",
 "Vector, matrix, quad, rectangle, interval, easing and interpolation helpers satisfy their defining equations for all inputs (inverse transforms compose to identity, remap inverts, ease functions hit their end points, clamp stays inside).",
 ["inputs"],"every numeric argument","Tests sample a few arguments.",
 ["sonolus/script/vec.py","sonolus/script/quad.py","sonolus/script/transform.py","sonolus/script/easing.py","sonolus/script/interval.py"],[("pure helper functions","sonolus/script")],["returned values"])
p("N03","Control flow graph text round-trips",
 "Printing any control flow graph to its text form and parsing it back gives an equivalent graph.",
 ["inputs","programs"],"every control flow graph","Tests sample the space of graphs.",
 ["sonolus/backend/_opt/ir.pyx"],[("cfg text printing and parsing","sonolus/backend")],["text form"])
p("N04","The project schema lists exactly the level-visible fields",
 "The schema command lists, for every archetype of every mode, exactly the imported and exported fields a level editor can use, in declaration order.",
 ["inputs"],"every project","Tests use a few projects.",
 ["sonolus/build/project.py"],[("get_project_schema","sonolus/build/project.py")],["schema command output"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
