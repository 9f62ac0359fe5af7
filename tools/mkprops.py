import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
R="numba_pokemon_prngs/"
ENC=R+"data/encounter/__init__.py"
CST=[("cache directory","one pickled entry per game / map area, shared by every process and both execution modes of a user",ENC+":pickle_cached")]
COB=["the public encounter tables and map names after import","results of repeated calls of the two loaders"]
p("C01","Cached encounter data is indistinguishable from freshly decoded data",
 "Whatever processes ran before, in whichever execution mode (compiled or pure Python) and with whatever mixture of present, missing and removed cache entries, the encounter data a process gets (map names, rates, slots, levels, species and forms, multipliers, keys) equals what the shipped resource files say. This also holds for repeated loads within one process and after a client has modified its own copy. Any permitted cache location works.",
 ["histories","configurations"],"every sequence of process lives in both modes over one cache directory, every subset of entries present or removed in between, every cache location, every order of repeated loads",
 "No test imports the encounter data at all (a resource file is missing from the copy), and the sequence of earlier processes and modes is unbounded.",
 [ENC,R+"data/fbs/encounter_la.py",R+"data/fbs/flatbuffer_object.py",R+"data/encounter/encounter_area_la.py",R+"data/encounter/encounter_area_3.py",R+"compilation.py"],
 [("cache decorator: encode on write, decode on read",ENC+":pickle_cached"),("mode-neutral encoding of the area tables",ENC+":encounter_tables_la_encode/_decode"),("decoders of the resource files",ENC+":load_encounter_3, load_encounter_tables_la")],CST,COB)
p("C02","A crash while loading never breaks or corrupts later loads",
 "If a process is killed, interrupted or loses power at any instant of loading the encounter data, every later process (and a retry in an interrupted process) still loads it successfully and gets exactly what the resource files say. No manual cleaning of the cache is ever needed.",
 ["crash_points","fault_sequences","histories"],"every crash, interruption or power loss at any file-system step or inside any write of any load, with any subset of unsynced data and directory changes lost, repeated any number of times",
 "Tests never crash a process; the crash instants times the surviving disk states cannot be sampled by unit tests.",
 [ENC],[("entry is validated before use",ENC+":pickle_cached"),("entries are recomputed on a miss",ENC+":pickle_cached")],CST,COB)
p("C03","Processes sharing the cache never see each other's half-done work",
 "Any number of processes of either mode loading at the same time from one cache directory, with some of them removing cache entries meanwhile, all load successfully and get exactly what the resource files say, and so do the processes after them.",
 ["schedules"],"every interleaving of the file-system steps of several concurrent loads (and cache removal), in any mixture of modes",
 "Tests run one process; the interleavings of file operations are neither controlled nor covered.",
 [ENC],[("entries are complete or not used",ENC+":pickle_cached")],CST,COB)
p("C04","A failing cache disk never prevents loading nor changes data",
 "When creating, opening, reading, writing, replacing or removing anything in the cache location fails (permission, read-only, no space, quota, I/O error, too many open files, a directory in place of a file) at any point, loading still succeeds with exactly what the resource files say. Loads after the failures stop do too.",
 ["fault_sequences"],"every sequence of file-system errors and short writes on the cache location, at every call of every load, for any number of loads",
 "Tests run on a healthy disk and cannot make the n-th file operation fail.",
 [ENC],[("cache errors count as a miss",ENC+":pickle_cached"),("directory creation",ENC+":pickle_cached")],CST,COB)
p("C05","A failed resource read gives an error or the right data, never wrong data",
 "If reading a shipped resource file fails or is interrupted during a load, the load either raises an error or returns exactly what the resource files say. Once reads work again, a retry in the same process and loads in every other process succeed with exactly that data, so nothing partial is kept in memory or in the cache.",
 ["fault_sequences","histories"],"every sequence of open/read errors and short reads on the resource files, at every call of every load, followed by retries in the same and in new processes",
 "Tests cannot make the n-th read fail, and the damage would only show in a later process.",
 [ENC,R+"data/__init__.py",R+"data/fbs/flatbuffer_object.py"],[("result is stored only after it was computed completely",ENC+":pickle_cached"),("resource reads",ENC)],CST,COB)
p("C06","Damaged cache entries are never served as data",
 "If bytes of cache entries are flipped, overwritten, truncated, extended, zeroed or swapped between entries by the storage between or during loads, loading succeeds and gives exactly what the resource files say.",
 ["fault_sequences","histories"],"every corruption of any entries between and during loads by either mode",
 "The corrupted states are unbounded and no test looks at a cache entry.",
 [ENC],[("digest over the entry",ENC+":entry_digest, pickle_cached")],CST,COB)
p("C07","Cache entries made from other resource files are never served",
 "When installations with different resource files (an upgrade, a downgrade, or two versions side by side) use one cache directory one after the other or at the same time, each process gets exactly what its own resource files say.",
 ["histories","schedules","configurations"],"every sequence and interleaving of loads by installations with different versions of any of the resource files over one cache directory",
 "Tests have one version of the resource files and one process.",
 [ENC],[("digest of the resource files in the entry",ENC+":pickle_cached")],CST,COB)
GEN=[R+"lcrng/lcrng32.py",R+"lcrng/lcrng64.py",R+"mersenne_twister/mt.py",R+"mersenne_twister/sfmt.py",R+"mersenne_twister/tinymt.py",R+"xorshift/xorshift128.py",R+"xorshift/xoroshiro128plus.py"]
p("T01","Separate generators on separate threads never influence each other",
 "Threads that each use only their own generator objects (linear congruential, twisters, xorshift family, cached-result lists, seed hashing, encounter search) obtain exactly the results they would obtain alone, however the threads are scheduled and whichever of them die in the middle of an operation.",
 ["schedules"],"every preemptive interleaving of the operations of several threads on disjoint objects, including switches inside an operation in pure-Python mode, and threads dying inside one",
 "Tests are single threaded; a shared scratch buffer or class-level state goes unnoticed without a switch at the right instruction.",
 GEN+[R+"rng_list.py",R+"sha1.py",R+"gen3/wild_generator_3.py"],[("all state is per object",GEN[2]),("no shared scratch space",R+"sha1.py")],
 [("state/seed/index","per-object generator state",GEN[2])],["every value each thread draws"])
p("T02","Shared read-only objects give every thread the same results as alone",
 "An encounter search object, an encounter area, the stat tables and compiled constant functions (constant jumps and bounded draws) may be used by many threads at once: each call returns what it returns alone, and using them never changes them.",
 ["schedules"],"every preemptive interleaving of read-only operations of several threads on the same objects",
 "Tests are single threaded and call each function once.",
 [R+"gen3/wild_generator_3.py",R+"gen3/encounter_area_3.py",R+"gen3/state.py",R+"data/encounter/encounter_area_la.py",R+"data/personal/__init__.py",R+"lcrng/lcrng32.py",R+"lcrng/lcrng64.py",R+"sha1.py"],
 [("searches keep their working state in locals",R+"gen3/wild_generator_3.py:generate"),("constants captured at creation",R+"lcrng/lcrng32.py:const_jump, const_rand")],None,["results of each call; the tables and areas afterwards"])
p("T04","Using the package in the middle of one of its operations disturbs nothing",
 "When an operation on a generator, cached-result list, seed hash, encounter search, area or stat table is suspended at any instant by code of the same thread that uses the package itself (a signal handler, a finalizer, a debugger or profiler callback), and that again by other such code, both give exactly the results they give alone, and neither waits for the other. This holds for separate objects and for shared read-only ones, and also when the suspended operation is then cut short and its object re-initialised.",
 ["schedules","fault_sequences"],"every instruction at which an operation can be suspended, for every pair of operations of the suspended and the suspending code, nested any number of times",
 "Tests never suspend an operation in the middle; scratch space kept per thread or a lock that is not reentrant is right in every other schedule.",
 GEN+[R+"rng_list.py",R+"sha1.py",R+"gen3/wild_generator_3.py",R+"data/encounter/encounter_area_la.py",R+"data/personal/__init__.py"],[("all working state is per call or per object",GEN[2]),("no shared scratch space",R+"sha1.py"),("searches keep their working state in locals",R+"gen3/wild_generator_3.py:generate")],
 None,["every value both the suspended and the suspending code get; shared objects afterwards"])
p("R01","Interrupted work leaves nothing behind: re-initialising or retrying is as new",
 "If an operation on a generator, cached-result list, seed hash, encounter search or table is cut short at any instant by an asynchronous interrupt or an allocation failure, re-initialising the object (or restoring its public state, or repeating an interrupted read-only, configuring or hashing operation) makes it behave exactly as a new one, and other objects are unaffected.",
 ["fault_sequences","schedules"],"every interruption point inside every operation, repeated any number of times, for every kind of object",
 "Tests never interrupt an operation; the interruption points are every instruction of every operation.",
 GEN+[R+"rng_list.py",R+"sha1.py",R+"gen3/wild_generator_3.py"],[("re_init sets the whole state",GEN[2]+":re_init"),("list refill and pointer reset",R+"rng_list.py:re_init")],None,["every value drawn after the re-initialisation"])
p("R02","Saved generator state restores to the same sequence in any process and mode",
 "A generator rebuilt from saved public state (seed, or state words and position) after a crash, in a new process, in the same or the other execution mode, continues with exactly the values the original would have produced. Work replayed from the last saved state after any number of crashes equals an uninterrupted run.",
 ["crash_points","histories","configurations"],"every sequence of draws, saves, crashes, restores and migrations between modes, for every generator",
 "Tests never save or restore a state, nor mix the two modes.",
 GEN,[("the public state is the whole state",GEN[2])],None,["values drawn after each restore"])
p("H01","Linear congruential generators follow one reversible reference sequence",
 "Whatever clients do with a shared generator in whatever order (single steps, variable and constant jumps, repeated advances, 16/32-bit draws, bounded draws by either distribution, re-seeding, crash and restore), every returned value and the state equal those of the mathematical sequence at that position, and each reversed generator walks exactly the forward one's sequence backwards. Bounded draws are below their bound and consume one step, for every distance and bound of the parameter types.",
 ["histories","schedules","crash_points"],"every history of operations by several clients taking turns, all seeds, distances and bounds, crash/restore points, both modes",
 "Tests compare a few fixed values of fixed histories; positions depend on unbounded histories of mixed operations.",
 [R+"lcrng/__init__.py",R+"lcrng/lcrng32.py",R+"lcrng/lcrng64.py",R+"compatability.py"],[("jump table",R+"lcrng/lcrng32.py:lcrng32_init"),("reversal by modular inverse",R+"lcrng/lcrng32.py:lcrng32_init"),("64-bit variant",R+"lcrng/lcrng64.py")],None,["return values and the seed after each operation"])
p("H02","Twister generators follow their reference sequences through any history",
 "Whatever clients do with a shared Mersenne Twister, SIMD-oriented Fast Mersenne Twister or Tiny Mersenne Twister in whatever order (draws, bounded draws by either distribution, advances of any length, re-seeding, crash and restore), every value equals that of the published algorithm at that position; in particular advancing by n equals n draws from any position, across any number of state refills.",
 ["histories","schedules","crash_points"],"every history of operations by several clients taking turns, all seeds, advance lengths and bounds, crash/restore points, both modes",
 "Tests advance once from a fresh state by one fixed length; refill boundaries depend on the history.",
 [R+"mersenne_twister/mt.py",R+"mersenne_twister/sfmt.py",R+"mersenne_twister/tinymt.py"],[("index arithmetic of advance/next/shuffle",R+"mersenne_twister/mt.py"),("vector refill",R+"mersenne_twister/sfmt.py:sfmt_shuffle_ir, sfmt_shuffle")],None,["every value drawn"])
p("H03","Xorshift-family generators follow their sequences forwards and backwards",
 "Whatever clients do with a shared xorshift128 or xoroshiro128+ generator in whatever order (draws, backward draws, bounded, ranged, alternate and float draws, advances, re-seeding, crash and restore), every value equals that of the published algorithm at that position, any mixture of forward and backward steps that cancels out restores the state, and bounded draws lie in their range, consuming as many steps as the game's distribution does.",
 ["histories","schedules","crash_points"],"every history of operations by several clients taking turns, all seeds, bounds and advance lengths, crash/restore points, both modes",
 "Tests draw a few fixed values; mixed forward/backward histories are unbounded.",
 [R+"xorshift/xorshift128.py",R+"xorshift/xoroshiro128plus.py",R+"util.py"],[("inverse steps",R+"xorshift/xorshift128.py:previous"),("rejection sampling",R+"xorshift/xoroshiro128plus.py:next_rand"),("split-mix seeding",R+"xorshift/xoroshiro128plus.py:splitmix")],None,["every value drawn and the state"])
p("L01","A cached-result list is a faithful sliding window over its generator",
 "Through any history of reading values, moving within the window, sliding the window by one or many, refilling, and re-seeding the underlying generator, each value read is the generator's result at the position the window and pointer denote, for every window size, generator and result width; the window never skips, repeats or truncates a result.",
 ["histories","schedules"],"every history of window operations by several clients taking turns with direct use of the generator, every power-of-two size, generator and result type, both modes",
 "No test touches these lists; the ring arithmetic depends on unbounded histories.",
 [R+"rng_list.py"],[("ring head/pointer arithmetic",R+"rng_list.py:SpecificRNGList"),("typed storage of results",R+"rng_list.py:build_rnglist")],None,["values read"])
p("S01","Seed hashing gives the console's seed after any reconfiguration history",
 "For every game version, language, console and machine parameters, whatever sequence of date, time, button and timer changes, re-computations and hashes a seed search performs on one hasher (or on several at once), the seed returned for a configuration equals the one computed from scratch by a standard SHA-1 over the console's message, no matter what was hashed before.",
 ["histories","schedules","configurations"],"every history of set/precompute/hash steps on shared hashers by several clients, all parameters, both modes",
 "The test hashes each configuration once on a fresh object; incremental searches reuse expanded words left by earlier hashes.",
 [R+"sha1.py",R+"util.py",R+"lcrng/__init__.py"],[("message words and partial expansion",R+"sha1.py:SHA1.__init__, precompute, calc_w"),("final rounds and seed",R+"sha1.py:hash_seed")],None,["seeds returned"])
p("G01","An encounter search gives the same encounters however it is split up and run",
 "Searching a range of advances for wild encounters yields, for every game, method, lead, encounter type, area, seed and delay, exactly the encounters (advance, PID, species, form, level, nature, IVs, ability, gender, shininess, stats, hidden power, characteristic, and the text shown for them) the game's algorithm defines, each once and in order, and every part of the search finishes. This holds however the range is split into windows, whichever workers of either mode run them, and however often parts are lost, repeated or restarted.",
 ["schedules","fault_sequences","inputs"],"every split of a search into windows, assignment to workers of both modes, delivery order, loss, duplication and crash of parts, all search parameters",
 "No test runs a search; window splits, worker modes and retries multiply, and a stuck window only shows for particular areas and seeds.",
 [R+"gen3/wild_generator_3.py",R+"gen3/encounter_area_3.py",R+"gen3/state.py",R+"gen3/util.py",R+"util.py",R+"compilation.py"],[("search loop over advances",R+"gen3/wild_generator_3.py:generate"),("slot and level choice",R+"gen3/encounter_area_3.py"),("derived values",R+"gen3/state.py:update_stats")],None,["the merged list of encounters"])
p("D01","Stat tables and name lists equal the shipped files, or the import fails",
 "In every process and mode, every stat table and name list the package offers equals what its shipped file says, field by field, and every game with a table gets its own one. If reading a file fails, is short or is interrupted during an import, the import raises an error or everything it offers is right; once reads work again, a retry in the same process and imports in other processes give the right data.",
 ["fault_sequences","histories"],"every sequence of open/read errors, short reads and interruptions of the reads of the table and name files, at every call and line of every import, followed by retries in the same and in new processes of both modes",
 "No test reads a table or a name list, let alone from a failing disk.",
 [R+"data/personal/__init__.py",R+"data/personal/personal_info.py",R+"data/__init__.py",R+"data/util.py",R+"enums/game.py"],
 [("whole files are read before use",R+"data/personal/__init__.py:load_personal"),("packed record types",R+"data/personal/personal_info.py"),("selection by game bits",R+"data/personal/__init__.py:get_info_table, get_info_table_3"),("name lists",R+"data/__init__.py")],
 None,["the public tables and name lists after import","get_info_table(game)"])
p("T03","Threads loading encounter data at once each get exactly the right data",
 "When several threads of one process load encounter data at the same time, of the same or of different games and areas, with the cache full, empty or being removed, each load succeeds with exactly what the resource files say and no thread waits forever, however they are scheduled. What a thread loaded stays as it is whatever the others do with theirs, and threads that die or are interrupted in the middle of a load do not affect the others or later loads.",
 ["schedules","fault_sequences"],"every preemptive interleaving of concurrent loads in one process at every line, instruction and file-system call, with threads cut short anywhere, and processes sharing the cache",
 "Tests are single threaded and load nothing; a shared scratch buffer or an unreleased lock only shows after a switch or a cut at the right place.",
 [ENC,R+"data/fbs/flatbuffer_object.py",R+"data/fbs/encounter_la.py",R+"data/encounter/encounter_area_la.py"],
 [("loads keep their working state in locals",ENC+":load_encounter_3, load_encounter_tables_la"),("entries are complete or not used",ENC+":pickle_cached")],CST,["result of each load, when it is obtained and after all threads ended"])
p("E01","Encounter areas and states go by their present contents, whatever came before",
 "Whatever clients do with encounter areas in whatever order (editing rates, levels, species, probabilities and multipliers, replacing or copying slots, keeping areas in typed dictionaries, using one search on several areas or one area for several searches, crash and restore in either mode), every encounter rate, slot choice (generation 3, with or without a lead, and Legends Arceus for every time, weather and number), level, safari check and search result is the one the area's present contents define; areas never influence each other, and reading or searching changes none. An encounter state whose values were changed (IVs, PID, level, species) gives, once updated, the stats, nature, gender, characteristic, hidden power and text of its present values.",
 ["histories","fault_sequences","inputs"],"every interleaving of edits, choices, searches and lookups by several clients on shared areas of both kinds, with crashes and restores into either mode, all contents, leads, types, times, weathers and random numbers including those on the boundaries between slots",
 "No test edits or chooses from an area; a stale precomputed weight, slot list or rate only shows after an edit between two uses, a wrong boundary only for one number in millions.",
 [R+"data/encounter/encounter_area_la.py",R+"gen3/encounter_area_3.py",R+"gen3/wild_generator_3.py",R+"data/encounter/encounter_area_3.py",R+"gen3/state.py",R+"compilation.py"],
 [("cumulative walk over the present weights",R+"data/encounter/encounter_area_la.py:calc_slot"),("slot, level and rate choice",R+"gen3/encounter_area_3.py"),("search over the present area",R+"gen3/wild_generator_3.py:generate"),("update of a state's derived values",R+"gen3/state.py:update_stats")],None,["slots, levels, rates and encounters returned","contents of the areas afterwards"])
p("I01","However the package is imported, every part works, in the documented mode",
 "Whatever parts of the package a process imports, in whatever order, by whatever form of import and in one thread or several at once, and however often imports are interrupted, run out of memory or cannot read one of their files and are tried again: an import that raises no error gives everything that part defines, with the right values, and its generators, hashes, helpers, tables, lists, encounter data and searches work as specified, in the thread that imported the package without numeric warnings; an import with nothing wrong never fails, also after failed ones. The package is compiled exactly if NPP_USE_NUMBA is TRUE or not set and numba is installed; in any other case it neither compiles nor imports numba, and it logs a warning exactly if numba was wanted but is not installed.",
 ["fault_sequences","histories","configurations","schedules"],"every order and form of importing the parts, every interleaving of threads that import or use parts that others import, every line at which an import can be interrupted or run out of memory, every read of a source or resource file that can fail, every sequence of retries and fresh imports, every value of the variable, with and without numba",
 "Tests import everything once, in one order, with numba installed and nothing failing.",
 [R+"__init__.py",R+"options.py",R+"compilation.py",R+"patch.py",R+"util.py",R+"fnv.py",R+"compatability.py",R+"enums/__init__.py",R+"lcrng/__init__.py",R+"data/__init__.py",R+"data/personal/__init__.py",R+"data/encounter/__init__.py"],
 [("mode decision and warning",R+"options.py"),("definitions for both modes",R+"compilation.py"),("overflow is not reported",R+"__init__.py"),("import order between modules","from/import statements of all modules")],None,["names and values of the modules","results of what they define","log records","whether functions and classes are compiled"])
def na(id,title,statement,over,text,why,files,mech): p(id,title,statement,over,text,why,files,mech)
na("P01","Hashes and integer helpers compute their published functions",
 "The 64-bit name hash, byte swapping and rotations equal their definitions for every input.",["inputs"],"all inputs","Not tested directly; inputs are unbounded.",[R+"fnv.py",R+"util.py"],[("pure functions",R+"fnv.py")])
na("P05","Enumerations give distinct values to distinct things",
 "No two different games, leads, methods, encounter types, areas, times or weathers share a value unless they are meant to be the same.",["inputs"],"all members","Not tested.",[R+"enums/game.py",R+"enums/lead.py"],[("enum definitions",R+"enums/game.py")])
na("P07","Type declarations mean the same with and without compilation",
 "Every declared field, signature and container type accepts the same values and gives the same results in compiled and pure-Python mode.",["configurations","inputs"],"all declarations of the package in both modes","Tests run both modes on a few classes only.",[R+"compilation.py",R+"patch.py"],[("type conversion helpers",R+"compilation.py")])
na("P08","Text and display output names what the values mean",
 "Species, ability, nature, type and gender names shown for an encounter are those of its values.",["inputs"],"all encounters","Not tested.",[R+"gen3/state.py",R+"data/__init__.py",R+"util.py"],[("field formatting",R+"gen3/state.py:csv")])
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    assert d["statement"].count(". ")<=2,(d["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
