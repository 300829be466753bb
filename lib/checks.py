"""Which harness decides which property, on which sanitizer builds, and what must be observed."""
HARNESSES = {}
CHECKS = {}
MAIN = "harness/xv_main.cpp"
FULLLIBS = ["xsmp_simulator", "xsmp_services"]


def harness(exe, src, repo_src=(), libs=(), **kw):
    HARNESSES[exe] = dict(src=[MAIN] + ["harness/" + s for s in src], repo_src=list(repo_src), libs=list(libs), **kw)


def check(prop, exe, rule, require=(), variants=("asan",), technique=None, note=None, assumptions=(), extra=(), **kw):
    CHECKS[prop] = dict(harness=[dict(exe=exe, variants=list(variants), **kw)] + list(extra), rule=rule, require=list(require),
                        technique=technique, note=note, assumptions=list(assumptions))


harness("h_string", ["string_h.cpp"])
REF = "random operation histories against a reference model"
check("C01", "h_string", "random operation histories over 10 pairs of capacities from 0 to 255, each observation compared with an unbounded reference text; plus every text of up to 4 (thorough 6) characters over {a,b,NUL,c}. Non-trivial: the text changed or the capacity was reached. Distinct: the hash of the operation sequence.",
      ["operations", "at capacity", "searches"], technique="reference-model monitor over random operation histories, under ASan+UBSan",
      note="Every observation of the executed histories agreed with an independent reference text; unexecuted histories are not covered. Trusts the standard library's string as the reference.")
check("C02", "h_string", "hostile histories over 10 capacities: exact-size unterminated heap sources, sources beyond the capacity, over-removal, self-aliasing; bytes next to the object are canaries and the heap is under AddressSanitizer. Non-trivial: a source at least as long as the capacity.",
      ["operations", "sources beyond capacity"], technique="AddressSanitizer and UndefinedBehaviorSanitizer with canary bytes over hostile operation histories",
      note="No sanitizer report and no canary change in the executed histories; intra-object overflow is caught by the canaries only next to the object.")
check("C03", "h_string", "all ordered pairs of the 85 texts of up to 3 characters over {a,0x80,0xff,0x01}, plus random near-equal pairs, through every operator overload on both sides, 6 capacity pairs each. Non-trivial: the two texts differ.",
      ["pairs compared", "equal pairs"], technique="oracle monitor (byte-wise order) over exhaustive small and random pairs, under ASan+UBSan",
      note="Exhaustive over short texts of a 4-letter alphabet, sampled beyond.")

harness("h_basic", ["basic_h.cpp"], ["src/Xsmp/cstring.cpp"])
check("C04", "h_basic", "random histories over a pool of 2-6 objects with self-, own-tail and moved-from operands; every object's text compared with a reference after every step, heap under AddressSanitizer and per-case allocation balance. Non-trivial: at least one executed operation on a pool of several objects.",
      ["operations", "self assignments", "copies of moved-from"], technique="ownership monitor (reference texts, AddressSanitizer, allocation balance) over random object histories",
      note="No mismatch, use-after-free, double free or per-case leak in the executed histories.")
check("C05", "h_basic", "ten (element type, size) instances incl. size 0, NaN elements and nested arrays; random mutation histories mirrored on std::array; canary bytes beside the array.",
      ["array states"], technique="reference-model monitor (std::array) over random histories, under ASan+UBSan", note="Trusts std::array as reference.")
check("C06", "h_basic", "all 64 ordered pairs of the fixed-width integer types; all 65536 value pairs for 8-bit types, all pairs of values near the powers of two, and random pairs; oracle is 128-bit arithmetic.",
      ["value pairs"], technique="oracle monitor (128-bit arithmetic), exhaustive for 8-bit types and boundary/random for wider ones", note="Exhaustive for 8-bit pairs, boundary and random values beyond.")
harness("h_guard", ["guard_h.cpp"])
check("C07", "h_guard", "ordered: a coordinator decides a global order of lock operations over 2-4 threads and compares each result with a reader/writer lock model; blocking: a conflicting lock must wait and then be granted; stress: free threads whose guarded data carries the exclusion monitor. Run with ASan+UBSan and with ThreadSanitizer. Distinct: the operation sequence (ordered) or seed (stress).",
      ["lock operations", "refused try-locks", "re-locks", "shared reads", "blocked acquisitions", "stress writes", "runs with overlapping readers"], variants=("asan", "tsan"), shards=4,
      technique="history monitor against a lock model plus ThreadSanitizer stress", note="Held on the executed interleavings; schedules are those the operating system produced with random pauses.")
for n in (1, 2, 3):
    HARNESSES["libxvgood%d.so" % n] = dict(src=["harness/lib/good.cpp"], so=True, defs=["XV_ID=%d" % n])
HARNESSES["libxvunresolved.so"] = dict(src=["harness/lib/unresolved.cpp"], so=True)
harness("h_library", ["library_h.cpp"], ["src/Xsmp/LibraryHelper.cpp", "src/xsmp_services.cpp", "src/xsmp_services.pkg.cpp"])
HARNESSES["h_library"]["with"] = ["libxvgood1.so", "libxvgood2.so", "libxvgood3.so", "libxvunresolved.so"]
check("C08", "h_library", "random load/lookup/close/error-query histories over three good libraries exporting the same names, an unresolvable one, corrupt, empty, directory and missing files; the dynamic loader itself is asked which libraries are still loaded. Non-trivial: at least one failing load or lookup.",
      ["loads", "failed loads", "lookups", "unloads"], technique="fault-injecting history monitor over the dynamic loader, under ASan+UBSan", note="Linux only; the loader's own bookkeeping is the oracle for what is loaded.")
check("C09", "h_library", "random initialise/finalise histories over four simulators with any subset of the six services failing; the services are recording stand-ins. Non-trivial: a failing service or a finalisation.",
      ["initialisations", "repeated initialisations", "initialisations with failures", "finalisations"], technique="call-trace monitor with injected service failures", note="The six package functions are stand-ins recording their calls; what a failed initialisation leaves behind is not judged.")

harness("h_types", ["types_h.cpp"], libs=["xsmp_cdk"])
check("C10", "h_types", "histories of stores of all 13 native types under all 16 kinds (and undefined ones) into one value, after each the value is read back as all 13 native types and compared with 128-bit / exact real arithmetic; plus every integer edge value (around each power of two and the float precision limits) of each integer type under each kind. Non-trivial: every case.",
      ["stores", "refused stores", "reads", "refused reads", "edge stores"], technique="oracle monitor (128-bit and exact real arithmetic) over random conversion histories, under ASan+UBSan incl. float-cast-overflow",
      note="Edges exhaustive per type and kind, values sampled beyond. Which kinds an InvalidAnyType error names is not judged, nor whether a refused store keeps a previous text.")
check("C11", "h_types", "random histories over a pool of 2-6 values (construct, copy, move, self-assign, store own tail, move text out, destroy) against a model; each step compares every pair involving the changed value; allocation balance per case. Non-trivial: at least one executed operation.",
      ["operations", "self assignments", "texts moved out", "comparisons of one kind", "comparisons across kinds"], technique="ownership and reference-model monitor over random object histories, under ASan",
      note="Equality across numeric kinds converts the right operand and is not judged.")
check("C12", "h_types", "random UUIDs incl. sparse ones: print, parse in lower and mixed case, all 128 single-bit neighbours, random near pairs and triples; malformed texts by single edits from exact-size heap buffers.",
      ["parsed", "uuid pairs", "malformed texts"], technique="oracle monitor over generated UUIDs and malformed texts, under ASan", note="Sampled UUIDs; every bit position is exercised for each.")
check("C13", "h_types", "durations of any length and sign are printed, and durations below 100 h and date-times over the whole representable range are printed and parsed back, the printed text compared with an independent calendar by stepping years; arithmetic and all relations compared with 64-bit arithmetic, incl. chrono operands.",
      ["durations", "lengths", "negative lengths", "dates", "arithmetic", "unparsable texts"], technique="oracle monitor (independent calendar and integer arithmetic) over generated values, under UBSan", note="Sampled over many magnitudes and calendar edges.")
check("C45", "h_types", "every literal and undefined numbers of the seven enumerations; up to 12 random values of all 16 kinds and UUIDs in a row on streams with default or other formats (hexadecimal, left, upper case, fill), each compared with a text formatted by the C library, with the stream's state and format. Non-trivial: every case.",
      ["literals", "undefined literals", "values", "uuids", "null texts", "formatted streams"], technique="oracle monitor (C library formatting, independent calendar) over generated values, under ASan+UBSan", note="On streams not in default format numbers are not printed. How a null text prints is only required to differ from a text.")
check("C14", "h_types", "every text of up to 4 (thorough 5) characters over {a,Z,0,9,_,[,],space,.,e-acute,/}, plus random longer and near-legal names; null and empty names.",
      ["names", "refused names"], technique="oracle monitor over exhaustive short and random names, under ASan", note="Exhaustive for short names of an 11-letter alphabet, sampled beyond; C locale.")

harness("h_errors", ["errors_h.cpp"], libs=FULLLIBS)
check("C44", "h_errors", "each case raises 60 errors over the 49 throwing entry points with random payloads (texts of up to 5000 arbitrary bytes in exact-size buffers freed at once, null names, extreme numbers, real sender objects) and keeps them alive; later they are rethrown and inspected in random order, also in another thread and after half of them are gone. Non-trivial: more than ten errors.",
      ["errors raised", "errors inspected", "threads inspecting"], technique="fact monitor on raised errors that outlive their arguments, under ASan+UBSan",
      note="Texts of messages are judged only for containing the payload; indices beyond the signed 64-bit range and sender objects that no longer exist are not judged.")

harness("h_objects", ["objects_h.cpp"], libs=FULLLIBS)
check("C15", "h_objects", "histories of up to 40 additions, removals and clears over 14 elements with 10 names (some equal) on plain, interface-typed, delegating and owning collections, with and without duplicates; size, positions (also 2^63 and -1), 15 lookups and iteration compared with a list after every step. Non-trivial: more than three additions tried.",
      ["collection states", "refused duplicates"], technique="reference-model monitor over random histories, under ASan+UBSan with destruction counts", note="Elements keep their names while collected.")
check("C16", "h_objects", "histories of up to 40 additions and deletions over 1-3 sibling containers (4 element types, random limits, unlimited included) of an owner whose fields, entry points, operations, properties, event sources and sinks take some of the names; components of three kinds, some connected, some with another parent. Content compared with a list after every step, every destruction counted. Non-trivial: an addition, a refusal and a deletion.",
      ["states compared", "accepted", "deleted", "refused by ContainerFull", "refused by DuplicateName", "refused by InvalidObjectType", "refused by InvalidParent"], technique="reference-model and ownership monitor over random histories, under ASan+UBSan", note="When several reasons to refuse hold, any of them may be reported.")
check("C17", "h_objects", "histories of up to 40 additions, removals and link removals over 1-3 references (5 element types, random limits) to 6 components, repeated references included; content compared with a list after every step. Non-trivial: an addition, a refusal and a removal.",
      ["states compared", "accepted", "removed", "forgotten links", "refused by ReferenceFull", "refused by InvalidObjectType"], technique="reference-model and ownership monitor over random histories, under ASan+UBSan", note="When several reasons to refuse hold, any of them may be reported.")
check("C18", "h_objects", "random object trees (nested models, services, containers, references, fields, structures, arrays, entry points, events, properties, operations, failures; index-like names included, components of one name below different parents, references to namesakes of own children) in a simulator: every object's path resolved absolutely, with redundant steps, and relative to random components with parent steps and detours; per object a perturbed path that names nothing; garbage paths. Non-trivial: more than two components and a path deeper than three segments.",
      ["items published one by one", "items found from the end", "references to a namesake of an own component", "absolute paths", "relative paths", "redundant steps", "detours", "paths to nothing", "garbage paths"], technique="inverse-function monitor over random object trees, under ASan+UBSan", note="Members are given distinct names within a component; items are addressed by decimal indices.")
check("C19", "h_objects", "random sequences of up to 16 lifecycle calls, legal and illegal, on six component classes whose actions have every accepted signature (one derived from another), with a state-machine monitor on state, action counts, action arguments, simulator and errors. Non-trivial: accepted and refused calls.",
      ["accepted calls", "refused calls", "complete lives"], technique="state-machine monitor over random call sequences, under ASan+UBSan", note="Actions that throw are not judged.")
check("C46", "h_objects", "components given 5-29 parts of six kinds with fresh, repeated and illegal names from short-lived texts, some not listed, and executions of their entry points; at the end all six lists are compared with a model by position, iteration and name. Non-trivial: two parts.",
      ["parts", "parts not listed", "duplicates", "invalid names", "executions", "collections compared"], technique="reference-model monitor over random constructions, under ASan+UBSan", note="Parts are not destroyed before their component. Fields, operations and properties: see C28 and C30.")
check("C20", "h_objects", "histories of up to 50 subscriptions, removals and emissions over 5 sources and 10 sinks of six argument types in 3 components; half the emissions have handlers that unsubscribe themselves or others, subscribe, remove links or emit. Every sink records each notification. Non-trivial: more than two emissions.",
      ["emissions", "notifications", "refused subscriptions", "changes during an emission", "link removals"], technique="exactly-once delivery monitor over random histories, under ASan+UBSan", note="A sink subscribed or re-subscribed during an emission may be notified by it or not; handlers that throw are not judged.")

harness("h_fields", ["fields_h.cpp"], libs=FULLLIBS)
check("C21", "h_fields", "random histories of dynamic writes, native assignments and operators over own fields of every simple type and over published fields of every registered primitive, enumeration (1 to 8 bytes), string and ranged type; the value to write is drawn under any of the 16 kinds, with the kinds' edge values, and the outcome compared with an oracle of exact conversion and with a plain native value; published memory lies between canaries. Non-trivial: a refused and an accepted value.",
      ["field values compared", "accepted values", "refused values", "refused literals", "operators", "assignments"],
      technique="oracle monitor (exact conversion, plain native value) over random write histories, under ASan+UBSan", note="Values sampled with the edges of each kind; which message an error carries is judged only by its type.")
check("C22", "h_fields", "random histories of force, freeze, unforce, release, dynamic and native writes, deliveries through a connection, save and restore over forcible own and published fields and items of arrays, against a model of (forced, value). Non-trivial: a write while forced.",
      ["forced reads", "released reads", "forced again", "refused forces", "refused forces of a forced field", "writes to a forced field", "deliveries to a forced field", "saves", "restores"],
      technique="reference-model monitor over random force/write/restore histories, under ASan+UBSan", note="One thread. What a forced published field leaves in the component's own memory is not judged.")
check("C24", "h_fields", "random histories of item access, bulk read, bulk write and native access on own and published arrays, simple arrays, nested arrays and arrays of structures of every element type, with lengths and indices around the size, invalid elements at random positions and exact-size heap buffers; compared with a plain array after each step. Non-trivial: a refused operation.",
      ["array states compared", "items", "refused indices", "refused lengths", "refused items", "bulk reads", "bulk writes", "refused bulk writes", "native writes", "items written"],
      technique="reference-model monitor with canary memory over random array histories, under ASan+UBSan", note="What a refused bulk write leaves in the elements before the invalid one is not judged.")
check("C25", "h_fields", "random histories of fail, unfail, save and restore over models with 0 to 8 failures, single and repeated, against a set of failed ones. Non-trivial: a model with two failures or more.",
      ["failed models", "working models", "repeated", "saves", "restores"], technique="reference-model monitor over random failure histories, under ASan+UBSan", note="Failures are own failures of a fallible model.")
harness("h_persist", ["persist_h.cpp"], libs=FULLLIBS)
check("C26", "h_persist", "random sequences of 1-12 values out of 70 types (17 arithmetic and enumeration types, strings of every character width, vectors, sets, maps, unordered ones, arrays, pairs, atomics, object references, nested to depth 3) stored raw or type-checked in memory or a file and restored over other random content, followed by one store cut at a random byte and one restore under another type; file stores with missing, unusable, empty and replaced paths. Non-trivial: two values or more.",
      ["values restored", "truncated stores", "types refused", "stores to files", "files refused", "files without path", "files replaced", "large blocks", "simulations"],
      technique="round-trip monitor over random value sequences with truncation faults, under ASan+UBSan with per-case leak check", note="Types as instantiated in the harness; a corrupted (not truncated) store is not judged.")
harness("h_publish", ["publish_h.cpp"], libs=FULLLIBS)
check("C28", "h_publish", "random type trees of depth 0-4 (simple, enumeration and string leaves, simple arrays with gaps, arrays, structures and classes declared in any order with gaps) published over touching pieces of one guarded memory by UUID, through the type, natively, member by member or as the component's own field; each published field is compared with the description of it, each leaf is written dynamically or by the component and the whole memory compared with a shadow. Between, publications that have to be refused: unknown, void, text and undefined types, names taken or invalid, structures with unknown, repeated, unnamed or untyped members or containing themselves. Non-trivial: a refusal or more than three leaves.",
      ["fields compared", "paths", "own fields published", "refused duplicates", "refused names", "refused structures", "refused types", "senders of errors looked at", "writes", "reads", "unpublished"],
      technique="shadow-memory and reference-model monitor over random publications, under ASan+UBSan with canaries", note="Fields of base classes are not judged; items published one by one into an array have the component as parent (known finding of C18). When several reasons to refuse hold, any may be reported.")
check("C29", "h_publish", "random histories of 5-34 registrations of the seven forms over 12 UUIDs of which some differ in one bit, plus the predefined ones, with valid and invalid kinds, sizes, item types, base classes and names, and literals and members added later; after every step every UUID is looked up and the type found compared with everything it was registered with. Non-trivial: a refused registration.",
      ["types compared", "types registered", "literals", "members", "refused literals", "registrations refused: known", "registrations refused: kind", "registrations refused: name", "registrations refused: unknown", "registrations refused: incompatible"],
      technique="reference-model monitor over random registration histories, under ASan+UBSan", note="The literals of the predefined enumerations are not judged. When several reasons to refuse hold, any may be reported.")
check("C30", "h_publish", "random operations of up to 5 parameters (simple, enumeration and text types, directions in, out, in-out and return, with views, some refused) and properties of every access published by a component, requests created for them, filled by random stores of values of the right and of other kinds, in and out of range, at valid and invalid indices, compared with a model after every store, then invoked on the component, whose handler compares the arguments it reads and writes outputs and a return value that the caller reads back; requests for the wrong operation, with the wrong count, structured parameters with complete and missing items, and republication. Non-trivial: an invocation.",
      ["operations published", "refused parameters", "unusable operations", "requests compared", "accepted values", "refused kinds", "refused values", "refused indices", "returned values", "invocations", "invocations without an argument", "wrong operations", "wrong counts", "arguments read", "outputs written", "requests deleted", "operations published again", "properties written", "properties read", "properties published again", "refused accesses", "refused return values", "structured values", "structured values with missing items"],
      technique="reference-model monitor over random requests and invocations, under ASan+UBSan with per-case leak check", note="Handlers are the harness's own, reading and writing through the request helpers the generated code uses.")
harness("h_services", ["services_h.cpp"], libs=FULLLIBS)
check("C40", "h_services", "random histories of 10-69 steps on a connected simulator: epoch, mission start and mission time set to values across the 64-bit range, time changes announced and ended, simulation time set inside and outside of a change to the present, the past, the time of the next event and just beyond, events of all simulated time kinds posted and removed; all four clocks and the time of the next event are compared with a model in 128-bit arithmetic after every step, and every announced change is counted. Non-trivial: simulation time moved.",
      ["clock states compared", "announcements", "moves", "refused moves", "ignored moves"], technique="reference-model monitor over random clock histories, under ASan+UBSan",
      note="Settings whose derived times leave the 64-bit range are not generated; clocks are set by one thread. The moves of a run are watched by the checks of C34 to C38.")
check("C41", "h_services", "random histories of queries, subscriptions, removals and emissions of 2 to 7 entry points and up to 14 events, with handlers that subscribe, unsubscribe, emit and fail during the emission (nested to any depth within a budget of emissions); every execution is compared with the subscriptions at the moment of the emission. Plus 2-4 threads querying, subscribing and emitting at once, also under TSan. Non-trivial: an event with two subscribers.",
      ["emissions", "nested emissions", "handlers run", "handlers that fail", "changes during an emission", "known names", "new names", "refused subscriptions", "refused removals", "unknown identifiers", "concurrent emissions"],
      variants=("asan", "tsan"), technique="exactly-once delivery monitor over random histories, under ASan+UBSan and TSan", note="The interleavings of threads are those the machine produced.")
check("C42", "h_services", "histories of 5-64 additions, removals and forgettings of links among 2-6 components, of which some have equal names and some cannot drop links or do not; all counts, source lists and removability compared with a model after every step, and every request to drop links counted. 2-4 threads add, remove, forget, count and list links between shared components and ones of their own, with delays around the locks; what is left is compared with what was added and removed. Non-trivial: a target with two sources forgotten, or links removed by threads.",
      ["links added", "links removed", "absent links", "targets forgotten", "source lists compared", "removable targets", "targets that cannot be removed", "links added by threads", "links removed by threads", "links dropped when forgotten by threads"], variants=("asan", "tsan"), technique="reference-model monitor over random histories and threads, under ASan+UBSan and TSan", note="The interleavings of threads are those the machine produced; components outlive the registry's use of them.")
check("C43", "h_services", "random logger configurations of 1-4 file appenders (simple and random pattern layouts, level and path filters, unusual ones) and 5-84 kind queries and messages of up to 20 kB, from buffers freed at once, by ten senders at random clock settings; each file must hold every message it is configured for once and in order, rendered exactly. Plus 2-4 threads logging and querying kinds at once, to a file and to a console shared with a second simulator, also under TSan. Non-trivial: more than three messages.",
      ["messages logged", "messages found", "messages filtered", "known kinds", "new kinds", "unusual appenders", "concurrent messages found", "consoles"],
      variants=("asan", "tsan"), technique="log-conservation monitor over random configurations and threads, under ASan+UBSan and TSan", note="Formatted times (%d{...}) are run but not judged, nor are messages of the services themselves. The interleavings are those the machine produced.")
harness("h_simulator", ["simulator_h.cpp"], libs=FULLLIBS)
check("C31", "h_simulator", "random command sequences (publish, configure, connect, initialise, run, run for a duration, hold at once or deferred, store, restore incl. failing ones, reconnect, exit, abort, adding models) of 10-69 commands, with up to 24 more, one or a few at a time, given from inside the handlers of the state events, component actions, initialisation entry points, scheduled events and time changes; with a recording event manager alone, and with the standard services. Every event, the state in its handlers and the state after every command are compared with a model. Non-trivial: more than eight state events.",
      ["events compared", "states compared", "legal commands", "illegal commands", "legal commands from handlers", "further commands in a handler", "failing commands", "deferred holds", "aborts", "models refused", "runs", "scheduled events", "late handlers"],
      technique="state-machine trace monitor over random command sequences, under ASan+UBSan", note="Commands are given by one thread; Run from inside an event of a run and Restore from inside a run are not generated.")
check("C32", "h_simulator", "random component trees grown before and between publish, configure and connect, by the lifecycle actions of other components and in standby, followed by initialisations, reconnections of random subtrees and exit or destruction; what each component went through is recorded by itself and compared after every phase, and so are the executions of initialisation entry points. Non-trivial: more than four components.",
      ["lives compared", "components added by components", "initialisations", "components reconnected", "exits", "destructions"], technique="lifecycle trace monitor over random component trees, under ASan+UBSan", note="Actions do not throw; models are not removed.")
check("C33", "h_simulator", "histories of 10-59 registrations and creations over 8 UUIDs, some one bit apart, and 4 names, with names freed at once; all factories looked up and compared after every step, by name, position and UUID, instances compared with what was asked for and deleted directly or by their factory; factories whose callback throws or makes another type. Non-trivial: an instance.",
      ["factories", "refused factories", "instances", "unknown types", "factories compared", "mistaken factories"], technique="reference-model and ownership monitor over random histories, under ASan+UBSan with leak check", note="Callbacks never return null.")

harness("h_scheduler", ["scheduler_h.cpp"], libs=FULLLIBS)
SCHED = "model monitor over random schedules, judging every firing, time change and hold as it happens, under ASan+UBSan"
check("C34", "h_scheduler", "runs of random schedules over few instants, events posting others and holding the simulation, a handler of the time change skipping the waiting or part of it (or none of it, at a scale of nanoseconds). Non-trivial: an event fired.",
      ["firings", "simultaneous firings", "immediate firings", "time changes", "immediate holds", "deferred holds", "aborts", "refusals", "next times compared"], technique=SCHED, note="Events moved keep their place among the simultaneous ones. Holds asked for within the announcement of a time change are not deferred ones.")
check("C35", "h_scheduler", "as C34, with cyclic events of all kinds and changes of cycle and repeat by the events themselves, by others, and on hold.",
      ["repeated firings", "cycles changed", "repeats changed", "refusals"], technique=SCHED, note="Sampled schedules of up to some dozens of events; endless repetition is observed until the run ends.")
check("C36", "h_scheduler", "as C34 and C35, with events removed and moved (by themselves, by others of the same instant, by handlers of the state and time changes, on hold), immediate ones included, and wrong and finished identifiers.",
      ["events removed", "own removals", "events moved", "own moves", "events moved into the past", "refusals", "immediate firings"], technique=SCHED, note="Sampled schedules. Events moved keep their place among the simultaneous ones.")
check("C37", "h_scheduler", "each random schedule is run uninterrupted and then twice cut by durations and by immediate and deferred holds; the sequences of firings are compared, and each run with the model. Non-trivial: an event fired.",
      ["held runs compared", "holds requested", "deferred holds done", "runs"], technique="differential monitor (held against uninterrupted run) and model monitor over random schedules, under ASan+UBSan", note="What an event does depends on its firings only, not on time changes.")
check("C38", "h_scheduler", "as C36, with the mission and epoch clocks set at any moment, events of all three kinds posted and moved. Non-trivial: an event fired.",
      ["clock changes", "mission time firings", "epoch time firings", "events jumped over", "refusals"], technique=SCHED, note="No clock is set again while it has jumped over a pending event that the scheduler had no occasion to drop.")
check("C39", "h_scheduler", "2-4 threads post, move, remove and query their own events of every time kind, real-time ones included, while the main thread runs the simulation piece by piece, another one holds it at any moment and, in a quarter of the cases, the threads set the clocks; every firing of every event is recorded and accounted for at the end. In other executions real-time events move, change and remove themselves and each other from their handlers, which know what is to come; or are posted before, moved and removed while their thread waits for one that is hours away. Run with ASan+UBSan and with ThreadSanitizer. Non-trivial: an event fired.",
      ["firings in threads' runs", "zulu firings", "removals by threads", "holds by threads", "runs beside threads", "zulu events that move themselves or others", "zulu events that change or remove themselves or others", "real-time events posted before far ones", "far real-time events moved near", "delayed lock operations"], variants=("asan", "tsan"), technique="ThreadSanitizer and offline exactly-once accounting over recorded firings of concurrent schedules",
      note="Interleavings are those the machine produces. Bounds on a firing's time come from clock readings before and after its posting; firings that may have been in progress when the event was moved or removed are tolerated.")
harness("h_links", ["links_h.cpp"], libs=FULLLIBS)
check("C23", "h_links", "graphs of 2-25 own and published fields (simple, text, enumeration, simple array, array, matrix, structure and nested structure, anonymous arrays) of 2-5 components, and every item of them, connected, disconnected, written dynamically and natively, pushed, forced and frozen in 10-69 steps, with invalid, connected and refusing targets, links to components removed and the components deleted; every value, forced flag and list of targets compared with a model after every step. Plus connected own arrays of every numeric type whose items are changed with the native operators through [], at(), front(), back() and iterators. Non-trivial: a connection.",
      ["values compared", "values delivered", "connections", "connections of structures and arrays", "invalid targets", "targets already connected", "disconnections", "pushes", "writes of connected fields", "forcings", "values kept from forced fields", "links removed", "targets deleted", "values refused by a target", "target lists compared", "items changed natively"],
      technique="reference-model monitor over random data-flow graphs, under ASan+UBSan with per-case leak check", note="Values flow onwards only: no cycles of connections. After a target refused a value the fields are read again, only the connections are judged. Dynamic writes into an own simple array are not handed on before the next push.")
harness("h_restore", ["restore_h.cpp"], libs=FULLLIBS)
check("C27", "h_restore", "random component trees with own and published state and other fields of every shape, failures, forced fields, components persisting themselves, event subscriptions and scheduled events of all kinds, whose events act as a state field tells (writing, failing, forcing, posting, moving and removing events, subscribing, emitting, setting clocks); histories of saves into several and the same directories, restores at other moments and into a twin built alike, each followed by the same continuation as after the save. Every field, flag, clock and the continuation are compared. Plus saves to a full device. Non-trivial: a continuation with four steps.",
      ["state cells compared", "other cells compared", "continuations compared", "saves", "saves replaced", "restores", "twins", "events fired", "failed saves"],
      technique="differential monitor (restored against original run) over random simulations, under ASan+UBSan", note="Real-time events are scheduled far in the future and do not fire. Links are not persisted by the link registry and not judged. Fields of the services themselves are not judged.")
HARNESSES["libxvpysim.so"] = dict(src=["harness/lib/pysim.cpp"], so=True, libs=FULLLIBS)
harness("h_bindings", ["bindings_h.cpp"], ["src/python/ecss_smp.cpp"], libs=FULLLIBS, ldflags="-lpython3.12")
harness("h_python", ["python_h.cpp"])
HARNESSES["h_python"]["with"] = ["libxvpysim.so"]
check("C47", "h_python", "generated test modules of 1-3 classes with 1-3 tests each, run by the unittest package over the real simulator and services: classes replacing the creation, the loading of services and of the assembly, failing before or after any of these steps, in connecting, in generating type hints, skipping, asserting; bodies passing, failing, raising, skipping, running, exiting, aborting or deleting the simulator; every step is recorded, the simulator described at the assembly and in the body, and the live simulators and models counted after each test. Non-trivial: every case.",
      ["tests compared", "steps compared", "tests set up", "tests not set up"], variants=("plain",), technique="call-trace monitor with injected failures over generated test modules",
      note="The Python bindings are replaced by a recording stand-in that calls the real simulator through a C interface: they need pybind11, which is not there.")
for n in (1, 2, 3):
    HARNESSES["libxvload%d.so" % n] = dict(src=["harness/lib/loader.cpp"], so=True, defs=["XV_ID=%d" % n])
for n, d in (("noinit", ["XV_NOINITIALISE"]), ("nofin", ["XV_NOFINALISE"]), ("neither", ["XV_NOINITIALISE", "XV_NOFINALISE"])):
    HARNESSES["libxv%s.so" % n] = dict(src=["harness/lib/loader.cpp"], so=True, defs=["XV_ID=9"] + d)
harness("h_loader", ["loader_h.cpp"], libs=FULLLIBS)
HARNESSES["h_loader"]["with"] = ["libxvload%d.so" % n for n in (1, 2, 3)] + ["libxvnoinit.so", "libxvnofin.so", "libxvneither.so", "libxvunresolved.so"]
check("C48", "h_loader", "histories of 4-17 loads into up to three simulators that come and go: three recording libraries whose initialisation succeeds or fails, registers factories, types, models and services and loads a further library, others without entry points, unresolvable, corrupt, empty, a directory, missing; the calls compared with the loads that succeeded, at each load and when the simulator goes. And the six libraries of services and their bundle loaded and initialised in any order and number into one or two simulators. Non-trivial: a refused or a repeated load.",
      ["libraries loaded", "libraries not found", "libraries without entry points", "failing initialisations", "libraries loaded by libraries", "registrations by libraries", "orders of several libraries", "finalisations after a failing one", "repeated loads", "null simulators", "simulations connected", "service states compared"],
      technique="call-history monitor over recording libraries loaded by the real simulator, under ASan+UBSan", note="Linux only. Destroying one simulator makes the generated service libraries forget all of them; loading into another afterwards is not generated.")
check("C49", "h_loader", "histories of 3-24 additions of models and services under 8 names, from the six real services and stand-ins of up to all six kinds at once, in every state that can be reached without running, some made for another parent; every name, kind and list compared with a model after each step. Non-trivial: a refused service.",
      ["services added", "services refused", "models added", "further services of a kind", "lookups compared", "simulations connected"],
      technique="reference-model monitor over random histories, under ASan+UBSan", note="Trusts the harness's account of which kinds a service is of.")
check("C50", "h_bindings", "objects of every kind the harness publishes (fields of 15 kinds, structures, arrays, enumerations, properties, operations with 0-4 parameters in any direction, entry points, events, references, containers), worked on by an embedded interpreter: values read, written, refused, used with 27 operators, calls with positional and named arguments, 36 errors raised below, trees walked by attribute, item, index and name while components come and go; each result compared with the C++ side, or for the six services with a second simulator told the same from C++. Non-trivial: a value written, a call with results, a reference or container changed.",
      ["values read", "values written", "refused values", "texts that are none", "fields assigned from fields", "operators", "operators refused", "indices out of range", "calls", "calls with results", "refused calls", "errors raised", "notifications", "refused notifications", "subscriptions", "objects found", "objects missing", "containers listed", "references changed", "components added", "components deleted", "calls of services", "errors of services", "types added", "runs of both", "properties read or written that cannot be", "names of nothing", "requests made"],
      technique="differential monitor of an embedded interpreter against the C++ objects it works on, and of twin simulators, under ASan+UBSan", note="pybind11 is not installed here: the bindings are compiled against the harness's stand-in for it (see DESIGN.md), which is trusted.")
check("C51", "h_bindings", "simulators made from Python with models in up to two levels, 22 kinds of lookups whose wrappers are dropped, collected or outlive the simulator, deletions counted and the liveness of models watched; and histories of 4-14 runs of 0 ns to a day in eight units, held earlier by events, interrupted, refused or without an end, in the calling thread or another, with up to seven events due. Non-trivial: a simulator deleted, a run held earlier.",
      ["libraries refused", "wrappers dropped", "wrappers kept", "links listed", "simulators deleted", "runs", "runs held earlier", "runs interrupted", "runs held from Python", "runs refused"],
      technique="ownership and time monitor around an embedded interpreter, under ASan+UBSan", note="As C50. A simulator that runs in another thread is a proxy of the harness around the real one.")
check("C52", "h_bindings", "simulations of up to nine models, in several levels, and services, with members of every kind, nested structures and arrays, names that are Python keywords and descriptions with quotes, backslashes and line breaks; the hints written while building, after publication and after connection, with components that publish nothing yet, are compiled and executed by the interpreter, and each class in them compared with the object it stands for. Non-trivial: hints compared.",
      ["hints compared", "objects in the hints", "services added", "names that are keywords", "descriptions with quotes or backslashes", "hints with components that publish nothing yet"],
      technique="differential monitor (executed type hints against the live object tree) in an embedded interpreter, under ASan+UBSan", note="As C50. Failures that are no published field are not judged.")
harness("h_pace", ["pace_h.cpp"], libs=FULLLIBS + ["xsmp_scheduler"], ldflags="-ldl")
harness("h_catalogue", ["catalogue_h.cpp"], libs=FULLLIBS + ["xsmp_tests"])
check("C53", "h_catalogue", "the catalogues are read as the specification: every type registered is compared with them, and several types at once are laid over guarded objects of the headers' types, which are filled, and written value by value through their fields; fields of the generated structures of six variants; every component of the libraries, loaded in any order, with random stores, property accesses, invocations, subscriptions and emissions across up to four instances, every field compared after each; the Python packages are imported. Non-trivial: types laid over memory, instances created or packages imported.",
      ["types compared", "uuids of headers", "fields compared", "values stored", "values that are no literal", "parameters set", "structure fields compared", "factories compared", "instances", "members compared", "values stored in components", "properties read", "properties written", "read-only properties", "operations invoked", "subscriptions", "sinks of another type", "emissions", "containers filled", "classes compared"],
      technique="specification monitor (the catalogues) over the published tree and the memory behind it, under ASan+UBSan", note="Views and the bodies of the test models, which are empty, are not judged beyond the default values they return.")
check("C54", "h_pace", "runs of random schedules at random target speeds, in a virtual time that replaces the clocks and the timed waits of the thread that runs the simulation: it advances only when the scheduler waits or when an execution takes time. Each change of the simulation time, each firing and the end of each run is compared with the real time it is due at, computed from the pace alone. At random moments within the waits events are posted, moved and removed and holds requested, as by other threads, and the wait ends for no reason. In other executions another thread sets the mission and epoch clocks at chosen readings of the real-time clock, so that events become due earlier or later at any step of the search for the next event. Non-trivial: an event fired or a clock was set.",
      ["runs", "runs to their end", "events posted", "events fired", "events moved", "events removed", "times waited for", "times already past", "waits", "waits of more than an hour", "changes while waiting", "spurious wake-ups", "slow executions", "jumps", "holds", "speeds set", "speeds out of range", "clocks set", "clocks set at once"],
      technique="online timing monitor over a virtual clock (interposed clock and wait calls), under ASan+UBSan", note="Real-time (Zulu) events, which wait in a thread of their own, are judged by C39; the target speed is only changed between waits.")
