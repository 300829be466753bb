#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []


def P(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if obs: a["observe_at"] = obs
    rows.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                 "why_tests_cant": why, "anchors": a})


H = ["inputs", "histories"]
# ------------------------------------------------------------------ basic value types (no SMP dependency)
P("C01", "Fixed-capacity strings hold exactly the truncated text they were given",
  "After any sequence of constructions, assignments, appends and removals, a fixed-capacity string holds exactly the text an unbounded string would hold cut to the capacity at each step and at the first NUL, also when the source text lies inside the string itself. Its reported length, emptiness, iterators, element access, concatenation, stream output and input, substring and search results are those of that text, and checked element access throws out-of-range exactly when the index is not below the length.",
  H, "all capacities, all byte contents including embedded NULs, all operation sequences including operations whose source is (a part of) the target",
  "the tests apply each operation to one or two short literals; they never chain operations, hit the capacity boundary exactly, alias source and target or compare with a model",
  ["include/Xsmp/String.h"], [("fixed-capacity string type", "include/Xsmp/String.h: assign, append, remove_prefix, remove_suffix, find*, substr, at")])
P("C02", "Fixed-capacity strings never touch memory outside their own storage",
  "No operation on a fixed-capacity string reads or writes a byte outside its own storage and the given source range, for any source length and capacity. The storage always stays NUL-terminated within the capacity, neighbouring objects keep their bytes, and no operation has undefined behaviour.",
  H, "all capacities, source lengths below, at and far beyond the capacity, sources not NUL-terminated, aliasing sources, removal counts beyond the length",
  "the tests use short literals and no sanitizer, so an over-read, a one-byte overflow or a lost terminator goes unseen",
  ["include/Xsmp/String.h"], [("capacity clamp and terminator", "include/Xsmp/String.h: assign, append, remove_prefix, remove_suffix")])
P("C03", "Fixed-capacity string comparison, equality and hash form one consistent order",
  "Comparing a fixed-capacity string with another of any capacity, with a string view or with a C string, on either side and with any of the six operators, gives the lexicographic order of their texts as unsigned characters. The order is total and antisymmetric, agrees with the three-way compare's sign, and strings with equal text hash equally and like a string view of that text.",
  ["inputs"], "all pairs and triples of texts (prefixes of one another, high-bit characters, empty, equal) and of capacities",
  "the tests compare a handful of ASCII literals with some of the operator overloads",
  ["include/Xsmp/String.h"], [("comparison operators and hash", "include/Xsmp/String.h: compare, operator==...operator>=, std::hash")])
P("C04", "Owned C strings keep their text and free it exactly once",
  "An owning C-string object yields exactly the characters it was given, independently of the source buffer, until it is assigned to, moved from or destroyed; copies are independent, moves transfer the text, and assigning an object to itself (by copy, by move, or from a pointer into its own text) keeps the value. Every buffer is released exactly once, and moved-from objects can be copied, moved, assigned and destroyed.",
  H, "all texts, and all sequences of construction, copy, move, assignment and destruction over a pool of objects, including self- and moved-from operands",
  "one small test exercises a single copy and move without a leak or use-after-free detector",
  ["include/Xsmp/cstring.h", "src/Xsmp/cstring.cpp"], [("owning C string", "src/Xsmp/cstring.cpp: constructors, operator=")])
P("C05", "Fixed-size arrays behave as the standard array of the same elements",
  "Indexing, checked access, iteration in both directions, fill, swap, equality and the lexicographic relational operators of a fixed-size array give the results of a standard array with the same elements, for every element type and for size zero. Checked access throws out-of-range exactly for indices not below the size, and no operation touches memory outside the elements.",
  ["inputs"], "element types (integers, floats with NaN, strings, nested arrays), sizes 0 to 64, all indices, all operation sequences",
  "the tests check a few operations on one small integer array and are not part of the stable suite",
  ["include/Xsmp/Array.h"], [("array wrapper", "include/Xsmp/Array.h")])
P("C06", "Mixed-sign integer comparisons and range tests are mathematically exact",
  "For every pair of integer types and every pair of values, the safe comparison helpers give the order and equality of the mathematical integers. The range test says a value fits a type exactly when converting it there and back keeps the value.",
  ["inputs"], "all pairs of the eight fixed-width integer types; all values of 8-bit pairs, boundary and random values of the wider ones",
  "no test calls these helpers; they are reached only through a few conversions of mid-range values",
  ["src/Smp/utility.h"], [("cmp_equal, cmp_less, in_range", "src/Smp/utility.h")])
P("C07", "Guarded shared data is exclusive to writers and shared among readers",
  "While a write lock is held no other thread holds any lock on the guarded data, several readers may hold it together, and every update made under a write lock is visible to whoever locks later. A try-lock never blocks, succeeds when the data is free (a try-read also beside readers) and fails while a conflicting lock is held; unlocking or leaving scope releases the data, and re-locking a released handle takes the same kind of lock again.",
  ["schedules", "histories"], "all interleavings of reading, writing, try-reading, try-writing, unlocking, re-locking and moving handles over several threads",
  "no test of the stable suite touches it, and the service tests that do use it are single-threaded",
  ["src/Xsmp/ThreadSafeData.h"], [("reader/writer guard", "src/Xsmp/ThreadSafeData.h: read, write, try_read, try_write")], obs=["acquire and release events of each handle, counters inside the guarded data"])
P("C08", "Library loading reports every outcome truthfully and never leaks or crashes",
  "Loading a library by its bare name succeeds exactly when the platform's file for that name can be loaded with all its symbols resolved, and otherwise returns null with a non-empty error text; null names give null. Symbol lookup returns the address exported by that library, or null for missing or null names, with no stale error left after a success. Libraries loaded side by side keep their own symbols even where names collide, and a library stays usable until it has been closed as often as it was loaded and is then unloaded.",
  ["inputs", "histories", "fault_sequences"], "sequences of load, close, lookup and error query over several libraries, among them missing, corrupt, unresolvable and repeatedly loaded ones",
  "the tests load one existing library through a full simulator, which is not in the stable suite",
  ["include/Xsmp/LibraryHelper.h", "src/Xsmp/LibraryHelper.cpp"], [("dynamic loading wrapper", "src/Xsmp/LibraryHelper.cpp")])
P("C09", "The services bundle brings up every standard service once per simulator",
  "Initialising the bundle for a simulator initialises each of its six services exactly once, the logger first and the scheduler last, passing that simulator and type registry on, and reports success exactly when all of them did; a null simulator is refused without initialising anything. Initialising again for the same simulator does nothing and succeeds, finalising finalises every service exactly once in the reverse order and reports whether all succeeded, and afterwards the bundle can be initialised again.",
  ["histories", "fault_sequences"], "all sequences of initialise (null, same and different simulators) and finalise, with any subset of the services failing",
  "the bundle is only loaded once, with every service succeeding, in tests outside the stable suite",
  ["src/xsmp_services.cpp", "src/xsmp_services.pkg.cpp", "src/xsmp_services.h"], [("bundle initialise/finalise", "src/xsmp_services.cpp, src/xsmp_services.pkg.cpp")], obs=["calls into the six packages' initialise and finalise functions"])
# ------------------------------------------------------------------ SMP value types
P("C10", "Conversions between typed values are exact or throw",
  "Storing a native value in a dynamically typed value of any kind, or reading it back as any native type, either preserves the exact numeric, boolean or text value (a single-precision target may differ by less than the double-precision epsilon) or throws an invalid-type error; it never wraps, truncates or crashes. After a failed store, and on failed reads, no memory is lost and the value stays usable; a refused store may drop the previous text.",
  ["inputs"], "all (kind, native type) pairs and all values: boundaries of every type, their neighbours, random integers, floats including infinities, NaN, denormals and halves, strings",
  "the tests try one or two values per pair, never the boundaries where rounding and undefined conversion occur",
  ["src/Smp/AnySimple.cpp", "src/Smp/utility.h"], [("typed store and cast", "src/Smp/AnySimple.cpp: SetValue, conversion operators")])
P("C11", "Dynamically typed values own their strings and copy, move and compare as values",
  "Copies of a dynamically typed value are equal to and independent of the original, moves transfer the content, self-assignment and assignment from a part of its own text keep the value, and each string is released exactly once or handed over exactly once when moved out. Among values of one kind, equality holds exactly when the contents agree (reals within machine precision, a null text is not an empty text), is symmetric, and an empty value equals only an empty value; inequality is always the negation of equality.",
  H, "all kinds and contents; all sequences of construct, set, copy, move, self-assign, move-string and destroy over a pool of values",
  "the tests copy and move a few values once; no leak, double-free or symmetry check",
  ["src/Smp/AnySimple.cpp"], [("content ownership", "src/Smp/AnySimple.cpp: _releaseContent, copy/move operations, operator==")])
P("C12", "UUIDs round-trip through text and are totally ordered",
  "Parsing the printed form of any UUID gives the same UUID and printing a parsed UUID gives the same canonical lower-case text, and malformed texts are rejected rather than half-parsed. Equality, the strict total order and the hash agree with each other and depend on every bit.",
  ["inputs"], "all 128-bit values; all strings obtained by mutating valid texts in length, character set and separator position",
  "the tests parse two literals and compare a handful of values",
  ["src/Smp/Uuid.cpp"], [("parse, print, order and hash", "src/Smp/Uuid.cpp")])
P("C13", "Durations and dates round-trip through text and keep exact nanosecond arithmetic",
  "Printing a duration from zero to below 100 hours, or a date-time the system clock can represent, in its default format and parsing the text back gives the same value to the nanosecond; any duration, also negative, prints as its sign and magnitude; an unparsable text gives zero, and the component accessors and constructors decompose and recompose the same value. Arithmetic and comparison of durations and dates equal 64-bit nanosecond arithmetic, with the reference epoch at 2000-01-01T12:00 and dates matching the proleptic Gregorian calendar.",
  ["inputs"], "all representable durations for arithmetic, dates across the representable range (years 1707 to 2292 for printing, to 2262 where the system clock is involved) including leap days, negative values and sub-second parts",
  "the tests print and parse a few hand-picked values",
  ["include/Xsmp/Duration.h", "include/Xsmp/DateTime.h", "src/Xsmp/Duration.cpp", "src/Xsmp/DateTime.cpp"], [("formatting and parsing", "src/Xsmp/Duration.cpp, src/Xsmp/DateTime.cpp"), ("arithmetic", "include/Xsmp/Duration.h, include/Xsmp/DateTime.h")])
P("C14", "Object names are accepted exactly when they follow the naming rule",
  "An object can be created with a name exactly when the name is either a letter followed by letters, digits and underscores or a single non-empty digit index in square brackets; anything else, including a null or empty name, is refused with an error that carries the refused name (\"<null>\" for null). A created object reports the exact name, description and parent it was given.",
  ["inputs"], "all strings up to a length bound over the relevant character classes, plus random and mutated longer names",
  "the tests try about a dozen literals",
  ["src/Xsmp/Helper.cpp", "src/Xsmp/Object.cpp"], [("name check", "src/Xsmp/Helper.cpp: CheckName")])
# ------------------------------------------------------------------ object model
P("C15", "Collections agree on membership, order, names and size after every change",
  "After any sequence of insertions, removals and clears, a collection's size, positional access, access by name and iteration all describe the same elements in insertion order. A collection that forbids duplicates refuses a second element of the same name and stays unchanged, and unknown names or positions beyond the end give null.",
  H, "all operation sequences over owning and non-owning collections with colliding and missing names, positions up to the maximum, and nested collection elements",
  "the tests add one or two elements",
  ["include/Xsmp/Collection.h"], [("owning and non-owning collections", "include/Xsmp/Collection.h")])
P("C16", "Containers respect their bounds and own their components",
  "A container accepts a component exactly when it is not full, no sibling object of the container's component has that name, the component's parent is the container's component and the component has the required type, and deletes one exactly when it is contained and the lower limit allows it; every refused operation throws the matching error and leaves the content unchanged. Count, lower and upper limits, lookups by name and iteration always agree, a connected component is disconnected before it is deleted, and each contained component is destroyed exactly once.",
  H, "all sequences of add, delete and lookup over containers with various lower and upper limits (including unlimited), duplicates, foreign and wrongly typed components",
  "the tests cover each error once on one container",
  ["include/Xsmp/Container.h", "src/Xsmp/Container.cpp"], [("container bounds and ownership", "include/Xsmp/Container.h, src/Xsmp/Container.cpp")])
P("C17", "References respect their bounds and never own or forget their targets",
  "A reference accepts a component exactly when it is not full and the component has the required type, and releases one exactly when it is referenced and the lower limit allows it; refused operations throw the matching error and leave the content unchanged. Count, limits, lookup by name and iteration always agree with the components added and not yet removed, referenced components are never destroyed by the reference, and removing the links to a component forgets every occurrence of it.",
  H, "all sequences of add, remove, remove-links and lookup over references with various limits, including the same component added twice",
  "the tests cover each error once on one reference",
  ["include/Xsmp/Reference.h", "src/Xsmp/Reference.cpp", "src/Xsmp/Aggregate.cpp"], [("reference bounds", "include/Xsmp/Reference.h, src/Xsmp/Reference.cpp")])
P("C18", "Paths and resolution are inverse over the whole object tree",
  "Resolving the path reported for any object reachable from the simulator (component, field, array item, structure member, entry point, event source or sink, property, operation, failure) returns that very object, absolutely and, with a relative path, from any component. Parent steps, current-object steps, repeated separators and negative item indices, which count from the end, are honoured, and paths that name nothing resolve to null without crashing.",
  ["inputs", "programs"], "generated object trees with arrays, structures, nested containers and all element kinds; all valid paths and mutated invalid ones",
  "the tests resolve a dozen fixed paths in one fixed tree",
  ["src/Xsmp/Helper.cpp", "src/Xsmp/Services/XsmpResolver.cpp"], [("GetPath and Resolve", "src/Xsmp/Helper.cpp"), ("resolver service", "src/Xsmp/Services/XsmpResolver.cpp")])
P("C19", "Components follow their lifecycle and run each lifecycle action once",
  "A component accepts publish, configure, connect and disconnect only in the states where they are legal, moves to the next state, runs its user-defined action for that step exactly once per accepted call, and otherwise throws an error naming the actual and expected state and changes nothing. After disconnecting, a component has no simulator.",
  ["histories"], "all call sequences over publish, configure, connect, disconnect, with null and non-null receivers",
  "the tests walk the legal order once and a few illegal steps",
  ["src/Xsmp/Component.cpp", "include/Xsmp/Component.h", "include/Xsmp/ComponentHelper.h"], [("component state machine", "src/Xsmp/Component.cpp"), ("user hooks", "include/Xsmp/ComponentHelper.h")])
P("C20", "Events reach every subscribed sink exactly once with their argument",
  "Emitting from an event source notifies every currently subscribed sink exactly once with the source's component as sender and the emitted argument, and no other sink. Subscribing twice, unsubscribing a sink that is not subscribed and subscribing a sink of another argument type throw the matching error without effect. Sinks may be unsubscribed by a handler while the emission is in progress and are then not notified any more, and removing the links to a component removes its sinks' subscriptions.",
  H, "all sequences of subscribe, unsubscribe, emit, source and sink destruction over typed and void sources and sinks",
  "the tests use one source and one or two sinks",
  ["src/Xsmp/EventSource.cpp", "src/Xsmp/EventSink.cpp", "include/Xsmp/EventSource.h", "include/Xsmp/EventSink.h"], [("subscription list", "src/Xsmp/EventSource.cpp, src/Xsmp/EventSink.cpp")])
# ------------------------------------------------------------------ fields
P("C21", "Fields accept exactly the values of their type and keep others out",
  "Setting a simple field through the dynamic interface succeeds exactly when the value converts exactly to the field's type and, for a published field of an enumeration type, is one of its literals, and then reads back equal both dynamically and natively (a text longer than the field is cut to it); otherwise it throws and the field keeps its value. Assignments and arithmetic on the native side behave as on the plain value.",
  ["inputs", "histories"], "all primitive kinds, enumerations of every size, durations, dates and strings, own fields and fields published over native memory; boundary and random values of every kind",
  "the tests set one valid and one invalid value per type",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Type.cpp"], [("value check on set", "include/Xsmp/Field.h: SetValue; src/Xsmp/Publication/Type.cpp")])
P("C22", "Forced fields show the forced value until released",
  "While a field is forced or frozen every read, dynamic or native, yields the forced value whatever is written, and the forced flag is set; forcing again replaces the forced value. After release the flag is clear and the field keeps the forced value until it is written again; a refused force changes nothing, and saving and restoring brings back the forced state and value.",
  H, "all sequences of set, native write, force, freeze, unforce, store and restore over all forcible field types",
  "the tests force and unforce once",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp"], [("forcible field state", "include/Xsmp/Field.h: detail::ForcibleField")])
P("C23", "Connected output fields deliver every value to all their targets",
  "Pushing an output field (or writing it, where it pushes itself) gives every connected input field its current value, element by element for arrays and structures, and changes nothing else. Connecting succeeds exactly for compatible targets that are not yet connected, otherwise throws the matching error without effect; disconnecting, and removing the links to the target's component, stop the deliveries.",
  H, "random graphs of simple, array and structure fields with connects, writes, pushes and destruction in any order",
  "the tests connect one pair per type",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Field.cpp"], [("data-flow connection", "include/Xsmp/Field.h, src/Xsmp/Field.cpp, src/Xsmp/Publication/Field.cpp: Connect, Push")])
P("C24", "Array fields check every index, length and element",
  "Item access of an array field succeeds exactly for indices below its size and denotes that element, bulk reads and writes succeed exactly for the matching length, and everything else throws an error carrying the offending index or size. A bulk write with an invalid element throws naming that element, never touches memory outside the array, and values read back equal values written.",
  ["inputs", "histories"], "all array sizes, indices across the 64-bit range, lengths below, at and above the size, valid and invalid elements at every position, over own and published arrays",
  "the tests use one array per type with one bad index",
  ["include/Xsmp/Field.h", "src/Xsmp/Field.cpp", "src/Xsmp/Publication/Field.cpp"], [("array bounds", "include/Xsmp/Field.h: ArrayField, SimpleArrayField; src/Xsmp/Publication/Field.cpp")])
P("C25", "A model is failed exactly while one of its failures is failed",
  "Failing or un-failing a failure is idempotent and visible at once through the failure and its saved state, and a fallible model reports failed exactly when at least one of its failures is.",
  H, "all sequences of fail, unfail, store and restore over models with zero to many failures",
  "the tests toggle one failure",
  ["src/Xsmp/FallibleModel.cpp", "src/Xsmp/Field.cpp", "include/Xsmp/Field.h"], [("failure aggregation", "src/Xsmp/FallibleModel.cpp; Failure in src/Xsmp/Field.cpp")])
# ------------------------------------------------------------------ persistence
P("C26", "Saving and restoring any supported value reproduces it exactly",
  "Writing any combination of supported values (arithmetic types, enumerations, strings, vectors, sets, maps, arrays, pairs, atomics, object references, nested) to a store and reading them back in the same order reproduces each value exactly and consumes exactly the bytes written. Restoring replaces the previous content, releases it, and a truncated store makes the restore throw instead of yielding garbage.",
  ["inputs", "fault_sequences"], "random nested values of every supported type, stale previous contents, and stores cut at every byte",
  "the tests store one small value of each type",
  ["include/Xsmp/Persist.h", "include/Xsmp/Persist/*.h", "src/Xsmp/StorageReader.cpp", "src/Xsmp/StorageWriter.cpp"], [("persist overloads", "include/Xsmp/Persist/*.h"), ("file storage", "src/Xsmp/StorageReader.cpp, src/Xsmp/StorageWriter.cpp")])
P("C27", "Restoring a simulation brings back every state it had when it was saved",
  "After restoring from a saved state, every state field of every component at every depth of the hierarchy, every failure and the standard services' own state (times, scheduled events, event names and subscriptions, log message kinds) are those at the moment of saving, whatever happened in between; a save that cannot be written completely is reported. Fields not declared as state are untouched, and running on after a restore produces the same events at the same times as running on after the save.",
  ["histories", "programs"], "generated model trees with all field kinds, random histories before and after the save, repeated save and restore, several files",
  "the tests save and restore one simulator whose state barely changes",
  ["src/Xsmp/Simulator.cpp", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpEventManager.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("store and restore walk", "src/Xsmp/Simulator.cpp: Store, Restore")])
# ------------------------------------------------------------------ publication
P("C28", "Published fields mirror the model's memory and only valid types are published",
  "A field published over a model's memory reads and writes exactly that memory and nothing beside it, with the published name, view, state, input and output flags and type; structures and arrays nest accordingly. Publishing an unknown type, a duplicate name or a type that cannot be a field is refused with the matching error and leaves the published set unchanged.",
  ["inputs", "programs"], "random type trees (primitives, enumerations, bounded integers and floats, strings, arrays, structures, classes) over random memory",
  "the tests publish one field of each primitive type",
  ["src/Xsmp/Publication/Publication.cpp", "src/Xsmp/Publication/Field.cpp", "src/Xsmp/Publication/Type.cpp"], [("publication", "src/Xsmp/Publication/*.cpp")])
P("C29", "The type registry gives each UUID one type and never changes it",
  "A type registered under a UUID is found by that UUID, with the exact name, kind and attributes given, for as long as the registry lives, and every primitive kind is found by kind and by UUID. Registering a UUID twice, or with invalid parameters, throws the matching error and leaves the registry unchanged.",
  H, "random registration sequences with fresh and repeated UUIDs, valid and invalid primitive kinds, sizes and base types",
  "the tests register each kind once",
  ["src/Xsmp/Publication/TypeRegistry.cpp", "src/Xsmp/Publication/Type.cpp"], [("registry", "src/Xsmp/Publication/TypeRegistry.cpp")])
P("C30", "Dynamic requests carry typed parameters and reach the operation once",
  "A request created for a published operation has its parameters in order, accepts exactly values of each parameter's type, and invoking it calls the operation once with those values, delivering outputs and return value back into the request. Wrong names, indices, kinds, counts and requests for void or unknown operations throw the matching error and call nothing; properties read and write through the same path according to their access kind.",
  ["inputs", "histories"], "random operations with zero to many parameters of all kinds and directions, random request sequences, all access kinds",
  "the tests invoke each sample operation once with valid values",
  ["src/Xsmp/Request.cpp", "src/Xsmp/Publication/Request.cpp", "src/Xsmp/Publication/Operation.cpp", "src/Xsmp/Publication/Property.cpp", "include/Xsmp/Request.h"], [("request marshalling", "src/Xsmp/Publication/Request.cpp, src/Xsmp/Request.cpp, include/Xsmp/Request.h")])
# ------------------------------------------------------------------ simulator
P("C31", "The simulator only makes legal state changes and announces each one",
  "Every command given to the simulator in a state where it is not legal throws or is ignored without any effect, and legal commands move it along the prescribed state graph. Each leave and enter event of the states crossed is emitted exactly once, in order, and the state reported during each event's handlers is the one being left or entered. An abort is honoured wherever it comes from, the handler of any event included: EnterAborting is emitted once, in the aborting state, and nothing follows it.",
  H, "all command sequences (publish, configure, connect, initialise, run, hold, store, restore, reconnect, exit, abort) including commands given from inside handlers",
  "the tests walk the nominal path once",
  ["src/Xsmp/Simulator.cpp"], [("simulator state machine", "src/Xsmp/Simulator.cpp")])
P("C32", "Every component is published, configured, connected and initialised once",
  "Whatever the order in which models, services and initialisation entry points are added, and however deep, each component has been published, configured and connected exactly once, in that order and never before the simulator's corresponding phase, by the time the simulator reaches standby; each initialisation entry point is executed exactly once per initialisation in the order added. A component added in standby is so once the simulator has been reconnected. Each connected component is disconnected exactly once, when the simulation exits or is destroyed (an abort alone disconnects nothing).",
  ["histories", "programs"], "random trees built before, between and inside the phases, including components added from another component's lifecycle action",
  "the tests use a flat simulator with a few models",
  ["src/Xsmp/Simulator.cpp", "src/Xsmp/Component.cpp"], [("phase walk", "src/Xsmp/Simulator.cpp: Publish, Configure, Connect, Initialise, Reconnect, Exit, Abort")])
P("C33", "Factories create the requested type and refuse duplicates and unknown types",
  "Creating an instance by UUID returns a new component of the factory registered for that UUID with exactly the given name, description and parent, or null for an unknown UUID. Registering a second factory under the same UUID throws the matching error and keeps the first, and a factory found by name is the first registered under it. A factory whose product has another UUID refuses to create it and leaves nothing behind.",
  H, "random registration and creation sequences over many factories with equal names and equal or different UUIDs",
  "the tests register one or two factories",
  ["src/Xsmp/Factory.cpp", "src/Xsmp/FactoryCollection.cpp", "include/Xsmp/Factory.h", "src/Xsmp/Simulator.cpp"], [("factory registry", "src/Xsmp/FactoryCollection.cpp")])
# ------------------------------------------------------------------ services
P("C34", "Scheduled events fire in time order, in posting order when simultaneous",
  "During a run every event fires exactly at its scheduled simulation time, times never go backwards, and events due at the same instant fire in the order they were posted; immediate events fire before time advances. Nothing fires early, late or while the simulation is on hold. Each change of the simulation time is announced before and after, also a step of no length.",
  ["histories", "schedules"], "random event sets over a few instants with posts from outside and from inside events, and random run durations",
  "the tests schedule a handful of events at distinct times",
  ["src/Xsmp/Services/XsmpScheduler.cpp"], [("event table walk", "src/Xsmp/Services/XsmpScheduler.cpp: _Execute, _EnterExecuting")], obs=["entry point executions with simulation time and event id"])
P("C35", "Cyclic events fire their full count at exact multiples of the cycle",
  "A cyclic event fires at its start time and then at every following multiple of its cycle until its repeat count is used up (for ever when unlimited), exactly once each, without drift, and is then gone. Changing the repeat count or cycle of a pending event takes effect from its next firing; bad cycles, counts and unknown identifiers are refused with the matching error.",
  H, "random sets of cyclic events with all repeat counts, changes to cycle and repeat between and inside firings",
  "the tests use one cyclic event with few repeats",
  ["src/Xsmp/Services/XsmpScheduler.cpp"], [("cycle and repeat bookkeeping", "src/Xsmp/Services/XsmpScheduler.cpp")])
P("C36", "Events may be added, moved and removed at any moment, even by events",
  "Removing a pending event means it never fires again, moving it means it fires at the new time only, and neither affects any other event, including when done from inside another event of the same instant, from the event itself, or on immediate events. After such changes the scheduler remains consistent: no crash, no lost or duplicated event, and identifiers of finished events are refused.",
  H, "random scripts in which event actions add, remove, retime, re-cycle and re-count themselves and their siblings",
  "no test changes the schedule from inside an event of the same instant",
  ["src/Xsmp/Services/XsmpScheduler.cpp"], [("table mutation during execution", "src/Xsmp/Services/XsmpScheduler.cpp: RemoveEvent, SetEvent*Time, _EnterExecuting")])
P("C37", "Holding and resuming neither loses, repeats nor reorders events",
  "Splitting a run into any number of holds and resumes, by duration, by an immediate or deferred hold from inside an event, yields the same sequence of events and times as one uninterrupted run. An immediate hold stops before the next event, a deferred hold and one by duration after all events of the instant, and the simulation time on hold is the time of the last progress.",
  H, "the same random schedule executed uninterrupted and with random holds",
  "the tests hold once",
  ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Simulator.cpp"], [("hold and resume", "src/Xsmp/Simulator.cpp: Hold, Run; src/Xsmp/Services/XsmpScheduler.cpp")])
P("C38", "Mission and epoch time events fire when that clock shows their time",
  "An event posted in mission or epoch time fires at the simulation time at which that clock reaches the posted time, also after mission start or epoch is changed; simulation-time events are unaffected by such changes, an occurrence that a clock has jumped over never fires (and counts as one of the repetitions), and posting an event in the past is refused.",
  H, "random epoch and mission settings before and after posting events of all kinds",
  "the tests post one event per kind with default clocks",
  ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("clock change handling", "src/Xsmp/Services/XsmpScheduler.cpp: _UpdateMissionTime, _UpdateEpochTime")])
P("C39", "The scheduler can be used from several threads without races",
  "Posting, changing and removing events from other threads, or from real-time (Zulu) events, while a run is in progress causes no data race, crash or lost event: each accepted event fires exactly once per due time, and each Zulu event exactly once per due time and not before the wall clock shows it; an event removed or moved before its time does not fire at the old one. Events, real-time ones included, are executed one at a time.",
  ["schedules", "histories"], "several threads posting, retiming and removing events of all time kinds against a running simulation, with holds",
  "the tests are single-threaded except for one real-time event",
  ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp", "src/Xsmp/Services/XsmpEventManager.cpp"], [("cross-thread posting", "src/Xsmp/Services/XsmpScheduler.cpp")])
P("C40", "The time keeper's clocks stay consistent and announce every change",
  "Epoch and mission time always equal simulation time plus their offset, setting one leaves the others as documented and announces the change once, after it is made. Simulation time is settable only during an announced time change, where it only moves forward and never beyond the next pending event of any clock; illegal moves throw an error carrying the current, requested and maximum time and change nothing.",
  H, "random sequences of clock settings in and out of time-change handlers, across the 64-bit range",
  "the tests set each clock once",
  ["src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("clock arithmetic", "src/Xsmp/Services/XsmpTimeKeeper.cpp")])
P("C41", "Global events run every subscriber exactly once per emission, in order",
  "Emitting an event executes each entry point subscribed at that moment exactly once, even when handlers subscribe, unsubscribe or emit again, and a failing handler aborts the simulation but does not keep the others from running. Handlers run in the order of their subscription, and the same event name always gives the same identifier and different names different ones, also from several threads; duplicate subscriptions, missing subscriptions and unknown identifiers throw the matching error without effect.",
  ["histories", "schedules"], "random subscribe, unsubscribe, query and emit sequences, nested from handlers, synchronous and not, and from several threads",
  "the tests use one or two subscriptions",
  ["src/Xsmp/Services/XsmpEventManager.cpp"], [("subscription table", "src/Xsmp/Services/XsmpEventManager.cpp")])
P("C42", "The link registry counts links exactly and drops them together",
  "The count for each ordered pair of components equals the links added minus those removed, removing an absent link reports failure without effect, and the sources listed for a target are exactly the components with a positive count towards it. Removing all links to a target asks every source that can drop links exactly once to do so and changes no other count, and a target is reported removable exactly when every source can drop its links. The counts and lists also come out right when several threads use the registry at once.",
  ["schedules", "histories"], "random sequences of add, remove, query and remove-all over components with equal names in different places, linking and non-linking, by one and by several threads",
  "the tests exercise one pair of components",
  ["src/Xsmp/Services/XsmpLinkRegistry.cpp"], [("link counts and source lists", "src/Xsmp/Services/XsmpLinkRegistry.cpp")])
P("C43", "Log message kinds are stable and every logged message is written once",
  "Querying a message kind name always returns the same identifier, different names return different identifiers and predefined names the predefined ones, also from several threads. Every message logged is written exactly once to each appender whose filters admit it, complete, in the order logged by each thread, not interleaved with others, and laid out with its sender, kind and times as configured.",
  ["schedules", "histories"], "several threads logging and querying kinds concurrently, messages of all sizes and contents",
  "the tests log a few messages from one thread",
  ["src/Xsmp/Services/XsmpLogger.cpp"], [("kind table and appenders", "src/Xsmp/Services/XsmpLogger.cpp")])
P("C44", "Every error reports exactly the facts it was raised with",
  "Each error of the library, however it is copied, rethrown or outlives the call that raised it, reports the exact name, description, sender and payload (values, limits, names, objects) it was raised with, and a message that contains them.",
  ["inputs"], "all error kinds with random payloads, null senders and names, long texts; caught by base and derived type and inspected after the sources are gone",
  "the tests raise each error once and compare one literal message",
  ["src/Xsmp/Exception.cpp", "include/Xsmp/Exception.h"], [("exception factory", "src/Xsmp/Exception.cpp")])
P("C46", "A component lists exactly its parts, in order, and finds each by name",
  "Every entry point, event sink, event source, reference, container and failure constructed for a component is listed by it exactly once, in order of construction, with the name, description, parent and bounds it was given, and found by exactly its name; parts constructed without being given to a component are not listed. A second part of a kind with the same name, or an illegal name, is refused with the matching error and not listed. Executing an entry point runs its callback once and nothing else.",
  H, "random sequences of constructions of all kinds of parts with fresh, repeated and illegal names, listed and not, and executions",
  "the tests construct one or two parts of each kind",
  ["src/Xsmp/EntryPoint.cpp", "src/Xsmp/EntryPointPublisher.cpp", "src/Xsmp/EventConsumer.cpp", "src/Xsmp/EventProvider.cpp", "src/Xsmp/Composite.cpp", "src/Xsmp/Aggregate.cpp", "src/Xsmp/FallibleModel.cpp"], [("registration of parts", "include/Xsmp/Collection.h: Add")])
P("C47", "Each Python test gets a connected simulation of its own and leaves none behind",
  "For every test of a class derived from the Python base class a new simulator is created, the six standard services are loaded (logger, time keeper, resolver, event manager, link registry, scheduler, in this order), then the test's assembly, then it is connected once and its type hints are asked for beside the test's file, so that the test's body finds a simulator in standby with all services and exactly its assembly. Whatever the body does, the simulator is exited if and only if it is in standby, and deleted with its models before the next test. When a step of the set-up fails, the test reports exactly that failure, no later step is done, and the simulator, if created, is deleted.",
  H, "all test classes, replaced or failing set-up steps, and bodies that pass, fail, skip, exit, abort, run or delete the simulator",
  "the Python tests derive a few passing classes and need the bindings, which are not built here",
  ["python/xsmp/unittest.py", "src/Xsmp/Simulator.cpp"], [("set-up and tear-down", "python/xsmp/unittest.py: setUp, tearDown")])
P("C45", "Values, kinds and UUIDs print as their one text on any stream",
  "Every literal of the library's enumerations prints as its name and any other number as an unknown literal with that number; a dynamically typed value prints as the text of its value with the suffix or quotes of its kind, control and non-ASCII characters escaped, a UUID as its 36 canonical characters. Printing a UUID or a value never makes the stream fail, nor changes its format, whatever format the stream had.",
  ["inputs"], "all literals and random numbers, all characters, random values of all kinds, null texts, random UUIDs, several in a row on streams with default and other formats",
  "the tests print one or two values of each kind on a fresh stream",
  ["src/Smp/StreamOperators.cpp"], [("stream operators", "src/Smp/StreamOperators.cpp")])
P("C48", "A library is initialised when loaded and finalised with the simulator",
  "Loading a library into a simulator calls its Initialise exactly once with that simulator and its type registry, and what it registers there, and only there, can be used from then on. A library that cannot be loaded is refused as not found, one that lacks Initialise or Finalise as invalid without being called, one whose Initialise reports failure as invalid; the error names the library and the simulator, and none of these is ever finalised. When the simulator is destroyed, each library loaded successfully, by the user or by another library, is finalised exactly once per load with that simulator, in the reverse order of loading, also after another's Finalise failed, while the components the libraries added still exist. The libraries of the standard services refuse a null simulator and give each simulator exactly one service each, however often and in whatever order they and their bundle are loaded.",
  H, "random loads of good, failing, incomplete, unresolvable, corrupt and missing libraries into several simulators that come and go, libraries that register components and types and load others, repeated loads of the service libraries",
  "the tests load each library once, in one order, and look at no call",
  ["src/Xsmp/Simulator.cpp", "src/Xsmp/LibraryHelper.cpp", "src-gen/xsmp_logger.cpp"], [("loading and finalising", "src/Xsmp/Simulator.cpp: LoadLibrary, ~Simulator"), ("one service per simulator", "src-gen/xsmp_*.cpp: Initialise_*")])
P("C49", "Services and models are found by name, and the first service of each kind serves",
  "A model or service added to a simulator is listed last in its container and found by exactly its name; a null, empty or unknown name finds no service. The logger, time keeper, scheduler, event manager, resolver and link registry of the simulator are each the first added service that is of that kind, whichever other kinds it is of, and stay so when others are added. A component whose name is already taken by a model or a service, that was made for another parent, or that comes in a state in which the simulator takes none, is refused with the error saying so and leaves no trace, and what was added is destroyed with the simulator.",
  H, "random additions of models, real services and stand-ins of any combination of kinds under few names, to the right and other parents, before and after connection, exit and abort",
  "the tests add each standard service once",
  ["src/Xsmp/Simulator.cpp", "include/Xsmp/Container.h", "src/Xsmp/Container.cpp"], [("registration", "src/Xsmp/Simulator.cpp: AddService, AddModel, GetService")])
P("C50", "Python sees and changes exactly the objects of the simulation",
  "Every value read through the Python bindings is the field's, array item's, property's, parameter's or result's current value as the matching Python object, and operators, truth and comparisons on it give what they give on that object. A value written from Python is stored exactly if the field's type can hold it and is refused without any change otherwise. A call passes each argument to the parameter of its position or name, is refused before it runs if an argument is missing, surplus, repeated or does not convert, runs once otherwise, and returns exactly the outgoing values. Attributes, items, indices (negative ones counting from the end) and names find exactly the object of the simulation, the same Python object each time, and fail with Python's error for what is not there. Each service, type registry and simulator method has in Python the effect, result and error it has in C++; an SMP error raised below arrives as the Python class of its name with its message.",
  H, "all value kinds, nestings and operators with boundary, huge, fractional, non-finite and wrongly typed Python values, arbitrary argument lists, all errors, trees that change between lookups, random histories of service calls",
  "the Python tests need pybind11, which is not installed, and read and write a few fields with one ordinary value each",
  ["src/python/ecss_smp.cpp", "src/python/ecss_smp.h", "src/python/Smp/*.h", "src/python/Smp/Services/*.h", "src/python/Smp/Publication/*.h"], [("conversion of values", "src/python/ecss_smp.cpp: convert"), ("calls", "src/python/Smp/IOperationBinding.h: callOperation"), ("class of a wrapped object", "src/python/ecss_smp.cpp: IObjectHierarchy")])
P("C51", "Python owns only the simulators it made, and its runs last as long as asked",
  "An object obtained from a simulation through any lookup of the bindings stays the simulation's: dropping its Python object, in any order and however often, deletes nothing. A simulator created from Python is deleted exactly once, with everything in it, when its last Python object goes; a library or factory function that does not exist is refused with the error saying so. A run for a duration given in any mixture of units advances the simulation time by exactly the nearest whole number of nanoseconds, executing what is due up to then, unless it is held earlier, in which case it ends there; an interrupt holds it and is reported. Whichever way a run ends, it leaves nothing in the scheduler, so later runs are as exact; a negative duration is refused and nothing runs.",
  H, "random lookups with wrappers dropped, kept beyond the simulator and collected at any moment; random runs in all units with events that hold, interrupts and runs in other threads",
  "the Python tests cannot run without pybind11 and look neither at ownership nor at the time a run took",
  ["src/python/Smp/ISimulatorBinding.h", "src/python/Smp/IContainerBinding.h", "src/python/Smp/IReferenceBinding.h", "src/python/Smp/Services/IResolverBinding.h", "src/python/Smp/Services/ILinkRegistryBinding.h"], [("creation of simulators", "src/python/Smp/ISimulatorBinding.h: createSimulator"), ("timed runs", "src/python/Smp/ISimulatorBinding.h: Run")])
P("C52", "The generated Python type hints describe the simulation",
  "The file of type hints written for a simulator can be written at any stage of its life and is valid Python that imports. Its Simulator class mirrors the object tree: each component, container, reference, field (nested ones included), property, operation, event source, event sink and entry point that can be used as an attribute appears under exactly the name it is reached by, as a class deriving only from interfaces the object has, the specific ones of its kind included, with its own description; nothing else appears. Any description is reproduced exactly, and objects named like a Python keyword are left out.",
  ["inputs"], "random object trees with members of every kind, hostile names and descriptions, at any stage of the simulator's life",
  "the tests never read the file they write",
  ["src/python/Smp/ISimulatorBinding.h"], [("type hints", "src/python/Smp/ISimulatorBinding.h: generate")])
P("C53", "The generated libraries offer exactly what their catalogues declare",
  "Loading a library registers exactly the types and factories of its catalogue, under their declared names and UUIDs, in whatever order libraries are loaded and once per simulator. A field of a declared type has the declared shape (kind, sizes, member names and order), each of its values lies where an object of the header's type has it, and it accepts exactly the values of its type. Every component has exactly the declared fields, properties, operations, events, entry points and containers, with the declared types, flags and access; each field has memory of its own (shared by all instances if static), starting at zero, and each property reads and writes the field it is linked to and no other. Event sources accept the sinks of their own type only. The Python package of a library names each component of the catalogue with its UUID and nothing else.",
  ["inputs", "histories"], "any order of loading, several instances, random stores, property accesses, invocations and subscriptions",
  "the tests use a handful of the fields and never compare the libraries with their catalogues",
  ["src-gen/xsmp_tests.cpp", "src-gen/Xsmp/Tests/ModelWithSimpleFieldsGen.cpp", "src-gen/Xsmp/Tests/ModelWithPropertiesGen.cpp", "src-gen/Xsmp/Tests/Types/StructureWithCustomFields.cpp", "src-gen/xsmp_logger.cpp", "python/xsmp_tests/Xsmp/Tests/__init__.py"], [("registration", "src-gen/xsmp_tests.cpp: Initialise_xsmp_tests"), ("publication", "src-gen/Xsmp/Tests/ModelWithSimpleFieldsGen.cpp: ModelWithSimpleFieldsGen::Publish"), ("properties", "src-gen/Xsmp/Tests/ModelWithPropertiesGen.cpp: InitRequestHandlers")])
P("C54", "A run keeps pace with real time at its target speed",
  "In a run the simulation time never advances ahead of real time: at any moment it has advanced by at most the real time elapsed since the run started, multiplied by the target speed (but for steps the user makes when the time change is announced). It is not late either: the time is advanced, and the event fires, as soon as its real time comes or what was executed before it is finished; time lost to slow executions is caught up and does not accumulate, waits of any length are waited for. An event posted or moved, or an immediate hold requested, while the run waits takes effect at its own time, not at the end of the wait. The target speed is what it was set to, limited to between 0.01 and 100, and 100 by default.",
  ["inputs", "histories", "schedules"], "any schedule, speed, slowness of the executions and moment of a change within the waits",
  "a test cannot measure exact times on a loaded machine, nor wait for hours, nor hit the moments within a wait",
  ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpScheduler.h", "src/Xsmp/Simulator.cpp", "src/Xsmp/Services/XsmpTimeKeeper.cpp"], [("waiting for the next event", "src/Xsmp/Services/XsmpScheduler.cpp: ExecuteUntilHold")])
open(OUT, "w").write("".join(json.dumps(r) + "\n" for r in rows))
print(len(rows), "properties")
