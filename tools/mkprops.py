#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
PY = "pyrsistent/"
p("C01", "Updates never change an existing collection",
  "No public operation on a persistent vector, map, set, bag, list, deque, record or class instance (pure Python implementations) changes the contents, length, iteration order, hash or equality of any collection that existed before the call, including collections that share structure with the receiver or the result. Only the returned collection reflects the update. The single permitted in-place effect is remembering a value computed from the collection itself.",
  ["inputs", "histories"], "every public method and factory of every persistent type, every sequence of earlier operations, every argument",
  "Tests compare a few small originals before and after; in-place writes that only show when nodes, tails or buckets are shared in a particular way (full tails, colliding keys, deep trees) are not reached.",
  [PY+"_pvector.py", PY+"_pmap.py", PY+"_pset.py", PY+"_pbag.py", PY+"_plist.py", PY+"_pdeque.py", PY+"_precord.py", PY+"_pclass.py", PY+"_checked_types.py", PY+"_transformations.py"],
  [("copy the path before writing", PY+"_pvector.py: _do_set, _push_tail, append, extend"), ("replace buckets by new lists", PY+"_pmap.py: _Evolver.set/remove"), ("cons cells built before publication only", PY+"_plist.py: _PListBuilder")],
  [("trie nodes, tail lists, buckets, cons cells", "storage shared between versions", PY+"_pvector.py, _pmap.py, _plist.py")], ["any reader of a collection created before the call"])
p("C02", "Evolvers never leak updates into collections",
  "Updates made through an evolver of the pure Python collections are visible only through that evolver and through collections it produces afterwards. The collection it was created from, every collection it produced earlier, and every other evolver of the same collection keep their contents, for every sequence of evolver operations and intermediate persistent() calls.",
  ["histories", "inputs"], "every interleaving of evolver operations and persistent() calls on one or more evolvers of a collection",
  "Tests use one or two updates around one persistent() call; ownership marks or cached nodes that survive persistent() only matter for the right node at the right moment.",
  [PY+"_pvector.py", PY+"_pmap.py", PY+"_pset.py", PY+"_checked_types.py", PY+"_precord.py", PY+"_pclass.py"],
  [("dirty node registry and reset on persistent()", PY+"_pvector.py: Evolver._reset"), ("copy on first write", PY+"_pvector.py: Evolver._do_set, __setitem__"), ("fresh field dictionary per evolver", PY+"_pclass.py: evolver")],
  [("owned (dirty) nodes, cached leafs, pending tail", "what the evolver may write in place", PY+"_pvector.py Evolver")], ["reads of the source, of earlier results and of sibling evolvers"])
p("C03", "The C vector only writes memory no other vector can see",
  "In the C extension, no vector or vector evolver operation changes the elements, length or shape of any vector already visible to Python code: every write to tree or tail storage goes to storage that only the vector under construction, or the evolver itself, refers to. This holds for every sequence of operations, including updates of an evolver after it produced a vector.",
  ["histories", "inputs"], "every C entry point, every path, every sequence of evolver operations",
  "Sharing of nodes depends on sizes (multiples of 32, tree height) and on the order of evolver operations; tests sample few of them.",
  ["pvectorcmodule.c"], [("copy before write", "pvectorcmodule.c: doSet, pushTail, copyPVector"), ("dirty bit on nodes owned by an evolver, cleared before publication", "pvectorcmodule.c: doSetWithDirty, cleanVector")],
  [("node items and reference count", "storage shared between vectors", "pvectorcmodule.c: VNode")], ["contents of any vector held by Python code"])
p("C04", "Collections share no mutable container with the caller",
  "No persistent collection keeps a reference to a mutable container passed in by the caller as its own storage, and no operation returns a mutable container that is also storage of a collection. Operations never modify a container or mapping passed to them. Changing an argument after the call, or a returned list or dict, therefore never changes a collection.",
  ["inputs", "histories"], "every factory, constructor, update and conversion, every argument kind",
  "Tests pass literals that are dropped right after the call, so aliasing is invisible to them.",
  [PY+"_pvector.py", PY+"_pmap.py", PY+"_pset.py", PY+"_pbag.py", PY+"_plist.py", PY+"_pdeque.py", PY+"_precord.py", PY+"_pclass.py", PY+"_checked_types.py", PY+"_helpers.py", PY+"_field_common.py"],
  [("arguments are copied into new containers", PY+"_pvector.py: extend; _pmap.py: _turbo_mapping; _pclass.py: __new__, evolver"), ("conversions build new lists/dicts", PY+"_pvector.py: tolist; _pclass.py: _to_dict, serialize")], [], ["the collection after the caller changed the container"])
p("C05", "Instances cannot be changed by attribute or item assignment",
  "A persistent collection, record or class instance offers no public way to rebind or delete an attribute or an item on it: it has no instance dictionary, its public attributes cannot be assigned or deleted, and it has no item assignment, item deletion or in-place operators. Attempts raise an exception and leave the instance unchanged.",
  ["programs", "inputs"], "every persistent type (Python and C), every attribute name, every subclass declared by a user in the documented way",
  "Tests try one attribute on one type; the guarantee depends on every class in every inheritance chain and on declarations made by users.",
  [PY+"_pmap.py", PY+"_pset.py", PY+"_pbag.py", PY+"_plist.py", PY+"_pdeque.py", PY+"_pvector.py", PY+"_precord.py", PY+"_pclass.py", PY+"_checked_types.py", "pvectorcmodule.c"],
  [("__slots__ on every class, set by the metaclasses for user classes", PY+"*"), ("frozen guard", PY+"_pclass.py: __setattr__, __delattr__"), ("immutable views", PY+"_pmap.py: PMapView.__setattr__"), ("no assignment slots", "pvectorcmodule.c: PVectorType")], [], ["setattr/delattr/item assignment on instances"])
p("C06", "persistent() reports every update, however often it is called",
  "After any sequence of updates on an evolver, persistent() returns a collection that contains all of them, also when persistent() was called before, between or repeatedly after them; an update is never lost and never applied twice. An evolver that was not updated returns the very collection it was created from, and is_dirty() is true exactly while updates are pending.",
  ["histories"], "every evolver type, every sequence of updates and persistent() calls",
  "Tests call persistent() once after a burst of updates; the repeated and interleaved calls that lose updates are not exercised for most types.",
  [PY+"_pvector.py", PY+"_pmap.py", PY+"_pset.py", PY+"_checked_types.py", PY+"_precord.py", PY+"_pclass.py"],
  [("rebase on the produced collection", PY+"*: persistent"), ("dirty tracking", PY+"*: is_dirty")], [("original collection, pending changes", "state of an evolver", PY+"*: evolver classes")], ["result of persistent(), is_dirty()"])
p("C07", "Checked collections only ever hold checked elements",
  "Every element, key and value of an instance of a checked vector, set or map class has passed that class's own type check (when types are declared) and all of its invariants, whichever construction, update, evolver, create or unpickling path put it there and whatever container it came from. Otherwise the operation that would produce the instance raises.",
  ["inputs", "histories"], "every way to obtain an instance of a checked class, every element, every combination of declared types and invariants",
  "Tests use one or two bad elements on the common paths; bypasses by argument type, position, evolver order or early exits are not covered.",
  [PY+"_checked_types.py", PY+"_pvector.py", PY+"_pmap.py", PY+"_pset.py"],
  [("checks in every storing method of the evolvers", PY+"_checked_types.py: Evolver._check, set, add, append, extend, __setitem__"), ("collected errors raise", PY+"_checked_types.py: Evolver.persistent"), ("trusted construction only from the evolvers", PY+"_checked_types.py: __new__")], [], ["iteration over a checked instance"])
p("C08", "Record and class instances satisfy their field declarations",
  "Every instance of a record or class type that any operation returns has, for each of its fields, a value that passed the field's type check and invariant, has all mandatory fields, has no undeclared field, and passed all global invariants. This covers construction, set, update, evolvers, remove, transform, create and unpickling; an operation that would produce anything else raises.",
  ["inputs", "histories"], "every declaration, every way to obtain an instance, every argument",
  "Tests check the constructor and set() with one field at a time; skipped checks for particular fields, initial values or evolver paths do not show.",
  [PY+"_precord.py", PY+"_pclass.py", PY+"_field_common.py", PY+"_checked_types.py"],
  [("one checking routine for every stored value", PY+"_pclass.py: _check_and_set_attr; _precord.py: _PRecordEvolver.set"), ("mandatory and global checks before publication", PY+"_precord.py: persistent; _pclass.py: __new__")], [], ["any instance returned to the caller"])
p("C09", "Declared constraints are inherited and never mixed up",
  "The fields, types and invariants of a checked collection, record or class are those declared by it together with those of its base classes, and nothing a different declaration specifies; every declared invariant is consulted and a failing one is never masked by another. Two declarations that differ in any constraint behave according to their own constraint.",
  ["programs"], "every set of declarations in a program, every inheritance graph",
  "Each test declares few classes; mix-ups need two declarations that differ in one parameter, or multi-level inheritance.",
  [PY+"_checked_types.py", PY+"_field_common.py", PY+"_precord.py", PY+"_pclass.py"],
  [("metaclasses collect from the class and its bases", PY+"_checked_types.py: _store_types, store_invariants; _field_common.py: set_fields"), ("memoised field types", PY+"_field_common.py: _make_seq_field_type, _make_pmap_field_type")], [("memo tables of generated field types", "class per declaration", PY+"_field_common.py")], ["behaviour of instances of the declared classes"])
p("C10", "Equal collections hash equal and equality sees all contents",
  "Two persistent collections of the same kind that compare equal have equal hashes, whatever history, internal layout or cached values they have, and a collection's hash never changes. Equality is decided by the complete contents: every element, key, value or multiplicity takes part, and nothing else does. Inequality is the negation of equality.",
  ["inputs", "histories"], "every pair of collections of one type, every way they were built",
  "Tests hash a few literals built the same way; layout differences from collisions, reallocation, views and cached hashes are not produced.",
  [PY+"_pmap.py", PY+"_pset.py", PY+"_pbag.py", PY+"_plist.py", PY+"_pdeque.py", PY+"_pvector.py", PY+"_pclass.py", "pvectorcmodule.c"],
  [("order independent hash of the items, cached per object", PY+"_pmap.py: __hash__"), ("comparison of complete contents", PY+"*: __eq__")], [("cached hash", "computed from the same object only", PY+"_pmap.py")], ["==, !=, hash()"])
p("C11", "Pickling rebuilds the same type with all of its state",
  "What a collection, record or class instance gives to pickle and copy names a callable that rebuilds an instance of the same concrete type from the complete contents and settings (such as a deque's maximum length). Nothing that depends on the hash seed or the memory layout of the process is included, and restoring does not run field factories again.",
  ["inputs", "histories", "configurations"], "every instance of every type, including user declared subclasses and generated field types",
  "Tests pickle one small instance per type in the same process; settings, subclasses, layout dependence and factories are rarely combined.",
  [PY+"_pmap.py", PY+"_pset.py", PY+"_pbag.py", PY+"_plist.py", PY+"_pdeque.py", PY+"_pvector.py", PY+"_precord.py", PY+"_pclass.py", PY+"_checked_types.py", PY+"_field_common.py", "pvectorcmodule.c"],
  [("__reduce__ of each type", PY+"*"), ("restore helpers", PY+"_checked_types.py: _restore_pickle; _field_common.py: _restore_*")], [], ["pickle, copy"])
p("C12", "freeze, thaw and mutant convert every level they promise to",
  "freeze returns a persistent map, vector or set for a dict, list or set, and a tuple for a tuple, converting the values at every level below; thaw does the reverse. Existing persistent (for freeze) or plain (for thaw) containers are converted inside exactly when strict is true, the strict setting applies at all levels, and all other objects are returned unchanged. mutant freezes every argument and the result.",
  ["inputs"], "every nesting of container types, both settings of strict",
  "Tests use a handful of nestings of depth two or three.",
  [PY+"_helpers.py"], [("case distinction by type with recursion", PY+"_helpers.py: freeze, thaw"), ("wrapping", PY+"_helpers.py: mutant")], [], ["types in the result at every level"])
p("C13", "Updates without effect return the same object",
  "Operations documented to keep the collection when there is nothing to do (discarding an absent element or key, extending with nothing, setting a key to the object it already has, adding a present element, an update without arguments, a full slice, a transformation that changes nothing) return the receiver itself, not a copy.",
  ["inputs", "histories"], "every receiver and every argument for which the operation has no effect",
  "Tests check identity for single literals.",
  [PY+"_pmap.py", PY+"_pset.py", PY+"_pvector.py", PY+"_pclass.py", PY+"_transformations.py", PY+"_pbag.py", "pvectorcmodule.c"],
  [("clean evolvers return the original", PY+"*: persistent"), ("identity tests before writing", PY+"_pmap.py: _Evolver.set; _transformations.py: _update_structure; _pclass.py: set")], [], ["identity of results"])
p("C14", "The C extension neither leaks nor over-releases references",
  "On every path through every C function, including error paths, each reference to a Python object or shared tree node that the operation acquires is either stored in the result or in an object that releases it later, returned, or released, exactly once. References owned by the caller or by existing vectors are never given up.",
  ["inputs", "histories", "fault_sequences"], "every path of every C entry point, including failures of callbacks into user code; memory exhaustion excluded",
  "A lost or extra count shows only as a leak or a much later crash; failure paths are hardly taken by tests.",
  ["pvectorcmodule.c"], [("reference counting conventions", "pvectorcmodule.c: Py_INCREF/DECREF, INC/DEC_NODE_REF_COUNT, incRefs, releaseNode, copyNode")], [("Python reference counts and node reference counts", "one count per stored pointer", "pvectorcmodule.c")], ["object lifetimes"])
p("C15", "C code survives user code run while references are dropped",
  "While the C extension drops a reference or calls back into Python (comparison, hashing, iteration, finalizers, weak reference callbacks), every object that the called code can reach is in a consistent state and owns what it points to. User code that uses the same vector, evolver or iterator at that moment sees a valid object, and nothing done before the callback is based on state the callback may have changed.",
  ["schedules", "programs"], "every point where the C code can run arbitrary Python code, every use of the involved objects by that code",
  "Needs finalizers or comparisons that re-enter the same object at a particular point; no test does.",
  ["pvectorcmodule.c"], [("update fields before releasing the old value", "pvectorcmodule.c: PVectorEvolver_persistent, internalPVectorDelete, PVectorEvolver_set_item, PVectorIter_next")], [("evolver and iterator fields", "owned references reachable from Python", "pvectorcmodule.c")], ["interpreter does not crash, results are correct"])
p("C16", "Errors in the C extension reach the caller unaltered",
  "When a callback into user code or an argument conversion fails inside the C extension, the operation fails with that same exception: it is not swallowed, not replaced by another one, and no result is produced with an exception pending. A failing operation always has an exception set.",
  ["fault_sequences", "inputs"], "every call from C that can raise, every exception type; memory exhaustion excluded",
  "Tests raise from few callbacks; each call site can be wrong on its own.",
  ["pvectorcmodule.c"], [("checks after each fallible call", "pvectorcmodule.c")], [], ["exceptions seen by callers"])
p("C17", "The C types cooperate safely with the garbage collector",
  "For every C type, the garbage collector is told about an object held only through references that are owned by the visited instance alone, never more often than the reference is held, and about every container field it owns; objects still in use are never collected. Instances are only tracked while their fields are valid, and are untracked before they are torn down.",
  ["histories", "schedules"], "every moment at which a collection can run, every sharing of nodes between vectors and evolvers",
  "Needs a collection at a moment with a particular sharing pattern and a garbage cycle.",
  ["pvectorcmodule.c"], [("traverse functions", "pvectorcmodule.c: PVector_traverse, PVectorEvolver_traverse, PVectorIter_traverse"), ("track after initialisation, untrack in dealloc", "pvectorcmodule.c")], [], ["liveness of referenced objects"])
p("C18", "The C extension never indexes outside node or cache storage",
  "Every index the C code uses on node storage is within the branching factor, every position taken from the caller is checked against the length before elements are read or replaced, and every access to the cache of free nodes is within its bounds. Negative and oversized positions raise an index error or are clamped as documented.",
  ["inputs", "histories"], "every index argument including negative and extreme ones, every vector size",
  "Tests use positions near the ends of small vectors.",
  ["pvectorcmodule.c"], [("masking with the branching factor", "pvectorcmodule.c: BIT_MASK"), ("range checks", "pvectorcmodule.c: nodeFor, internalSet, PVectorEvolver_set_item"), ("cache size checks", "pvectorcmodule.c: allocNode, freeNode")], [], ["memory safety, IndexError"])
p("C19", "The C and Python vectors offer the same interface",
  "The C vector and its evolver offer the same public methods and operators as the Python vector and its evolver. Each method accepts every number of positional arguments that the abstract vector class (or the Python evolver) declares. The errors the methods raise themselves have the same types in both: IndexError for an index out of range, TypeError for an index that is not an integer or a wrong number of arguments, ValueError for a value that index() or remove() does not find. Both vectors are instances of PVector, Sequence and Hashable.",
  ["programs", "configurations"], "every program using the vector interface, with and without the C extension",
  "Tests run a shared suite on both but an operation missing from the suite is missing unnoticed.",
  [PY+"_pvector.py", "pvectorcmodule.c"], [("method tables and slots", "pvectorcmodule.c: PVectorType, PVectorEvolverType"), ("Python implementation and abstract base", PY+"_pvector.py")], [], ["attribute and operator availability, exception types"])
p("C20", "A bounded deque keeps its bound and never exceeds it",
  "Every deque derived from a deque has the same maximum length as the deque it was derived from, and a deque created with a maximum length reports exactly that one. The number of elements a deque reports never exceeds its maximum length, a maximum length of zero included.",
  ["inputs", "histories"], "every operation, every maximum length, every size and argument",
  "Tests use maxlen 3 with single appends; combinations of operations with bounded deques are not covered.",
  [PY+"_pdeque.py"], [("maxlen handed to every constructed deque", PY+"_pdeque.py"), ("drop from the other end", PY+"_pdeque.py: _append, _extend")], [("maxlen and length", "stored per deque", PY+"_pdeque.py")], ["maxlen, len()"])
p("C21", "A bag only holds positive multiplicities",
  "Every element a bag contains has a multiplicity of at least one, after any sequence of operations: removing the last occurrence removes the element, and union, intersection, sum and difference never leave an element with a zero or negative count. So containment, length, iteration, equality and hash agree with each other.",
  ["inputs", "histories"], "every bag, every operation and argument",
  "Tests combine few small bags; which branch leaves a zero count depends on the counts.",
  [PY+"_pbag.py"], [("counts removed when they reach zero", PY+"_pbag.py: remove, __sub__, __and__")], [("element counts", "map from element to multiplicity", PY+"_pbag.py")], ["count(), in, len(), iteration"])
p("C22", "Map entries are stored where lookups find them and are counted",
  "Whenever a map is produced, every entry is stored where a lookup of its key searches, an update of one key leaves every other entry in place, and the length changes by exactly the number of entries added or removed, also across growth of the table. Keys are told apart only by their hash and ==, so any consistent key type works.",
  ["inputs", "histories"], "every key type and hash value, every sequence of updates, every table size",
  "Depends on collisions, on growth at particular sizes and on key types with unusual comparison; tests use strings and small integers.",
  [PY+"_pmap.py"], [("index from the hash and the current table", PY+"_pmap.py: _get_bucket, _reallocate, _turbo_mapping"), ("size bookkeeping", PY+"_pmap.py: _Evolver.set, remove")], [("bucket vector and size", "hash table", PY+"_pmap.py")], ["lookup, containment, iteration, len()"])
p("C23", "A rejected update leaves the evolver unchanged",
  "When an evolver operation of the pure Python collections raises because of a missing key or index, a wrong type or an undeclared field, the evolver still represents exactly the contents it had before the call, and a later persistent() returns those contents.",
  ["inputs", "histories", "fault_sequences"], "every evolver operation that the library itself rejects, in every state",
  "Tests check that the exception is raised, not what the evolver holds afterwards.",
  [PY+"_pvector.py", PY+"_pmap.py", PY+"_pset.py", PY+"_checked_types.py", PY+"_precord.py", PY+"_pclass.py"],
  [("validation before the first write", PY+"*: evolver methods")], [], ["evolver contents after an exception"])
p("C24", "A vector behaves like a list of its elements",
  "For every sequence of operations, reading a vector by position, slice or iteration gives what the same operations on a plain list would give.",
  ["inputs", "histories"], "every size, index, slice and sequence of operations",
  "The index arithmetic of the tree depends on sizes far beyond those sampled.",
  [PY+"_pvector.py", "pvectorcmodule.c"], [("radix tree indexing", PY+"_pvector.py: _node_for, _push_tail; pvectorcmodule.c: nodeFor, pushTail")])
p("C25", "Deque and list operations keep element order",
  "Slicing, rotation, extension and removal on persistent lists and deques give the elements in the order the corresponding operation on a plain list or collections.deque gives.",
  ["inputs", "histories"], "every split of a deque over its two halves, every argument",
  "Order depends on how elements are split between the halves, which tests sample.",
  [PY+"_plist.py", PY+"_pdeque.py"], [("two lists with reversal", PY+"_pdeque.py")])
p("C26", "Updates share structure and are cheap",
  "An update copies only a path of logarithmic length and shares the remaining structure with the original, so that its time and memory do not grow linearly with the collection.",
  ["inputs"], "every size", "No test measures cost.",
  [PY+"_pvector.py", "pvectorcmodule.c"], [("path copying", PY+"_pvector.py; pvectorcmodule.c")])
p("C27", "create() and serialize() are inverse where factories allow",
  "Creating an instance from what serialize() returned gives an equal instance when serializers and factories are inverse.",
  ["inputs"], "every declaration and instance", "Tests check few declarations.",
  [PY+"_checked_types.py", PY+"_precord.py", PY+"_pclass.py"], [("recursive create/serialize", PY+"_checked_types.py, _pclass.py, _precord.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
