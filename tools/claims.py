TRUST = " Trusts go/types, x/tools/go/ssa and the checker's summaries of sync/atomic, elist_head and lista_encabezado."
CLAIMS = {
 "C01": ("static analysis: path-sensitive symbolic execution over SSA of every exported operation on one key, with equality facts",
   "Every successful exit of a lookup and every update or deletion of an existing entry needs, on its path, comparisons of both hashes with those of the key, or a table hit under a key that contains both." + TRUST),
 "C02": ("static analysis: path-sensitive symbolic execution over SSA of lookups, updates, deletions and traversals with facts about the entry's mark",
   "Every entry reported, updated, deleted or visited is known on its path not to be marked deleted; Delete sets the mark the searches test; the mark is only cleared when the slot's hash was overwritten." + TRUST),
 "C03": ("static analysis: path-sensitive symbolic execution over SSA of the traversals with a typestate of the position",
   "The position is followed from the first element round all loops; each callback, step and exit is judged against it on every path, for both results of the callback." + TRUST),
 "C04": ("static analysis: path-sensitive symbolic execution over SSA of every insertion into the entry list and of the slot query of pools, with order facts",
   "Every insertion into the entry list is judged in its own function and, where needed, in each of its callers: on its path the hash of the right neighbour is known to be at least that of the element and the left one's at most that. Elements of lists not yet shared are exempt, as are the initial bucket markers, which are sorted by sort.Slice." + TRUST),
 "C05": ("static analysis: symbolic evaluation of the hash functions over SSA",
   "The hash function is evaluated for every key type on every path; each result must be a pure function of the whole key content, identical in all ways of computing it." + TRUST),
 "C09": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of pool slots (used, deleted, appended, moved)",
   "Every slot handed out is, on its path, one whose mark is known to be set, the next unused one, or the gap of a new table, with mark, hash and conflict hash zero; every change of the number of used slots is judged on every path. Slots given back through the exported Pool.Put, which never returns, are exempt." + TRUST),
 "C10": ("static analysis: symbolic execution of each option followed by its returned option over SSA",
   "For every map option and every argument, applying the returned option restores every field of the map the option wrote, on all paths." + TRUST),
 "C06": ("static analysis: kind inference by unification over SSA (plain, bit-reversed, conflict hash) with polymorphic functions, evaluated pointer views and anchored API hashes",
   "Every comparison, store, load, call, return, table key and index that carries a 64-bit hash is related; no value may be of two kinds. Constants and counters have no kind." + TRUST),
 "C07": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of held locks and release functions, volatile memory, balanced-function summaries and checked contracts for recursive hand-over",
   "Every exported, goroutine, recursive and callback function is judged on every path: each lock taken is released or handed over once, none is released unheld, none held is waited for; lock-order deadlocks between operations are outside." + TRUST),
 "C08": ("static analysis: path-sensitive symbolic execution over SSA of every writing operation with a typestate of the entry (key, value, hashes, published)",
   "Every link, table store and hash publication is judged on every path: key, value and both hashes must have been stored before it, and key and hashes not after it." + TRUST),
 "C12": ("static analysis: path-sensitive symbolic execution over SSA of every writing operation with an ownership typestate of allocated entries",
   "Every entry allocated by the operation or given by the caller and linked is, at the exit, referred to from a field of the map through references the garbage collector follows; earlier references must stay reachable. Every store anywhere to the fields that hold these references must keep what they referred to, and a pool field may only be replaced if every pool stored in it is referred to elsewhere too." + TRUST),
 "C13": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of links, deletions and length changes per path",
   "On every path out of every exported writing operation the changes of the length equal the entries linked minus the entries deleted; every access to the length is atomic; a length computed by counting counts exactly the live cells." + TRUST),
 "C15": ("static analysis: type-set analysis of atomic.Value cells, value-flow of user values to panicking operations, symbolic evaluation of SetValue followed by Value over SSA",
   "Every store to an atomic.Value, every comparison, assertion and table access that a user value can reach, and all paths through SetValue and Value of every item type are judged; values put into exported fields by the user are not." + TRUST),
 "C16": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of stored values, linked entries and deletion marks per path",
   "Every exit with a success result of every exported writing operation has, on its path, a link of an entry with the new value or a successful store of it (writes), or a deletion mark set on an existing entry (deletes)." + TRUST),
 "C14": ("static analysis: interprocedural value-flow and control-dependence slicing from package variables, and typestate of the traversal mode",
   "Every package-level variable written in an operation is sliced forward to results, stores and calls with effects; deliberate diagnostics (dump, statistics) are excluded as results. Constructors may set the process-wide traversal mode." + TRUST),
 "C11": ("static analysis: symbolic evaluation of pointer arithmetic in SSA, with unification of link kinds",
   "Every conversion between untyped and typed addresses, every element step, size argument and Offset method in the module is evaluated as base+offset against the types' layouts." + TRUST),
 "C17": ("static analysis: bit-provenance evaluation of index expressions over SSA",
   "Every hash-derived index of the bucket table and the pool shards is evaluated for all hashes as a bit vector of hash bits; bounds and agreement of the index functions are exact." + TRUST),
 "C18": ("static analysis: address-root classification of every atomic and lock operation, through parameters and closures",
   "Every atomic or lock operation in the module must have an address that does not lead to a local copy; copies of cells are flagged." + TRUST),
 "C19": ("static analysis: nil-path analysis by symbolic execution over SSA with summaries of lookups (which combinations of nil and success they give), and must-set analysis of constructors",
   "On every path of every function, no nil given by a lookup by key, no nil stored for a deleted key and no nil table is used; constructors set on every path what is used without a test. Nil buckets, pools and list neighbours, which other structures exclude, are not judged." + TRUST),
 "C20": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of pool locks and of lookups made under them, and contracts for lookup functions",
   "With the embedded mode fixed and memory volatile, every SetValue and Delete of a map entry reachable from Set, StoreItem, Delete and Purge needs, on its path, a pointer looked up while the lock of the base bucket it came from was held. bucket.GetItem of an unexported type is outside the roots." + TRUST),
 "C21": ("static analysis: transitive effect (write-set) analysis over the call graph",
   "Over-approximated write sets of all read operations are disjoint from all map state." + TRUST),
 "C22": ("static analysis: transitive effect analysis of value update and deletion",
   "Over-approximated write sets of all value updates and deletions of items contain nothing but the permitted fields." + TRUST),
 "C23": ("static analysis: forward data- and control-dependence slicing from the diagnostic switches, and effect analysis of the code they guard",
   "Every read of the statistics switch, the counters and the log output and every log level test in operations is sliced forward; blocks that only run for diagnosis may write nothing of a map, and no result, store, list change or lock depends on them. Dump functions are excluded as results." + TRUST),
 "C24": ("static analysis: path-sensitive symbolic execution over SSA with an effect typestate, on the points that can reject an argument (found by forward flow of the arguments)",
   "Every type assertion and every default of a type switch that an argument of an exported operation can reach is judged on every path: nothing of a map was changed and no lock is held that no deferred call releases. Functions lookups use as well may prepare state, and package variables are not judged." + TRUST),
 "C25": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of locks and of the traversal mode",
   "On every path of Range and RangeItem to a call of the function they were given. Functions of the caller that are called elsewhere (methods of items) are not judged: slots are locked while their value is set." + TRUST),
 "C26": ("static analysis: path-sensitive symbolic execution over SSA with a typestate of the lock, the published table and the part for new keys",
   "On every path of every exported operation of the read-mostly map, whatever other goroutines publish before the lock is taken: absence, additions, publications, changes of published tables and stores in cells are judged. Which keys the Go map and the main map hold is left to them (C01, C05)." + TRUST),
 "C27": ("static analysis: path-sensitive symbolic execution over SSA with volatile table headers, order facts between lengths, capacities and indexes, and a typestate of header changes",
   "On every path of every function that changes a length or capacity through the overlay of a slice header, or computes the address of a slot; every read of a length or capacity may give a new value. Functions that depend on their parameters are judged with their callers. The reservation of a bucket table by its capacity before it is made is not judged." + TRUST),
}
NA = {
 "C40": "Linearizability quantifies over all interleavings and over the list states they produce; no static argument in reach relates the lock-free link updates to a sequential history. Concurrent Set/Get on the main map is in fact known to lose entries (DESIGN.md).",
 "C41": "Full dictionary behaviour depends on list and pool contents at run time; its structural parts are claimed as C01, C02, C04, C09, C13 and C16.",
 "C42": "Absence of crashes under every interleaving needs an invariant over concurrently mutated links; known not to hold for concurrent writers (DESIGN.md).",
 "C43": "The lock-free list and slot headers are read without synchronisation by design of the external list library; a static race rule would be violated everywhere.",
 "C44": "Loops are bounded by list lengths and retry until other goroutines make progress; no static ranking argument exists for them.",
 "C45": "Needs the run-time order of entries with equal hashes; lookup stops at the first equal hash (DESIGN.md).",
 "C46": "Depends on the run-time positions of slots during array copies; no static argument in reach bounds them.",
 "C47": "Sizes are run-time quantities computed from configuration and load.",
}
