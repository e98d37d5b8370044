#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
IDX = ["pkg/idxtable/table.go", "pkg/idxtable/iterator.go", "pkg/idxtable/entry.go"]
TAB = ["pkg/table/table16/table16.go", "pkg/table/table32/table32.go", "pkg/table/table64/table64.go"]
IPT = ["pkg/iptable/iptable.go"]
TRE = ["pkg/tree/tree.go", "pkg/tree/node.go", "pkg/tree/tree_manual.go", "pkg/tree/entry.go"]
GT = ["pkg/tree/tree16/tree16.go", "pkg/tree/tree32/tree32.go", "pkg/tree/tree64/tree64.go", "pkg/tree/gtree/gtree.go"]
def ids(f): return [f"pkg/tree/id{w}/{f.replace('N', str(w))}.go" for w in (16, 32, 64)]

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Index table is an exclusive, bounded map from id to data",
 "In an index table of size N every id in [0,N) is either free or held by exactly one entry: Claim succeeds exactly on a free in-range id, Update exactly on a claimed one, Get returns the data of the last successful Claim/Update of that id, and Release of any in-range id frees it. "
 "Ids at or beyond N (every id when N is 0) are rejected by Get, Claim, Update and Release. "
 "An operation that returns an error changes nothing, and Has, IsFree and Size always agree with the set of claimed ids.",
 ["inputs", "histories", "configurations"], "every table size including 0 and the largest, every sequence of operations, every id including boundary and far out-of-range values",
 "The tests run a handful of claims on one table of 1000 ids; no test checks double claims, update of a free id, the state after an error, size 0, or reuse after release.",
 IDX, [("add/update/delete guarded by validate+isFree", "pkg/idxtable/table.go: add, update, delete, validate")],
 [("table", "claimed entries by id", "pkg/idxtable/table.go: table.table"), ("size", "capacity", "pkg/idxtable/table.go: table.size")],
 ["return values of Get/Claim/Update/Release/Has/IsFree/Size after every step"])

prop("C02", "Range claims are exact and all-or-nothing",
 "ClaimRange(start,n) with n>=1 succeeds exactly when every id in [start,start+n) lies inside the table and is free, and then claims exactly those n ids with the given data. "
 "Otherwise, including when start+n overflows, it returns an error and leaves the table unchanged; FindFreeRange gives the same verdict, returns exactly those ids in ascending order, and never changes the table. "
 "A request for zero ids never claims anything.",
 ["inputs", "histories", "configurations"], "every occupancy pattern, start and length, including length 1, ranges ending on a used id or on the last id, and start+length wrapping around 2^64",
 "Three cases are tested (a fit, a too long range, an overlap at the start); an occupied id at the end or in the last interior slot, length 1 and overflow are not reached.",
 IDX, [("findFreeRange validates bounds and occupancy before ClaimRange adds", "pkg/idxtable/table.go: findFreeRange, ClaimRange")], (),
 ["returned error/ids and the full claimed set before and after every call"])

prop("C03", "Dynamic allocation hands out the lowest free ids, exactly while any are left",
 "FindFree and ClaimDynamic yield the lowest free id of an index table, and FindFreeSize(n) and ClaimSize(n) with n>=1 the n lowest free ids in ascending order; they succeed exactly when enough free ids exist. "
 "The claiming variants claim exactly the returned ids with the given data, the Find variants change nothing, and a failed request changes nothing. "
 "A released id becomes allocatable again.",
 ["inputs", "histories", "configurations"], "every occupancy pattern, table size and request size, over histories of claims and releases",
 "ClaimDynamic and FindFree have no index-table test; ClaimSize is tested once on an empty table and once with an oversize request.",
 IDX, [("free-id search under the table lock", "pkg/idxtable/table.go: ClaimDynamic, ClaimSize, findFreeSize, iterateFree, FindFree")], (),
 ["returned ids, errors and full claimed set after each call"])

prop("C04", "Enumeration is an exact, sorted, stable snapshot",
 "Iterate and GetAll of an index table yield every claimed id exactly once, in ascending order, with its current data, and IterateFree yields every free id exactly once in ascending order. "
 "While iterating, the consecutive flag is true exactly when the previous yielded id is the current id minus one (false on the first). "
 "An iterator or list obtained earlier keeps yielding the ids and data as of the moment it was taken, whatever is claimed, updated or released afterwards.",
 ["inputs", "histories"], "every occupancy pattern; every sequence of mutations interleaved between obtaining an iterator and draining it",
 "TestIterate inspects the key slice of one three-entry table; values, the consecutive flag, IterateFree, GetAll order and mutation during iteration are untested.",
 IDX, [("keys are collected and sorted under the lock; values come from the iterator", "pkg/idxtable/table.go: iterate, iterateFree, GetAll; pkg/idxtable/iterator.go")], (),
 ["the (id, data, consecutive) sequence each iterator yields"])

prop("C05", "Index table operations are linearizable",
 "Any operations issued concurrently on one index table behave as if each took effect atomically at one instant between its call and its return. "
 "In particular no id is ever granted to two callers without a release in between, a multi-id claim is never seen half done, no claim fails although its ids were free throughout, and listings show one consistent moment.",
 ["schedules", "histories"], "every interleaving of every mix of concurrent table operations",
 "No test uses more than one goroutine.",
 IDX, [("one RWMutex around each operation", "pkg/idxtable/table.go: table.m")],
 [("m", "table lock", "pkg/idxtable/table.go")], ["timestamped call/return history at the API boundary"])

prop("C06", "Concurrent use is free of data races and crashes",
 "Concurrent calls of any operations of an index table, windowed table, IP table or prefix tree by any number of goroutines never cause a data race, a panic or a runtime fault inside the library. "
 "This includes draining an index-table iterator or list obtained earlier, and using a cloned tree, while others modify the original.",
 ["schedules", "histories"], "every pair of operations on a shared instance, under every interleaving (a live tree iterator over a tree being modified is documented as unsupported and excluded)",
 "No test is concurrent and the suite is not run under the race detector.",
 IDX + TAB + IPT + GT + TRE, [("RWMutex in index table and trees", "pkg/idxtable/table.go, pkg/tree/tree{16,32,64}/"), ("iterators detached from the live map", "pkg/idxtable/iterator.go")], (),
 ["Go race detector reports, runtime faults, panics"])

prop("C07", "No operation ever deadlocks",
 "Whatever mix of operations runs concurrently on a table or tree, every call returns: no operation waits forever for a lock, whether held by itself, by another reader with a writer queued in between, or left behind by an operation that returned an error. "
 "After any operation has returned, successfully or not, every other operation can still complete.",
 ["schedules", "histories", "inputs"], "every mix and interleaving of readers and writers, every error path",
 "Deadlocks need a writer arriving at a particular moment between two lock acquisitions, or an untested error path; tests are single-threaded.",
 IDX + TAB + IPT + GT, [("lock/unlock pairing, no nested read locks", "pkg/idxtable/table.go: GetAll, iterate; pkg/tree/tree*/: Get, Children, Parents, Iterate")], (),
 ["lock events (acquire request, acquired, released) per goroutine; completion of every call"])

prop("C08", "Allocation on huge id spaces does not cost memory or time per free id",
 "FindFree, ClaimDynamic, ClaimFree, ClaimSize(n), ClaimRange(start,n), single-id operations and listing the claimed ids (Iterate, GetAll, GetByLabel) on tables spanning up to 2^64 ids (index tables, 16/32/64-bit windowed tables, IPv4 and IPv6 IP tables) complete with memory and work proportional to the ids claimed plus requested, not to the ids that are free. "
 "In particular the full 16-, 32- and 64-bit windows and an IPv6 /64 pool can be constructed, searched and allocated from.",
 ["configurations", "inputs"], "every window and pool size up to 2^64 and occupancy pattern",
 "Tests use windows of at most 1000 ids.",
 IDX + TAB + IPT, [("free search stops at the first fit", "pkg/idxtable/table.go: iterateFree, findFreeSize, findFreeRange"), ("capacity computation", "pkg/table/*/: New; pkg/iptable/iptable.go: numIPs")], (),
 ["bytes allocated and CPU time per call inside a memory-limited child process"])

prop("C09", "Windowed tables expose exactly the ids of their window",
 "A 16-, 32- or 64-bit table built for [start,end] accepts exactly the ids in that window, both ends included: Claim succeeds exactly on a free id of the window, Update exactly on a claimed one, Release frees, and Get, Has, IsFree and Size reflect exactly the claims made. "
 "Ids outside the window are rejected (Has and IsFree answer false) without touching any other id, and a window with start beyond end holds no ids at all. "
 "FindFree and ClaimFree return the lowest free id of the window and fail exactly when none is left.",
 ["inputs", "histories", "configurations"], "every window of the width including full-width, one-element, upper-end and reversed ones; every history; ids beyond the width",
 "One window per width, two claims and one outside id are tested; ClaimFree, Update, Release, full-width windows and exhaustion are not.",
 TAB + IDX, [("validateID, calculateIndex, calculateIDFromIndex", "pkg/table/table{16,32,64}/")], (),
 ["return values of every call against a reference window map"])

prop("C10", "Table entries carry the claimed id and labels on every read path",
 "For every claimed id of a windowed table, Get, GetAll, GetByLabel and the ClaimFree that created it report an entry with that same external id, the table's id width, and the labels of the last successful Claim/ClaimFree/Update, so entries for one id from different calls compare equal. "
 "GetAll lists every claimed id once in ascending order, and GetByLabel lists exactly those whose labels match the selector, in the same order. A returned list is the caller's own: later operations do not change it, and overwriting it does not change the table.",
 ["inputs", "histories", "configurations"], "every window with non-zero and zero start, every label set and selector, every history",
 "No test reads an entry's id or labels back, and GetByLabel is never called.",
 TAB + ["pkg/tree/entry.go"], [("entry id is remapped from slot to external id", "pkg/table/table{16,32,64}/: Get, GetAll, GetByLabel, ClaimFree")], (),
 ["id, width, labels, Equal of returned entries"])

prop("C11", "Windowed and IP tables are linearizable; concurrent allocation never collides",
 "Concurrent operations on one windowed table or one IP table behave as if each took effect atomically between its call and return. "
 "Concurrent ClaimFree calls receive distinct ids and fail only if no id was free, and of several concurrent claims of one id or address exactly one succeeds.",
 ["schedules", "histories"], "every interleaving of concurrent Claim/ClaimFree/Update/Release/Get/Has/IsFree/FindFree/GetAll/GetByLabel/Size",
 "No test uses more than one goroutine.",
 TAB + IPT + IDX, [("check-then-act sequences over the index table", "pkg/table/table*/: Claim, ClaimFree; pkg/iptable/iptable.go: Claim, Update")], (),
 ["timestamped call/return history at the API boundary"])

prop("C12", "IP table maps each address of its range to its own slot",
 "An IP table for [from,to] (IPv4 or IPv6) accepts exactly the addresses of the range, in any textual spelling, and treats two spellings of one address as the same and two different addresses as independent: Claim, Update, Release, Get, Has, IsFree and Size behave as an exclusive map keyed by address holding the last stored route. "
 "Unparsable, zoned, other-family and out-of-range addresses are rejected without effect; a reversed or mixed-family range holds no addresses. "
 "FindFree returns the lowest free address in the range's own family and fails exactly when none is left, and GetAll and GetByLabel list exactly the stored (matching) routes in address order; a returned list is the caller's own and later operations do not change it.",
 ["inputs", "histories", "configurations"], "every range incl. those straddling byte and 64-bit boundaries and pools of 2^64 or more addresses, every address spelling, every history",
 "The only test claims two IPv4 addresses of an 11-address range; no IPv6, no boundary, no FindFree result is checked.",
 IPT + IDX, [("validateIP, calculateIndex, calculateIPFromIndex, numIPs", "pkg/iptable/iptable.go")], (),
 ["return values of every call against a reference map keyed by netip.Addr"])

prop("C13", "Prefix tree stores exactly the claimed ids with their latest labels",
 "For every history on a 16-, 32- or 64-bit tree, the entries reported by Get, GetAll, Size and iteration are exactly the ids (value and prefix length) claimed or updated and not since released, each with the labels of its last successful claim or update; releasing an id removes that entry and no other. "
 "Listing and iteration yield each entry once, in ascending id order with a covering prefix before what it covers. A returned list is the caller's own: later operations do not change it, and overwriting it does not change the tree. "
 "An id whose value exceeds the tree's configured bit size or whose prefix length exceeds the id width is rejected and nothing changes.",
 ["inputs", "histories", "configurations"], "every tree width and configured size, every set of nested, sibling and disjoint prefixes, every claim/update/release order",
 "Tests claim two ids and never release, update, or nest prefixes (no test deletes from a tree at all); the 64-bit test fails at baseline.",
 GT + TRE, [("path-compressed radix tree with node split, merge and reuse", "pkg/tree/tree.go: add, DeleteWithBuffer, deleteNode, moveTags"), ("validate", "pkg/tree/tree{16,32,64}/")],
 [("nodes/vals", "radix nodes and values keyed by node index", "pkg/tree/tree.go: Tree")], ["Get/GetAll/Size/Iterate after every step"])

prop("C14", "Tree ClaimFree returns an unused id inside the tree, while one exists",
 "ClaimFree on a tree of bit size L returns, and stores with the given labels, a full-length id in [0,2^L) that was not claimed and is not inside any claimed prefix. "
 "It fails exactly when every id of [0,2^L) is claimed or covered, and then changes nothing; released ids and prefixes become allocatable again.",
 ["inputs", "histories", "configurations"], "every bit size 0..width, every pattern of claimed ids and prefixes including ones covering the whole tree",
 "ClaimFree is not called by any test.",
 GT + ids("idset") + ids("rangeN"), [("findFree: root prefix minus claimed entries, then best-fit prefix", "pkg/tree/tree{16,32,64}/: findFree; pkg/tree/id*/idset.go: RemoveFreePrefix")], (),
 ["returned id vs. reference free set; state after each call"])

prop("C15", "Tree ClaimRange claims exactly the range",
 "A successful ClaimRange(\"a-b\") with a<=b stores entries with the given labels whose prefixes are disjoint and together cover exactly the ids a..b, overwriting or adding nothing else. "
 "A malformed string, a reversed range or a range reaching beyond the tree's bit size returns an error and changes nothing.",
 ["inputs", "histories", "configurations"], "every pair a,b and every string, every tree size, on empty and populated trees",
 "ClaimRange is not called by any test (only by the demo program, once).",
 GT + ids("rangeN"), [("ParseRange + IDs decomposition + set per prefix", "pkg/tree/tree{16,32,64}/: ClaimRange; pkg/tree/id*/range*.go")], (),
 ["error, and full entry list before/after"])

prop("C16", "Children and Parents report exact containment",
 "Children(p) lists exactly the claimed entries strictly inside prefix p and Parents(p) exactly the claimed entries that strictly contain p, whether or not p itself is claimed, each once and in tree order, with their current labels. "
 "Querying never changes the tree.",
 ["inputs", "histories", "configurations"], "every query prefix of every length (0 to full), every claimed set, every width",
 "Neither operation is tested.",
 GT + ids("idN"), [("Overlaps plus prefix-length comparison", "pkg/tree/tree{16,32,64}/: Children, Parents; pkg/tree/id*/id*.go: Overlaps")], (),
 ["returned entry lists vs. reference containment"])

prop("C17", "Label selection and release touch exactly the matching entries",
 "GetByLabel on a tree lists exactly the claimed entries whose current labels match the selector, each once in tree order. "
 "ReleaseByLabel removes exactly those entries and leaves every other entry with its id and labels untouched.",
 ["inputs", "histories", "configurations"], "every selector kind (equality, set, existence, everything, nothing), label assignment, nesting pattern and width",
 "Neither operation is tested.",
 GT + TRE, [("iterate + selector.Matches; delete by id with entry equality", "pkg/tree/tree{16,32,64}/: GetByLabel, ReleaseByLabel, del; pkg/tree/entry.go: Equal")], (),
 ["returned lists and full entry list before/after"])

prop("C18", "A cloned tree is an equal and fully independent tree",
 "Clone returns a tree that reports the same entries as the original at that moment and supports every operation with the same limits and results. "
 "Nothing done to either tree afterwards is visible in the other.",
 ["inputs", "histories", "configurations"], "every tree content, every operation sequence applied to either copy after cloning, clones of clones, every width",
 "Clone is not tested.",
 GT + TRE, [("Clone copies nodes, free list and values", "pkg/tree/tree.go: Clone; pkg/tree/tree{16,32,64}/: Clone")], (),
 ["both trees against separate reference models after every step"])

prop("C19", "Tree operations are linearizable; concurrent ClaimFree never collides",
 "Concurrent operations on one prefix tree behave as if each took effect atomically between its call and return, so listings and clones show one consistent moment and range claims and label releases are never seen half done. "
 "Concurrent ClaimFree calls receive distinct ids.",
 ["schedules", "histories"], "every interleaving of ClaimID/Update/ClaimFree/ClaimRange/ReleaseID/ReleaseByLabel/Get/GetAll/GetByLabel/Children/Parents/Size/Clone",
 "No test uses more than one goroutine.",
 GT + TRE, [("RWMutex per tree", "pkg/tree/tree{16,32,64}/: m")], (),
 ["timestamped call/return history at the API boundary"])

prop("C20", "Claim/release churn does not leak",
 "Repeatedly claiming and releasing ids, in any pattern, keeps the memory held by an index table, windowed table, IP table, prefix tree or generic tree bounded by what its largest simultaneous content needs, independent of how many operations have been made. Lookups, listings, selections, refused operations and id or range arithmetic, with ever different arguments, keep nothing either. "
 "Behaviour after long churn is the same as on a fresh instance with the same content.",
 ["histories"], "arbitrarily long histories of claims and releases with bounded live content, in every order and nesting",
 "Tests perform at most a few operations and no tree test releases anything.",
 TRE + GT + IDX, [("freed node indexes are reused; values are deleted with their node", "pkg/tree/tree.go: deleteNode, deleteVal, moveTags; pkg/tree/tree_manual.go: newNode")],
 [("availableIndexes", "free list of node slots", "pkg/tree/tree.go")], ["live heap bytes after forced GC at growing operation counts"])

prop("C21", "A range decomposes into the exact, minimal list of prefixes",
 "For every from<=to of a 16-, 32- or 64-bit id space, the prefixes listed for the range are aligned, pairwise disjoint, in ascending order, cover exactly the ids from..to, and no shorter list does. "
 "The range covered by any prefix is exactly its first to last id, and decomposing that range gives back the single prefix.",
 ["inputs"], "all pairs of bounds of each width, all prefixes of all lengths 0..width",
 "Only the decomposition of three fixed ranges is executed, and its result is not checked.",
 ids("rangeN") + ids("myuintN"), [("appendRangeIDs/compareIDs recursion with bit masks", "pkg/tree/id*/range*.go"), ("RangeOfID, LastID", "pkg/tree/id*/range*.go"), ("mask6 table", "pkg/tree/id*/myuint*.go")], (),
 ["prefix lists vs. greedy aligned-block decomposition over integers"])

prop("C22", "Id set building is exact set algebra",
 "After any sequence of adding and removing ids, prefixes, ranges and sets, the built set contains exactly the ids obtained by applying the steps in order, reported as sorted, non-overlapping, non-adjacent ranges, and its prefixes cover the same ids. "
 "Neither building on nor changing the lists a set reported disturbs sets built earlier, and invalid prefixes or ranges are reported as an error without crashing or affecting the content.",
 ["inputs", "histories"], "every sequence of add/remove steps, including bounds at 0 and at the maximum id, touching and nested ranges, for each width",
 "The set builder has no tests; it is only reached through untested ClaimFree.",
 ids("idset") + ids("rangeN"), [("normalize merges in/out range lists", "pkg/tree/id*/idset.go: normalize, IPSet"), ("mergeRanges; Next/Prev", "pkg/tree/id*/range*.go, id*.go")], (),
 ["ranges and prefixes of the built set vs. an interval-set reference"])

prop("C23", "Removing a free prefix takes an aligned block out of the set, if one fits",
 "RemoveFreePrefix(l) succeeds exactly when the set contains some aligned block of prefix length l, and then returns such a block and a set equal to the original minus that block. "
 "The block is the first one of the smallest maximal free aligned block that can hold it (the lowest such on ties), and the original set is unchanged.",
 ["inputs"], "every set and every length 0..width, each id width",
 "No test calls it.",
 ids("idset"), [("best-fit search over prefixes", "pkg/tree/id*/idset.go: RemoveFreePrefix")], (),
 ["returned id, set and flag vs. interval-set reference"])

prop("C24", "Id arithmetic, masking and ordering agree with the integers",
 "For every id of every width: next and previous step by one within the full width and yield the zero id past the ends; masking to length l keeps exactly the top l bits and fails only beyond the width; shifting, bit tests and match counts agree with the binary value. "
 "Two ids overlap exactly when one's prefix contains the other, and comparison is a total order by length then value, consistent with less. "
 "Entries are equal exactly when id, length and labels are equal. No operation changes the id it is applied to.",
 ["inputs"], "all values and lengths of each width (16-bit values exhaustively), boundary values around every power of two",
 "None of these functions has a direct test.",
 ids("idN") + ids("myuintN") + ["pkg/tree/entry.go"], [("myuint add/sub, mask tables, LeadingZeros", "pkg/tree/id*/myuint*.go, id*.go")], (),
 ["results vs. big-integer reference"])

prop("C25", "The generic radix tree keeps every value of every prefix until deleted",
 "For every history on the generic multi-value tree, the values held at each prefix are exactly those added (subject to the caller's matching function), the last one set, minus those deleted; Add, Set and Delete report whether a value was added, how many are there, and how many were removed. "
 "Deleting at one prefix, or deleting one of several values, never loses, moves or duplicates any other value, and iteration visits each non-empty prefix once in order with all its values.",
 ["inputs", "histories"], "every interleaving of add, set and delete over nested and sibling prefixes with several, possibly equal, values per prefix, for all three widths",
 "No test uses more than one value per prefix, deletes, or calls this API directly.",
 TRE, [("addVal, deleteVal, moveTags, deleteNode compaction", "pkg/tree/tree.go")], (),
 ["return counts and full iteration after each step vs. reference multimap"])

prop("C26", "Ranges parse, print and relate like integer intervals",
 "Parsing accepts exactly \"a-b\" with two decimal numbers that fit the width, yields those bounds, and round-trips with printing; anything else is an error. "
 "Replacing a bound yields the range with that bound and leaves the original as it was. Validity, ordering (by lower bound, wider first), and the before / covered-by / in-the-middle-of relations between valid ranges hold exactly when they hold for the integer intervals, as do overlaps-start and overlaps-end between intersecting ranges.",
 ["inputs"], "all strings; all pairs of valid ranges of each width incl. bounds 0 and maximum",
 "ParseRange is called on four well-formed strings; the relations are untested.",
 ids("rangeN"), [("ParseRange, String, IsValid, Less, relations", "pkg/tree/id*/range*.go")], (),
 ["results vs. integer interval arithmetic"])

prop("C27", "Separate instances start empty and never influence each other",
 "Every newly created index table, windowed table, IP table, prefix tree, generic tree or id-set builder is empty and usable to exactly its configured extent, whatever was done to other instances before. "
 "Nothing done to one instance is visible in another or changes what another grants, lists or refuses, including instances of the same kind, configuration and name. "
 "A tree can be created for every bit size from 0 up to its id width and for no larger one.",
 ["inputs", "histories", "configurations"], "every number of instances, every interleaving of their operations, equal and different configurations, any history before the creation",
 "Every test creates one instance, uses it and throws it away; none looks at two at a time.",
 IDX + TAB + IPT + TRE + GT + ids("idset"), [("constructors allocate all state anew; no package-level mutable state", "pkg/idxtable/table.go: NewTable; pkg/table/table*/; pkg/iptable/iptable.go: New; pkg/tree/tree.go: NewTree; pkg/tree/tree*/: New")], (),
 ["every result of interleaved streams vs. the model and vs. the same stream alone in a process"])

prop("C28", "A refused call hands out nothing, a successful one hands out what it claims",
 "Whenever an operation of a table, tree, id or range returns an error (or RemoveFreePrefix reports that nothing fits), every other result is empty (no entry, no ids, the zero id or address, no route, no tree, no range; RemoveFreePrefix's remaining set excepted) and the content is unchanged. "
 "Whenever it succeeds its results are present: as many entries or ids as were asked for, none of them nil, a valid address, tree or range.",
 ["inputs", "histories"], "every operation that returns a result next to an error, on empty, partly used and exhausted instances, with valid and invalid arguments",
 "The tests look at the error or at the result, never at the result of a refused call, and hardly ever exhaust an instance.",
 IDX + TAB + IPT + TRE + GT + ids("idN") + ids("rangeN") + ids("idset"), [("early returns with zero values", "pkg/idxtable/table.go; pkg/table/table*/; pkg/iptable/iptable.go; pkg/tree/tree*/; pkg/tree/id*/")], (),
 ["every result of every call next to its error, and the content before and after refused calls"])

prop("C29", "Ids, ranges, sets, entries and unmodified trees can be shared by goroutines",
 "Ids, ranges, id sets and entries are values: any number of goroutines may apply any of their operations to the same ones at the same time, without data race or crash, and each gets the answers it would get alone; they may feed builders, trees and tables of their own with them. "
 "The same holds for iterating and cloning a generic tree, and for reading a listing, while nobody modifies it.",
 ["schedules", "inputs"], "every number of goroutines, every operation of the shared values, all interleavings",
 "No test of ids, ranges, sets or generic trees starts a goroutine.",
 ids("idN") + ids("rangeN") + ids("idset") + TRE, [("read operations without writes to shared memory, incl. package-level mask tables", "pkg/tree/id*/; pkg/tree/entry.go; pkg/tree/tree.go: Iterate, Clone")], (),
 ["answers of every goroutine next to those of a lone caller on an equal value; race detector reports inside the library"])

prop("C30", "No operation changes what the caller hands in",
 "Label sets, ids, ranges, id sets, routes, data, selectors and lists given to an operation read the same afterwards, during and after everything that is done later to the table, tree, range or builder that received them. "
 "The free capacity of a list that ids are appended to is excepted.",
 ["inputs", "histories"], "every operation with an argument that has content, every later operation on the receiver",
 "The tests never look at an argument after the call.",
 IDX + TAB + IPT + TRE + ids("rangeN") + ids("idset"), [("arguments are stored or copied, never written", "pkg/tree/entry.go: NewEntry; pkg/table/table*/; pkg/iptable/iptable.go; pkg/tree/tree*/; pkg/tree/id*/idset.go")], (),
 ["pictures of all arguments after every operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
