#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so the anchors stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

RW="rwmap/rwmap.go"; SC=["synccache/synccache.go","synccache/item.go"]
RC=["refreshcache/refreshcache.go","refreshcache0/refreshcache0.go","refreshcache1/refreshcache1.go"]
INST="none in the source: the build-time instrumenter substitutes sync, sync/atomic, time, go statements and map iteration"

p("C01","Concurrent rwmap operations are linearizable",
 "Every concurrent history of Load, Store, LoadOrStore, LoadAndDelete, Delete, Swap, CompareAndSwap, CompareAndDelete and Clear on one rwmap.RWMap has the results of executing those calls one at a time, on a plain map, in some order consistent with real time. No acknowledged store is lost, no deleted or overwritten value resurfaces, a LoadOrStore or CompareAndSwap race has exactly one winner, and Clear removes everything at a single instant. CompareAndSwap and CompareAndDelete compare values with ==.",
 ["schedules","histories"],"all interleavings of 2-3 goroutines issuing calls on the same or different keys, from every internal configuration of the map (clean, amended, deleted-but-listed, expunged, just promoted, just cleared)",
 "One free-running test exercises Store/Load/Range on disjoint phases; no test interleaves deletes, compare operations, promotion and Clear, and a test run samples one schedule.",
 [RW],[("lock-free entry updates by CAS on a value pointer, with an 'expunged' mark that forces writers to the locked path","rwmap.go: entry, tryLoadOrStore, trySwap, tryCompareAndSwap, delete"),("promotion of the dirty map under the mutex","rwmap.go: missLocked, dirtyLocked, Range"),("Clear replaces the read map and empties the dirty map under the mutex","rwmap.go: Clear")],
 [("read","lock-free readable part of the map","RWMap.read"),("dirty","superset needing the mutex","RWMap.dirty"),("entry.p","value / deleted / expunged","entry.p")],
 ["call and return values of the exported methods"],INST)

p("C02","rwmap.Len equals the number of entries once calls have returned",
 "Whenever no call on the map is in progress, Len() equals the number of keys for which Load reports a value, which also equals SlowLen() and the number of keys Range visits. This holds after any concurrent mixture of inserting, overwriting, deleting, comparing and clearing calls, not only after sequential ones.",
 ["schedules","histories"],"all interleavings of 2-3 goroutines, all single-threaded histories; evaluated at every quiescent point",
 "TestLen checks one sequential path with one key; no test deletes or clears concurrently with inserts, where the counter and the content are updated at different instants.",
 [RW],[("separate counter adjusted after each successful insert or delete","rwmap.go: deferred atomic.AddInt64 in LoadOrStore, Swap, LoadAndDelete, CompareAndDelete"),("counter correction in Clear","rwmap.go: Clear")],
 [("len","number of live entries","RWMap.len")],["Len, SlowLen, Range, Load at quiescence"],INST)

p("C03","rwmap.Range visits every stable key exactly once, even re-entrantly",
 "Range calls its function at most once per key and stops as soon as the function returns false; a key that is present during the whole call is visited, and a key absent during the whole call is not. A value it reports for a key was mapped to that key at some moment during the call. The function may itself call any method of the map, including nested Range and Clear, without blocking.",
 ["schedules","histories"],"all interleavings of a Range with 1-2 mutating goroutines; every internal configuration of the map; every method called from inside the function",
 "TestConcurrentRange only overwrites existing keys; deletion, insertion, clearing and promotion during a Range are not exercised.",
 [RW],[("promotion of the dirty map at the start of Range, then iteration over an immutable key set","rwmap.go: Range"),("the mutex is never held while the function runs","rwmap.go: Range")],
 None,["arguments passed to the Range function"],INST)

p("C04","rwmap behaves as a plain map in every single-threaded history",
 "For every sequence of calls from one goroutine, each rwmap.RWMap method returns exactly what the same operation on a built-in map returns: presence flags, previous, actual and swapped values, and the zero value when absent. The zero RWMap is an empty map ready for use. This holds for every comparable key type and for value types of any size, including interfaces holding nil and zero-size structs.",
 ["histories","inputs"],"all call sequences over a small key and value alphabet, closed under the reachable internal states (unbounded length), plus long histories over many keys",
 "The tests touch a few calls on one key; the many internal states (miss counting, promotion, expunged entries re-stored, deletes that only hit the dirty map) are reached only by longer sequences.",
 [RW],[("read/dirty map pair with miss-driven promotion","rwmap.go: Load, Swap, LoadOrStore, missLocked, dirtyLocked"),("value comparison through reflection","rwmap.go: tryCompareAndSwap, CompareAndDelete")],
 None,["return values of every exported method"],INST)

p("C05","Concurrent containers are free of data races, deadlocks and hangs",
 "rwmap.RWMap, synccache.SyncCache with its entries, and the refreshcache, refreshcache0 and refreshcache1 caches may be used from several goroutines without external locking: no schedule of their exported methods contains a data race (unordered conflicting accesses under the Go memory model), deadlocks, panics or fails to finish. Internal locks are released even when a user-supplied function panics. A Range function or delete callback may call back into the same rwmap or synccache container.",
 ["schedules","fault_sequences"],"all interleavings of 2-3 goroutines over pairs of exported methods, including panicking refresh functions and re-entrant callbacks",
 "The suite is not run with the race detector, has no concurrent test for the caches, and a race needs the two conflicting methods to overlap.",
 [RW]+SC+RC,[("atomics and one mutex per map","rwmap.go"),("atomic fields plus one mutex around refresh, released by defer","refreshcache*.go: Get, Refresh"),("entry expiration accessed atomically","synccache/item.go"),("callbacks are invoked with no lock held","synccache.go, rwmap.go: Range")],
 None,["race detector in every explored schedule; completion of every call"],INST)

p("C06","synccache entries are live until their deadline and never served after it",
 "An entry stored with lifetime d at time t is returned by Load, LoadOrStore, LoadAndDelete, CompareValueAndDelete and Range at every clock value up to t+d unless it was deleted, cleared or overwritten, and by none of them once the clock is a millisecond or more past t+d. AddExpiration and SetExpiration on the entry move that deadline, forwards or backwards, to within a millisecond. An expired entry is indistinguishable from an absent one: LoadOrStore then stores the new value and LoadAndDelete and CompareValueAndDelete report nothing deleted.",
 ["histories","inputs"],"all sequences of cache calls and clock advances up to a depth, with lifetimes and clock readings on, just before and just after millisecond boundaries, zero and negative lifetimes",
 "The only test stores one entry and deletes it at once; nothing ever expires in the test-suite.",
 SC,[("absolute deadline in milliseconds compared with the current clock on every access","item.go: NewEntry, IsExpired, AddExpiration, SetExpiration"),("expired entries are removed on access","synccache.go: Load, LoadOrStore, Range, LoadAndDelete")],
 [("expiration","deadline in ms","Entry.expiration")],["results of the exported methods under a controlled clock"],INST)

p("C07","Concurrent synccache operations are linearizable",
 "Every concurrent history of Store, Load, LoadOrStore, Delete, LoadAndDelete, CompareAndDelete and CompareValueAndDelete (plus background sweeping) on one SyncCache has the results of executing the calls one at a time in some order consistent with real time, where each call judges expiry by the clock at some instant between its start and its end. In particular LoadOrStore never hands out an entry that had expired before the call began, only one of several racing LoadOrStore or LoadAndDelete calls wins, and CompareValueAndDelete fails only if at some instant of the call the key did not hold that value.",
 ["schedules","histories"],"all interleavings of 2-3 goroutines on one or two keys holding live, expired or no entries, with the clock and the sweeper advancing",
 "No concurrent test of the cache exists.",
 SC+[RW],[("removal by compare-and-delete on entry identity","synccache.go: Load, LoadOrStore, CompareAndDelete"),("linearizable underlying map","rwmap.go")],
 None,["results of the exported methods"],INST)

p("C08","The synccache delete callback fires exactly once per removed entry",
 "If a delete callback is configured, every entry that leaves the cache by Delete, LoadAndDelete, CompareAndDelete, CompareValueAndDelete, Clear, an expired lookup or the background sweep triggers exactly one callback, with that entry's value, and the entry is no longer returned by calls that start after the callback. An entry that is still present, or that was only replaced by Store, triggers none, and failed deletions trigger none. This holds however those removals race with each other.",
 ["schedules","histories"],"all interleavings of 2-3 goroutines (including the background sweeper) removing, expiring and re-storing the same keys; all sequential histories to a depth",
 "No test configures a callback.",
 SC,[("callback issued only by the goroutine whose atomic removal succeeded","synccache.go: Delete, LoadAndDelete, CompareAndDelete, Clear, trim")],
 None,["callback invocations"],INST)

p("C09","Started synccaches are swept: expired entries are reclaimed unaided",
 "While a SyncCache is started, an entry that expires is removed, with its callback, within ten seconds even if nobody accesses it, and live entries are never removed by the sweep. After Close the background sweep leaves that cache alone, other caches keep being swept, and Start resumes sweeping; Start and Close may be repeated in any order without duplicating or losing callbacks.",
 ["histories","schedules"],"all sequences of Start, Close, Store, clock advance over two caches up to a depth; the sweeper interleaved at every point with them",
 "The suite never waits for a sweep, never closes a cache and never looks at the callback.",
 ["synccache/synccache.go"],[("one process-wide ticker goroutine sweeping a registry of started caches","synccache.go: runTrim, caches, Start, Close, trim")],
 [("caches","registry of started caches","synccache.caches")],["delete callbacks, under a controlled clock and scheduler"],INST)

p("C10","refreshcache runs one refresh at a time and shares its result",
 "For each cache of the refreshcache, refreshcache0 and refreshcache1 packages, two executions of refresh functions never overlap, whether they come from Get or Refresh. Goroutines that call Get while the data is stale and a refresh is under way wait for it and, if it succeeds, all return its value without running the function again; if it fails and errors are cached, they return its error without running it again. Every Refresh call runs the function exactly once, and a Get served from the cache runs it zero times.",
 ["schedules"],"all interleavings of 2-3 goroutines calling Get, Refresh and Clear with succeeding, failing and panicking refresh functions",
 "All cache tests are single-goroutine and assert nothing.",
 RC,[("mutex held around the refresh function, freshness re-checked after acquiring it","refreshcache*.go: Get, Refresh")],
 None,["begin/end of the refresh function and which call ran it"],INST)

p("C11","refreshcache serves data only while fresh and refetches otherwise",
 "Get returns the stored value without calling the refresh function exactly when the last refresh succeeded, no Clear happened since, and the value's age is below the maximum age (any age if the maximum age is negative; never if it is zero); otherwise, unless a cached error applies, it calls the function and returns what it produced. Age counts from the completion of the refresh. This holds for every maximum age including the largest representable one, and Last, LastTime and Raw agree with it, and Raw still returns the last successfully refreshed value when it is no longer fresh and no cached error applies.",
 ["histories","configurations"],"all sequences of Get, Refresh, Clear and clock advances (on, just before and just after the age limits) up to a depth, for every sign and extreme of the two ages, in all three packages",
 "The tests print results without asserting and use one configuration; refreshcache0 and refreshcache1 have no tests.",
 RC,[("timestamp of last success compared with the clock","refreshcache*.go: Get, Raw"),("Clear and failure reset the timestamp","refreshcache*.go: Clear, Get, Refresh")],
 [("last","completion time of the last successful refresh, 0 if none","RefreshData.last")],["results of Get/Refresh/Raw/Last and refresh-function calls under a controlled clock"],INST)

p("C12","A failed or panicking refresh is never published as data",
 "When a refresh function returns an error, Get and Refresh return that error, the stored value stops being served as fresh, and for the configured error age (only if positive) after the failure Get returns that same error without calling the function again; once that time has passed, or with no error age, the next Get calls it again, and a later success ends the error state. When a refresh function panics, the panic reaches the caller, the cache keeps the state it had before the call, and later calls work normally.",
 ["histories","fault_sequences"],"all sequences of succeeding, failing and panicking refreshes, clears and clock advances up to a depth, for all age configurations, in all three packages",
 "TestCacheError prints without asserting, uses one configuration, and no test has a panicking refresh function.",
 RC,[("error and time of failure stored separately from data","refreshcache*.go: err, lastErr"),("state published only after the refresh function returned","refreshcache*.go: Get, Refresh")],
 [("lastErr","time of last failure, 0 if none","RefreshData.lastErr")],["results of Get/Refresh/Raw/LastErr, refresh-function calls, recovered panics"],INST)

p("C13","Concurrent refreshcache calls see consistent, never superseded results",
 "Every concurrent history of Get, Refresh and Clear has the results (value or error returned, and whether the refresh function ran) of executing the calls one at a time in some order consistent with real time, with each call judging age by the clock at instants within it; a Clear that overlaps a refresh in progress may be absorbed by that refresh. In particular no Get returns a value older than one whose refresh completed before the Get began, nor a value no refresh produced, nor a value together with an error it did not come with.",
 ["schedules","histories"],"all interleavings of 2-3 goroutines, with succeeding and failing refreshes, from never-loaded, fresh, stale, cleared and error states, in all three packages",
 "No concurrent test of the caches exists.",
 RC,[("value published before its timestamp; failure published before the timestamp is reset","refreshcache*.go: deferred publication in Get and Refresh"),("lock-free read path re-checked under the mutex","refreshcache*.go: Get")],
 None,["results of Get/Refresh and refresh-function executions"],INST)

p("C14","Refresh and clear functions get the caller's context, arguments and old value",
 "The refresh function receives the arguments of the call that triggered it unchanged and a context derived from that caller's context whose OldValKey value is the last successfully refreshed value (the zero value if there was none). The clear function receives the caller's arguments, context and the same old value, runs exactly once per Clear if set and not at all if unset, sees the data already invalidated, and its error is returned by Clear. The functions used are the ones most recently set.",
 ["histories","inputs"],"all sequences of Get, Refresh, Clear, SetRefreshFunc and SetClearFunc with succeeding and failing functions up to a depth, zero to two arguments, in all three packages",
 "TestOldVal only logs the value; clear functions and function replacement are untested.",
 RC,[("context.WithValue with the stored value","refreshcache*.go: Get, Refresh, Clear"),("functions held in atomic pointers","refreshcache*.go: SetRefreshFunc, SetClearFunc")],
 None,["what the user functions observe"],INST)

p("C15","dllist keeps exact sequence semantics under every editing history",
 "After any sequence of PushFront, PushBack, InsertBefore, InsertAfter (on the list or on an element), Remove, MoveToFront, MoveToBack, MoveBefore, MoveAfter, Swap and Clear, forward traversal, backward traversal, Slice, Range, Get(i), Front, Back and Len all describe the same sequence, namely the one those edits produce on an ordinary slice. Elements keep their identity and value when moved or swapped, Get outside the range gives nil, Range stops when its function returns false and reports whether it completed. The zero list works like a new one.",
 ["histories"],"all editing histories over up to 5 elements and every choice of elements (adjacent, first, last, same element), closed under reachable shapes, plus single edits on long lists",
 "The tests follow a handful of fixed scenarios; Swap of non-neighbours, Get, and most boundary combinations are not covered.",
 ["dllist/dllist.go","dllist/element.go"],[("circular list with sentinel, relinked by every edit","dllist.go: insert, remove, move, Swap"),("lazy initialisation of the zero list","dllist.go: lazyInit")],
 [("root/len","sentinel and element count","Dllist")],["exported traversal methods in both directions"])

p("C16","dllist ignores elements that are not in the list",
 "Operations given an element that was removed, dropped by Clear, or belongs to another list change neither list: Remove only returns the element's value, the insert methods return nil, and the move and swap methods do nothing. An element no longer in any list has no Next or Prev. This holds however the element left the list.",
 ["histories"],"all histories over two lists in which every method is applied to live, removed, cleared and foreign elements",
 "TestRemove and TestIssue4103 try one removed and one foreign element; cleared elements and the move/swap methods are not tried.",
 ["dllist/dllist.go","dllist/element.go"],[("owner pointer in every element, checked by each operation and reset on removal","dllist.go, element.go: list")],
 [("Element.list","owning list or nil","dllist/element.go")],["both lists' contents after each call"])

p("C17","dllist bulk operations copy and sort without losing elements",
 "PushBackList and PushFrontList add a copy of the other list's values, in its order, at the back or front; PushBackListTo and PushFrontListTo add them, in its order, as one contiguous block next to the mark element, and do nothing if the mark is not in the list. The source list is left unchanged, and a list may be added to itself. Sort leaves the same multiset of values, ordered so that no element is less than its predecessor.",
 ["inputs","histories"],"all pairs of short lists (including a list with itself) and all mark positions; all value sequences up to length 7 with duplicates, sorted, reversed and constant long lists",
 "TestExtending covers the two plain variants with three values; the mark variants are untested and TestSort sorts one three-element list.",
 ["dllist/dllist.go"],[("element-wise insertion of values","dllist.go: PushBackList, PushFrontList, PushBackListTo, PushFrontListTo"),("recursive partition into two new lists","dllist.go: Sort")],
 None,["contents of both lists"])

p("C18","lhashmap is a map ordered by most recent use",
 "For every sequence of Store, Load, Remove, Clear and Range, Load, Len and Range agree with an ordinary map, and Range visits each key exactly once, most recently stored or successfully loaded key first, until its function returns false. Unsuccessful loads and removals of absent keys do not change the order, and re-storing a key replaces its value and moves it to the front.",
 ["histories"],"all call sequences over three keys and two values, closed under reachable states, plus single calls on large maps",
 "TestAll stores three keys and loads them; order, removal, overwriting and Clear are never observed.",
 ["lhashmap/lhashmap.go","dllist/dllist.go"],[("hash map from key to list element kept in step with a recency list","lhashmap.go: Store, Load, Remove, Clear")],
 [("m/l","index and recency list","Lhashmap")],["Load, Len, Range order"])

p("C19","heap operations always expose the least element and lose nothing",
 "For every container satisfying the interface, including MinHeap and MaxHeap, after Init and then any sequence of Push, Pop, Remove and Fix the heap order holds, Pop returns an element no other is less than, Remove(i) returns the element that was at index i, and the multiset of elements is exactly what the calls imply. Repeated Pop therefore yields a sorted sequence.",
 ["histories","inputs"],"all element sequences and operation histories up to 7 elements with duplicates and every index, plus structured large heaps",
 "The tests use a few fixed or random fills of one size; duplicates, every index of Remove and Fix in both directions are sampled.",
 ["heap/heap.go","heap/minheap.go","heap/maxheap.go"],[("sift up and sift down","heap.go: up, down"),("sift down then up after Remove or Fix","heap.go: Remove, Fix")],
 None,["returned elements, and order checked through Less"])

p("C20","pqueue pops every pushed pair once, in priority order",
 "For every interleaving of Push and Pop, Pop on a min (max) priority queue returns a pair with the smallest (largest) priority present, together with the value that was pushed with that priority, and each pushed pair is popped exactly once; Len is the number of pairs present. This holds for all int priorities, including negative, equal and extreme ones.",
 ["histories","inputs"],"all push/pop histories up to 7 pushes over a priority alphabet including the extremes and ties, plus long structured runs",
 "The tests push monotone priorities only and pop everything afterwards; ties, negative and extreme priorities and interleaved pops are not covered.",
 ["pqueue/pqueue.go","pqueue/minqueue.go","pqueue/maxqueue.go","heap/heap.go"],[("binary heap of items ordered by priority","pqueue.go, minqueue.go, maxqueue.go")],
 None,["Pop results and Len"])

p("C21","ring links and unlinks like the standard container/ring",
 "For every sequence of New, Link, Unlink, Move, Next, Prev, Len and Do over any rings, including zero-value, single-element, same-ring and different-ring arguments and non-positive counts, the resulting circular order in both directions, the returned elements, the lengths and the values visited are those of the standard container/ring package. No element is lost or duplicated.",
 ["histories"],"all operation histories over up to 6 elements distributed over any number of rings, all element pairs and counts, closed under reachable shapes, plus rings of larger sizes",
 "The tests follow fixed scenarios on a few sizes.",
 ["ring/ring.go"],[("pointer splicing","ring.go: Link, Unlink"),("lazy initialisation of the zero ring","ring.go: init, Next, Prev, Move")],
 None,["traversal in both directions, return values"])

p("C22","set membership and algebra are those of mathematical sets",
 "After any sequence of Push, Insert, Remove, ContainAndRemove, CopyFrom and Clear, Contain, Len, IsEmpty, Slice and Range describe exactly the set those operations produce, and the reported booleans say whether the set changed. Union, Intersection, Difference, SymmetricDifference, IsSubSet, IsSupperSet and Equal give the mathematical answer for every pair of sets; their results and Clone are independent of the operands, which stay unchanged.",
 ["inputs","histories"],"all pairs of subsets of a small universe (including empty, equal, nested, disjoint and the same set twice), all edit histories over it, plus large sets",
 "Each test checks one pair of sets; IsSupperSet, Clone, CopyFrom and independence of results are untested.",
 ["set/set.go"],[("Go map with empty-struct values","set.go"),("element-wise algebra","set.go: Union, Intersection, Difference, SymmetricDifference, IsSubSet, IsSupperSet")],
 None,["results of the exported methods"])

p("C23","genmap methods match built-in map semantics",
 "For every sequence of calls, GenMap methods return and do what the corresponding operations on a built-in map do: LoadOrStore returns the value now stored and whether it was already there, LoadOrStoreFunc calls its function only when the key is absent, LoadAndStore and LoadAndDelete return the previous value, DeleteFunc removes exactly the matching entries, EqualFunc compares contents. Keys, Values and Range present each entry exactly once, Range stops on false and reports whether it completed; Clone, CopyTo and CopyFrom copy entries without tying the maps together, while From and Map share them.",
 ["histories"],"all call sequences over three keys and two values, closed under reachable contents, and all pairs of contents for the two-map methods, plus large maps",
 "Six tests check Store, Load, Clone and CopyFrom; the compound operations are untested.",
 ["genmap/genmap.go"],[("thin wrappers over a Go map","genmap.go")],
 None,["results of the exported methods"])

p("C24","vec editing operations have exact sequence semantics",
 "After any sequence of Push, Pop, Insert, Remove, Set, Swap, Cut, Delete, Replace, Reverse, Compact, ConpareAndRemove, SplitOff, Clear, Grow and Clip, the vector holds exactly the sequence those edits produce on an ordinary list, and each call returns the elements it removed or found. Index arguments out of range leave the vector unchanged and report failure (Get, Set, Remove, Pop, Cut, Swap, SplitOff, ConpareAndRemove) or panic (Insert, Delete, Replace). Spare capacity and inserting a vector's own elements make no difference; after Grow(n) at least n more elements fit, and Clip leaves no unused capacity.",
 ["histories","inputs"],"all editing histories over vectors up to 5 elements at every index and every spare capacity up to a depth, arguments aliasing the vector itself, plus single edits on long vectors",
 "Each test checks one call on a six-element vector; out-of-range indexes, spare capacity, Cut and aliasing are untested.",
 ["vec/vec.go"],[("slice edits in place","vec.go: Remove, Cut, Insert, Delete, Replace, Compact"),("bounds checks","vec.go")],
 None,["Slice, Len, Get and the returned values"])

p("C25","Vectors and slices derived from a vec never share data with it",
 "Clone, CloneToSlice, SplitOff and the slice returned by Cut are independent copies: after the call no edit of the original vector changes them and no edit of them changes the original. Values passed to Push, Insert and Replace are copied in, so later changes to the argument slice do not show up in the vector. The comparison functions of Clone and SplitOff results behave like the original's.",
 ["histories","inputs"],"all derivations at every index from vectors with every spare capacity, followed by all pairs of edits on either side",
 "TestSplitOff checks contents once and never edits afterwards; Clone and Cut are not tested.",
 ["vec/vec.go"],[("copying into a new vector","vec.go: Clone, CloneToSlice, SplitOff, Cut, Push")],
 None,["contents of both objects after edits of either"])

p("C26","vec sorting, searching and comparing follow the element order",
 "With comparison functions given explicitly or detected from the element type (signed, unsigned, floating-point and string kinds, and pointers to them), Sort and SortStable produce an ordered permutation (SortStable keeping equal elements in order; NaNs first under the detected float order), and IsSorted, BinarySearch, Search, SearchAll, Contains, Min, Max, Compact, Compare, EqualVec and EqualSlice give the answers that order and equality define. BinarySearch on a sorted vector returns the first position not less than the target and whether the target is there. Strings are ordered naturally, with digit runs compared as numbers.",
 ["inputs","configurations"],"all vectors up to length 6 over small alphabets for every supported element kind and for explicit orders, all targets, plus structured long vectors crossing the sort algorithm's thresholds",
 "The tests sort one int vector; other kinds, pointers, NaN, duplicates, stability and comparison methods are untested.",
 ["vec/vec.go"],[("reflection-based detection of the order","vec.go: autoDetectSetCmpLess, autoDetectSetCmpEqual"),("three-way adapters over golang.org/x/exp/slices","vec.go: Sort, BinarySearch, Compare, Min, Max")],
 None,["results of the exported methods"])

p("C27","hashring answers only member nodes and depends only on the member set",
 "GetNode returns the zero value on an empty ring and otherwise always one of the current members, for every key including keys equal to member names or whose hash coincides with a node's point. The answer depends only on the replica count, the current member set and the key: not on the order or grouping of AddNodes, RemoveNodes and ResetNodes calls that led there, on duplicates in them, or on iteration order. Two rings with the same members agree on every key.",
 ["histories","inputs","schedules"],"all add/remove/reset histories over up to 4 nodes up to a depth and every internal iteration order, replica counts 0 to 50, key sets including node names and keys and nodes forged to collide in the hash",
 "TestGetNode asserts that one answer is non-empty; collisions, removal and re-adding are not observed.",
 ["hashring/hashring.go","vec/vec.go","set/set.go"],[("sorted vector of virtual points searched by binary search","hashring.go: AddNodes, GetNode"),("full rebuild on removal","hashring.go: RemoveNodes, ResetNodes")],
 [("nodes/rawNodes","virtual points and member set","HashRing")],["GetNode results"],INST)

p("C28","hashring membership changes move only the keys they must",
 "Adding nodes changes the owner of a key only to one of the added nodes, and removing nodes changes the owner only of keys that were owned by a removed node. Adding a node already present or removing one that is absent changes no owner. Removing a node and adding it back restores every owner.",
 ["histories","inputs"],"all pairs of member sets related by adding or removing up to 2 nodes, over up to 5 nodes, replica counts 1 to 50, key sets including hash collisions",
 "No test compares owners before and after a change.",
 ["hashring/hashring.go"],[("consistent hashing: each node's points depend only on the node","hashring.go: hashKey, AddNodes")],
 None,["GetNode before and after the change"],INST)

p("C29","hashring places a key at the next point clockwise",
 "Each member owns as many points on the 32-bit ring as the replica count, point i of member m being the IEEE CRC-32 of the text m-i, and a key is owned by the member whose point is the first at or after the CRC-32 of the text key-0, wrapping around from the largest point to the smallest. Where several members share a point, one of them owns it. This placement is stable across processes and releases, so independently built rings agree.",
 ["inputs","histories"],"all member sets over up to 5 nodes and integer or string types, replica counts 0 to 50 and 1000, key sets covering every arc between adjacent points, wrap-around and exact hits, after every add/remove history to a depth",
 "TestGetNode never checks which node is returned.",
 ["hashring/hashring.go","vec/vec.go"],[("hash of the formatted node and replica index","hashring.go: hashKey"),("binary search with wrap-around","hashring.go: GetNode")],
 None,["GetNode results against an independent ring computation"],INST)

p("C30","tree links stay mutual and relations match the shape",
 "After any sequence of SetLeft and SetRight that attach detached subtrees or nil, or set again the child already there, every child's Parent is the node that holds it, the previous child is returned and, if it was replaced, has no Parent, and nothing else changes. For every node and pair of distinct nodes the relation methods (root, leaf, left, right, sibling, uncle, grandparent, child, ancestor, descendant and the Has... predicates) and Layer and MaxDepth answer exactly what the shape implies; a node is a descendant relation of another only if it lies in its subtree.",
 ["histories","inputs"],"all binary-tree shapes up to 7 nodes and all node pairs; all attach/detach histories over up to 4-5 nodes",
 "TestRelation and TestLayer check positive answers on one perfect seven-node tree; negative answers and other shapes are untested.",
 ["tree/tree.go","utils/utils.go"],[("parent and child pointers updated together","tree.go: SetLeft, SetRight"),("relation predicates from pointers","tree.go")],
 None,["exported fields and methods"])

p("C31","tree building, traversal and drawing cover every node in order",
 "BuildTree lays its values out level by level, left to right, in a complete tree. TraversalBFS yields every node of the subtree exactly once by level and left to right, TraversalDFS every node exactly once in preorder, on every shape, without changing the tree. DrawTree of a tree made by BuildTree writes each level's values in order on one line of its own.",
 ["inputs"],"all binary-tree shapes up to 8 nodes, built trees of all sizes up to 70",
 "The tests traverse one perfect seven-node tree and never call DrawTree.",
 ["tree/tree.go"],[("queue-based construction","tree.go: BuildTree"),("explicit stack and per-level collection","tree.go: TraversalDFS, TraversalBFS"),("per-level line breaks","tree.go: DrawTree")],
 None,["returned nodes and text"])

p("C32","Removed values are let go",
 "A value that was deleted, overwritten, cleared or found expired is no longer referenced by its rwmap, synccache, lhashmap or dllist once the removing call has returned, in every history, so its memory can be reclaimed; a refreshcache keeps no value but the last one successfully refreshed. An element that is no longer in a list references nothing but its own value. Keys may be kept longer, but an rwmap or synccache with few entries alive at any time stays small however many keys have come and gone.",
 ["histories"],"all call sequences over a few keys or elements, closed under reachable states, evaluated after every call; all cycles of up to 4 calls with ever new keys, repeated to 600 calls",
 "Tests look at results; a container that keeps a removed value reachable returns the right results and leaks.",
 [RW,"synccache/synccache.go","lhashmap/lhashmap.go","dllist/dllist.go"]+RC,[("deleted entries drop their value pointer","rwmap.go: entry.delete, CompareAndDelete, Clear"),("unlinked elements drop their links","dllist.go: remove, Clear")],
 None,["objects reachable from the container, by a walk over its memory"],INST)

p("C33","Work per call keeps its order of growth",
 "The rwmap calls on one key (Load, Store, LoadOrStore, Swap, LoadAndDelete, Delete and the compare calls) take amortized constant time in every history, whatever the size of the map, and once its keys stop changing its loads soon take no lock. So do, without amortizing, the dllist calls that push, insert, remove, move or swap one element, the lhashmap calls on one key, and vec, set and genmap calls on one index or member that do not shift elements (vec.Push amortized). heap and pqueue Push, Pop, Remove and Fix, vec.BinarySearch and hashring.GetNode are logarithmic, heap.Init and the set operations linear, vec sorting n log n.",
 ["histories","inputs"],"all cycles of up to 4 calls repeated thousands of times on maps of a thousand keys; every kind of call at sizes up to 50000 in several orders",
 "Results are the same when an operation degrades to linear; it shows only for particular repeated patterns at size.",
 [RW,"dllist/dllist.go","lhashmap/lhashmap.go","heap/heap.go","pqueue/pqueue.go","vec/vec.go","set/set.go","genmap/genmap.go","hashring/hashring.go"],[("promotion after as many misses as there are keys pays for copying the map","rwmap.go: missLocked, dirtyLocked"),("sift up and down","heap.go: up, down")],
 None,["loop iterations, calls and lock acquisitions counted by the build-time instrumentation"],INST)

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print(len(P))
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print("too many sentences",x["id"],n)
