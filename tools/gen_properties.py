#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mechanism],
        observe_at=list(observe), hook_needed=hook)))

HOOK = "cfg(lokky_sim) stand-ins for core::sync::atomic, core::hint::spin_loop and core::cell::Cell in src/arc.rs and src/urc.rs"

prop("C01", "Arc keeps its value until the last strong handle, then frees it once",
 "However threads interleave, the value behind an Arc stays readable and unchanged while any strong handle to it exists, and its destructor runs exactly once, after the last strong handle is given up, with every other thread's earlier use of the value happening before it. The storage is returned to its allocator exactly once, after the last strong and the last weak handle are gone, and is never touched afterwards. If creating an Arc fails because memory ran out, the value handed in is dropped and nothing is leaked. None of this changes when handles were forgotten rather than dropped, however many: a handle that its counter could not count is refused by a panic.",
 ["schedules", "fault_sequences"],
 "All interleavings of the atomic steps of clone, downgrade, drop, get_mut, make_mut, try_unwrap, envelop/recv and reads by several threads sharing handles; all stale values the declared memory orderings permit; spurious weak-CAS failures; allocation failures.",
 "The unit tests use an Arc from one thread (plus one read in a second thread), never look at whether the destructor or the allocator was called, and see one schedule per run.",
 ["src/arc.rs", "src/ptr.rs", "src/marker.rs"],
 [("Drop for Arc / drop_slow", "src/arc.rs"), ("Weak", "src/arc.rs"), ("Arc::try_unwrap", "src/arc.rs"), ("Arc::try_new", "src/arc.rs"), ("ScopePtr::dealloc", "src/ptr.rs")],
 [("ArcInner.strong", "number of strong handles", "src/arc.rs"), ("ArcInner.weak", "number of weak handles; usize::MAX while locked", "src/arc.rs")],
 ["destructor of the payload", "GlobalAlloc::dealloc"], HOOK)

prop("C02", "Arc grants mutable or owned access only to a sole owner; make_mut isolates",
 "get_mut and try_unwrap grant mutable or owned access only when the calling handle is the only strong one (for get_mut: and no weak handle exists); they do succeed if no other handle existed at any time during the call, and a refused try_unwrap returns the same handle intact. make_mut always yields a value equal to what the handle showed before, writes made through it are seen through no other handle, and no value is lost, duplicated or changed behind another handle. An only handle, with no weak ones either, is given access in place, without cloning, moving or asking for memory; next to weak handles only, the value is moved and not cloned (unless an exchange fails spuriously). When the value's Clone panics or memory runs out inside make_mut, the handle still shows its old value and stays usable.",
 ["schedules", "fault_sequences"],
 "All interleavings of get_mut / make_mut / try_unwrap with clone, downgrade, drop and reads of other threads' handles to the same value, with or without weak handles, with spurious CAS failure, stale loads, clone panics and allocation failures.",
 "test_arc_get_mut, try_unwrap and the cowarc tests are single-threaded with one fixed history each; they never combine make_mut with weak handles, a concurrent clone or drop, or a failing allocator.",
 ["src/arc.rs"],
 [("Arc::is_unique (weak-count lock)", "src/arc.rs"), ("Arc::make_mut", "src/arc.rs"), ("Arc::try_unwrap", "src/arc.rs")],
 [("ArcInner.weak", "locked (usize::MAX) while uniqueness is tested", "src/arc.rs")],
 ["Arc::get_mut", "Arc::make_mut", "Arc::try_unwrap", "reads through every other handle"], HOOK)

prop("C03", "Arc operations always finish; none leaves the object blocked",
 "Every operation on an Arc or its weak handles finishes within a bounded number of steps under fair scheduling, whatever other threads are doing to the same object at the same time and however weak compare-and-swaps fail spuriously (finitely often). No operation leaves behind a state that blocks later ones: once concurrent activity stops, clone, downgrade, get_mut, make_mut, the counts and drop all complete. Nor does any number of handles that were forgotten: an operation that cannot count one more panics.",
 ["schedules"],
 "All fair schedules of several threads executing clone, downgrade, get_mut, make_mut, try_unwrap, counts and drop on one object, including a thread stalled for long in the middle of an operation and then resumed.",
 "No test runs two Arc operations concurrently, so the retry and spin loops are never taken.",
 ["src/arc.rs"],
 [("Arc::downgrade retry loop", "src/arc.rs"), ("AtomicCounter::sync_lock", "src/arc.rs"), ("AtomicCounter::increment", "src/arc.rs"), ("Arc::is_unique unlock", "src/arc.rs")],
 [("ArcInner.weak", "usize::MAX means locked", "src/arc.rs")],
 ["return of each operation, in simulated steps"], HOOK)

prop("C04", "Arc strong and weak counts match the handles that exist",
 "strong_count and weak_count return, at every call, a number of strong and of weak handles that existed at some moment during the call (a handle counts as existing from the moment the operation creating it starts until the one giving it up ends; while uniqueness is being tested on an object without weak handles the weak count reads 0). When no operation is in progress they equal the number of live strong and weak handles exactly. ptr_eq is true exactly for handles of the same shared object.",
 ["schedules", "histories"],
 "All interleavings and histories of creating, cloning, downgrading, sending and giving up strong and weak handles in several threads, with a thread able to stop in the middle of any of them.",
 "No test calls strong_count or weak_count at all.",
 ["src/arc.rs"],
 [("Arc::strong_count", "src/arc.rs"), ("Arc::weak_count", "src/arc.rs"), ("Clone/Drop for Arc", "src/arc.rs"), ("Arc::downgrade", "src/arc.rs")],
 [("ArcInner.strong", "strong handles", "src/arc.rs"), ("ArcInner.weak", "weak handles", "src/arc.rs")],
 ["Arc::strong_count", "Arc::weak_count", "Arc::ptr_eq"], HOOK)

prop("C05", "Urc keeps its value until the last handle of every thread, then frees once",
 "However threads interleave, the value behind a Urc that has been shared across threads stays readable while any thread holds a handle, and its destructor runs exactly once, in the thread that gives up the last one, with every other thread's earlier use happening before it. All storage of the shared object and of each thread's group of handles is returned to the allocator it came from exactly once, when the last strong and weak handle using it is gone, and is never touched afterwards. If creation fails because memory ran out, the value is dropped and nothing is leaked. None of this changes when handles were forgotten rather than dropped, however many: a handle that its counter could not count is refused by a panic.",
 ["schedules", "fault_sequences"],
 "All interleavings of clone, downgrade, drop, envelop/recv, fence conversion, get_mut, make_mut and try_unwrap by several threads that each hold several handles, with allocation failures at any request and stale loads the orderings permit.",
 "The only Urc test shares one handle with one thread, reads a value, and never checks that the value or the memory is released.",
 ["src/urc.rs", "src/ptr.rs"],
 [("Drop for Urc", "src/urc.rs"), ("Drop for Weak", "src/urc.rs"), ("Envelop for Urc", "src/urc.rs"), ("Urc::try_unwrap", "src/urc.rs"), ("Urc::try_new", "src/urc.rs")],
 [("Fence.strong/weak", "handles of one thread's group (non-atomic)", "src/urc.rs"), ("Master.strong_fence", "groups with a strong handle", "src/urc.rs"), ("Master.weak_fence", "groups with only weak handles", "src/urc.rs")],
 ["destructor of the payload", "GlobalAlloc::dealloc"], HOOK)

prop("C06", "Urc grants mutable or owned access only to a sole owner; make_mut isolates",
 "get_mut and try_unwrap on a Urc grant mutable or owned access only when the calling handle is the only strong one in all threads (for get_mut: and no weak handle exists); they do succeed if no other handle existed at any time during the call, and a refusal leaves the handle and all later operations unaffected. make_mut always yields a value equal to what the handle showed before, writes made through it are seen through no other handle in any thread, and no value is lost, duplicated or changed behind another handle. An only handle, with no weak ones either, is given access in place, without cloning, moving or asking for memory; next to weak handles only, the value is moved and not cloned. When the value's Clone panics or memory runs out inside make_mut, the handle still shows its old value and stays usable.",
 ["schedules", "fault_sequences"],
 "All interleavings and histories of get_mut / make_mut / try_unwrap with clones, weak handles and drops in the same thread and in other threads, with clone panics and allocation failures.",
 "No test calls get_mut, make_mut or try_unwrap on a Urc.",
 ["src/urc.rs"],
 [("Urc::is_unique", "src/urc.rs"), ("Urc::make_mut", "src/urc.rs"), ("Urc::try_unwrap", "src/urc.rs")],
 [("Master.strong_fence", "groups with a strong handle", "src/urc.rs"), ("Fence.strong/weak", "handles of the calling thread's group", "src/urc.rs")],
 ["Urc::get_mut", "Urc::make_mut", "Urc::try_unwrap"], HOOK)

prop("C07", "Urc's per-thread counts are exact and never shared between threads",
 "The strong and weak counts a Urc reports for its own thread's group equal the live strong and weak handles of that group after every operation, whatever other threads do; a handle delivered to another thread by envelope starts a new group there with one strong handle. The unsynchronised per-group counters are only ever accessed by threads ordered by a hand-off, so no interleaving can lose an update. is_sole_strong_fence is true exactly when no other group holds a strong handle, once no other thread is in the middle of creating or giving one up.",
 ["schedules", "histories"],
 "All histories of clone, downgrade, drop, try_into_fence / into_urc, envelop and recv in several threads under all interleavings.",
 "No test reads the fence counts or the sole-fence flag.",
 ["src/urc.rs"],
 [("Fence::inc_strong / dec_strong / inc_weak / dec_weak", "src/urc.rs"), ("Envelop for Urc", "src/urc.rs"), ("Urc::try_into_fence", "src/urc.rs"), ("Urc::is_sole_strong_fence", "src/urc.rs")],
 [("Fence.strong/weak", "handles of one thread's group (non-atomic)", "src/urc.rs"), ("Master.strong_fence", "groups with a strong handle", "src/urc.rs")],
 ["Urc::fence_strong_count", "Urc::fence_weak_count", "Urc::is_sole_strong_fence", "Urc::try_into_fence"], HOOK)

prop("C08", "An envelope hands over one handle to the same value, or gives its share back",
 "A handle received from an envelope made from an Arc or Urc refers to the very object it was made from, shows the value as written before it was sent, and keeps it alive on its own even if the sender's handles are gone first. An envelope that is dropped undelivered, in any thread, gives back exactly the share it took. If making the envelope fails because memory ran out, the sender's handle, the value and all later uniqueness answers are as if it had not been tried.",
 ["schedules", "fault_sequences"],
 "All interleavings of enveloping, delivering, dropping undelivered envelopes and dropping sender handles among several threads, with delivery delayed, reordered or never happening and with allocation failing while the envelope is made.",
 "Two tests send one envelope each, with the sender outliving the receiver and no failure.",
 ["src/scope.rs", "src/arc.rs", "src/urc.rs"],
 [("Envelope / ScopeRecv::recv", "src/scope.rs"), ("Envelop for Arc", "src/arc.rs"), ("Envelop for Urc", "src/urc.rs")],
 [("Master.strong_fence", "an undelivered envelope holds one share", "src/urc.rs"), ("ArcInner.strong", "an undelivered envelope holds one share", "src/arc.rs")],
 ["value read by the receiver", "destructor of the payload", "get_mut after the exchange"], HOOK)

prop("C09", "Rc drops its value with the last Rc and frees storage with the last handle",
 "The value behind an Rc is dropped exactly once, when its last strong handle goes, and never while one exists; from then on upgrading any weak handle gives None, also from inside the value's own destructor, and before that upgrading always succeeds and shows the same value. The storage is returned exactly once, when no strong or weak handle is left, including when the destructor itself drops weak or strong handles to the same or other objects. strong_count and weak_count equal the live handles after every operation, and a creation that fails for lack of memory drops the value and leaks nothing. None of this changes when handles were forgotten rather than dropped, however many: a handle that its counter could not count is refused by a panic.",
 ["histories", "fault_sequences"],
 "All histories of new, clone, drop, downgrade, upgrade, weak clone/drop, conversion from Box over graphs of Rc values that own handles to each other, with allocation failures and panicking destructors at any point.",
 "Rc has no tests at all.",
 ["src/rc.rs", "src/ptr.rs"],
 [("Drop for Rc", "src/rc.rs"), ("Drop for Weak", "src/rc.rs"), ("Weak::upgrade", "src/rc.rs"), ("Rc::downgrade", "src/rc.rs"), ("From<Box<T>> for Rc", "src/rc.rs")],
 [("RcBox.strong / RcBox.weak", "handle counts", "src/rc.rs")],
 ["destructor of the payload", "GlobalAlloc::dealloc", "Weak::upgrade", "Rc::strong_count", "Rc::weak_count"])

prop("C10", "Rc grants mutable or owned access only to a sole owner; make_mut isolates",
 "get_mut succeeds exactly when the Rc is the only handle, strong or weak; try_unwrap succeeds exactly when it is the only strong one, moving the value out without running its destructor, after which weak handles no longer upgrade. make_mut yields a value equal to the old one, leaves what every other strong handle shows unchanged, and detaches weak handles instead of letting them reach the new value. An only handle, with no weak ones either, is given access in place, without cloning, moving or asking for memory; next to weak handles only, the value is moved and not cloned. When the value's Clone panics or memory runs out inside make_mut, the handle, the value and all other handles are as before.",
 ["histories", "fault_sequences"],
 "All histories mixing get_mut, make_mut and try_unwrap with clones, weak handles and drops, with clone panics and allocation failures injected inside make_mut.",
 "Rc has no tests at all.",
 ["src/rc.rs"],
 [("Rc::get_mut", "src/rc.rs"), ("Rc::make_mut", "src/rc.rs"), ("Rc::try_unwrap", "src/rc.rs")],
 [("RcBox.strong / RcBox.weak", "handle counts", "src/rc.rs")],
 ["Rc::get_mut", "Rc::make_mut", "Rc::try_unwrap", "Weak::upgrade"])

prop("C11", "Box owns exactly one value, in and out, under allocator and destructor faults",
 "A Box holds the value moved into it unchanged; dropping the Box runs that value's destructor exactly once and returns the storage exactly once, and into_inner moves the value out without running its destructor and returns the storage. The same holds for boxed slices made from and turned back into Vec or SmallVec (same elements, same order, any length including zero) and for a Box turned into an Rc. If memory runs out while boxing, the value is dropped exactly once and nothing is leaked; a panicking destructor is never run again.",
 ["histories", "fault_sequences"],
 "All histories of boxing, mutating, unboxing, converting and dropping values of any size (zero-sized, over-aligned, large) with allocation failures and destructor panics at any point.",
 "Box has no tests at all.",
 ["src/boxed.rs", "src/ptr.rs", "src/vec.rs"],
 [("ScopePtr::alloc", "src/ptr.rs"), ("ScopePtr::into_inner", "src/ptr.rs"), ("Drop for ScopePtr", "src/ptr.rs"), ("Vec::into_boxed_slice", "src/vec.rs")],
 [("ScopePtr", "pointer plus the allocator that issued it", "src/ptr.rs")],
 ["destructor of the payload", "GlobalAlloc::dealloc", "Box::into_inner"])

prop("C12", "Allocator contract: every block resized and freed once, correctly, by its owner",
 "Every block any lokky type obtains is resized and freed only through the allocator that issued it, with exactly the size and alignment last agreed, exactly once, and is not read or written after being freed or outside its bounds. No request of size zero, overflowing size or wrong alignment ever reaches an allocator. When every handle and container is gone, every block has been returned (except those deliberately leaked or abandoned because a destructor panicked).",
 ["histories", "fault_sequences", "configurations"],
 "All histories of operations on Box, Rc, Arc, Urc, Vec, SmallVec and String with element types of any size and alignment, several scopes with different allocators switched between operations, resizing in place or moving, and refusals at any request.",
 "Tests use one real allocator that never fails and tolerates zero-size and mismatched layouts, and never look at the calls.",
 ["src/ptr.rs", "src/vec.rs", "src/small_vec.rs", "src/boxed.rs", "src/rc.rs", "src/arc.rs", "src/urc.rs"],
 [("ScopePtr::alloc_layout / dealloc / realloc_array", "src/ptr.rs"), ("Drop for Vec", "src/vec.rs"), ("SmallVec::try_move_to_stack", "src/small_vec.rs")],
 [("ScopePtr.alloc", "allocator that issued the block", "src/ptr.rs")],
 ["GlobalAlloc::alloc", "GlobalAlloc::realloc", "GlobalAlloc::dealloc"])

prop("C13", "Running out of memory changes nothing: failed growth is reported and undone",
 "When the allocator refuses a request, every fallible operation returns an error and every infallible one panics, and then, or if the scope panics when asked for an allocator, the container keeps exactly the elements, order, capacity promise and allocator it had (bulk operations may keep a prefix of the elements being added). The element or value being added is dropped exactly once, nothing is leaked or dropped twice, and repeating the operation once memory is available again succeeds. A size that cannot be represented is reported as an error or panic, never as success with less memory.",
 ["fault_sequences", "histories"],
 "Every allocation and resize request of every growing or shrinking operation of Vec, SmallVec, String, Box, Rc, Arc and Urc refused in turn, at any point of any history, alone or several times in a row.",
 "The test allocator never fails, so no error path of reserve, push, insert, resize, shrink or new is executed.",
 ["src/ptr.rs", "src/vec.rs", "src/small_vec.rs", "src/string.rs"],
 [("ScopePtr::realloc_array", "src/ptr.rs"), ("Vec::grow_exact / grow_amortized / shrink", "src/vec.rs"), ("SmallVec::try_move_to_heap_and_reserve_exact / try_reserve", "src/small_vec.rs"), ("String::insert_bytes", "src/string.rs")],
 [("Vec.ptr / Vec.len", "buffer and live prefix", "src/vec.rs")],
 ["try_reserve, try_reserve_exact, try_with_capacity results", "contents after a failed operation"])

prop("C14", "Vec behaves as a sequence whatever the allocator does and however it is used",
 "After any history of operations a Vec holds exactly the elements a plain sequence would hold, in the same order, each present once, with every removed element handed out or dropped exactly once; operations on invalid indices panic and change nothing (except that splitting off beyond the end may give an empty Vec). Capacity is at least the length and at least what was reserved, and growing, shrinking, splitting, appending, converting to and from boxed slices and arrays keep all elements. This holds for zero-sized, tiny, large and over-aligned elements, whether the allocator resizes in place, moves the block or refuses.",
 ["histories", "fault_sequences", "configurations"],
 "All histories over several vectors of every public operation, for element types of every size class, with an allocator that moves, fills with garbage, or refuses at random.",
 "Each test runs one operation once on a short vector of integers under a well-behaved allocator; nothing checks drops, duplicates, or operations in sequence.",
 ["src/vec.rs", "src/ptr.rs"],
 [("Vec methods", "src/vec.rs"), ("RetainIter", "src/vec.rs"), ("ResizeWith", "src/vec.rs")],
 [("Vec.ptr / Vec.len", "buffer and live prefix", "src/vec.rs")],
 ["every public method of Vec", "destructor of the elements"])

prop("C15", "SmallVec behaves as one sequence across stack and heap storage",
 "After any history of operations a SmallVec holds exactly the elements a plain sequence would hold, in order, each present once, with every removed element handed out or dropped exactly once, no matter how often it moved between inline and heap storage or was refused memory; operations on invalid indices panic and change nothing. It never holds more than its inline capacity while inline, moves to the heap by itself whenever an operation needs more room and not while the elements and the room asked for fit inline, and moving back inline succeeds exactly when the elements fit. This holds for every inline capacity including zero and for zero-sized elements.",
 ["histories", "fault_sequences", "configurations"],
 "All histories of every public operation over several small vectors with different inline capacities and element sizes, explicit and implicit moves between storages, and refusals at any request.",
 "Each test runs one operation once on integers; no test moves back to the stack, grows past the inline capacity by resize, or checks drops.",
 ["src/small_vec.rs", "src/vec.rs"],
 [("SmallVec::try_reserve / try_move_to_heap_and_reserve_exact / try_move_to_stack", "src/small_vec.rs"), ("StackVec methods", "src/small_vec.rs")],
 [("SmallVec.storage", "inline or heap storage", "src/small_vec.rs")],
 ["every public method of SmallVec", "destructor of the elements"])

prop("C16", "String is always valid UTF-8 and equals the text a plain string would hold",
 "After any history of operations, including ones interrupted by a panicking callback or iterator or by the allocator refusing memory, a String is valid UTF-8 and holds exactly the text the same history gives on a plain string; an operation at an index that is not a character boundary panics and changes nothing. Refused or interrupted operations leave the old text, or for bulk additions the old text plus a prefix of whole characters or pieces, or for an interrupted filter a text made only of kept characters.",
 ["histories", "fault_sequences"],
 "All histories of push, insert, remove, pop, truncate, split_off, retain, extend, formatting writes and conversions over text mixing one- to four-byte characters, with failures at any allocation and panics at any callback.",
 "String has no tests at all.",
 ["src/string.rs", "src/vec.rs"],
 [("String methods", "src/string.rs"), ("String::insert_bytes", "src/string.rs"), ("String::retain SetLenOnDrop", "src/string.rs")],
 [("String.vec", "bytes", "src/string.rs")],
 ["String::as_bytes", "String::as_str"])

prop("C17", "A panic in user code never breaks a container",
 "If user code called by a Vec or SmallVec operation (an element's Clone, Drop or PartialEq, a closure, an iterator, a scope asked for an allocator) panics at any point, the panic propagates, and afterwards the container holds only live elements that it held before or was being given, each at most once, and is fully usable and droppable. No element is ever dropped twice or used after being dropped, and storage is returned exactly once when the container goes. Elements may be lost without being dropped only by operations that drop or filter elements in place, never by ones that only add.",
 ["fault_sequences", "histories"],
 "Every call-back of every operation panicking in turn: Clone, Drop, PartialEq, retain/dedup/resize closures, iterators; at any element, in any storage, in any history, followed by further use.",
 "No test has a panicking element or closure, and all elements are integers without destructors.",
 ["src/vec.rs", "src/small_vec.rs"],
 [("RetainIter length handling", "src/vec.rs"), ("Vec::truncate / Vec::clear", "src/vec.rs"), ("ResizeWith::do_resize", "src/vec.rs"), ("StackVec::clear / truncate", "src/small_vec.rs")],
 [("Vec.len / StackVec.len", "live prefix", "src/vec.rs")],
 ["contents after catch_unwind", "destructor of the elements"])

prop("C18", "Drain and by-value iteration can stop anywhere without losing or repeating",
 "A by-value iterator or a drain yields exactly the elements of its range in order, each once, from either end in any mix, reporting the exact number remaining at each step, and keeps answering None once exhausted. Dropping it at any point drops exactly the elements not yet yielded; a dropped drain leaves the vector with exactly the elements outside the range, in order, and an out-of-range drain panics and changes nothing. Leaking a drain, or a panicking element destructor, may lose elements but never lets one be used or dropped twice and leaves the vector usable.",
 ["fault_sequences", "histories"],
 "Every range form and every interruption point: partial consumption from front and back in any order, early drop, leak, destructor panics, on Vec and on SmallVec inline and on the heap.",
 "No test uses drain or into_iter.",
 ["src/vec.rs", "src/small_vec.rs"],
 [("DrainInner", "src/vec.rs"), ("IntoIter", "src/vec.rs")],
 [("DrainInner.slice / start / end / original_len", "what is left to yield and what to restore", "src/vec.rs"), ("IntoIter.index", "front position", "src/vec.rs")],
 ["Drain / IntoIter items", "vector contents after the iterator is gone", "destructor of the elements"])

prop("C19", "Scopes nest like a stack, also when a scope body or initialiser panics",
 "While a spawned scope's body runs, the current scope of that thread is that scope and a new allocation is served by an allocator it selects; when the body returns or panics, the current scope is again the one before (so it is in the destructor of the scope, too), at any nesting depth, and the initialiser sees its parent as current. Blocks obtained in one scope keep being resized and freed through that scope's allocator wherever they are later used or dropped. With one environment per thread, no thread's scopes affect another's.",
 ["histories", "fault_sequences", "schedules"],
 "All nestings of scopes in several threads, interleaved at scope boundaries, with panics thrown from initialisers and bodies at any depth and values carried out of and into scopes.",
 "No test spawns a scope.",
 ["src/scope.rs", "src/ptr.rs"],
 [("Env::spawn", "src/scope.rs"), ("Env::current", "src/scope.rs"), ("ScopePtr::alloc_layout", "src/ptr.rs")],
 [("Env.cur", "current scope", "src/scope.rs")],
 ["Scope::alloc_for calls", "GlobalAlloc calls", "scope::current"])

prop("C20", "Containers present their marker and type on every allocation they request",
 "A Vec, SmallVec, String or Box created with an allocation marker reports and presents that marker, together with its element (or value) type, on every request it later makes to select an allocator: at creation, at first growth after being created empty, when a small vector first moves to the heap, and when a request is repeated after a refusal. One created without a marker always presents none, and Rc and Arc present the type of their value. Once a container has storage, it keeps resizing it in the allocator first selected.",
 ["histories", "fault_sequences", "configurations"],
 "All histories of creation with and without capacity, growth, shrinking to nothing and regrowth, moving to heap and back, with refusals, under a scope that routes by marker and type.",
 "No test creates a container with a marker; the test scope ignores the selector.",
 ["src/vec.rs", "src/small_vec.rs", "src/string.rs", "src/boxed.rs", "src/ptr.rs", "src/scope.rs"],
 [("Vec::with_marker", "src/vec.rs"), ("Vec::grow_exact", "src/vec.rs"), ("SmallVec.marker", "src/small_vec.rs"), ("AllocSelector", "src/scope.rs")],
 [("ScopePtr.alloc_marker", "marker used to select the allocator", "src/ptr.rs")],
 ["Scope::alloc_for(selector)", "Vec::marker"])

# ---- not simulation targets
prop("C21", "Comparing, hashing, formatting and borrowing act on the value behind the handle",
 "For all values (also ones not comparable to each other) and after any history of operations, ==, !=, the ordering operators, cmp, Hash, Debug, Display, AsRef and Borrow of Box, Rc, Arc, Urc, Vec, SmallVec and String give what the plain value, or the slice or str of the elements, gives, whichever representation a container is in, whatever was refused or panicked before and whichever thread asks. A boxed iterator or hasher behaves as the one in the box, from both ends and in its size hints. User code that these operations call may itself use, clone or drop other handles to the value.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "All pairs of values, representations of containers that compare equal, histories leading to them, threads and re-entrant user code.", "Tests compare a few integer slices only.",
 ["src/boxed.rs", "src/rc.rs", "src/arc.rs", "src/urc.rs", "src/vec.rs", "src/small_vec.rs", "src/string.rs"],
 [("PartialEq/PartialOrd/Ord/Hash/Debug/Display/AsRef/Borrow impls", "src/*.rs"),
  ("Iterator, DoubleEndedIterator, ExactSizeIterator, Hasher for Box", "src/boxed.rs"),
  ("rc::Weak Debug", "src/rc.rs")])
prop("C22", "Only data that may cross threads can be sent in handles that cross threads",
 "A program that sends an Arc or a bare handle of a non-thread-safe value, or a Vec, Box, Rc or Urc without an envelope, to another thread is rejected by the compiler.",
 ["programs"], "All programs using the public API.", "Tests only contain programs that are accepted.",
 ["src/arc.rs", "src/urc.rs", "src/scope.rs"],
 [("unsafe impl Send / Sync bounds", "src/arc.rs, src/urc.rs, src/scope.rs")])
prop("C23", "UTF-8 and UTF-16 input is accepted exactly when it is well formed",
 "from_utf8 and from_utf16 accept exactly the well-formed inputs and decode them to the same text as the standard library.",
 ["inputs"], "All byte and code-unit sequences.", "String has no tests.",
 ["src/string.rs"], [("String::from_utf8 / from_utf16", "src/string.rs")])
prop("C24", "Allocation markers and selectors compare and hash by identity of their type",
 "Two markers (selectors) made for the same type are equal and hash equally, and ones made for different types differ.",
 ["inputs"], "All pairs of types.", "No test compares markers.",
 ["src/scope.rs"], [("PartialEq/Hash for AllocMarker, AllocSelector", "src/scope.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
