#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that wording and anchors stay reviewable)."""
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/"+f for f in files],mechanism=[dict(name=a,where="src/"+b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=m,where="src/"+w) for a,m,w in state]
    P.append(d)

p("C01","Sequential key-value operations behave like a map",
 "Every get, contains, set, remove, replace (with or without an expected value) and get-or-create returns exactly what an in-memory map would return, and changes only the key it names. This stays true across shard splits, background compactions, merges, flushes and closing and reopening the store.",
 ["programs","configurations"],"every sequence of operations up to the depth bound over a small set of keys and values, for configurations in which none, either or both of splitting and compaction trigger, with background work finishing early or late",
 "The tests run a few hand-written or random sequences with one configuration each; the interplay of a given operation with a shard that is just about to split, compact or be reopened needs every short sequence.",
 ["store.rs","router.rs","shard.rs"],[("row lookup and replace","shard.rs: Shard::insert, try_replace, get, remove"),("split retry loop","router.rs: ShardRouter::insert"),("copying entries","shard.rs: do_compaction, split_into, merge")],
 [("signatures / offsets_and_sizes","per-row table from signature to location of the entry","shard.rs: ShardRow")])
p("C02","Concurrent key-value operations are linearizable",
 "When several threads get, set, remove, replace and get-or-create keys at the same time, every returned value is explained by some order of the operations that respects real time, and the final contents are those of that order. This includes operations that run while a shard is being split, compacted in the background, or merged.",
 ["schedules","programs"],"every interleaving (up to a preemption bound) of 2-3 threads of 1-3 operations plus the background compaction, from initial states at and around the split and compaction thresholds",
 "The multi-threading tests run a few schedules chosen by the OS and check little of what is returned; a lost update needs a switch at one particular memory or file access.",
 ["shard.rs","router.rs"],[("row locks and files lock","shard.rs: operate_on_row, operate_on_row_mut"),("compacted_up_to publication","shard.rs: do_compaction"),("node lock during split and merge","router.rs: insert, merge_siblings")])
p("C03","A process crash never loses or invents key-value data",
 "If the process dies at any point, then after reopening, every key has the value of its last completed operation, or, for the operation in progress, the value before or the value after it. No key that was never set appears, nothing returned was never written, and the reopened store works normally.",
 ["crash_points","programs"],"every point between two effects on a file or on the mapped table (including a partly written entry) of every operation sequence up to the depth bound, under every configuration class",
 "The crash test kills a child process at random moments; the windows between two neighbouring stores to the table are a few nanoseconds wide and are never hit reliably.",
 ["shard.rs","router.rs"],[("write entry, then offset, then signature","shard.rs: insert, write_kv"),("in-place offset switch on update","shard.rs: try_replace"),("recovery on open","shard.rs: Shard::open; router.rs: load")])
p("C04","A process crash during structural changes is recovered",
 "If the process dies at any point of a first-time creation, split, background compaction, merge or clear, or of the recovery from an earlier such crash, the store can be opened again and holds all the data it held (for clear: a subset of it). It is then fully usable.",
 ["crash_points","histories"],"every file-system and table effect of the structural operations, with a second crash at every effect of the recovery itself",
 "No test crashes inside a split, merge, initial creation or recovery; each has a handful of renames and removals whose order matters.",
 ["router.rs","shard.rs","store.rs"],[("temporary names and rename","shard.rs: split, merge, begin_compaction, background_compact"),("range consolidation and leftovers","router.rs: load, consolidate_ranges, treeify"),("resumed compaction","shard.rs: Shard::open")])
p("C05","Merging shards keeps all data and terminates for every tree shape",
 "Merging small shards returns for every possible arrangement of shards and every fill level, keeps the exact contents readable both immediately and after reopening, and reports whether the number of shards went down. It never merges below the number of shards needed for the configured number of keys, nor shards fuller than the requested level.",
 ["configurations","inputs"],"every dyadic partition of the key space up to a depth, every small population of its shards, and a set of fill levels and expected sizes",
 "The merge test builds one shape; unbalanced trees and rows that overflow when two shards are combined do not occur in it.",
 ["router.rs","shard.rs"],[("merge of siblings","router.rs: merge_siblings, merge_small_shards; shard.rs: merge")])
p("C06","Iteration of a quiescent store is exact and resumable",
 "With no modification in progress, iterating the store returns every key-value pair exactly once and nothing else (no list, queue, big or typed entries), and resuming from the cookie taken after any number of items returns exactly the remaining items.",
 ["programs","configurations"],"every store reached by the bounded operation sequences over several shard layouts, and every position of the iteration as the resume point",
 "Tests iterate one layout and one cookie position; the boundaries (end of row, end of shard, end of store) need every position.",
 ["store.rs","router.rs","shard.rs"],[("cursor and cookie","store.rs: CandyStoreIterator")])
p("C07","Iteration during modification returns untouched keys at least once",
 "While the store is being modified during an iteration, every key that exists throughout and is not touched is returned at least once with its value, and everything returned was present at some time during the iteration. This holds even if shards are split, merged or compacted between two steps.",
 ["histories","schedules"],"every bounded modification sequence inserted at every position of the iteration, with background work finishing before or after the next step",
 "Tests modify the store during iteration only lightly, never such that a compaction or split moves the entries in front of the cursor.",
 ["store.rs","shard.rs","router.rs"],[("row-wise cursor","store.rs: CandyStoreIterator::next"),("stable row membership","shard.rs: do_compaction, split_into")])
p("C08","List operations behave like an ordered map",
 "A list keeps its items in insertion order with unique item keys; get, set, promote, remove, replace, get-or-create, peek, pop, forward and backward iteration, compaction and discard return what an in-memory ordered map would. This stays true after splits, background compactions and reopening.",
 ["programs","configurations"],"every sequence of list operations up to the depth bound over a small set of items, from empty and populated lists, with and without splitting and compaction",
 "List tests check a few typical flows; holes, empty lists, removal of the first and last item and reuse after emptying combine in too many ways.",
 ["lists.rs"],[("chain entries indexed by position","lists.rs: insert_to_list, remove_from_list, fix ends"),("list compaction","lists.rs: compact_list_if_needed")],
 [("head_idx/tail_idx/num_items","header of a list","lists.rs: List")])
p("C09","Concurrent list operations are linearizable",
 "When several threads work on the same or different lists, each operation appears to take effect at one moment between its call and its return: no item is popped twice, lost, duplicated or returned after it was removed, and peeking at a list that is never empty returns an item. (Promoting an existing item counts as a removal followed by an insertion, and discarding a list takes effect item by item; iteration and the list length, documented as an estimate, are not included.)",
 ["schedules","programs"],"every interleaving (up to a preemption bound) of 2-3 threads of 1-2 list operations from small initial lists",
 "The tests for lists are single-threaded apart from one throughput test whose result does not depend on the order.",
 ["lists.rs","store.rs"],[("keyed locks","lists.rs: lock_list and its callers")])
p("C10","A process crash during a list operation leaves a correct list",
 "If the process dies at any point of setting, updating, removing, popping, replacing or discarding list items, then after reopening the list holds what completed operations left, with the operation in progress applied completely or not at all (a discard may be partial). The list reads the same in both directions and through item lookups, keeps no phantom items, and further operations on it behave normally.",
 ["crash_points","programs"],"every effect on a file or the mapped table of every bounded sequence of list operations (promoting and list compaction excluded: they are documented as not crash-safe)",
 "Crash tests on lists pick random moments; each list operation is a sequence of three or four separate writes, and every gap matters.",
 ["lists.rs"],[("order of chain, item and header writes","lists.rs: insert_to_list, remove_from_list, discard_list")])
p("C11","Queue operations behave like a double-ended queue",
 "Push, extend, pop, peek, remove by index, length, range, forward and backward iteration and discard of a queue return what an in-memory deque with stable indices would. This stays true after splits, background compactions and reopening.",
 ["programs","configurations"],"every sequence of queue operations up to the depth bound from empty and populated queues, with and without splitting and compaction, including removal at every position",
 "Tests cover typical push and pop flows; removing by index at the ends, emptying and reusing the queue combine in too many ways.",
 ["queues.rs"],[("head/tail/num_items header","queues.rs: push_to_queue_*, pop_queue, remove_from_queue, extend_queue")])
p("C12","Concurrent queue operations are linearizable",
 "When several threads push, pop, peek, remove, extend and discard the same or different queues, each operation appears to take effect at one moment between its call and its return: no element is delivered twice, lost or reordered, and peeking at a queue that is never empty returns an element.",
 ["schedules","programs"],"every interleaving (up to a preemption bound) of 2-3 threads of 1-2 queue operations from small initial queues",
 "No test runs queue operations concurrently and checks what each returned.",
 ["queues.rs","store.rs"],[("keyed locks","queues.rs: lock_list callers")])
p("C13","A process crash during a queue operation leaves a correct queue",
 "If the process dies at any point of a queue operation, then after reopening the queue holds what completed operations left, with the operation in progress applied completely or not at all (an extend or discard may be partial, in order). Iteration in both directions, peeking and the index range agree, and further operations behave normally.",
 ["crash_points","programs"],"every effect on a file or the mapped table of every bounded sequence of queue operations",
 "No test crashes inside a queue operation.",
 ["queues.rs"],[("order of header and element writes","queues.rs: push_to_queue_*, pop_queue, remove_from_queue")])
p("C14","Big values read back exactly as written",
 "A big value of any size, including empty and exactly at internal chunk boundaries, is returned byte for byte, replaced entirely by the next write, and gone after removal; the reported existence is right every time. This stays true after splits, compactions and reopening.",
 ["inputs","programs"],"every sequence up to the depth bound of writes with sizes at and around every chunk boundary (0, 1, M-1, M, M+1, 2M-1, 2M, 2M+1, 3M), reads, removals and reopening",
 "The test writes one large value; the boundary sizes and replacing a longer by a shorter value are not covered.",
 ["store.rs","queues.rs"],[("chunking over a queue","store.rs: set_big, get_big, remove_big")])
p("C15","Namespaces are isolated from each other",
 "The same bytes can be used at once as a plain key, a list name, an item key, a queue name and a typed key without any of them affecting another; likewise an item key in two lists, names where one extends the other, or names ending in bytes used internally. Iterating over the plain keys never shows the others.",
 ["inputs","programs"],"every sequence up to the depth bound over operations of all kinds applied to names that are equal, prefixes of each other or end in internally used bytes",
 "Tests use distinct names for distinct purposes.",
 ["lib.rs","store.rs","lists.rs","queues.rs","typed.rs"],[("namespace suffix bytes","lib.rs / store.rs: *_NAMESPACE constants and make_*_key")])
p("C16","Colliding key hashes never mix up keys",
 "Different keys whose hashes collide completely in the position and signature used by the table, and keys with the smallest signatures, behave like any other keys: each keeps its own value through set, replace, get-or-create, remove, split, compaction, merge, iteration and reopening. The same holds for colliding items of a list.",
 ["inputs","programs"],"every bounded operation sequence over genuinely colliding keys (found by search with the real hash function) and colliding list items",
 "Random test keys practically never collide in row and 32-bit signature within the same shard.",
 ["shard.rs","hashing.rs","lists.rs"],[("full key comparison after signature match","shard.rs: get, try_replace, remove"),("reserved signature","hashing.rs: INVALID_SIG"),("collision handling in lists","lists.rs: get_from_list, find_true_chain")])
p("C17","No operation ever deadlocks or hangs",
 "Whatever threads do concurrently (key-value, list, queue, iteration, statistics, flush, clear and merge calls, while background compaction runs), and whatever the configured number of compaction threads, every call returns and closing the store finishes.",
 ["schedules","configurations"],"every interleaving (up to a preemption bound) of pairs and triples of operations of all kinds from states in which split, compaction or merge is about to happen",
 "A deadlock needs a particular lock order under a particular schedule; tests would just have to be lucky.",
 ["router.rs","shard.rs","lists.rs","stats.rs"],[("lock ordering of node, files, row, handle and list locks","router.rs; shard.rs: begin_compaction, background_compact, get_stats; lists.rs: lock_list")])
p("C18","What was flushed survives a power failure",
 "After a successful flush, everything written before the flush started survives losing all data that was not explicitly synced to disk, no matter what happened to the shards (split, compaction, merge) before or since.",
 ["crash_points","programs"],"every bounded operation sequence containing a flush, with the machine losing all unsynced file contents at every later point (directory operations are assumed durable in order)",
 "Tests cannot drop the page cache.",
 ["shard.rs","router.rs"],[("flush of every shard","shard.rs: flush; store.rs: flush"),("syncing rewritten files before they replace others","shard.rs: split, merge, background_compact")])
p("C19","With flush aggregation, acknowledged writes are durable",
 "With flush aggregation enabled, once a set, replace, get-or-create or remove has returned successfully, its effect survives losing all data that was not explicitly synced to disk, also when several threads share one sync; a failed sync is reported to every caller that relied on it. All calls return.",
 ["schedules","fault_sequences"],"every interleaving (up to a preemption bound) of 2-3 writers, with all unsynced contents dropped at every acknowledgement, and with the sync failing",
 "The test measures timing only; it cannot drop the page cache or choose the schedule.",
 ["shard.rs"],[("leader/follower syncing","shard.rs: flush_aggregation")])
p("C20","Statistics are exact when the store is quiescent",
 "At any moment with no operation in progress, the reported number of shards, number of entries, occupied and wasted bytes and the operation counters are consistent with each other and with the contents, whatever operations, splits, compactions, merges and reopenings preceded. In particular inserts minus removals equals the number of stored entries, and wasted plus live bytes equals occupied bytes. After a crash the number of entries reported is never below the number stored, and exceeds it by no more than the operations that were in progress.",
 ["programs","schedules"],"every bounded operation sequence (and small concurrent programs) over configurations with and without splits and compaction, comparing against an independent count",
 "Tests look at one or two counters after one run; miscounting in a rare path silently changes when shards are compacted or merged.",
 ["stats.rs","shard.rs","store.rs"],[("header counters","shard.rs: num_inserts, num_removals, wasted_bytes, write_offset"),("report_* functions","stats.rs")])
p("C21","Oversized input is rejected without side effects",
 "Keys and values up to the documented limits are accepted by every operation and read back exactly. Longer ones, and entries too large for the configured shard size, are rejected with an error that says so (list and queue operations may instead store slightly longer ones faithfully), and a rejected call leaves everything, including list and queue lengths, exactly as it was. No input makes a call panic.",
 ["inputs","configurations"],"every operation with key and value lengths 0, 1, limit-1, limit, limit+1 and beyond, for several shard sizes, followed by a complete comparison of the contents",
 "Tests check one oversized key and value on plain set only.",
 ["store.rs","lists.rs","queues.rs","lib.rs"],[("size checks","store.rs: ensure_sizes, insert_internal"),("limits","lib.rs: MAX_KEY_SIZE, MAX_VALUE_SIZE")])
p("C22","A directory is used by at most one store at a time",
 "While a store is open, every other attempt to open the same directory fails and changes nothing in it; once the store is closed (or its process has died, or an opening attempt failed) the directory can be opened again.",
 ["schedules","histories"],"every interleaving of bounded open, close and operation sequences of two users of a directory, in the same process and in different processes, including failed opens and killed holders",
 "No test opens a directory twice.",
 ["store.rs"],[("lock file","store.rs: CandyStore::open")])
p("C23","A failing file operation corrupts nothing",
 "If any single file operation fails (or is short or interrupted), the affected call returns an error or succeeds, never panics, and afterwards every other key, list and queue is intact, both immediately and after reopening; the affected item has its value from before or after the call. Once the fault is gone the store works normally.",
 ["fault_sequences","programs"],"every file-system call of every bounded operation sequence (including background compaction, split, merge, open) failing with an I/O error or lack of space, once or from then on, being cut short, or interrupted",
 "No test injects I/O errors.",
 ["shard.rs","router.rs","store.rs","lists.rs","queues.rs"],[("error propagation","shard.rs: write_kv, split, merge, begin_compaction, background_compact"),("state left after an error","shard.rs: files.1, compaction_handle")])
p("C24","Foreign or incompatible files are never misread",
 "Opening a directory with a shard file of the wrong magic or version, or too short to be one, fails and leaves that file as it was (once it is put right everything is there); or, if so configured, starts afresh with an empty shard in its place, nothing of the old contents reappearing and all other shards intact. (A file whose creation was interrupted is not wrong, but empty.) Of a shard file that lost its end, what is read is right or an error. Files not named exactly like the store's own are left alone by everything, clearing included, and never keep the store from opening. A store written by this version always opens.",
 ["inputs","configurations"],"every combination of shard layouts with one file altered in magic, version or length at every boundary, crossed with the configuration options and unrelated files",
 "The test alters one file in one way.",
 ["shard.rs","router.rs"],[("header check","shard.rs: Shard::open"),("directory scan","router.rs: load")])
p("C25","Clearing the store empties it completely and leaves it usable",
 "After clear returns, the store is empty in every namespace, its statistics are those of a new store, and everything written afterwards, and only that, is there, also after reopening. This holds whatever was stored and whatever background work was in progress when it was called.",
 ["programs","schedules","configurations"],"every bounded operation sequence with clear at every position, and every interleaving (up to a preemption bound) of clear with writers and background compaction",
 "One test clears an idle store.",
 ["router.rs","store.rs"],[("clear","router.rs: clear; store.rs: clear")])
p("C26","Any valid set of shard files opens to exactly its contents",
 "For every division of the key space into shard files that splits and merges can produce, and every leftover that an interrupted split, merge or compaction can produce, opening the store finds every key exactly once, sends every operation to the right shard and removes the leftovers. A new store is divided into equal shards, as many as the configured number of keys needs (rounded up to a power of two).",
 ["configurations"],"every dyadic partition of the key space to the depth bound with every admissible leftover file beside it",
 "Tests open two or three layouts.",
 ["router.rs"],[("consolidation and tree building","router.rs: load, consolidate_ranges, treeify"),("routing","router.rs: shared_op, insert")])
p("C27","Shared table memory is free of data races",
 "No two threads ever access the same location of the shared in-memory state or of the mapped shard tables without synchronisation, at least one of them writing, whatever operations run concurrently with each other and with background compaction.",
 ["schedules","programs"],"every interleaving (up to a preemption bound) of pairs of operations of all kinds, with happens-before race detection on every instrumented access",
 "Rust's type system does not check the raw-pointer accesses to the mapped tables, and no test runs under a race detector.",
 ["shard.rs","stats.rs"],[("row locks","shard.rs: operate_on_row, operate_on_row_mut"),("header_mut through a shared reference","shard.rs: header_mut, row_mut")])
p("C28","Space is reclaimed: files do not grow without bound",
 "When the live data stays bounded, repeatedly updating, removing and re-inserting keeps each shard file within the configured maximum plus one entry (a shard that cannot be split further: within its live data plus the compaction threshold and two entries), and keeps the number of shards bounded: a shard is split only if its live data plus the threshold exceed the maximum, or its keys fall together. Once its compaction has finished, a shard just written to wastes at most the threshold plus one entry. No superfluous files remain, and the entries kept internally for lists, queues and big values do not accumulate. (Merging goes by the number of items and may create a larger shard.)",
 ["histories","configurations"],"every cyclic repetition of bounded update patterns, run until the observed store state repeats, under a set of size and threshold settings",
 "A test can only run for a finite time and checks no bound; reaching a repeated state shows the bound for ever.",
 ["shard.rs","router.rs"],[("compaction trigger","shard.rs: insert, begin_compaction"),("split trigger","shard.rs: insert")])
p("C29","Typed wrappers are faithful",
 "The typed store, list, deque and their keys and values return exactly the typed values that were stored, for every built-in key type and every value; different types with the same encoding never see each other's data. Each typed operation has the effect of the corresponding untyped one.",
 ["inputs","programs"],"every bounded sequence of typed operations compared with a typed reference model, every built-in key type at its boundary values, and equal encodings under different types",
 "Tests use two or three types with one value each.",
 ["typed.rs"],[("type ids and encoding","typed.rs: CandyTypedKey, encode/decode")])
p("C30","Iterating a list or queue while it is modified",
 "An iteration over one list or queue, forwards or backwards, during which other operations (of this or other threads) modify the store, returns every item that stays in that list or queue throughout exactly once and in order; one updated in place counts as staying. Everything it returns was in the list or queue at some time while the iteration ran, nothing of other lists or queues appears, the number of items announced in advance (size_hint) bounds the number still to come, and it always ends. Promoting the item or compacting the list meanwhile may make it miss items.",
 ["programs","schedules"],"every bounded sequence of modifications at every position of the iteration, in both directions, and every interleaving (up to a preemption bound) of an iteration with one and two modifications by another thread, splits and compactions included",
 "Tests iterate lists and queues at rest only; an iterator that takes an item removed between its two lookups for the end needs one particular switch.",
 ["lists.rs","queues.rs"],[("range captured at the start","lists.rs: ListIterator; queues.rs: QueueIterator"),("two lookups per item","lists.rs: ListIterator::next, get_from_list_at_index")])
p("C31","A process crash while a big value is written mixes nothing up",
 "If the process dies while a big value is being set or removed, then after reopening that key reads as its previous value, its new value, nothing, or whole chunks of one of the two: the first ones, or the last ones. Never as a mixture of both, or with a torn chunk. All other data is intact, whatever else was completed before stays, and setting, getting or removing the big value again works as if the rest of it were an ordinary value.",
 ["crash_points","programs"],"every point between two effects on a file or on the mapped table (including a partly written entry) of every bounded sequence of operations setting, overwriting and removing big values of none to four chunks, under every configuration class",
 "No test crashes while a big value is written; the documentation allows a partial result, which makes telling it from a corrupt one matter.",
 ["store.rs","queues.rs"],[("replacing the chunks","store.rs: set_big, remove_big"),("chunk queue","queues.rs: discard_queue, extend_queue")])
p("C32","Nothing is leaked",
 "When the store has been dropped, or could not be opened, and its background threads have ended, which they do by themselves, it has left nothing behind: no open file, no mapping, no memory. While it is open and nothing is in progress, the only files open or mapped are those in its directory, each at most once, so that replaced files release their space and the number of open files does not grow; and repeating the same operations does not take more and more memory. This holds whatever was split, compacted, merged, cleared or iterated before, after a crash, and after failed file operations.",
 ["histories","schedules","crash_points","faults"],"every bounded sequence of operations, every bounded schedule of two concurrent operations, every crash image, every failing file operation while opening and every foreign file, with an account of open files, mappings, threads and memory kept by the runtime; bounded patterns of operations repeated until memory has stopped growing",
 "Tests end before a leak of descriptors or memory matters and look at neither; which paths drop a shard's files depends on splits, merges, compactions and failures.",
 ["store.rs","router.rs","shard.rs"],[("replaced shards","router.rs: split_shard, merge_small_shards, clear; shard.rs: background_compact"),("compaction threads","shard.rs: CompactionThreadPool"),("locks by key","store.rs: keyed_locks")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
