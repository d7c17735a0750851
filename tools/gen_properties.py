import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x,meaning=x,where=', '.join(files[:3])) for x in state],observe_at=obs,hook_needed=(hook or None))))
trees=["src/avl_tree","src/red_black_tree","src/splay_tree","src/treap","src/skiplist"]
p("C01","Ordered in-memory maps and sets behave as one sorted finite map",
 "For every history of operations, each of the five ordered map types (AVL, red-black, splay, treap, skip list) and their set counterparts answers every call exactly as a sorted finite map/set would: insertion returns the previous pair and stores the new key and value, removal returns the stored pair, and lookup, mutable lookup, indexing, length, emptiness, floor, ceiling, minimum, maximum and clear all reflect exactly the entries inserted and not removed. A call never changes an entry other than the one it names, and lookups through a borrowed form of the key agree with lookups by the key itself.",
 ["histories","inputs"],"every finite sequence of insert/remove/clear/lookup/mutation calls, every key and value, every tree or tower shape those sequences reach",
 "The unit tests drive a handful of keys and one random insert-then-remove sweep; they never enumerate the shapes, so a rebalancing or splicing case that loses or misplaces an entry only for one shape passes.",
 [f+"/tree.rs" for f in trees[:4]]+[f+"/map.rs" for f in trees]+[f+"/set.rs" for f in trees],
 [("AVL insert/remove with rotations","src/avl_tree/tree.rs"),("left-leaning red-black insert/remove with colour flips","src/red_black_tree/tree.rs"),("top-down splay","src/splay_tree/tree.rs"),("treap merge/split by priority","src/treap/tree.rs"),("skip list tower splice","src/skiplist/map.rs")],
 ["set of stored pairs","entry count"],["return value of every public call","len/is_empty","floor/ceil/min/max for every probe key"])
p("C02","Iterating an ordered map or set yields each entry once, in order",
 "Shared, mutable and consuming iteration over an ordered map or set yields every stored entry exactly once in ascending key order and then stays exhausted, whatever operations built the collection. Values written through mutable iteration are the values later lookups return, keys are never changed by it, and stopping an iteration early leaves a borrowed collection intact and, for a consumed collection, releases the rest.",
 ["histories","inputs"],"every collection content and internal shape, every point at which an iteration is abandoned",
 "The tests iterate fully over three entries; they do not cover all shapes, abandonment points or write-through on larger shapes.",
 [f+"/map.rs" for f in trees]+[f+"/set.rs" for f in trees],
 [("stack-based in-order traversal","src/avl_tree/map.rs AvlMapIter/IterMut/IntoIter and the same in red_black_tree, splay_tree, treap"),("level-0 link walk","src/skiplist/map.rs SkipMapIter/IterMut/IntoIter")],
 ["remaining entries of an iteration"],["items produced by iter/iter_mut/into_iter","contents after the iteration"])
p("C03","Balanced trees keep their promised search cost",
 "In a balanced tree holding n entries no lookup visits more nodes than the height bound of its kind: the minimum-node height bound of an AVL tree (about 1.44 log2 n) and 2 log2(n+1) for a red-black tree, after every history of insertions and removals. Splay trees keep logarithmic amortised cost for the operations that restructure them (insert, remove, mutable lookup), and treaps and skip lists keep lookups and updates logarithmic up to a constant factor on histories chosen without knowledge of their random choices, at keyed and at positional access, however the collections were put together.",
 ["histories","inputs"],"every history of insertions and removals, including sorted, reversed, alternating and adversarial removal orders, at every size",
 "No test measures cost or depth; a dropped rotation, colour flip, splay case or priority comparison keeps every answer correct while the tree degenerates.",
 ["src/avl_tree/tree.rs","src/avl_tree/node.rs","src/red_black_tree/tree.rs","src/red_black_tree/node.rs","src/splay_tree/tree.rs","src/treap/tree.rs","src/treap/node.rs","src/skiplist/map.rs"],
 [("AVL balance after insert/remove","src/avl_tree/tree.rs balance"),("LLRB fix-up","src/red_black_tree/tree.rs"),("splay zig-zig/zig-zag","src/splay_tree/tree.rs splay"),("heap order on priorities","src/treap/tree.rs merge/split"),("random tower height","src/skiplist/map.rs")],
 ["tree shape, heights, colours, priorities, tower heights"],["number of key comparisons made by a call (counting key type)"])
p("C04","Set algebra and splitting return exactly the set-theoretic result",
 "For any two treap or skip list maps or sets, union, intersection, difference and symmetric difference (as methods and as operators) contain exactly the keys set theory prescribes, each with a pair that one of the operands held, with the left operand's pair winning for keys both hold. Splitting a treap map or set at a key keeps the entries below the key (and the key itself when asked) on one side and returns the rest, losing and duplicating nothing. The results are ordinary collections: every later operation on them behaves as if they had been built by insertion.",
 ["histories","inputs"],"every pair of operand contents and internal random choices, every split key, inclusive or not, and every later history on the result",
 "The tests use two three-element operands; they cannot cover all interleavings of the two key sequences, exhaustion orders, or the usability of the result.",
 ["src/treap/tree.rs","src/treap/map.rs","src/treap/set.rs","src/skiplist/map.rs","src/skiplist/set.rs"],
 [("recursive treap union/intersection/subtract/split","src/treap/tree.rs"),("two-way merge of level-0 chains rebuilding towers","src/skiplist/map.rs union/intersection/difference/symmetric_difference")],
 ["contents of operands and of the result"],["iteration, length and lookups on the result and on both halves of a split"])
p("C05","Positional lists behave as a mutable sequence",
 "For every history, a treap list or skip list list behaves as a finite sequence: insertion and removal at any valid position shift the later elements by one, pushes and pops act at the ends, indexed reads and writes address exactly one element, length counts the elements, and concatenation yields the first list followed by the second. Iteration in any form yields the elements in position order, and lists produced by concatenation keep obeying the same rules.",
 ["histories","inputs"],"every sequence of positional operations, concatenations, clears and iterations, every length and random internal shape",
 "The tests use a few elements at fixed positions; position bookkeeping (subtree sizes, link distances) can go stale without any short test noticing.",
 ["src/treap/list.rs","src/treap/implicit_tree.rs","src/treap/node.rs","src/skiplist/list.rs"],
 [("implicit-key merge/split with subtree sizes","src/treap/implicit_tree.rs"),("link distances maintained by insert/remove/add","src/skiplist/list.rs")],
 ["sequence of elements"],["return values, indexed reads of every position, iteration, length"])
p("C06","Radix maps and sets behave as a map over byte strings",
 "For every history and all byte-string keys, including the empty string, keys that are prefixes of other keys, and keys with arbitrary byte values, a radix map or set answers insertion, removal, lookup, mutable lookup, indexing, length, minimum, maximum and clear exactly as a map ordered lexicographically by bytes would. Iteration in any form yields every key, reconstructed in full, with its value exactly once in lexicographic order.",
 ["histories","inputs"],"every sequence of insertions and removals over all byte strings, every edge split and merge those cause",
 "The tests use a few hand-picked words; edge splitting, path merging and empty-key cases combine in more ways than they sample.",
 ["src/radix/tree.rs","src/radix/node.rs","src/radix/map.rs","src/radix/set.rs"],
 [("edge split on insert, merge on removal","src/radix/tree.rs"),("sibling list keyed by first byte","src/radix/node.rs")],
 ["set of (key, value)"],["return values, min/max/len, iteration"])
p("C07","Radix longest-prefix queries return exactly the best-matching keys",
 "A longest-prefix query returns exactly the stored keys that share the longest prefix with the query among all stored keys, in lexicographic order. When no stored key shares even the first byte with a non-empty query the result holds only the empty key if that is stored and is empty otherwise, and the empty query returns every key.",
 ["histories","inputs"],"every stored key set reached by every history of insertions and removals, every query string including ones diverging inside an edge, past a leaf, or at a node",
 "Two example queries exist; divergence positions relative to compressed edges are not enumerated.",
 ["src/radix/tree.rs","src/radix/map.rs","src/radix/set.rs"],
 [("longest-prefix descent and subtree push","src/radix/tree.rs get_longest_prefix/push_all_children")],
 ["set of stored keys"],["get_longest_prefix of maps and sets"])
p("C08","Arena handles address exactly their own live value",
 "A handle returned by an allocation reads and writes that allocation's value, and only that value, until it is freed; freeing returns the value, and no two live allocations ever share a slot, for every chunk size and every order of allocations and frees. A freed handle reads as absent until its slot is reused, slots freed are reused before storage grows, and handles outside the arena read as absent.",
 ["histories","inputs","configurations"],"every interleaving of allocate/free/read/write/index calls, every chunk size of at least one",
 "The tests free and reuse one or two slots; free-list order and chunk boundaries are not enumerated.",
 ["src/arena.rs"],[("intrusive free list threaded through vacant blocks","src/arena.rs allocate/free"),("chunk growth when full","src/arena.rs allocate")],
 ["live handles and their values","vacant slots"],["value read through every live handle after every call","equality/distinctness of live handles"])
p("C09","The concurrent stack is linearizable",
 "Every concurrent history of pushes and pops on a shared stack is equivalent to a sequential last-in-first-out history consistent with real-time order: no element is lost, duplicated or invented, and a pop reports empty only if the stack was empty at some moment during the call. When no call is in progress the reported length equals the number of elements, during calls it never differs from it by more than the calls in progress, and it never wraps around. The stack is lock-free: calls finish however long other calls are suspended midway.",
 ["schedules","histories"],"every interleaving of any number of threads' push, pop and length calls",
 "The one threaded test checks totals after joining; it does not check order, emptiness answers or intermediate lengths, and covers only the schedules the OS happens to produce.",
 ["src/sync/stack.rs"],[("Treiber push/pop by compare-and-set on the head under an epoch guard","src/sync/stack.rs push/try_pop"),("length counter updated beside the compare-and-set","src/sync/stack.rs")],
 ["sequence of elements","length counter"],["call and return of push/try_pop/len/is_empty in every thread"])
p("C10","Every stored element is released exactly once and never early",
 "Every key or value handed to an in-memory collection is, at any time, either still held by it, or returned to the caller, or destroyed exactly once: removal, replacement, popping and consuming iteration hand over or destroy exactly the elements concerned, clearing destroys exactly the remaining ones at once, set algebra, splitting and concatenation transfer or destroy each operand element once, and dropping a collection (or a partly consumed owning iterator) destroys exactly what it still holds. Nothing is leaked, destroyed twice, or destroyed while still reachable, also when threads share a stack.",
 ["histories","schedules","inputs"],"every history of operations on every in-memory container, every partial consumption point of owning iterators, every thread schedule for the stack",
 "Tests use plain integers, whose destruction is invisible; leaks and double drops pass every existing assertion.",
 ["src/skiplist/map.rs","src/skiplist/list.rs","src/sync/stack.rs","src/arena.rs","src/treap","src/avl_tree","src/red_black_tree","src/splay_tree","src/radix"],
 [("manual node deallocation in skip lists","src/skiplist/map.rs, src/skiplist/list.rs"),("epoch-deferred node reclamation","src/sync/stack.rs"),("unboxing on removal and consuming iteration","src/*/tree.rs, src/*/map.rs")],
 ["multiset of elements owned by each collection"],["destructor calls of instrumented elements during each call"])
p("C11","The on-disk B+ tree behaves as a sorted finite map at every node capacity",
 "For every history and every permitted choice of leaf capacity (one or more) and internal capacity (two or more), the on-disk B+ tree map answers insertion, removal, lookup, minimum, maximum, length, emptiness, clear and ordered iteration exactly as a sorted finite map would, for keys and values of any serializable type whose encoding fits the declared sizes, including encodings of exactly the declared size.",
 ["histories","inputs","configurations"],"every history of operations, every node capacity, fixed- and variable-size key and value encodings up to the declared maximum",
 "The tests use capacity three and a few sizes with integer keys; the split, borrow-left, borrow-right and merge cases multiply with capacity parity and tree height.",
 ["src/bp_tree/map.rs","src/bp_tree/node.rs","src/bp_tree/pager.rs"],
 [("leaf/internal split on insert","src/bp_tree/node.rs insert, src/bp_tree/map.rs insert"),("borrow/merge on remove","src/bp_tree/map.rs remove"),("page layout","src/bp_tree/pager.rs")],
 ["set of stored pairs","tree of pages"],["Result of every call, full ordered iteration"])
p("C12","A B+ tree file reopened after any operation holds the same map",
 "When the process stops using, or is killed, between any two completed calls on an on-disk B+ tree, opening its file again yields a map with exactly the entries, length, sizes and capacities it had after the last completed call, without any explicit flush, and that map continues to satisfy every map guarantee, including reuse of space freed before.",
 ["histories","crash_points","configurations"],"every history, every point between two completed operations at which the file is closed, the process killed, or the file reopened, any number of times",
 "No test reopens a file except trivially; header fields (length, root, free list) that are stale on disk while correct in memory are invisible without reopening.",
 ["src/bp_tree/pager.rs","src/bp_tree/map.rs"],
 [("write-through of pages and header","src/bp_tree/pager.rs write_node/set_len/set_root_page/allocate_node/deallocate_node"),("open","src/bp_tree/pager.rs open")],
 ["file contents: header, pages, free list"],["contents and behaviour of the reopened map"])
p("C13","B+ tree files reuse freed space and stay proportional to their contents",
 "The file of an on-disk B+ tree never grows beyond what the largest number of entries it ever held at one time since it was last cleared needs at minimum node occupancy, no matter how many insertions and removals happened or how often it was reopened. Clearing returns the file to its initial size.",
 ["histories","configurations"],"every history of insertions, removals, clears and reopenings at every node capacity",
 "No test looks at the file size; leaked pages or a lost free list are invisible to lookups.",
 ["src/bp_tree/pager.rs","src/bp_tree/map.rs","src/bp_tree/node.rs"],
 [("free-page list","src/bp_tree/pager.rs allocate_node/deallocate_node"),("merge deallocates a page, root collapse","src/bp_tree/map.rs remove"),("truncate","src/bp_tree/pager.rs clear")],
 ["allocated pages, free pages"],["length of the file after every call"])
p("C14","The log-structured map answers like a plain map under any compaction",
 "For both compaction strategies, every configuration, and every timing of background compaction relative to the caller, lookups return the value of the most recent insertion of a key not followed by its removal, and nothing for keys never inserted or removed since: no flush, compaction, bucket or level merge or tombstone purge ever loses the newest value, resurrects an older or removed one, or hides a key. Clear empties the map for good.",
 ["schedules","histories","configurations"],"every history of insert/remove/get/flush/clear calls, all strategy parameters, every interleaving of the compaction thread with the caller",
 "Tests insert keys in order and read them back; they never overwrite and remove across several flushes while a compaction is in flight, so version ordering and tombstone rules are unexercised.",
 ["src/lsm_tree/map.rs","src/lsm_tree/sstable.rs","src/lsm_tree/compaction/size_tiered.rs","src/lsm_tree/compaction/leveled.rs"],
 [("newest version by logical time","src/lsm_tree/compaction/*.rs get and merge iterators"),("tombstone purge rule","src/lsm_tree/compaction/size_tiered.rs compact, leveled.rs compact"),("snapshot/replace of table metadata around a background compaction","src/lsm_tree/compaction/*.rs try_replace_metadata"),("bloom filter, index blocks","src/lsm_tree/sstable.rs")],
 ["in-memory tree, tables with key and time ranges, levels, pending compaction result"],["results of get/contains_key for every key after every call"])
p("C15","Ordered views of the log-structured map match its contents",
 "Iteration over a log-structured map yields exactly the live entries at the moment it was created, once each, in ascending key order, whatever insertions, removals and flushes happen while it is being consumed; exact length, emptiness, minimum and maximum agree with that same content, and the length hint is never below the exact length. None of these calls changes the contents.",
 ["histories","schedules","configurations"],"every content spread over memory, tables, buckets and levels with overwritten and removed keys, every operation sequence between creating and consuming an iterator",
 "Tests iterate over freshly inserted distinct keys only; duplicates and tombstones across tables and mutation during iteration are not covered.",
 ["src/lsm_tree/map.rs","src/lsm_tree/compaction/size_tiered.rs","src/lsm_tree/compaction/leveled.rs","src/lsm_tree/sstable.rs"],
 [("k-way merge iterators dropping stale versions and tombstones","SizeTieredIter, LeveledIter"),("metadata lock held by live iterators","metadata_lock_count")],
 ["tables visible to an iterator"],["items of iter, len, len_hint, is_empty, min, max"])
p("C16","Flushed data survives closing and reopening the log-structured map",
 "After a flush returns, closing and reopening the store yields exactly the contents it had at the flush; with further unflushed operations, reopening yields the contents after some prefix of the operations issued since, never fewer than those flushed and never a mixture. The reopened store continues from there with all other guarantees, including that later writes win over all earlier ones, and this holds for a store opened before anything was written and for any number of reopenings.",
 ["histories","schedules","configurations"],"every history of operations, flushes, and close/reopen cycles, with a compaction running or not when the store is closed",
 "No test reopens a store holding data and keeps using it; logical-time, configuration and table metadata persistence is untested.",
 ["src/lsm_tree/map.rs","src/lsm_tree/sstable.rs","src/lsm_tree/compaction/size_tiered.rs","src/lsm_tree/compaction/leveled.rs"],
 [("metadata and logical-time files rewritten on change","src/lsm_tree/compaction/*.rs"),("open","SizeTieredStrategy::open, LeveledStrategy::open, SSTable::new")],
 ["flushed contents, unflushed suffix"],["contents of the reopened map"])
p("C17","A process kill at any point leaves the log-structured map consistent",
 "If the process is killed at any instant, in the middle of an insertion, removal, flush, clear or background compaction, the store can be opened again and holds the contents after some prefix of the issued operations that includes everything completed before the last completed flush; an operation in progress is either wholly applied or not at all. Nothing older than that reappears and the reopened store remains fully usable.",
 ["crash_points","histories","schedules","configurations"],"every file-system call at which the process can be killed, in every history, with or without a compaction in flight",
 "No test kills a process; the ordering of table files, metadata rewrite and deletion of obsolete tables is only observable across a kill.",
 ["src/lsm_tree/sstable.rs","src/lsm_tree/compaction/size_tiered.rs","src/lsm_tree/compaction/leveled.rs","src/lsm_tree/map.rs"],
 [("write table, then metadata, then delete obsolete tables","try_compact, try_replace_metadata, clear"),("logical time persisted before use","get_and_increment_logical_time")],
 ["files on disk at each system call"],["contents after reopening following a kill at the k-th mutating system call"])
p("C18","Compaction reclaims the space of overwritten and removed entries",
 "In the absence of live iterators, of kills, and of closing without a flush, once a flush has returned the store's directory holds no table that compaction has replaced and no partly built one, so the number of tables stays within the bound its configuration sets for the number of distinct keys, however often those keys are overwritten, removed and reinserted. Clearing removes every table.",
 ["histories","configurations","schedules"],"every long history over a bounded key set, for both strategies and all parameters",
 "Tests never look at the directory; unreclaimed tables, an untriggered compaction or leaked directories do not change answers.",
 ["src/lsm_tree/compaction/size_tiered.rs","src/lsm_tree/compaction/leveled.rs","src/lsm_tree/map.rs"],
 [("compaction trigger","get_compaction_range, max_sstable_count test, should_merge"),("removal of replaced table directories","try_replace_metadata")],
 ["table directories on disk"],["directory listing after each flush and clear"])
p("C19","Invalid requests are refused and leave the collection unchanged",
 "Requests the documentation excludes (list positions beyond the end, popping from or indexing an empty list, indexing a map by an absent key, freeing an unknown or already freed arena handle, inserting a key or value larger than a B+ tree was created for) are refused by a panic, and a bounded read of an invalid position or handle reports absence instead. After such a refusal the collection holds exactly what it held before and keeps working.",
 ["histories","inputs"],"every reachable collection state and every out-of-contract argument",
 "Tests check a few panics on tiny collections and never look at the collection afterwards.",
 ["src/treap/list.rs","src/treap/implicit_tree.rs","src/skiplist/list.rs","src/arena.rs","src/bp_tree/pager.rs","src/bp_tree/map.rs","src/radix/map.rs","src/avl_tree/map.rs","src/red_black_tree/map.rs","src/splay_tree/map.rs","src/treap/map.rs","src/skiplist/map.rs"],
 [("range assertions","src/skiplist/list.rs insert/remove, src/treap/implicit_tree.rs"),("handle validation","src/arena.rs free/get"),("size validation before any write","src/bp_tree/pager.rs validate_key/validate_value")],
 ["collection contents before and after the refused call"],["panic or absence result, then full contents"])
p("C20","Failed file operations cost the log-structured map nothing it had accepted",
 "If a file operation made by a call on a log-structured map or by its compaction thread fails (disk full, read or write error), the call returns an error instead of panicking or answering wrongly, or the compaction is abandoned. Every operation accepted before stays visible, everything flushed before survives closing, reopening and a kill, and the failed call's own change is applied entirely or not at all (a failed clear may have dropped any of the entries). Once the fault is gone every call works again and compaction resumes, so the number of tables returns to its bound.",
 ["fault_sequences","histories","schedules","configurations"],"every failing file operation (directory or file creation, table write, metadata write, logical time, removal, read) at every point of every history, in the foreground or in the compaction thread, once or for a while",
 "No test makes a file operation fail; what an error leaves behind in memory and on disk shows only in what later calls, reopenings and compactions do.",
 ["src/lsm_tree/map.rs","src/lsm_tree/sstable.rs","src/lsm_tree/compaction/size_tiered.rs","src/lsm_tree/compaction/leveled.rs"],
 [("memory table kept until its SSTable is accepted","src/lsm_tree/map.rs try_compact"),("metadata in memory follows the file","try_compact, try_replace_metadata, clear of the strategies"),("abandoned compactions reset the compacting flag","is_compacting in the strategies")],
 ["memory table, table metadata in memory and on disk, compacting flag"],["results and errors of calls while files fail, contents afterwards, after reopening and after a kill, number of tables read"])
p("C21","A panic in an element's own code never makes a collection memory-unsafe",
 "When an element's own code panics during a call on an in-memory ordered map, set or list (a comparison of keys, the destructor of a key or value), the call may lose elements of the collections it worked on, but no element is ever destroyed twice, reached or handed out after its destruction, held in two places, or read from freed memory. The collections that were part of such a call stay safe to use, clear, consume and drop in every way, however often this happens, and collections that were not part of it keep exactly what they held.",
 ["fault_sequences","histories","inputs"],"every comparison and every destructor call of every operation on ordered maps, sets and lists, followed by every further history of operations, with every tower height",
 "No test has elements that panic; a double free or a dangling link left by a broken-off call shows only when the collection is used or dropped afterwards.",
 ["src/skiplist/map.rs","src/skiplist/set.rs","src/skiplist/list.rs","src/treap","src/avl_tree","src/red_black_tree","src/splay_tree"],
 [("nodes unlinked before elements are destroyed","src/skiplist/map.rs clear, src/skiplist/list.rs clear"),("set operations move nodes one at a time","src/skiplist/map.rs union, intersection, map_difference"),("an element is moved out only with its last link","src/skiplist/map.rs insert, remove")],
 ["links of every level","elements alive, moved out, destroyed"],["destructor calls and contents of all collections after a call was broken off and later"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title'])); print(x['id'],len(x['title']),x['statement'].count('. ')+1)
