#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("G01", "Ordering helpers return the right side of the order",
  "For every total order given by the natural '<' or by a caller's less function, the three-way comparison is -1, 1 or 0 exactly when the first argument is below, above or neither; Max/Min return one of their arguments that is not below/above the other; and Clamp with lo not above hi returns x if it lies within the bounds, otherwise the bound it crossed. The function-taking variants return lo when x is below lo, hi when x is above hi, and x itself in all other cases, ties included.",
  ["inputs"], "all values of the element type and all strict weak orders", "The examples evaluate a handful of ints; ties and order-equivalent but distinct values are never exercised.",
  ["generic.go"], [("Compare/Max/Min/Clamp and *Func", "generic.go")], ["return values of the exported helpers"])
p("G02", "Integer hashes never collide; hashes respect equality",
  "Each hash function for a fixed-width integer type is deterministic and maps two different integers of that type to two different 64-bit hashes. Hashing a string equals hashing the byte slice with the same bytes, so equal keys always hash alike.",
  ["inputs"], "all pairs of integers of each width, all strings", "The tests use the hashes only through small maps; 2^64 inputs cannot be sampled.",
  ["generic.go"], [("hash finaliser and HashX wrappers", "generic.go")], ["HashUint64..HashInt, HashString, HashBytes"])
p("A01", "2D array cells are independent for every shape",
  "In an array of any width and height every in-range cell is its own storage: reading a cell returns the last value written to it by Set or by a Fill whose inclusive rectangle (corners given in any order) contains it, otherwise its initial value (zero, or the fill value of the filled constructor), and writes touch no other cell. Get, Set, Fill, Row and RowSpan with an out-of-range coordinate panic and change nothing.",
  ["inputs", "histories"], "all widths, heights, coordinates and write sequences", "Tests use a few square arrays and one fill.",
  ["array2d/array2d.go"], [("row-major addressing", "array2d/array2d.go getUnchecked/setUnchecked/Fill"), ("doubling copy fill", "array2d/array2d.go fill")], ["New", "NewFilled", "Get", "Set", "Fill", "Width", "Height"])
p("A02", "2D array rows, copies and jagged input map cells exactly",
  "A row slice or row-span slice (end points inclusive, in either order) has exactly the cells of that row in x order and shares storage with the array; building from jagged rows places each given value at its row and column and ignores values outside the bounds. A copy has equal cells and dimensions and shares no storage with the original.",
  ["inputs", "histories"], "all shapes, spans, jagged inputs", "One 5x5 span and one row are tested; jagged input with extra rows, non-square shapes and copies are not.",
  ["array2d/array2d.go"], [("Row/RowSpan slicing", "array2d/array2d.go"), ("OfJagged/Copy", "array2d/array2d.go")], ["Row", "RowSpan", "OfJagged", "Copy"])
p("V01", "AVL tree is an ordered map under any history",
  "After any sequence of puts and removes, looking up a key returns the value most recently put for an order-equivalent key that has not been removed since, and reports absence otherwise; the size is the number of live keys. In-order iteration visits each live entry exactly once in strictly increasing key order.",
  ["inputs", "histories"], "all keys, all strict weak orders, all operation sequences", "The cross-check test samples random ints against a Go map with one ordering, never checks size or iteration order, and not order-equivalent keys.",
  ["avl/avl.go"], [("recursive insert/remove with rotations", "avl/avl.go node.add/remove/rebalanceTree")], ["Put", "Get", "Remove", "Each", "Size"])
p("V02", "AVL tree stays balanced; reported height is exact",
  "After any sequence of puts and removes the reported height is the exact number of levels of the tree and stays logarithmic: a tree of height h holds at least as many entries as the sparsest AVL tree of height h (N(0)=0, N(1)=1, N(h)=N(h-1)+N(h-2)+1).",
  ["inputs", "histories"], "all operation sequences", "No test looks at the height.",
  ["avl/avl.go"], [("rebalancing on the way up", "avl/avl.go rebalanceTree/rotateLeft/rotateRight/recalculateHeight")], ["Height", "Size"])
p("B01", "Bidirectional map is always a bijection",
  "After any sequence of operations the forward and reverse lookups are exact inverses: key k maps to value v forwards if and only if v maps to k in reverse, and the length and iteration agree with that relation. Adding a pair makes exactly that pair present and drops only the pairs that shared its key or its value; removals by key or value drop exactly that pair, and a copy or a map built from a Go map with distinct values holds the same pairs independently.",
  ["inputs", "histories"], "all key/value types with reflexive equality, all operation sequences", "Tests add three pairs without any collisions.",
  ["bimap/bimap.go"], [("paired deletes on collision", "bimap/bimap.go Add"), ("two indexes", "bimap/bimap.go")], ["Add", "RemoveForward", "RemoveReverse", "GetForward", "GetReverse", "Len", "Each", "Clear", "Copy", "Of"])
p("T01", "B-tree is an ordered map under any history",
  "After any sequence of puts and removes, looking up a key returns the value most recently put for an order-equivalent key that has not been removed since, and reports absence otherwise, however often nodes have split or keys were removed and re-inserted. Size is the number of live keys (overwriting does not change it), and iteration visits each live entry exactly once in strictly increasing key order.",
  ["inputs", "histories"], "all keys, all strict weak orders, all operation sequences", "The cross-check samples random ints and never checks size or iteration order.",
  ["btree/btree.go"], [("recursive insert and node split", "btree/btree.go insert/split"), ("tombstones", "btree/btree.go Remove")], ["Put", "Get", "Remove", "Each", "Size"])
p("T02", "B-tree nodes stay at least half full and the tree shallow",
  "After any history of puts and removes a B-tree holds one entry for each distinct key ever put (a removed key keeps its place), every node except the root uses at least half of its 64 slots, a root that is not a leaf has at least two children, and all leaves lie on the same level. So a tree over n such keys is a single node or has at most 1 + log32(n/2) levels, whatever the order of the operations, and every lookup, insertion and removal descends through one node per level.",
  ["inputs", "histories"], "all keys, orders and operation sequences", "Tests put a few keys at random and never look at a node; an uneven split leaves their results unchanged.",
  ["btree/btree.go"], [("splitting a full node, growing a new root", "btree/btree.go insert/split/Put")], ["Put", "Remove", "Get"])
p("C01", "Cache is an exact LRU bounded by its capacity",
  "The cache never holds more entries than its capacity (capacity zero stores nothing); a put of a new key into a full cache evicts exactly the least recently used entry, where a successful get and any put count as uses, and shrinking evicts least recently used entries first until the cache fits. Lookups return the latest value put for a key still present, iteration goes from most to least recently used, and the eviction callback is invoked once per capacity eviction with that entry's key and value, while the entry can still be looked up, and at no other time.",
  ["inputs", "histories"], "all keys, non-negative capacities, operation sequences; the callback may look up entries of the cache (which counts as use) but does not put, remove or resize", "One example with two evictions is tested; resize, callbacks and re-puts are not.",
  ["cache/cache.go", "list/list.go"], [("recency list plus table", "cache/cache.go"), ("node unlink/push front", "list/list.go")], ["Get", "Put", "Remove", "Resize", "Size", "Capacity", "Each", "SetEvictCallback"])
p("H01", "Hash map is a map for any hash function",
  "For any key equality and any hash function consistent with it, however badly it collides, after any sequence of puts, removes and clears a lookup returns the value most recently put for an equal key that has not been removed since, and reports absence otherwise. Size is the number of live keys, iteration visits each live entry exactly once, and every operation terminates.",
  ["inputs", "histories"], "all keys, hash functions, initial capacities and operation sequences", "Tests use one good hash; wrap-around collision chains at deletion and resize are reached only by chance.",
  ["hashmap/map.go"], [("linear probing and re-put on delete", "hashmap/map.go Get/Put/Remove"), ("growth and shrink", "hashmap/map.go resize")], ["New", "Get", "Put", "Remove", "Clear", "Size", "Each"])
p("H02", "Hash map copies never observe each other's writes",
  "A copy of a hash map, or of a hash set, holds the same entries as the original at the time of copying, and afterwards no operation on either of them (put, overwrite, remove, clear, further copying) changes what any other copy reports.",
  ["inputs", "histories"], "all interleavings of operations on any number of copies", "One copy with one put sequence is tested; clear and remove on shared copies are not.",
  ["hashmap/map.go", "hashset/set.go"], [("copy-on-write flag", "hashmap/map.go Copy/Put/Remove/Clear")], ["Copy", "Get", "Put", "Remove", "Clear", "Each", "Size"])
p("S01", "Hash set is exactly a set",
  "After any sequence of puts, removes and clears a hash set contains exactly the values put and not removed since (up to the given equality), whatever the hash function; its size is their number, iteration visits each exactly once, and a set built from a list contains exactly the listed values.",
  ["inputs", "histories"], "all element types, hash functions and operation sequences", "The cross-check samples random ints with one hash.",
  ["hashset/set.go", "hashmap/map.go"], [("delegation to the hash map", "hashset/set.go")], ["New", "Of", "Put", "Has", "Remove", "Clear", "Size", "Each"])
p("P01", "Heap always yields a minimum and loses nothing",
  "For any strict weak order, peek and pop return an element that no other stored element is below, and pop removes exactly that one element; on an empty heap both report absence. The stored multiset is exactly what was pushed (or given initially) minus what was popped, and size is its cardinality.",
  ["inputs", "histories"], "all element multisets, orders (ties included) and operation sequences", "Tests sort random int slices; ties, arbitrary orders and all shapes are not covered.",
  ["heap/heap.go"], [("sift up / sift down", "heap/heap.go up/down"), ("heapify", "heap/heap.go FromSlice")], ["New", "From", "FromSlice", "Push", "Pop", "Peek", "Size"])
p("I01", "Interval tree is an ordered map keyed by start",
  "After any sequence of operations the tree holds exactly one interval per live start position: add leaves an existing interval unchanged and returns it, put replaces it and returns the old one, remove deletes and returns it, and get finds it with its end and value. Size counts the live intervals, iteration visits each exactly once in increasing start order, and an interval whose start exceeds its end is rejected by a panic.",
  ["inputs", "histories"], "all totally ordered bounds (no NaN), all operation sequences", "The cross-check samples random ints; add conflicts and size are barely covered.",
  ["interval/itree.go"], [("insert/remove with rotations", "interval/itree.go")], ["Add", "Put", "Get", "Remove", "Each", "Size"])
p("I02", "Overlap queries return exactly the overlapping intervals",
  "A query for [low,high) returns, in increasing start order and each exactly once with its current end and value, precisely the stored intervals whose start is below high and whose end is above low, after any history of adds, puts and removes.",
  ["inputs", "histories"], "all interval sets and query ranges", "Random sampling with ints only; stale subtree bounds after rotations and removals are reached only by chance.",
  ["interval/itree.go"], [("subtree maximum augmentation and pruning", "interval/itree.go updateMax/overlaps")], ["Overlaps"])
p("I03", "Interval tree stays balanced; reported height is exact",
  "After any sequence of operations the reported height is the exact number of levels of the interval tree and stays logarithmic: a tree of height h holds at least as many intervals as the sparsest AVL tree of height h (N(0)=0, N(1)=1, N(h)=N(h-1)+N(h-2)+1).",
  ["inputs", "histories"], "all operation sequences", "No test looks at the height.",
  ["interval/itree.go"], [("rebalancing on the way up", "interval/itree.go rebalanceTree")], ["Height", "Size"])
p("L01", "Doubly-linked list links are always consistent",
  "After any sequence of pushes, insertions before or after a member node, and removals of member nodes, walking forward from the front and backward from the back visit exactly the same nodes in opposite orders, ending at the other end. Each operation changes that sequence exactly as its name says: new elements appear at the named place, a removed node disappears, and everything else keeps its order and value.",
  ["inputs", "histories"], "all lists and member nodes, all operation sequences", "One example pushes four values; node insertion, removal at the ends and backward walks are barely tested.",
  ["list/list.go"], [("link updates", "list/list.go")], ["PushBack", "PushFront", "PushBackNode", "PushFrontNode", "InsertAfter", "InsertBefore", "Remove", "Each", "EachReverse", "EachNode", "EachReverseNode"])
p("M01", "Map-backed set is exactly a set",
  "After any sequence of puts, removes and clears the set contains exactly the values put and not removed since; its size is their number, iteration visits each exactly once, and a set built from a list contains exactly the listed values.",
  ["inputs", "histories"], "all comparable element types with reflexive equality, all operation sequences", "The cross-check samples random ints.",
  ["mapset/set.go"], [("delegation to a Go map", "mapset/set.go")], ["New", "Of", "Put", "Has", "Remove", "Clear", "Size", "Each"])
p("U01", "All four multimaps keep exact entry counts and contents",
  "For each of the four multimap constructors, after any sequence of puts, removes, remove-alls and clears the values listed for a key are exactly the live entries of that key (a bag for the two slice-based kinds, a set in increasing order for the two set-based kinds); removing deletes at most one entry and removing an absent entry changes nothing. Size is the total number of entries, dimension the number of keys with at least one entry, count and has agree with the listing, and both iterations cover exactly the live entries, with keys increasing for the sorted-key kinds.",
  ["inputs", "histories"], "all keys, values and operation sequences for each of the four kinds", "One fixed script of about twenty operations is run per kind.",
  ["multimap/avl.go", "multimap/map.go", "multimap/values.go", "multimap/multimap.go", "avl/avl.go"], [("size bookkeeping", "multimap/avl.go, multimap/map.go Put/Remove/RemoveAll"), ("value containers", "multimap/values.go")], ["Dimension", "Size", "Count", "Has", "Get", "Put", "Remove", "RemoveAll", "Clear", "Each", "EachAssociation"])
p("O01", "Persistent rope behaves like a sequence",
  "For all in-range positions, a persistent rope's length, value, slice, element access, insert, remove, split, join, rebalance and rebuild give exactly the results of the same operation on the plain sequence it represents, whatever the tree shape and the (positive) split and join thresholds.",
  ["inputs", "histories", "configurations"], "all sequences, positions, tree shapes and thresholds", "Tests compare random edits of one byte string at the default thresholds.",
  ["prope/prope.go"], [("recursive edits and leaf/node adjustment", "prope/prope.go")], ["New", "Len", "Value", "Slice", "At", "Insert", "Remove", "SplitAt", "Join", "Rebalance", "Rebuild"])
p("O02", "Old versions of a persistent rope never change",
  "Every rope version obtained from a persistent rope keeps its contents for ever: no later operation on that version or on any other version (insert, remove, split, join, slice, rebalance, rebuild) changes what the earlier version reports. Slices returned to the caller are fresh, so writing to them changes no rope.",
  ["inputs", "histories"], "all version trees and operation sequences", "The persistence test keeps a few versions of one short history.",
  ["prope/prope.go"], [("path copying, no in-place leaf edits", "prope/prope.go Insert/Remove/insert/remove")], ["Value", "Slice", "At", "Len"])
p("Q01", "Queue is exactly first-in first-out",
  "After any sequence of operations the queue holds, in order, exactly the items enqueued and not yet dequeued: dequeue and peek (in plain, try and all variants) return the oldest items first, length and emptiness agree with the contents, and dequeuing or peeking an empty queue panics or reports absence. Clearing empties it, and a copy or a queue built from a slice has the same items in order and is independent of its source.",
  ["inputs", "histories"], "all operation sequences", "Table tests use a few fixed short queues.",
  ["queue/queue.go", "list/list.go"], [("linked list plus length counter", "queue/queue.go")], ["Enqueue", "Dequeue", "TryDequeue", "DequeueAll", "Peek", "TryPeek", "PeekAll", "Len", "Empty", "Clear", "Copy", "Each", "Of"])
p("R01", "Rope behaves like a sequence",
  "For all in-range positions, a rope's length, value, slice, element access, insert, remove, split, join, leaf iteration, rebalance and rebuild give exactly the results of the same operation on the plain sequence it represents, whatever the tree shape and the (positive) split and join thresholds. In-place edits of one rope never disturb a rope that is the other part of the same split or was built from a neighbouring part of the same slice.",
  ["inputs", "histories", "configurations"], "all sequences, positions, tree shapes and thresholds; ropes given to join or split are consumed; an inserted slice may be a part of the rope it is inserted into", "Tests compare random edits of one byte string at default thresholds; rebuild is not tested.",
  ["rope/rope.go"], [("recursive edits with in-place slice tricks", "rope/rope.go Insert/Remove/insert"), ("leaf/node adjustment", "rope/rope.go adjust")], ["New", "Len", "Value", "Slice", "At", "Insert", "Remove", "SplitAt", "Join", "Each", "Rebalance", "Rebuild"])
p("R02", "Rope leaves stay within the thresholds",
  "While the thresholds are left alone and the join threshold is at most one more than the split threshold, after any history of building, inserting, removing, splitting, joining, rebalancing and rebuilding no leaf that the leaf iteration visits holds more than SplitLength elements, and a rope of fewer than JoinLength elements is a single leaf. Right after New and Rebuild a rope of at most SplitLength elements is a single leaf, and in a longer one every leaf holds at least half of SplitLength.",
  ["inputs", "histories", "configurations"], "all sequences, positions, operation sequences and positive thresholds with JoinLength <= SplitLength + 1, kept for the whole history", "No test looks at the leaves of a rope or changes a threshold.",
  ["rope/rope.go"], [("leaf/node adjustment after every edit", "rope/rope.go adjust"), ("joining and splitting", "rope/rope.go join/SplitAt")], ["New", "Insert", "Remove", "SplitAt", "Join", "Each", "Rebalance", "Rebuild"])
p("E01", "Set algebra matches mathematics for any set backing",
  "Union, intersection, difference and symmetric difference (elements in exactly one of the operands), in their plain, in-place and constant-argument forms, produce exactly the mathematical result over any mix of set implementations, and only the in-place forms change their receiver and nothing changes an argument. Subset, superset, proper subset/superset, equality and disjointness answer true exactly when the mathematical relation holds; clone, keys and map list exactly the members.",
  ["inputs", "programs"], "all sets, any number of operands, any mix of conforming set implementations", "A few fixed examples; disjointness and the relations are not tested at all.",
  ["set/set.go"], [("set operations over an abstract set interface", "set/set.go")], ["exported methods of the set wrapper"])
p("K01", "Stack is exactly last-in first-out",
  "After any sequence of pushes and pops, pop and peek return the most recently pushed item not yet popped (the zero value when empty), pop removes exactly that item, and size is the number of items held. A copy holds the same items and the two never affect each other afterwards.",
  ["inputs", "histories"], "all operation sequences", "One short test; copies are not tested for independence.",
  ["stack/stack.go"], [("resizing slice", "stack/stack.go")], ["Push", "Pop", "Peek", "Size", "Copy"])
p("D01", "Trie is a map over non-empty strings",
  "After any sequence of puts and removes of non-empty keys, a lookup returns the value most recently put for exactly that key and not removed since, and reports absence otherwise; removing or adding one key never affects another, including its prefixes and extensions. Size is the number of live keys, whether or not a removed key was present; empty keys are never stored.",
  ["inputs", "histories"], "all byte strings and operation sequences", "Tests use a word list and a few removals.",
  ["trie/trie.go"], [("recursive put/remove with node pruning", "trie/trie.go put/remove/delete")], ["Put", "Get", "Contains", "Remove", "Size"])
p("D02", "Trie prefix queries are exact and sorted",
  "Listing keys returns exactly the live keys, each once, in increasing byte order; listing keys with a prefix returns exactly those live keys that start with it, in the same order. The longest-prefix query returns the longest live key that is a prefix of the query, or the empty string if there is none.",
  ["inputs", "histories"], "all key sets, prefixes and query strings", "Tests use a handful of keys and never check order after removals.",
  ["trie/trie.go"], [("in-order collection", "trie/trie.go collect"), ("prefix descent", "trie/trie.go LongestPrefix/KeysWithPrefix")], ["Keys", "KeysWithPrefix", "LongestPrefix"])
p("N01", "Unrolled list and its iterators behave like a sequence",
  "After any sequence of pushes, insertions before or after a valid iterator, and removals at a valid iterator, the list is exactly the corresponding plain sequence whatever the block size: walking from the first entry forward or from the last backward visits it in order, and size is its length. After an insertion the iterator points at the new entry; after a removal it points at the entry that followed the removed one, and is invalid only if there was none.",
  ["inputs", "histories"], "all sequences, positive block sizes and iterator positions", "Tests use a few block sizes and fixed scripts; removal at a block's end followed by reading the iterator is not tested.",
  ["ulist/ulist.go", "ulist/ulist_iter.go", "list/list.go"], [("block overflow and removal", "ulist/ulist.go AddAfter/AddBefore/Remove"), ("iterator stepping", "ulist/ulist_iter.go")], ["PushBack", "PushFront", "AddAfter", "AddBefore", "Remove", "Size", "Begin", "End", "Next", "Prev", "IsValid", "Get"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
