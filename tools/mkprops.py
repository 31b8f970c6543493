"""Writes properties.jsonl: python3 tools/mkprops.py"""
import json
import os

L = "src/lib.rs"
IT = "src/iter.rs"
G = "src/generic_impl/gap_buffer.rs"
R = "src/generic_impl/rope.rs"
O = "src/generic_impl/ord.rs"
LF = "src/generic_impl/len_finder.rs"
RL = "src/rle.rs"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


p("C01", "Parent and child links of the tree always agree",
  "After every public operation each child listed by a tree node names that node as its parent and, for internal children, the position it is listed at; the root has no parent. "
  "Navigation, cursor comparison and summary propagation follow these links, so a wrong one silently yields wrong positions later.",
  ["inputs", "histories"], "every operation on every tree shape reachable by any history of insertions, removals, splits, merges, borrows and bulk edits",
  "The tests call check() after a few hundred random edits; whether a particular borrow/merge/split leaves one link stale depends on the fill of two neighbouring nodes and on leaf/internal level, a product the tests sample thinly.",
  [L, IT],
  [("node split, root split", L + ": split_node, split_root, inner_insert_node"),
   ("borrowing and merging under-full nodes", L + ": handle_lack_single_layer, pair_neighbor, try_reduce_levels"),
   ("renumbering after a removal", L + ": update_children_parent_slot_from, remove_internal_node, filter_deleted_children"),
   ("range removal", IT + ": Drain::drop")],
  [("parent / parent_slot", "the node's parent and its position there", L + ": Node, LeafNode")], ["BTree::check", "every cursor navigation"])

p("C02", "Stored summaries always equal the summary of what lies below",
  "After every public operation the summary stored for a child equals the summary of that child's current content, at every level up to and including the root. "
  "Positional search, length and range queries read only these summaries.",
  ["inputs", "histories"], "all operations, tree shapes, element types and both modes of summary maintenance (recomputed or by difference)",
  "A forgotten update is invisible until a later search passes through the stale summary; the tests only follow some histories and mostly compare whole-tree text.",
  [L, IT, R, O],
  [("propagation to the root", L + ": recursive_update_cache, recursive_update_cache_with_diff, update_root_cache"),
   ("batched propagation", L + ": update_dirty_cache_map"),
   ("recomputation at structural changes", L + ": split_node, split_root, handle_lack_single_layer, purge")],
  [("Child.cache, root_cache", "summary of a subtree", L + ": Child, BTree")], ["root_cache", "query", "Rope::len"])

p("C03", "Rebalancing never loses, duplicates or reorders elements",
  "Splitting, merging, borrowing between and removing internal nodes leave the in-order sequence of elements exactly as it was, apart from the elements the operation was asked to add or remove.",
  ["inputs", "histories"], "every combination of fill levels of a node and its neighbours, on leaf and internal levels, at the left and right edge of the tree",
  "Each rebalancing case needs a specific fill of two siblings; the tests reach a handful of them and only with one element type.",
  [L, IT],
  [("split", L + ": split_node, inner_insert_node, split_root"),
   ("borrow and merge", L + ": handle_lack_single_layer, handle_lack_recursively"),
   ("level removal", L + ": try_reduce_levels, remove_internal_node"),
   ("bulk build", L + ": create_subtrees_from_elem")], (), ["iter"])

p("C04", "No operation overflows the fixed capacity of a node or a path",
  "No public operation makes a node exceed its fixed child capacity, makes a root-to-leaf path exceed its fixed length, or makes a position in a node exceed the width it is stored in; a node that becomes full is split before the operation returns.",
  ["inputs", "histories"], "all histories, including bulk insertions of any size and leaf splits that add up to two siblings at once",
  "Overflow aborts the process only when a node already holds the maximum and a multi-child insertion hits it, or for trees of tens of millions of leaves, which tests do not build.",
  [L, IT],
  [("capacity constants", L + ": MAX_CHILDREN_NUM, NodePath"), ("split when full", L + ": is_full checks after every child insertion"),
   ("bulk insertion", L + ": insert_many_by_cursor, create_subtrees_from_elem")], (), ["panic"])

p("C05", "Leaf handles stay valid until their leaf is removed",
  "A leaf handle keeps naming the same element through any edit elsewhere; it stops resolving exactly when its element is removed or merged away, and nothing that was removed from the tree stays allocated or reachable.",
  ["inputs", "histories"], "all edits between obtaining and using a handle",
  "The tests rarely keep handles across edits and never inspect what remains allocated.",
  [L, IT],
  [("allocation and removal of leaves and nodes", L + ": alloc_leaf_child, purge, remove_leaf, update_leaf, update, handle_lack_single_layer"),
   ("range removal", IT + ": Drain::drop")], (), ["get_elem", "get_elem_mut", "node_len"])

p("C06", "Elements are merged only when mergeable, adjacent and in order",
  "Two elements are combined only if the left one declares it can merge with the right one, only if they are neighbours in sequence order, and the combined element takes the place of both in that order.",
  ["inputs", "histories"], "every insertion, batch insertion and update, for every element type",
  "Most test element types always merge or never merge, so an unguarded or swapped merge gives the same text.",
  [L, R, O],
  [("merge on insertion", L + ": insert_by_path, push, prepend, insert_many_by_cursor, merge_adj"),
   ("merge on ordered insertion", O + ": OrdTreeMap::insert")], (), ["iter"])

p("C07", "Stepping through the tree visits every neighbour in order",
  "Moving to the next or previous element, finding first and last, comparing two cursors and summing what precedes a cursor all agree with the in-order sequence, including across node boundaries at any height.",
  ["inputs", "histories"], "all cursors, tree shapes and heights",
  "Crossing several levels at once happens only at specific leaf positions in trees of height three and more.",
  [L, IT],
  [("siblings", L + ": next_sibling, next_same_level_in_node, prev_same_level_in_node, next_elem, prev_elem"),
   ("edges", L + ": first_path, last_path, first_leaf, last_leaf, start_cursor, end_cursor"),
   ("cursor order", L + ": compare_pos, visit_previous_caches, shift_path_by_one_offset, prefer_left, prefer_right")], (), ["next_elem", "prev_elem", "compare_pos"])

p("C08", "Positional search lands on the element that holds the position",
  "Searching a position by length descends into the child whose span contains it, with the offset left over after everything before that child; a position past the end resolves to the end of the last child; found is reported exactly when the offset lies inside the element.",
  ["inputs"], "every position and every list of child summaries, including zero-length children and positions exactly on boundaries",
  "Tests search random positions in trees of one shape; exact boundaries and empty children are rarely hit.",
  [LF, L],
  [("length finder", LF + ": LengthFinder::find_node, confirm_elem, init"), ("search loop", L + ": query_with_finder_return")], (), ["query", "Rope::insert"])

p("C09", "The ordered map finds, replaces and removes exactly the given key",
  "In the ordered map and set a key present is found, replaced in place without changing the count, and removed with the count decreased by one; a key absent is inserted at its sorted place with the count increased by one, and deleting it changes nothing.",
  ["inputs", "histories"], "all keys and all maps, keys below, above, between and equal to the stored ones",
  "Random-key tests never delete absent keys or overwrite existing ones systematically.",
  [O, L],
  [("search over key ranges", O + ": OrdTrait::find_node, confirm_elem"), ("insert, delete", O + ": OrdTreeMap::insert, OrdTreeMap::delete"),
   ("removal of a leaf", L + ": remove_leaf")], [("len", "number of entries", O + ": OrdTreeMap")], ["insert", "delete", "len", "iter"])

p("C10", "Rope edits splice the text exactly where asked",
  "Inserting into the rope yields the text before the position, the inserted text, the text after it; deleting a range removes exactly that range; clearing empties it; and the remembered edit position never names a leaf or offset other than the one it was recorded for.",
  ["inputs", "histories"], "all texts, positions, sizes (smaller and larger than one buffer) and sequences of edits in any order",
  "Whether a stale remembered position is used depends on the order of edits before it; fuzz tests sample histories but not the boundary sizes with them.",
  [R, G, L],
  [("edits", R + ": Rope::insert, Rope::delete_range, Rope::clear"), ("remembered position", R + ": Cursor, update_in_place/cursor handling"),
   ("slicing and iteration", R + ": slice, iter, to_string")], [("cursor", "last edited leaf and the text length before it", R + ": Rope.cursor")], ["Rope::to_string", "Rope::len"])

p("C11", "The text buffer behaves as the byte string it stands for",
  "Every operation of the fixed-size text buffer acts on the byte string it denotes exactly as specified: insertion, deletion, slicing, splitting, merging and chunking give exactly those bytes; a rejected insertion leaves the string unchanged; and no valid argument causes an out-of-range access.",
  ["inputs"], "every buffer state (any position and width of the free space), every position, range kind and data length up to capacity",
  "The result depends on where the free space lies relative to the range; tests exercise a few such positions.",
  [G],
  [("moving the free space", G + ": shift_at"), ("edits", G + ": insert_bytes, push_bytes, delete, split, slice_, merge_left, merge_right"),
   ("chunking", G + ": from_str")], [("gap_start, gap_len", "free region of the buffer", G + ": GapBuffer")], ["as_bytes", "len"])

p("C12", "Draining yields and removes exactly the given range",
  "Draining a range yields exactly the elements (or parts of elements) inside it in order, and when the iterator is dropped, however far it was consumed, the tree holds exactly the rest.",
  ["inputs", "histories"], "all ranges (empty, within one element, across nodes and levels), any number of elements consumed before the drop",
  "The removal path depends on how the two ends lie in the tree, a product tests sample.",
  [IT, L], [("iterator", IT + ": Drain::new, next, drop, none"), ("entry points", L + ": drain, drain_by_query")], (), ["drain", "iter"])

p("C13", "Reading does not change the tree; cloning copies all of it",
  "Operations on a shared reference never change what the tree denotes; a clone equals its original and shares no state with it; clearing leaves a tree equal to a new one.",
  ["inputs", "histories"], "all trees and all read operations",
  "Absence of hidden mutation and sharing cannot be shown by sampling.",
  [L, R, G], [("no interior mutability or shared ownership in the data", L + ": BTree, Node, LeafNode, Child"), ("Clone impls", L + ": impl Clone for BTree/Node/Child/Query"), ("clear", L + ": clear; " + R + ": clear")], (), ["clone", "clear"])

p("C14", "Results depend only on the operations performed",
  "Running the same operations on equal inputs gives equal results and equal trees in every process: nothing depends on hashing seeds, addresses, time, environment or threads.",
  ["inputs", "configurations", "schedules"], "all programs using the library, all processes and hash seeds",
  "One test process has one environment; order that depends on a hash seed shows up only across runs.",
  [L, IT, R, O, G, LF], [("dirty maps and sets are keyed by fixed hashers or not iterated in hash order", L + ": LeafDirtyMap, update_leaves_with_arg_in_ranges, update_dirty_cache_map")], (), ["every result"])

p("C15", "Summaries combine consistently",
  "For the provided trees the summary of a node is the combination of its children's summaries, a reported summary difference turns the old summary into the new one, differences compose, and an element's summary describes the element.",
  ["inputs"], "all summaries, child lists and elements",
  "An algebra error in the difference form shows only when two differences meet in one batch update.",
  [R, O, L], [("rope summaries", R + ": RopeTrait"), ("ordered summaries", O + ": OrdTrait"), ("node summary", L + ": Node::calc_cache")], (), ["root_cache"])

p("C16", "An emptied element leaves the tree",
  "When an update or deletion leaves an element that reports itself removable, the element and every internal node left without children are removed in the same operation, with its ancestors' links and summaries adjusted.",
  ["inputs", "histories"], "every update, range update, search update and drain that can empty elements, at any place in the tree",
  "Emptying the only or last leaf of a node inside a batch needs specific layouts.",
  [L, IT, R], [("eviction", L + ": update, update_leaf, update_leaf_by_search, update_leaves_with_arg_in_ranges, filter_deleted_children"), ("range removal", IT + ": Drain::drop")], (), ["iter", "node_len"])

p("C18", "Bulk insertion keeps the given order at the given place",
  "Inserting many elements at a cursor, or building a tree from a sequence, places exactly these elements in the given order between what was before and after the cursor; balanced subtrees built for it have equal height everywhere.",
  ["inputs", "histories"], "all sequence lengths (zero, one, few, more than a node, many levels) and all cursors",
  "Tree-building arithmetic changes at powers of the node width; tests use few sizes.",
  [L], [("bulk insertion", L + ": insert_many_by_cursor, create_subtrees_from_elem, merge_adj, FromIterator")], (), ["iter"])

p("C19", "Range updates touch exactly the elements in the range",
  "An update over a range applies the given function once to every element part inside the range and to nothing else; parts outside keep their value, order and summary.",
  ["inputs", "histories"], "all ranges relative to element boundaries, with elements that split, shrink or vanish under the update",
  "Boundary splits at both ends inside the same element or node are rare in tests.",
  [L], [("range update", L + ": update, update_leaf, update_leaves_with_arg_in_ranges")], (), ["update"])

p("C20", "Every read operation accepts an empty tree",
  "On an empty tree every public read operation returns its empty answer instead of failing, and every insertion of any kind works.",
  ["inputs", "histories"], "every public operation, on a tree never filled or emptied again by any kind of removal",
  "Few tests call each operation on empty trees, and a tree emptied by removal differs internally from a new one.",
  [L, IT, R, O], [("empty-tree guards", L + ": query, range, iter_range, first_path, last_path, depth, push, prepend, insert_many_by_cursor"), ("ropes and maps", R + ", " + O)], (), ["panic"])

p("C21", "Lookups of unknown places change nothing",
  "Fetching or removing an element through a handle that no longer names one, deleting an absent key, or a search that finds nothing, returns the negative answer and leaves the tree exactly as it was.",
  ["inputs", "histories"], "all stale handles and missing keys or positions",
  "Stale handles are not exercised by the tests.",
  [L, O], [("absence handling", L + ": get_elem, get_elem_mut, query, remove_leaf; " + O + ": delete")], (), ["return value", "tree content"])

p("C22", "Operations take logarithmic time and always finish",
  "Every single-element operation visits a number of nodes proportional to the height, the height is logarithmic in the number of elements, and every operation terminates.",
  ["inputs", "histories"], "all trees and histories",
  "Timing in tests bounds nothing.",
  [L, IT], [("minimum fill and single path descent", L + ": handle_lack_recursively, split, query")], (), ["running time"])

p("C23", "A whole editing history yields the text a plain string would hold",
  "Any sequence of rope edits leaves the rope's text equal to applying the same edits to a plain string.",
  ["histories"], "all finite edit sequences",
  "The fuzz tests compare a sample of histories.",
  [R, G, L], [("the composition of every part above", R + ": Rope")], (), ["Rope::to_string"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
