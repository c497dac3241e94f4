#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in one place so ids, titles and statements stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Contents equal the history of insertions and removals",
  "After any sequence of insert, insert_unique, remove and value updates (of keys whose boxes have finite volumes) on a tree created with any max_children >= 2 and any min_children, iterating the tree (iter, iter_mut, and for-loops over & and &mut) yields exactly the multiset of key-value entries that this history leaves behind, each entry once. len() is the number of those entries, is_empty() says whether there are none, no operation of the history panics, and reading never changes the contents.",
  ["histories", "inputs", "configurations"],
  "all operation histories x all keys (any coordinates, duplicates, degenerate and nested boxes, points, any dimension and scalar type) x all fan-out configurations",
  "Unit tests run one seeded history of 50 uniform boxes at max 4 / min 2 and never mix removal with later insertion; the loss or duplication of entries depends on the split, reinsertion and root-collapse paths that a history drives.",
  ["src/lib.rs", "src/node.rs", "src/fc_vec.rs", "src/split.rs", "src/select.rs", "src/iter.rs", "src/iter_stack.rs"],
  [("choose subtree / insert / split propagation", "src/node.rs NodeRefMut::insert, self_insert, NodeContainer::branch"),
   ("underfull node removal and level-aware reinsertion, root collapse", "src/node.rs NodeContainer::remove, try_unbranch"),
   ("quadratic split", "src/split.rs QuadraticSplitter::split"),
   ("level-stack traversal", "src/iter.rs Iter::next, IterMut::next")],
  [dict(name="root", meaning="root node with its level and allocator", where="src/lib.rs RTree")],
  ["iter", "iter_mut", "IntoIterator", "len", "is_empty"])

p("C02", "Keyed lookup, unique insertion and removal act as on a map",
  "get and get_mut find a value exactly when an entry with an equal key is in the tree; insert_unique replaces and returns the value of such an entry, or else adds exactly one new entry and returns None; remove takes out exactly one such entry and returns its value, or else returns None and changes nothing. When several entries have equal keys, all four act on the same one, the first in iteration order; lookups by a borrowed form of the key behave the same as by the key itself.",
  ["histories", "inputs", "configurations"],
  "all histories, all key sets including duplicates and keys whose bounds coincide, nest or are empty, all configurations, borrowed and owned lookup keys",
  "Tests look up one present key and one absent key, and remove in insertion order from unique keys; which subtree is searched depends on how bounds overlap, which only particular histories produce.",
  ["src/lib.rs", "src/node.rs", "src/bounds.rs", "src/util.rs"],
  [("containment-guided search", "src/node.rs NodeRef::get, NodeRefMut::get_mut, into_get_mut"),
   ("single-candidate descent for unique insertion", "src/node.rs NodeRefMut::insert_unique, src/util.rs get_only"),
   ("removal search", "src/node.rs NodeRefMut::remove")],
  None, ["get", "get_mut", "insert_unique", "remove"])

p("C03", "Filtered iteration yields exactly the matching entries",
  "For every tree and every filter whose bounds test never rejects bounds containing a matching key, filter_iter and filter_iter_mut yield exactly the entries whose key passes the filter's key test, each exactly once, just as a linear scan of all entries would. This includes every filter the crate provides, used with every space, bounds and key type it supports: they match exactly the keys that intersect, or are contained in, the space they were made from.",
  ["inputs", "histories", "configurations"],
  "all trees (built by any history and configuration) x all sound spatial filters x all query spaces",
  "No unit test compares a filtered iteration with a scan (the only use needs a data file that is absent); wrong pruning shows only for some arrangement of node bounds against some query.",
  ["src/lib.rs", "src/iter.rs", "src/filter.rs", "src/iter_stack.rs", "src/bounds.rs", "src/intersects.rs"],
  [("pruned depth-first traversal", "src/iter.rs FilterIter, FilterIterMut, Iter::next"),
   ("provided filters", "src/filter.rs IntersectsFilter, BoundedIntersectsFilter, ContainsFilter, BoundedContainsFilter, NoFilter")],
  None, ["filter_iter", "filter_iter_mut"])

p("C04", "Bounds rejected by a filter prune everything below them",
  "When a spatial filter or a join filter rejects the bounds of a node (or a pair of nodes), no key and no bounds below that node (or pair) is tested against that filter by the same traversal, and no entry below is yielded. A join, likewise, never tests a pair of keys below a rejected pair of bounds. And the bounds are always asked: a filtered search tests a key, or the bounds of an inner node, only after the filter accepted the bounds of every node around it (the root possibly excepted), and a join tests a pair of keys only after it accepted, for every node below either root that is around one of the two keys, its bounds paired with bounds around the other (in a left join, for every node on the right).",
  ["inputs", "histories", "configurations"],
  "all trees x all filters (including arbitrary, even unsound, accept/reject functions of the bounds) x filter_iter, filter_iter_mut and join",
  "Tests never observe which bounds and keys a traversal offers to the filter; they could not tell a pruned search from a full scan.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/filter.rs"],
  [("find() over sibling bounds before descending", "src/iter.rs Iter::next, IterMut::next; src/join.rs JoinIter::next; src/left_join.rs LeftJoinIter::next"),
   ("root bounds test", "src/iter.rs FilterIter::new, FilterIterMut::new; src/join.rs JoinIter::new")],
  None, ["calls of SpatialFilter::test_bounds/test_key and JoinFilter::test_bounds/test_key"])

p("C05", "Ranked iteration is complete and ascending; min_by is its minimum",
  "For every tree and every ranking that meets the documented contract, iter_asc_by and iter_asc_by_mut yield every entry exactly once in non-descending order of rank, and filter_iter_asc_by and filter_iter_asc_by_mut yield exactly the entries whose rank is not None, in the same order. min_by, min_by_mut, filter_min_by and filter_min_by_mut return an entry of least rank among those, or None if there are none.",
  ["inputs", "histories", "configurations"],
  "all trees x all contract-abiding rankings (tight, loose and constant lower bounds, ties, optional metrics) x all query points",
  "One test ranks a 10x10 integer grid by distance from one point; ordering errors need ties between node bounds and entries, loose bounds or particular tree shapes.",
  ["src/lib.rs", "src/iter.rs", "src/ranking.rs"],
  [("best-first heap keyed by (metric, level)", "src/iter.rs SortedIter, SortedIterMut, FilterSortedIter, FilterSortedIterMut"),
   ("distance lower bound", "src/ranking.rs PointDistance for AABB, EuclideanDistanceRanking")],
  None, ["iter_asc_by", "iter_asc_by_mut", "filter_iter_asc_by", "filter_iter_asc_by_mut", "min_by", "min_by_mut", "filter_min_by", "filter_min_by_mut"])

p("C06", "Ranked iteration is lazy: it opens only nodes it has to",
  "A ranked iteration that has yielded entries up to some rank has ranked only keys, and taken lower bounds only of nodes, whose every enclosing node has a lower bound no greater than the rank of the last entry it yielded; nearest-neighbour search thus never opens a node that lies beyond the answer. Nodes without a lower bound (None) are never opened by the filtered variants.",
  ["inputs", "histories", "configurations"],
  "all trees x all contract-abiding rankings x every prefix length of the iteration",
  "Tests only look at the yielded sequence; an implementation that opens every node first yields the same sequence.",
  ["src/iter.rs", "src/ranking.rs"],
  [("nodes enter the heap under their lower bound and are opened when popped", "src/iter.rs SortedIter::next and its three siblings")],
  None, ["calls of Ranking::bounds_min and Ranking::rank_key between calls of next()"])

p("C07", "join yields exactly the matching pairs",
  "For any two trees, of any heights, configurations, and key, value and bounds types, and every join filter whose bounds test never rejects bounds containing a matching pair, join yields exactly the pairs of entries whose keys pass the filter's key test, each pair exactly once. In particular it equals filtering the full cross product, and it yields nothing if either tree is empty.",
  ["inputs", "histories", "configurations"],
  "all pairs of trees (equal and different heights, either side taller, empty or single-entry) x all sound join filters",
  "The existing join test exercises left_join only, on two random trees of equal size and configuration; join itself, height differences and mixed types are never run.",
  ["src/lib.rs", "src/join.rs", "src/filter.rs", "src/iter_stack.rs"],
  [("simultaneous descent with leaf padding for the shorter tree", "src/join.rs JoinIter::start_join, JoinIter::next"),
   ("cross product of children", "src/join.rs ProductIter, RewindableIter")],
  None, ["join"])

p("C08", "left_join gives every left entry once, with exactly its matches",
  "For any two trees and every sound join filter, left_join yields every left entry exactly once, each with an iterator that yields exactly the right entries matching it, each once (none if nothing matches or the right tree is empty). The inner iterators are independent: kept, interleaved, partly consumed, dropped in any order, or used after the outer iterator has moved on or been dropped, each still yields exactly its own matches.",
  ["inputs", "histories", "schedules", "configurations"],
  "all pairs of trees x all sound join filters x all orders of advancing, keeping and dropping the outer and the inner iterators",
  "One test consumes each inner iterator at once on two trees of equal height; the buffer shared and recycled between inner iterators is only stressed by other consumption orders, and the stack alignment only by unequal heights.",
  ["src/left_join.rs", "src/rc_mut.rs", "src/iter_stack.rs", "src/iter.rs", "src/filter.rs"],
  [("rewindable right stack aligned with the left descent", "src/left_join.rs LeftJoinIter::next, rewind"),
   ("recycled buffer for inner iterators", "src/rc_mut.rs RcMutAlloc::make_mut_init_raw, RcMut")],
  [dict(name="shared", meaning="whether an inner iterator still uses the recycled buffer", where="src/rc_mut.rs RcMutBox")],
  ["left_join and the iterators it yields"])

p("C09", "The tree stays balanced and node sizes stay in the configured range",
  "For every configuration with max_children >= 2 and 1 <= min_children <= max_children / 2, after every operation all entries lie at the same depth, no node has more than max_children children, every node except the root has at least min_children children, and a root that is not a leaf has at least two. Hence, for min_children >= 2, the number of levels above the entries stays logarithmic in the number of entries, also after removals and after the tree was emptied and refilled.",
  ["histories", "inputs", "configurations"],
  "all histories x all keys x all configurations in the stated range",
  "Tests check minimum occupancy on one tree with one configuration after insertions only, and never after removals; maximum occupancy and root size are never checked.",
  ["src/node.rs", "src/split.rs", "src/fc_vec.rs"],
  [("split distributes with a minimum group size", "src/split.rs QuadraticSplitter::split"),
   ("underfull nodes are dissolved and reinserted at their level", "src/node.rs NodeRefMut::remove, NodeContainer::remove"),
   ("root grows by branching and collapses", "src/node.rs branch, try_unbranch")],
  None, ["nesting of the bounds that a traversal offers to an accept-all filter"])

p("C10", "Node bounds are exactly the union of what they contain",
  "At every moment the bounds a traversal presents for a node (to spatial filters, join filters and rankings) equal the union of the bounds of the entries below that node: they cover all of them, and they retain nothing of entries that were removed or moved elsewhere.",
  ["histories", "inputs", "configurations"],
  "all histories x all keys x all configurations, for bounds types whose union is exact",
  "Tests check the bounds of one tree shape after uniform insertions and removals; stale or missing extents depend on splits at several levels, reinsertion and unique insertion into a splitting child.",
  ["src/node.rs", "src/split.rs", "src/bounds.rs"],
  [("bounds maintenance on insert, split, removal and branch", "src/node.rs self_insert, insert, insert_unique, remove, branch"),
   ("group bounds while splitting", "src/split.rs QuadraticSplitter::split")],
  [dict(name="bounds", meaning="union of the bounds of the children", where="src/node.rs Node")],
  ["bounds passed to SpatialFilter::test_bounds"])

p("C11", "A clone is equal to and independent of the original",
  "Cloning a tree gives a tree with the same configuration, the same entries in the same iteration order and the same node structure, made by cloning every key and value exactly once. Any later operation on either tree, including dropping it, leaves the other unaffected, and the same later operations applied to both have the same results.",
  ["histories", "inputs", "configurations"],
  "all source trees (any history, configuration, height, emptied trees) x all later histories on either side in any interleaving",
  "One test clones one tree of 50 entries and compares it at once; it never mutates or drops either side afterwards.",
  ["src/lib.rs", "src/node.rs", "src/fc_vec.rs"],
  [("recursive clone into freshly allocated vectors", "src/node.rs Alloc::clone_node, clone_children; src/fc_vec.rs Alloc::clone")],
  None, ["Clone for RTree"])

p("C12", "Every key, value and bounds is dropped exactly once, memory is freed",
  "Every key and value handed to a tree is dropped exactly once: when it is replaced, when it is removed (a removed value being the caller's to drop), or when the tree is dropped, and never while it is still reachable from the tree. When a tree and all iterators over it are gone, all memory it allocated is freed, with the size and alignment it was allocated with, whatever mixture of operations came before and however many iterators were abandoned half-way; this also holds for zero-sized and over-aligned keys and values.",
  ["histories", "inputs", "configurations"],
  "all histories x all key/value/bounds types (heap-owning, zero-sized, over-aligned) x all points at which iterators are abandoned",
  "One test counts live objects after 50 insertions and a drop; it never removes, replaces, clones, joins or abandons an iterator, and never looks at memory.",
  ["src/node.rs", "src/fc_vec.rs", "src/rc_mut.rs", "src/iter_stack.rs"],
  [("manual ownership of unions and fixed-capacity vectors", "src/node.rs leak/wrap/drop; src/fc_vec.rs FCVecContainer, IntoIter"),
   ("recycled buffers", "src/rc_mut.rs RcMutAlloc, RcMut; src/iter_stack.rs")],
  None, ["Drop of keys, values and bounds", "the global allocator"])

p("C13", "Safe use of the crate never causes undefined behaviour",
  "No program using only the crate's safe API (any history of operations, queries, joins, clones, iterators in any state, any element types including zero-sized and over-aligned ones, and any configuration) makes it access memory out of bounds, after free or before initialisation, form invalid or aliasing references, race, or free memory wrongly.",
  ["programs", "inputs", "histories", "configurations"],
  "all safe client programs, sampled by generated histories run under Miri and under AddressSanitizer",
  "The tests run without any sanitizer, so undefined behaviour that happens to give the right answer passes; they also leave most iterator states and element types unexercised.",
  ["src/node.rs", "src/fc_vec.rs", "src/iter.rs", "src/iter_stack.rs", "src/rc_mut.rs", "src/join.rs", "src/left_join.rs", "src/util.rs"],
  [("level-tagged unions", "src/node.rs NodeChildren, src/iter_stack.rs Entry, src/iter.rs SortedIterItem"),
   ("raw buffers", "src/fc_vec.rs, src/rc_mut.rs")],
  None, ["Miri, AddressSanitizer, checking allocator"])

p("C14", "A panic in user code never corrupts the tree's memory",
  "If code supplied by the user (key equality, bounds, union, volume, cloning of keys, values or bounds, or a filter or ranking) panics during any operation and the panic is caught, then no key, value or bounds is dropped twice or used after being dropped, neither then nor later. The tree can still be read, in which case it yields only live entries and as many as len() says, and it can be dropped.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "all histories x every point at which a callback can panic, one panic per operation",
  "No test makes a callback panic.",
  ["src/node.rs", "src/fc_vec.rs", "src/split.rs", "src/iter_stack.rs", "src/rc_mut.rs"],
  [("values are owned by a container while callbacks run", "src/fc_vec.rs FCVecContainer; src/node.rs NodeContainer, branch; src/split.rs"),
   ("initialisation guard", "src/iter_stack.rs IterStack::init_into")],
  None, ["Drop of keys, values and bounds after catch_unwind"])

p("C15", "Trees can be shared between threads exactly when their parts can",
  "A tree may be sent to (or shared with) another thread exactly when its keys, values and bounds all may. Any number of threads reading one shared tree at the same time, with any mixture of lookups, iteration, filtered and ranked queries, joins and clones, each get the same answers as a single thread would, without data races.",
  ["schedules", "programs", "inputs"],
  "all element types by their Send/Sync combination; all schedules of concurrent readers, sampled by repeated stress under ThreadSanitizer and Miri's scheduler and race detector",
  "No test uses a thread or checks a Send or Sync bound, although the crate asserts both with unsafe code.",
  ["src/fc_vec.rs", "src/node.rs", "src/lib.rs", "src/rc_mut.rs"],
  [("unsafe impl Send/Sync for the raw vector", "src/fc_vec.rs FCVec"),
   ("no interior mutability on read paths", "src/node.rs NodeRef; src/iter.rs")],
  None, ["auto-trait probes; answers of concurrent readers"])

p("C16", "Axis-aligned boxes form an exact set algebra",
  "For all closed axis-aligned boxes with any finite min and max corners of any supported scalar type: a box contains a point exactly when each coordinate lies in its closed range, contains another box exactly when that box's range lies within its own in every dimension, and intersects a point or box exactly when the closed ranges meet in every dimension (symmetrically). Union is the smallest box covering both, empty() is its identity and is contained in every box, union_all folds it, and volume is the product of the side lengths, for all integer coordinates and wherever that product is finite (up to floating-point rounding).",
  ["inputs"],
  "all boxes and points, all scalar types and dimensions 1..4, including touching, degenerate and extreme coordinates",
  "One test checks that two particular boxes intersect.",
  ["src/bounds.rs", "src/vector.rs"],
  [("componentwise comparisons", "src/vector.rs all_le, all_ge, componentwise_min, componentwise_max"),
   ("AABB trait implementations", "src/bounds.rs")],
  None, ["Contains, Intersects, Bounds, Volume for AABB and SVec"])

p("C17", "Lines, rays, spheres and distances agree with exact geometry",
  "A line segment intersects a closed box exactly when some point of the segment lies in it; a ray exactly when some point at or ahead of its origin does (both up to rounding, where they only just touch); a sphere intersects a point exactly when the point is at most the radius away; the boxes of lines and spheres enclose them tightly. Squared distances (point to point, point to box, box to box) equal the exact ones, being zero exactly on contact, up to floating-point rounding and as long as coordinate differences are representable in the scalar type.",
  ["inputs"],
  "all segments, rays, spheres, boxes and points with representable coordinate differences, dimensions 1..4, including axis-parallel, degenerate, touching and receding cases",
  "Two tests check three hand-picked line and box pairs in two dimensions; rays, spheres and distances are not checked at all.",
  ["src/intersects.rs", "src/geom/line.rs", "src/geom/ray.rs", "src/geom/sphere.rs", "src/bounds.rs", "src/ranking.rs", "src/vector.rs"],
  [("slab test", "src/intersects.rs ray_bounds_intersect, line_bounds_intersect"),
   ("distance functions", "src/bounds.rs sq_dist_to; src/ranking.rs dist_sq; src/vector.rs sq_mag")],
  None, ["Intersects impls, Bounded impls, sq_dist_to, dist_sq, sq_mag, sq_len, len"])

p("C18", "Provided filters and the distance ranking are safe to prune with",
  "For every provided filter, query space, bounds and key: if the key lies within the bounds and passes the key test, the bounds pass the bounds test, so that no match is ever pruned, and enlarging bounds that pass never makes them fail. The distance ranking gives bounds a lower bound no greater than the rank of any key within them, and no greater for larger bounds; the joining filter behaves as the join filter it wraps with the left side fixed.",
  ["inputs"],
  "all provided filters and rankings x all spaces, keys and bounds for which they are defined",
  "No test relates a filter's bounds test to its key test.",
  ["src/filter.rs", "src/ranking.rs", "src/bounds.rs", "src/intersects.rs", "src/geom/sphere.rs", "src/geom/line.rs"],
  [("bounds tests of the provided filters", "src/filter.rs"), ("lower bound of the ranking", "src/ranking.rs")],
  None, ["SpatialFilter, JoinFilter and Ranking impls"])

p("C19", "Mutable traversal changes exactly the values it hands out",
  "iter_mut, filter_iter_mut, iter_asc_by_mut and filter_iter_asc_by_mut hand out a reference to the value of every entry that their shared counterparts yield, for the same entries in the same order (among equals in rank, in any order); references held at the same time never refer to the same value. Writing through them, or through get_mut, min_by_mut and filter_min_by_mut, changes that entry's value and nothing else: no other value, no key, no bounds and no structure.",
  ["inputs", "histories", "configurations"],
  "all trees x all mutable traversals, including holding all references at once and abandoning the traversal half-way",
  "One test writes through get_mut in a tree with one entry; no mutable iterator is ever run.",
  ["src/iter.rs", "src/node.rs", "src/lib.rs"],
  [("IterMut, FilterIterMut, SortedIterMut, FilterSortedIterMut", "src/iter.rs"), ("into_get_mut", "src/node.rs")],
  None, ["all *_mut methods"])

p("C20", "Queries on an empty or emptied tree are harmless and find nothing",
  "On a tree that is empty, whether new or emptied by removals, every query (iteration, filtered and ranked queries, lookups, removal, joins with any other tree on either side, cloning) terminates without panicking and finds nothing, whatever query object it is given, including the provided geometric filters and rankings over integer coordinates. A tree emptied by removals accepts new entries just as a new one does.",
  ["inputs", "histories", "configurations"],
  "all ways of arriving at an empty tree x all queries x all configurations (including min_children 0 and 1)",
  "No test queries an empty tree, or inserts after emptying one.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/node.rs", "src/ranking.rs", "src/bounds.rs"],
  [("empty root handling", "src/iter.rs *::new; src/join.rs JoinIter::new; src/left_join.rs LeftJoinIter::new"),
   ("collapse to an empty leaf", "src/node.rs NodeContainer::remove, try_unbranch")],
  None, ["all queries"])

p("C21", "Keyed operations look only where the key can be",
  "get, get_mut, remove and insert_unique compare keys only with entries all of whose enclosing nodes (the root possibly excepted) have bounds that contain the bounds of the key looked for; they look at no bounds below a node whose bounds do not contain them; and they compare no further key once they have found an equal one. A lookup among separated keys thus visits a single path, not the whole tree. insert compares no keys at all.",
  ["inputs", "histories", "configurations"],
  "all trees x all keys looked for (present, absent, duplicated, nested, with coinciding bounds) x get, get_mut, remove, insert_unique and insert",
  "Tests see only what a lookup returns; one that scans all entries returns the same.",
  ["src/node.rs", "src/lib.rs"],
  [("descent into children whose bounds contain the key's", "src/node.rs NodeRef::get, NodeRefMut::get_mut, into_get_mut, remove, insert_unique")],
  None, ["calls of PartialEq on keys and of Contains on bounds"])

p("C22", "An insertion goes where it enlarges the bounds least",
  "Inserting an entry descends from the root, at each inner node into a child whose volume grows least by adding the bounds of the entry (for insert: among those that grow equally, into one of least volume), and the entry becomes part of the leaf reached, or of one of its two halves if that leaf was full. insert and insert_unique of a new key both do. For boxes whose volumes are exact in floating point.",
  ["inputs", "histories", "configurations"],
  "all trees (any history and configuration with 1 <= min_children <= max_children / 2) x all inserted keys",
  "Tests look only at what the tree contains, never at where; a tree that puts entries anywhere gives the same answers, with nodes that overlap so that searches prune little.",
  ["src/select.rs", "src/node.rs"],
  [("minimal volume increase, then minimal volume", "src/select.rs MinimalVolumeIncreaseSelector"),
   ("descent", "src/node.rs NodeRefMut::insert, insert_unique")],
  None, ["node structure before and after an insertion, as presented to filters"])

p("C23", "Searches stream: nothing is sought or kept before it is wanted",
  "Filtered iteration, join and left_join test no key before the first result is asked for, and yield each accepted key (or pair) before asking the filter anything else; advancing left_join to its next left entry tests no keys. An iteration that is stopped early has thus done only the work up to there. Whole traversals by iter, iter_mut, filter_iter, filter_iter_mut, join and left_join (with its inner iterators dropped as it goes), and lookups, hold memory in proportion to the height of the trees only, not to the number of entries. Every iterator that has ended stays ended, and its size_hint is true.",
  ["inputs", "histories", "configurations"],
  "all trees x all filters x all points at which an iteration is stopped",
  "Tests collect whole results; an iteration that computes everything first, or keeps everything, gives the same.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/iter_stack.rs", "src/rc_mut.rs"],
  [("depth-first stack of child iterators", "src/iter.rs Iter::next, IterMut::next; src/join.rs JoinIter::next"),
   ("recycled buffer of inner iterators", "src/rc_mut.rs RcMutAlloc; src/left_join.rs LeftJoinIter::next")],
  None, ["filter calls in relation to calls of next", "global allocator"])

p("C24", "Formatting a tree shows each node and entry as it is",
  "Formatting a tree with Debug (plain or pretty) shows the key and value of every entry once, in iteration order, and the bounds of every node, and does not change the tree.",
  ["inputs", "histories", "configurations"],
  "all trees, by any history and configuration",
  "No test formats a tree.",
  ["src/node.rs", "src/fc_vec.rs", "src/lib.rs"],
  [("Debug for nodes and their children", "src/node.rs Debug impls; src/fc_vec.rs Debug impls")],
  None, ["Debug output"])

p("C25", "Vectors act coordinate by coordinate",
  "For vectors of every supported scalar type and dimension: componentwise_min and componentwise_max take the lesser and greater coordinate in each dimension, all_le and all_ge hold exactly when the comparison does in every dimension, min_value and max_value are the extremes in every dimension, addition, subtraction and add-assignment act in each dimension, sq_mag is the sum of the squared coordinates (all as far as the results are representable), zip, into_map, indexing and Debug give the coordinates in order, and equality and order are those of the coordinates.",
  ["inputs"],
  "all vectors of all scalar types, dimensions 1 to 7",
  "Vectors are only used incidentally by tests, in two or three dimensions and with one scalar type.",
  ["src/vector.rs"],
  [("Vector for SVec, arithmetic", "src/vector.rs")],
  None, ["methods and operators of SVec"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
