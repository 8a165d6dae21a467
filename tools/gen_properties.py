#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because the entries are easier to read and edit)."""
import json, os
DOM = ("Configurations with at least one minimum child and a maximum of at least twice the minimum (and at least 2); "
       "keys whose bounds are non-inverted and consistent with key equality; volumes that are representable numbers.")
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)))

p("C01", "The tree holds exactly the entries inserted and not removed",
  "After any sequence of insertions, unique insertions and removals, the tree's entries are exactly the multiset obtained by the same sequence on a plain list: an insertion adds one entry, a unique insertion replaces the value of an entry with an equal key or else adds one, a removal takes out one entry with an equal key. Each operation returns what the list returns: the replaced value, the removed value, or nothing when no equal key is present (and then nothing else changes).",
  ["histories", "configurations"], "Every history of insert, insert_unique and remove, with duplicate keys, on every bounds and key type obeying the trait laws. " + DOM,
  "Tests insert 50 random boxes in one configuration (4/2) and remove them in insertion order; splitting, underfull reinsertion and root shrinking depend on the whole history and on the configuration.",
  ["src/node.rs", "src/split.rs", "src/select.rs", "src/fc_vec.rs", "src/lib.rs"],
  [("recursive insertion with node splitting", "src/node.rs NodeRefMut::insert, self_insert; NodeContainer::branch"),
   ("unique insertion", "src/node.rs NodeRefMut::insert_unique"),
   ("removal with reinsertion of underfull nodes' children", "src/node.rs NodeRefMut::remove, NodeContainer::remove, try_unbranch"),
   ("distribution of an overfull node's children", "src/split.rs QuadraticSplitter::split")],
  ["RTree::insert", "RTree::insert_unique", "RTree::remove", "RTree::iter"],
  [("root", "owning handle of the root node: node, level, capacity", "src/node.rs NodeContainer")])
p("C02", "Lookup finds a key exactly when it is present",
  "Looking a key up, immutably or mutably, yields a value exactly when the tree holds an entry with an equal key, and the value is that of an entry with an equal key. When several entries have equal keys, both lookups, replacement by unique insertion and removal act on the same one: the first of them in iteration order.",
  ["histories", "inputs", "configurations"], "Every tree reachable by any history and every key looked up, present or absent. " + DOM,
  "Tests look up keys in trees of one entry, and one key in a tree of 50; whether a lookup may skip a subtree depends on every bounds value along every path.",
  ["src/node.rs", "src/bounds.rs", "src/lib.rs"],
  [("descent into children whose bounds contain the key's", "src/node.rs NodeRef::get, NodeRefMut::into_get_mut, NodeRefMut::get_mut"),
   ("containment of bounds", "src/bounds.rs Contains<AABB> for AABB")],
  ["RTree::get", "RTree::get_mut", "RTree::remove", "RTree::insert_unique"])
p("C03", "Filtered iteration yields exactly the matching entries, once each",
  "Iterating with a spatial filter yields every entry whose key the filter accepts, each exactly once, and no other entry, provided the filter accepts any bounds that contain an accepted key. Each yielded key is paired with its own value, and once the iterator has ended it stays ended.",
  ["histories", "inputs", "configurations"], "Every reachable tree and every filter that satisfies its documented law. " + DOM,
  "No test checks the result of a filtered iteration at all (the only use prints names and needs a data file that is absent); the quantifier is over all trees and all filters.",
  ["src/iter.rs", "src/iter_stack.rs", "src/node.rs", "src/filter.rs"],
  [("depth-first traversal over a stack of child iterators", "src/iter.rs Iter::next, FilterIter::new"),
   ("stack of iterators by level", "src/iter_stack.rs IterStack")],
  ["RTree::filter_iter"])
p("C04", "Iteration, length and emptiness agree with the contents",
  "Plain iteration yields every entry of the tree exactly once and then ends for good, the reported length is the number of entries, and the tree reports itself empty exactly when that number is zero. Borrowing the tree in a for loop gives the same iteration.",
  ["histories", "configurations"], "Every tree reachable by any history. " + DOM,
  "Tests compare the length after insertions only, and check emptiness of one tree; iteration completeness over all heights and shapes is not tested.",
  ["src/iter.rs", "src/iter_stack.rs", "src/node.rs", "src/lib.rs"],
  [("traversal without filter", "src/iter.rs Iter::next"), ("recursive count", "src/node.rs NodeRef::len, NodeRef::is_empty")],
  ["RTree::iter", "RTree::len", "RTree::is_empty"])
p("C05", "Ranked iteration yields the entries in ascending rank order",
  "Iterating in ascending order of a ranking yields every entry exactly once, in non-decreasing order of the rank of its key, for every ranking whose lower bound on a group never exceeds the rank of a member; the variant that drops unranked keys yields exactly the ranked ones in that order. The minimum queries return an entry of least rank, and nothing when there is no candidate, in particular on an empty tree.",
  ["histories", "inputs", "configurations"], "Every reachable tree (empty included) and every ranking that satisfies its documented laws, ties included. " + DOM,
  "One test ranks a 10x10 grid of points by distance to one centre; no test covers the filtering variants, the minimum queries, ties with nodes, or an empty tree.",
  ["src/iter.rs", "src/ranking.rs", "src/node.rs", "src/lib.rs"],
  [("best-first search with a heap ordered by rank and level", "src/iter.rs SortedIter, FilterSortedIter and their mutable forms")],
  ["RTree::iter_asc_by", "RTree::filter_iter_asc_by", "RTree::min_by", "RTree::filter_min_by"])
p("C06", "A join yields exactly the matching pairs of entries, once each",
  "Joining two trees yields every pair of one entry of each whose keys the join filter accepts, each pair exactly once, and no other pair, provided the filter accepts any pair of bounds that contain an accepted pair of keys. This holds for trees of equal and of different heights and for empty trees.",
  ["histories", "inputs", "configurations"], "Every pair of reachable trees, of any heights and configurations, and every lawful join filter. " + DOM,
  "The test called join exercises only the left join; the plain join is not tested except for its two-slice product iterator.",
  ["src/join.rs", "src/iter_stack.rs", "src/node.rs", "src/filter.rs"],
  [("simultaneous descent with the shorter tree's leaves held in place", "src/join.rs JoinIter::start_join, JoinIter::next"),
   ("product of two child lists", "src/join.rs ProductIter, RewindableIter")],
  ["RTree::join"])
p("C07", "A left join yields every left entry once with exactly its matches",
  "A left join yields each entry of the left tree exactly once, also when nothing matches it, together with an iterator over exactly those entries of the right tree whose keys the join filter accepts with the left key, each once. This holds for trees of any heights, empty trees included, and for every lawful join filter.",
  ["histories", "inputs", "configurations"], "Every pair of reachable trees, of any heights and configurations, and every lawful join filter. " + DOM,
  "One test joins two 50-point trees of equal configuration and collects only matched pairs, so an omitted unmatched row, or a fault with different heights, goes unseen.",
  ["src/left_join.rs", "src/iter.rs", "src/iter_stack.rs", "src/rc_mut.rs", "src/filter.rs"],
  [("paired descent with rewinding of the right side", "src/left_join.rs LeftJoinIter::next, rewind"),
   ("right rows started from a copy of the remaining right stack", "src/left_join.rs LeftJoinIter::next; src/iter_stack.rs map_into")],
  ["RTree::left_join"])
p("C08", "The tree stays balanced, within occupancy limits, with exact bounds",
  "After any history every node's bounds are exactly the union of the bounds of its children, all entries lie at the same depth, no node has more children than the maximum, every node but the root has at least the minimum, and a root that is not a leaf has at least two. The depth therefore stays logarithmic in the number of entries.",
  ["histories", "configurations"], "Every history of insertions, unique insertions and removals. " + DOM,
  "Tests check bounds after each step of two 50-entry histories in one configuration, and occupancy only during insertion; never depth, the maximum, or the root.",
  ["src/node.rs", "src/split.rs", "src/select.rs", "src/bounds.rs", "src/fc_vec.rs"],
  [("bounds maintenance on insertion, split and removal", "src/node.rs self_insert, insert, remove, branch"),
   ("minimum occupancy of both groups of a split", "src/split.rs QuadraticSplitter::split"),
   ("underfull nodes dissolved, root unwrapped", "src/node.rs NodeContainer::remove, try_unbranch")],
  ["Debug output of RTree"])
p("C09", "Every key and value is owned once and released once",
  "Whatever sequence of operations runs, every inserted key and value is dropped exactly once, when it is removed, replaced or discarded with the tree, unless it is handed back to the caller; none is leaked, duplicated, dropped twice or read after being dropped. No operation reads or writes memory outside the storage it owns.",
  ["histories", "configurations"], "Every history, ended at any point by dropping the tree, with keys and values of any type of non-zero size. " + DOM,
  "One test counts drops after 50 insertions and no removal; the storage is hand-written unsafe code whose faults stay silent unless the right slot is touched.",
  ["src/fc_vec.rs", "src/node.rs", "src/iter_stack.rs", "src/rc_mut.rs", "src/util.rs"],
  [("fixed-capacity vector over raw memory", "src/fc_vec.rs FCVecRefMut, FCVecContainer, IntoIter"),
   ("union of child kinds tagged by level", "src/node.rs NodeChildren, NodeContainer::drop, NodeContainer::branch")],
  ["drop counts of keys and values", "allocation balance"],
  [("slots [0,len) initialised, the rest not", "slot ownership", "src/fc_vec.rs FCVec")])
p("C10", "A clone is equal to its original and independent of it",
  "Cloning a tree gives a tree with the same configuration, the same structure and equal entries in the same order. Afterwards no operation on either tree, dropping included, is visible in the other.",
  ["histories", "configurations"], "Every reachable tree, and every history on the clone or the original afterwards. " + DOM,
  "One test clones a 50-entry tree and compares it; it never changes either tree afterwards and covers one height.",
  ["src/node.rs", "src/fc_vec.rs", "src/lib.rs"],
  [("recursive deep copy", "src/node.rs Alloc::clone_node, Alloc::clone_children; src/fc_vec.rs Alloc::clone")],
  ["RTree::clone"])
p("C11", "Mutable access reaches the same entries and changes only values",
  "The mutable forms of iteration, filtered iteration, ranked iteration, lookup and minimum visit the same entries, in the same order, as the immutable forms. A value written through one of them is the value later read for that entry, and no other entry, key or bounds changes.",
  ["histories", "inputs", "configurations"], "Every reachable tree, every lawful filter and ranking, and every set of values written. " + DOM,
  "Tests write through one mutable lookup in a tree of a single entry; no mutable iterator is tested.",
  ["src/iter.rs", "src/node.rs", "src/iter_stack.rs", "src/lib.rs"],
  [("mutable traversal", "src/iter.rs IterMut::next, FilterIterMut, SortedIterMut, FilterSortedIterMut"),
   ("mutable lookup", "src/node.rs NodeRefMut::into_get_mut")],
  ["RTree::iter_mut", "RTree::filter_iter_mut", "RTree::iter_asc_by_mut", "RTree::filter_iter_asc_by_mut", "RTree::get_mut", "RTree::min_by_mut", "RTree::filter_min_by_mut"])
p("C12", "Bounding-box predicates and unions agree with box geometry",
  "For axis-aligned boxes of any dimension over a totally ordered scalar, a box contains a point or a box exactly when every coordinate lies within its closed range, and intersects one exactly when the closed ranges overlap in every dimension. The union of boxes is the smallest box containing them, the empty box is its identity, and the bounds of a point, box, line or sphere contain it.",
  ["inputs"], "All coordinate values, extreme ones included, and all dimensions (for a sphere, when its extent is representable).",
  "One test checks one pair of intersecting boxes; containment, unions and boundary cases are not tested.",
  ["src/bounds.rs", "src/vector.rs", "src/geom/line.rs", "src/geom/sphere.rs"],
  [("componentwise comparisons", "src/vector.rs Vector for SVec"), ("box predicates", "src/bounds.rs impls for AABB")],
  ["AABB::contains", "AABB::intersects", "AABB::union", "AABB::union_all", "AABB::empty", "Bounded::bounds"])
p("C13", "The supplied filters and rankings never prune a matching key",
  "Whenever one of the supplied spatial filters accepts a key, it accepts every bounds that contain the key's bounds, so no match is ever pruned; the key filter used for the rows of a left join agrees with the join filter it is made from. The supplied distance ranking never assigns bounds a rank above that of a key inside them.",
  ["inputs"], "All box and point keys, query boxes and points, and spaces whose own predicates are monotone and whose bounds cover what they match; scalars whose arithmetic does not overflow.",
  "No test relates the answer of a filter for a key to its answer for bounds; the law quantifies over all pairs of key and bounds.",
  ["src/filter.rs", "src/ranking.rs", "src/bounds.rs", "src/vector.rs", "src/intersects.rs"],
  [("filters delegating to intersection and containment", "src/filter.rs"), ("distance to the nearest point of a box", "src/ranking.rs PointDistance for AABB")],
  ["SpatialFilter impls", "Ranking for EuclideanDistanceRanking"])
p("C14", "Line, ray and sphere predicates agree with exact geometry",
  "A line segment, a ray or a sphere with small integer coordinates is reported to intersect a box, or a point for a sphere, whenever the two have a point in common in the interior of the box, and is not reported to when they are separated by a positive distance. A ray does not reach behind its origin.",
  ["inputs"], "All coordinates small enough for the arithmetic to be exact, degenerate directions included.",
  "Three fixed examples for segments and none for rays and spheres; the answer depends on division by zero and not-a-number handling.",
  ["src/intersects.rs", "src/geom/line.rs", "src/geom/ray.rs", "src/geom/sphere.rs"],
  [("slab method", "src/intersects.rs line_bounds_intersect, ray_bounds_intersect"), ("squared distance", "src/geom/sphere.rs")],
  ["Line::intersects", "Ray::intersects", "Sphere::intersects"])
p("C15", "Rows of a left join stay valid however they are consumed",
  "The iterators over right entries that a left join hands out may be kept, interleaved, left unfinished, dropped in any order, and outlive the join itself: each still yields exactly the matches of its own left entry, unaffected by the others. All their storage is released once.",
  ["schedules", "histories"], "Every order in which the caller advances, keeps and drops the join and its rows, on every pair of reachable trees.",
  "The one left-join test consumes each row fully before asking for the next, so a row's storage is always free for reuse.",
  ["src/rc_mut.rs", "src/left_join.rs", "src/iter_stack.rs"],
  [("storage shared between the join and its latest row, reused only when released", "src/rc_mut.rs RcMutAlloc::make_mut_init_raw, RcMut::drop, RcMutAlloc::drop")],
  ["RTree::left_join and the row iterators"],
  [("shared", "whether both owners of the storage are alive", "src/rc_mut.rs RcMutBox")])
p("C16", "No operation panics or fails to return on a valid tree",
  "On every tree reachable by any history, every operation returns without panicking: no internal consistency check fails, no arithmetic on sizes overflows, no index is out of range, and every operation terminates.",
  ["histories", "inputs", "configurations"], "Every history of operations and queries. " + DOM,
  "Tests run a few fixed histories in two configurations; internal panics guard states that only particular histories could reach.",
  ["src/node.rs", "src/split.rs", "src/select.rs", "src/fc_vec.rs", "src/iter.rs", "src/join.rs", "src/left_join.rs"],
  [("explicit panics and unwraps on internal state", "src/node.rs, src/split.rs, src/fc_vec.rs")],
  ["every method of RTree"])
p("C17", "Rejected groups of entries are not examined",
  "Filtered iteration tests a key only if the filter accepted the bounds of every group holding it, and tests no key twice. A join tests a pair of keys only if every group holding one of them was accepted together with a group holding the other, never below a rejected pair of groups, and tests no pair twice; a row of a left join tests a right key only if every group holding it was accepted against the left key or a group holding that, and none was rejected, and tests no key twice. Ranked iteration and minimum queries rank a key only if no group holding it has a lower bound above the rank of the entry taken (before the first entry is asked for, none); where rankings are optional, no key of an unranked group.",
  ["histories", "inputs"], "Every reachable tree, filter, join filter and ranking (a function of its arguments that obeys its laws), and every prefix of the iteration consumed.",
  "No test observes which keys are examined; the results are the same when everything is examined.",
  ["src/iter.rs", "src/join.rs", "src/left_join.rs", "src/node.rs"],
  [("bounds tested before descending", "src/iter.rs FilterIter::new, FilterIter::next, FilterIterMut::next"),
   ("pairs of bounds tested before descending", "src/join.rs JoinIter::next; src/left_join.rs InnerIterStack::next, rewind"),
   ("children ranked only when their node is taken from the heap", "src/iter.rs SortedIter::next, FilterSortedIter::next and their mutable forms")],
  ["calls received by a user-supplied filter, join filter or ranking"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
