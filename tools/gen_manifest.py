#!/usr/bin/env python3
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "contracts on the extracted code, discharged by Verus; bounded checks of the real crate find failing inputs"
PROOF = {
    "C01": ("proof", V, "insert, insert_unique, remove and everything they call, for every tree, key and occupancy setting with max >= 2 * min. Trusted: see trusted_base in the evidence.",
            ["RTree::new", "RTree::insert", "RTree::insert_unique", "RTree::remove"]),
    "C02": ("proof", V, "get, get_mut, insert_unique, remove and everything they call. Trusted: see trusted_base in the evidence.",
            ["RTree::get", "RTree::get_mut", "RTree::insert_unique", "RTree::remove"]),
    "C03": ("proof", V, "Every sound tree and every lawful filter; the built-in filters are shown lawful. That trees stay sound is C08's. Trusted: see trusted_base in the evidence.",
            ["Iter::new", "Iter::next", "FilterIter::new", "FilterIter<Stack,Q,F> as Iterator::next_item", "RTree::filter_iter", "theorem_filtered", "theorem_intersects_points", "theorem_intersects_boxes", "theorem_contains_points", "theorem_contains_boxes", "theorem_point_in_boxes"]),
    "C04": ("proof", V, "Every sound tree. That trees stay sound is C08's. Trusted: see trusted_base in the evidence.",
            ["Iter<Stack> as Iterator::next_item", "RTree::iter", "&'a RTree<B,Key,Value> as IntoIterator::into_iter_ref", "RTree::len", "RTree::is_empty", "theorem_sound"]),
    "C05": ("proof", V, "Every sound tree below usize::MAX levels and every lawful ranking. That trees stay sound is C08's. Trusted: see trusted_base in the evidence.",
            ["SortedIter<'a,B,Key,Value,R> as Iterator::next_item", "SortedIter::new", "FilterSortedIter::new", "FilterSortedIter<'a,B,Key,Value,R,S> as Iterator::next_item", "RTree::iter_asc_by", "RTree::filter_iter_asc_by", "RTree::min_by", "RTree::filter_min_by", "theorem_ranked", "theorem_ascending"]),
    "C06": ("proof", V, "Every two sound trees of any heights and every lawful join filter. That trees stay sound is C08's. Trusted: see trusted_base in the evidence.",
            ["JoinIter<'a,'b,B0,B1,Key0,Key1,Value0,Value1,Q0,Q1,Filter> as Iterator::next_item", "JoinIter::new", "JoinIter::start_join", "ProductIter<'a,'b,T0,T1> as Iterator::next_item", "RTree::join", "theorem_joined"]),
    "C07": ("proof", V, "Every two sound trees of any heights and every lawful join filter whose clones accept the same. That trees stay sound is C08's, that a row keeps its own stack is C15's. Trusted: see trusted_base in the evidence.",
            ["LeftJoinIter<'l,'r,BL,BR,KeyL,KeyR,ValueL,ValueR,QL,QR,Filter> as Iterator::next_item", "LeftJoinIter::new", "InnerIterStack::next", "InnerIterStack::find", "iterate_left_children", "iterate_right_children", "rewind", "RTree::left_join", "theorem_left_joined"]),
    "C08": ("proof", V, "Every operation keeps sound(); boxes, points and box keys are shown to satisfy the laws it rests on.",
            ["RTree::new", "RTree::insert", "RTree::insert_unique", "RTree::remove", "theorem_clone", "theorem_boxes", "theorem_point_keys", "theorem_box_keys"]),
    "C10": ("proof", V, "Configuration, structure and entries of the clone proved; independence follows from each tree owning its nodes and is also run on histories (bounded).",
            ["Alloc::clone_node", "Alloc::clone_children", "NodeContainer<B,Key,Value> as Clone::clone", "theorem_clone"]),
    "C11": ("proof", V, "Every sound tree and every lawful filter or ranking; the order of equally ranked entries is only compared on generated trees (bounded). That trees stay sound is C08's. Trusted: see trusted_base in the evidence.",
            ["IterMut<Stack> as Iterator::next_item", "FilterIterMut<Stack,Q,F> as Iterator::next_item", "RTree::iter_mut", "RTree::filter_iter_mut", "SortedIterMut<'a,B,Key,Value,R> as Iterator::next_item", "FilterSortedIterMut<'a,B,Key,Value,R,S> as Iterator::next_item",
             "RTree::iter_asc_by_mut", "RTree::filter_iter_asc_by_mut", "RTree::min_by_mut", "RTree::filter_min_by_mut", "RTree::get_mut", "theorem_write_through", "theorem_write_ranked", "theorem_mutated"]),
    "C12": ("proof", V, "Any dimension, any scalar with a total order. Sphere and line bounds for integers without overflow. Trusted: see trusted_base in the evidence.",
            ["AABB<V> as Contains<V>::contains", "AABB<V> as Contains<AABB<V>>::contains", "AABB<V> as Intersects<V>::intersects", "AABB<V> as Intersects<AABB<V>>::intersects", "AABB<V> as Bounds::union", "AABB<V> as Bounds::union_all", "box_laws", "sphere_bounds_contain_sphere"]),
    "C13": ("proof", V, "Filters, join filters and the distance ranking. The arithmetic of the ranking: i64 coordinates without overflow.",
            ["intersects_filter_keeps_points", "intersects_filter_keeps_boxes", "contains_filter_keeps_points", "contains_filter_keeps_boxes", "bounded_intersects_filter_keeps_points", "bounded_intersects_filter_keeps_boxes", "bounded_contains_filter_keeps_points", "bounded_contains_filter_keeps_boxes", "point_intersects_filter_keeps_boxes", "JoiningFilter<'a,BL,Key0,Filter> as SpatialFilter<BR,Key1>::test_key", "theorem_box_no_farther_than_its_points", "theorem_box_no_farther_than_its_boxes", "EuclideanDistanceRanking<V,M> as Ranking<B,Key>::bounds_min", "EuclideanDistanceRanking<V,M> as Ranking<B,Key>::rank_key"]),
    "C14": ("proof", V, "All integer coordinates with magnitude below 2^20 (spheres: up to 2048 dimensions), degenerate directions included, against an IEEE-754 model of f64 with rounding. Trusted: the model's laws, see trusted_base in the evidence.",
            ["f64_min", "f64_max", "ray_bounds_intersect", "line_bounds_intersect", "Line::delta", "Line<SVec<N,D>> as Intersects<SAABB<N,D>>::intersects", "Ray<N,D> as Intersects<SAABB<N,D>>::intersects", "Sphere<N,D> as Intersects<SVec<N,D>>::intersects", "lemma_verdict", "scalars_are_exact"]),
    "C15": ("proof", V, "The protocol by which a join and its rows share and release storage: every order of creating, using and dropping them, over an explicit heap. That a row is handed the rest of its matches is C07's. Trusted: see trusted_base in the evidence.",
            ["RcMutAlloc::new_for_layout", "RcMutAlloc::make_mut_init_raw", "RcMutAlloc<T,H> as Clone::clone", "RcMutAlloc<T,H> as Drop::drop", "RcMut<T> as Drop::drop", "RcMut<T> as Deref::deref", "RcMut<T> as DerefMut::deref_mut", "theorem_row_undisturbed", "theorem_all_released"]),
    "C16": ("proof", V, "Every callee's precondition (unwrap, index, explicit panics), every overflow and every termination measure in the functions behind RTree's public methods, on trees of fewer than usize::MAX levels and entries. Termination of a client's own callbacks is theirs. Trusted: see trusted_base in the evidence.",
            ["RTree::new", "RTree::insert", "RTree::insert_unique", "RTree::remove", "RTree::get", "RTree::get_mut", "Iter::next", "IterMut<Stack> as Iterator::next_item", "SortedIter<'a,B,Key,Value,R> as Iterator::next_item", "SortedIterMut<'a,B,Key,Value,R> as Iterator::next_item",
             "JoinIter<'a,'b,B0,B1,Key0,Key1,Value0,Value1,Q0,Q1,Filter> as Iterator::next_item", "LeftJoinIter<'l,'r,BL,BR,KeyL,KeyR,ValueL,ValueR,QL,QR,Filter> as Iterator::next_item", "RTree::join", "RTree::left_join", "RcMutAlloc::make_mut_init_raw"]),
    "C17": ("proof", "permission preconditions on the calls of filters and rankings in the extracted code, discharged by Verus; bounded checks of the real crate find failing inputs",
            "That test_key and rank_key are only called where the statement permits: filtered and ranked iteration in both forms, minimum queries, joins, left joins and their rows. Bounded: that nothing is tested twice. Trusted: see trusted_base in the evidence.",
            ["FilterIter::new", "FilterIter<Stack,Q,F> as Iterator::next_item", "FilterIterMut<Stack,Q,F> as Iterator::next_item", "SortedIter<'a,B,Key,Value,R> as Iterator::next_item", "FilterSortedIter<'a,B,Key,Value,R,S> as Iterator::next_item", "SortedIterMut<'a,B,Key,Value,R> as Iterator::next_item", "FilterSortedIterMut<'a,B,Key,Value,R,S> as Iterator::next_item",
             "JoinIter<'a,'b,B0,B1,Key0,Key1,Value0,Value1,Q0,Q1,Filter> as Iterator::next_item", "LeftJoinIter<'l,'r,BL,BR,KeyL,KeyR,ValueL,ValueR,QL,QR,Filter> as Iterator::next_item", "LeftJoinIter::new", "InnerIterStack::find", "theorem_rejected_group", "theorem_rejected_pair", "theorem_rejected_row"]),
}
LOOSE = {
    "C09": "Slot ownership and deallocation are proved for the functions under contract (see the evidence); that nothing is left behind over a history is counted on generated histories (bounded), as the verifier's ownership is affine: it permits forgetting a value.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    i = p["id"]
    lvl, tech, note, th = PROOF.get(i, ("exploration", "contracts evaluated at run time on generated histories (bounded)",
        LOOSE.get(i, "Bounded: generated and enumerated histories on the real crate."), None))
    c = {"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
         "technique": tech, "level": lvl, "level_note": note}
    if th:
        c["theorems"] = th
    checks.append(c)
m = {"version": 1, "setup_cmd": "cargo build --offline --quiet --manifest-path rtcheck/Cargo.toml",
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
