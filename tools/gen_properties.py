#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the statements)."""
import json, os
SRC = "rstar/src/"
def P(id, title, statement, over, q, why, files, mech, observe, hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
            "anchors": {"files": [SRC + f for f in files],
                        "mechanism": [{"name": n, "where": SRC + w} for n, w in mech],
                        "observe_at": observe, "hook_needed": hook}}
PRE = " (coordinates are comparable numbers, i.e. no NaN, and arithmetic on them does not overflow)"
props = [
P("T01", "Inserting an object keeps every other object",
  "After inserting an object into any tree - empty, built by insertions, bulk loaded, or thinned out by removals - the tree contains exactly the objects it contained before plus the new one, counted with multiplicity, and the reported size is one larger. Insertion never panics, whatever the object's position, however many duplicates the tree holds, and for every permitted choice of node-size parameters" + PRE + ".",
  ["inputs", "histories", "configurations"], "every valid tree, every object, every permitted parameter set",
  "Unit tests insert 1000 random points from one seed; overflow handling (forced reinsertion, cascading splits, root growth) depends on exact coordinate orderings, ties and tree shape, which samples do not cover.",
  ["algorithm/rstar.rs", "rtree.rs", "node.rs"],
  [("recursive and forced insertion", "algorithm/rstar.rs"), ("overflow: reinsertion and split", "algorithm/rstar.rs"), ("size counter", "rtree.rs")],
  ["RTree::insert", "RTree::iter", "RTree::size", "RTree::root"]),
P("T02", "Insertion keeps the tree well-formed",
  "After an insertion into a well-formed tree, every internal node's reported envelope is exactly the smallest envelope enclosing its children and all objects are at the same depth. No node has more children than the configured maximum, and every node created by a split has at least the configured minimum, so a tree built only by insertions has no under-filled node except its root.",
  ["inputs", "histories", "configurations"], "every well-formed tree, every inserted object, every permitted parameter set",
  "Tests run a structural check on one random insertion sequence with default parameters; a stale envelope or a wrong depth appears only for particular overflow paths.",
  ["algorithm/rstar.rs", "node.rs"],
  [("envelope maintenance on the insertion path", "algorithm/rstar.rs"), ("split point choice", "algorithm/rstar.rs")],
  ["RTree::insert", "RTree::root", "ParentNode::envelope", "ParentNode::children"]),
P("T03", "Bulk loading holds exactly the given objects in a well-formed tree",
  "Bulk loading any list of objects yields a tree containing exactly those objects with multiplicity, of that size, in which every internal node is non-empty, reports exactly the smallest envelope of its children, all objects are at the same depth and no node that directly holds objects exceeds the configured maximum. Further insertions into and removals from such a tree succeed without panicking and keep its contents exact.",
  ["inputs", "configurations"], "every list of objects (any length, order, duplicates), every permitted parameter set and dimension",
  "Tests bulk load random data of a few sizes and never insert much afterwards; uneven clusters depend on the exact element count and dimension.",
  ["algorithm/bulk_load/bulk_load_sequential.rs", "algorithm/bulk_load/cluster_group_iterator.rs", "aabb.rs"],
  [("recursive partitioning", "algorithm/bulk_load/bulk_load_sequential.rs"), ("slab iteration", "algorithm/bulk_load/cluster_group_iterator.rs")],
  ["RTree::bulk_load", "RTree::bulk_load_with_params", "RTree::root", "RTree::insert"]),
P("T04", "Removing one object removes exactly one matching object",
  "Removing by equality, by point or by a custom selection returns one object that matches and was in the tree, or nothing if and only if no object matches. Afterwards the tree holds exactly the other objects with multiplicity, its size dropped by exactly one in the former case and not at all in the latter, and it is still well-formed (tight envelopes, no empty internal node, all objects at one depth) and fully usable.",
  ["inputs", "histories"], "every valid tree, every removal request",
  "Tests remove random distinct points from one random tree; equal objects, overlapping objects and nodes that become empty during a removal are not covered.",
  ["algorithm/removal.rs", "algorithm/selection_functions.rs", "rtree.rs"],
  [("draining traversal", "algorithm/removal.rs"), ("re-assembly on drop", "algorithm/removal.rs"), ("equality and point selections", "algorithm/selection_functions.rs")],
  ["RTree::remove", "RTree::remove_at_point", "RTree::remove_with_selection_function", "RTree::size"]),
P("T05", "A finished drain removes exactly the selected objects",
  "Running any draining iterator to its end (all objects, objects inside an envelope, intersecting an envelope, within a distance, or chosen by a custom selection) yields each matching object exactly once and nothing else. Afterwards the tree holds exactly the non-matching objects, its size is their number, and it is well-formed (tight envelopes, no empty internal node, all objects at one depth).",
  ["inputs", "histories"], "every valid tree, every selection consistent with the envelopes",
  "The drain test uses one tree and one envelope and only counts; which objects share a node with selected ones decides the in-place reordering the iterator performs.",
  ["algorithm/removal.rs", "rtree.rs"],
  [("draining traversal with swap removal", "algorithm/removal.rs"), ("envelope recomputation and removed counts", "algorithm/removal.rs")],
  ["RTree::drain", "RTree::drain_in_envelope", "RTree::drain_in_envelope_intersecting", "RTree::drain_within_distance", "RTree::drain_with_selection_function"]),
P("T06", "An interrupted drain removes exactly what it yielded",
  "Dropping a draining iterator after any number of steps leaves a well-formed tree that holds exactly the objects not yielded so far, with the matching size. Leaking the iterator instead leaves an empty tree of size zero that accepts insertions and answers queries.",
  ["inputs", "histories", "crash_points"], "every valid tree, every selection, every interruption point",
  "Tests interrupt a drain at three fixed counts on one random tree and check counts only.",
  ["algorithm/removal.rs"],
  [("re-assembly on drop", "algorithm/removal.rs"), ("root replaced while draining", "algorithm/removal.rs")],
  ["DrainIterator::drop", "RTree::size", "RTree::iter"]),
P("T07", "A tree behaves like a multiset under any operation history",
  "For every sequence of insertions, removals, nearest-neighbour removals, drains and bulk loads starting from an empty tree, no operation panics and after each one the size, the iterated contents and the membership answers equal those of a plain multiset subjected to the same sequence. The tree stays well-formed throughout: tight envelopes, no empty internal node, all objects at one depth.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the stated length with arbitrary coordinates",
  "Tests run two fixed kinds of history on random data; interactions such as inserting into a tree thinned by removals are sampled once.",
  ["rtree.rs", "algorithm/rstar.rs", "algorithm/removal.rs"],
  [("all mutating operations", "rtree.rs")],
  ["RTree::insert", "RTree::remove", "RTree::pop_nearest_neighbor", "RTree::drain", "RTree::size", "RTree::contains", "RTree::iter"]),
P("Q01", "Envelope containment queries are exact",
  "Querying a tree for the objects contained in an envelope returns exactly the stored objects whose own envelope lies fully inside the query envelope, borders included, each exactly once. This holds for every valid tree, every query envelope, and equally for the shared and mutable variants.",
  ["inputs"], "every valid tree, every query envelope",
  "One random tree and one query envelope are tested; touching borders and degenerate envelopes never occur in random floats.",
  ["algorithm/selection_functions.rs", "algorithm/iterators.rs", "aabb.rs"],
  [("containment selection", "algorithm/selection_functions.rs"), ("traversal", "algorithm/iterators.rs")],
  ["RTree::locate_in_envelope", "RTree::locate_in_envelope_mut", "RTree::locate_in_envelope_int"]),
P("Q02", "Envelope intersection queries are exact",
  "Querying a tree for the objects intersecting an envelope returns exactly the stored objects whose own envelope shares at least one point with the query envelope, mere touching included, each exactly once. This holds for every valid tree, every query envelope, and equally for the shared and mutable variants.",
  ["inputs"], "every valid tree, every query envelope",
  "Only a count on one random tree is tested; touching borders never occur in random floats.",
  ["algorithm/selection_functions.rs", "algorithm/iterators.rs", "aabb.rs"],
  [("intersection selection", "algorithm/selection_functions.rs"), ("traversal", "algorithm/iterators.rs")],
  ["RTree::locate_in_envelope_intersecting", "RTree::locate_in_envelope_intersecting_mut", "RTree::locate_in_envelope_intersecting_int"]),
P("Q03", "Point location queries are exact",
  "Locating all objects at a point returns exactly the stored objects that contain the point, each exactly once; locating a single object returns one of them, and nothing if and only if there is none. This holds for point, line, rectangle and user-defined objects, borders included, and equally for the shared, mutable and internal-iteration variants.",
  ["inputs"], "every valid tree, every query point",
  "The existing test discards the result of its comparison; random query points never hit a border or a stored point.",
  ["algorithm/selection_functions.rs", "object.rs", "rtree.rs"],
  [("at-point selection", "algorithm/selection_functions.rs"), ("object containment", "object.rs")],
  ["RTree::locate_at_point", "RTree::locate_all_at_point", "RTree::locate_at_point_int", "RTree::locate_all_at_point_mut"]),
P("Q04", "Distance-limited queries are exact",
  "Querying a tree for all objects within a squared distance of a point returns exactly the stored objects whose squared distance to the point is less than or equal to the limit, each exactly once. Objects exactly at the limit are included.",
  ["inputs"], "every valid tree, query point and limit",
  "One random tree and one circle are tested; the boundary case of equality is not.",
  ["algorithm/selection_functions.rs", "aabb.rs", "object.rs"],
  [("within-distance selection", "algorithm/selection_functions.rs"), ("early-out distance", "object.rs")],
  ["RTree::locate_within_distance"]),
P("Q05", "Traversals visit every selected object exactly once",
  "Iterating over a whole tree (shared, mutable, by reference or consuming) yields every stored object exactly once, for any tree shape and size. A query with a custom selection yields exactly the selected objects, each once, provided the selection accepts every internal node enclosing a selected object; a tree whose root is rejected yields nothing.",
  ["inputs"], "every valid tree shape, every custom selection meeting its contract",
  "Tests use a few random trees and one custom selection; which branches are pruned and when the traversal's inline buffers overflow depends on shape and selection.",
  ["algorithm/iterators.rs", "algorithm/removal.rs"],
  [("traversal stack", "algorithm/iterators.rs"), ("consuming iteration", "algorithm/removal.rs")],
  ["RTree::iter", "RTree::iter_mut", "RTree::into_iter", "RTree::locate_with_selection_function", "RTree::locate_with_selection_function_mut"]),
P("Q06", "Callback-driven queries visit the same objects and stop on request",
  "Each query that hands objects to a callback visits exactly the objects the corresponding iterator yields, each once, and reports completion when the callback never stops it. When the callback asks to stop, no further object is visited and the callback's value is returned unchanged, at whatever depth of the tree it happens.",
  ["inputs", "histories"], "every valid tree, query and stopping point, shared and mutable variants",
  "No test exercises the callback variants at all.",
  ["algorithm/iterators.rs", "rtree.rs"],
  [("internal iteration", "algorithm/iterators.rs")],
  ["RTree::locate_in_envelope_int", "RTree::locate_in_envelope_int_mut", "RTree::locate_in_envelope_intersecting_int", "RTree::locate_in_envelope_intersecting_int_mut", "RTree::locate_all_at_point_int", "RTree::locate_all_at_point_int_mut"]),
P("Q07", "Tree-to-tree intersection reports exactly the intersecting pairs",
  "Asking two trees for their intersection candidates returns exactly the pairs (one object from each tree) whose envelopes share at least one point, mere touching included, each pair exactly once. The trees may have different heights, sizes, parameters and object types, either may be empty, and both may be the same tree.",
  ["inputs"], "every pair of valid trees",
  "Two random pairs of trees are tested; touching envelopes and very unequal heights are not.",
  ["algorithm/intersection_iterator.rs", "rtree.rs"],
  [("pairwise descent", "algorithm/intersection_iterator.rs")],
  ["RTree::intersection_candidates_with_other_tree"]),
P("Q08", "Membership answers are exact",
  "Asking whether a tree contains an object answers yes if and only if some stored object equals it, for objects whose equality implies equal envelopes. This includes duplicates, objects sharing an envelope without being equal, and objects on the border of internal nodes.",
  ["inputs"], "every valid tree, every queried object",
  "Tests ask for random points only; equal envelopes with unequal objects never occur.",
  ["rtree.rs", "algorithm/selection_functions.rs"],
  [("membership via containment query", "rtree.rs")],
  ["RTree::contains"]),
P("N01", "The nearest neighbour really is nearest",
  "The nearest-neighbour query returns an object of the tree whose squared distance to the query point is minimal among all stored objects, together with that distance in the variant that reports it, and nothing if and only if the tree is empty. This holds for points, rectangles, lines and user-defined objects whose distance agrees with their envelope's, including ties, duplicates and query points inside objects.",
  ["inputs"], "every valid tree, every query point",
  "One random tree with 100 query points is tested; a wrong pruning bound shows only for particular arrangements of boxes around the query.",
  ["algorithm/nearest_neighbor.rs", "aabb.rs", "rtree.rs"],
  [("best-first search with min-max pruning", "algorithm/nearest_neighbor.rs"), ("min-max distance", "aabb.rs")],
  ["RTree::nearest_neighbor", "RTree::nearest_neighbor_with_distance_2"]),
P("N02", "Nearest-neighbour iteration is complete and ordered",
  "Iterating over nearest neighbours yields every object of the tree exactly once in order of non-decreasing squared distance to the query point, and the reported distances are the objects' actual squared distances. This holds for any number of objects, also when more candidates are pending than fit the search's initial fixed-size buffer.",
  ["inputs"], "every valid tree, every query point",
  "Two random trees are tested; buffer overflow at exactly the capacity boundary and ties are not.",
  ["algorithm/nearest_neighbor.rs"],
  [("priority queue with inline buffer", "algorithm/nearest_neighbor.rs"), ("ordering of candidates", "algorithm/nearest_neighbor.rs")],
  ["RTree::nearest_neighbor_iter", "RTree::nearest_neighbor_iter_with_distance_2"]),
P("N03", "All nearest neighbours are returned, and only they",
  "The query for all nearest neighbours returns exactly the stored objects whose squared distance to the query point equals the minimum over all stored objects, each once, plus that distance in the variant that reports it. For an empty tree it returns nothing.",
  ["inputs"], "every valid tree, every query point, any number of ties",
  "The test only checks that returned distances agree; random floats produce no ties, so a missing neighbour cannot be noticed.",
  ["algorithm/nearest_neighbor.rs", "rtree.rs"],
  [("tie collection", "algorithm/nearest_neighbor.rs")],
  ["RTree::nearest_neighbors", "RTree::nearest_neighbors_with_distance_2"]),
P("N04", "Popping the nearest neighbour removes exactly that object",
  "Popping the nearest neighbour of a non-empty tree returns an object at minimal squared distance and removes exactly that one object, even if equal or co-located objects exist; on an empty tree it returns nothing. Popping repeatedly empties the tree in order of non-decreasing distance.",
  ["inputs", "histories"], "every valid tree, every query point",
  "Only a doc example with two points exists.",
  ["rtree.rs", "algorithm/selection_functions.rs", "algorithm/removal.rs"],
  [("removal by identity", "algorithm/selection_functions.rs")],
  ["RTree::pop_nearest_neighbor"]),
P("A01", "Box containment and intersection agree with point-set meaning",
  "For axis-aligned boxes, a point is contained if and only if every coordinate lies between the box's bounds inclusively, a box is contained in another if and only if all its points are, and two boxes intersect if and only if they share at least one point. The empty box contains no point, intersects no box short of the number type's whole range, is contained in every box and is recognised as empty, and no box built from points is.",
  ["inputs", "configurations"], "all boxes and points, integer and floating-point coordinates, several dimensions",
  "Tests check four fixed merges and two emptiness cases.",
  ["aabb.rs", "envelope.rs", "point.rs"],
  [("component-wise comparisons", "aabb.rs")],
  ["AABB::contains_point", "AABB::contains_envelope", "AABB::intersects", "AABB::is_empty"]),
P("A02", "Building and merging boxes gives the smallest enclosing box",
  "Building a box from corners, bounds, a point, a collection of points or a centre and distance, and merging boxes, each give the smallest box enclosing the given points or boxes, independent of argument order; merging in place and merging into a new box agree. Merging with the empty box changes nothing, and the box around a centre covers exactly the coordinates within the distance on each axis.",
  ["inputs", "configurations"], "all points and boxes, several dimensions",
  "Tests cover four fixed merges and one point collection.",
  ["aabb.rs", "point.rs"],
  [("component-wise minimum and maximum", "point.rs"), ("constructors", "aabb.rs")],
  ["AABB::from_corners", "AABB::from_bounds", "AABB::from_point", "AABB::from_points", "AABB::from_center", "Envelope::merge", "Envelope::merged"]),
P("A03", "Distance from a box is the distance to its closest point",
  "The closest point reported for a box and a query point lies in the box, equals the query point when that is inside, and no point of the box is closer. The reported squared distance is the squared Euclidean distance to that closest point, zero exactly when the query point is contained, and never larger than the distance to any box contained in it.",
  ["inputs", "configurations"], "all boxes and points",
  "Tests evaluate seven fixed points against one rectangle.",
  ["aabb.rs", "point.rs"],
  [("clamping", "aabb.rs"), ("squared length", "point.rs")],
  ["AABB::min_point", "AABB::distance_2", "Envelope::distance_2"]),
P("A04", "The min-max distance bounds the nearest object from above",
  "For any box that tightly encloses a non-empty set of objects, at least one of the objects is within the box's min-max squared distance of the query point, so pruning by it never discards all nearest objects. It equals the Roussopoulos definition: the minimum over axes of the distance to the farthest point of the nearer face on that axis; the bound also holds for the values actually computed in floating point.",
  ["inputs", "configurations"], "all boxes, all query points, integer and floating-point coordinates",
  "One regression value is tested.",
  ["aabb.rs"],
  [("min-max distance", "aabb.rs")],
  ["Envelope::min_max_dist_2"]),
P("A05", "Box measures agree with geometry",
  "A box's area is the product of its side lengths, the intersection area of two boxes is the area of their common part and zero when they do not overlap, both never negative and symmetric where applicable. The perimeter value is proportional to the sum of side lengths and never negative, the centre is the midpoint of the bounds on every axis, and all measures of the empty floating-point box are zero.",
  ["inputs", "configurations"], "all boxes, several dimensions",
  "No test calls these measures.",
  ["aabb.rs"],
  [("area, intersection area, perimeter, centre", "aabb.rs")],
  ["Envelope::area", "Envelope::intersection_area", "Envelope::perimeter_value", "Envelope::center"]),
P("A06", "Sorting and partitioning by envelope reorder without loss",
  "Sorting objects along an axis yields a permutation of them ordered by their envelopes' lower bound on that axis. Partitioning at a position yields a permutation in which every object before the position has a lower bound not greater, and every object after it one not smaller, than the object at the position on that axis.",
  ["inputs"], "all object lists up to the stated length, all axes and positions, ties included",
  "Only exercised indirectly with distinct values.",
  ["aabb.rs", "envelope.rs"],
  [("sort and selection by lower bound", "aabb.rs")],
  ["Envelope::sort_envelopes", "Envelope::partition_envelopes"]),
P("P01", "Line primitives report true length, closest point and distance",
  "For a line segment with real coordinates, the reported envelope is the smallest box around both end points, the squared length is the squared distance of the end points, the nearest point lies on the segment and no point of the segment is closer to the query, and the squared distance is the squared distance to that nearest point. Zero-length segments behave like their single point.",
  ["inputs"], "all segments and query points over exact real arithmetic, and zero-length segments in floating point",
  "Seven fixed queries on one axis-parallel segment are tested.",
  ["primitives/line.rs", "point.rs"],
  [("projection and clamping", "primitives/line.rs")],
  ["Line::nearest_point", "Line::length_2", "Line::distance_2", "Line::envelope"]),
P("P02", "Object distance, containment and threshold queries are consistent",
  "For points and rectangles, the squared distance is Euclidean and, up to underflow of the number type, zero if and only if the query point is contained, the rectangle's nearest point lies inside it and realises the distance, and its corners are those of its box. For every built-in object - and for user objects relying on the provided defaults - the thresholded distance query returns the squared distance exactly when it is less than or equal to the threshold, and nothing otherwise.",
  ["inputs"], "all objects, query points and thresholds",
  "Fixed values only; the threshold query's boundary is untested.",
  ["object.rs", "primitives/rectangle.rs"],
  [("default methods of the distance trait", "object.rs"), ("rectangle overrides", "primitives/rectangle.rs")],
  ["PointDistance::distance_2", "PointDistance::contains_point", "PointDistance::distance_2_if_less_or_equal", "Rectangle::nearest_point"]),
P("P03", "Wrapper objects are transparent",
  "Wrapping an object with attached data, a cached envelope, a reference, or a shared pointer changes none of its spatial answers: envelope, squared distance, point containment and thresholded distance equal those of the wrapped object, also when the wrapped object overrides the defaults. The wrapped geometry and attached data remain accessible unchanged.",
  ["inputs"], "all wrapped objects, including user objects with their own distance and containment rules",
  "Wrappers are tested with lines only, which use the defaults, so a wrapper falling back to a default goes unnoticed.",
  ["primitives/geom_with_data.rs", "primitives/cached_envelope.rs", "primitives/object_ref.rs", "primitives/point_with_data.rs", "object.rs"],
  [("delegating implementations", "primitives/geom_with_data.rs")],
  ["GeomWithData", "CachedEnvelope", "ObjectRef", "PointWithData", "Arc", "Rc"]),
P("P04", "Point types address their coordinates consistently",
  "For every built-in point type - arrays, tuples up to ten elements and the two interoperability point types - generating a point from a function and reading coordinate i returns the value generated for i, writing coordinate i changes exactly that coordinate, and the dimension count is the number of coordinates. Coordinates are generated in ascending order, each exactly once.",
  ["inputs", "configurations"], "all coordinate values for every built-in point type",
  "Tuples up to nine elements are read with fixed values; writing and generation are not tested.",
  ["point.rs", "mint.rs"],
  [("macro-generated tuple implementations", "point.rs"), ("mint implementations", "mint.rs")],
  ["Point::generate", "Point::nth", "Point::nth_mut", "Point::DIMENSIONS"]),
P("X01", "Copies and serialised trees are faithful and independent",
  "Cloning a tree, or serialising and deserialising it, yields a tree with the same size, the same objects and the same node structure and envelopes, which therefore answers every query identically. Later changes to a clone do not affect the original.",
  ["inputs", "histories"], "every valid tree with arbitrary coordinates",
  "One random bulk-loaded tree of 20 points is round-tripped and only membership is checked.",
  ["rtree.rs", "node.rs", "aabb.rs"],
  [("derived serialisation and cloning", "rtree.rs")],
  ["RTree::clone", "Serialize for RTree", "Deserialize for RTree"]),
P("X02", "Invalid tree parameters are always rejected",
  "Creating a tree, empty or bulk loaded, panics if the maximum node size is below four, the minimum is zero or exceeds half the maximum rounded up, the reinsertion count is not smaller than the difference of maximum and minimum, or the point type has fewer than two dimensions. Every other parameter choice is accepted, provided a node of that maximum size can be allocated.",
  ["configurations"], "all values of the three size parameters and of the dimension",
  "Tests instantiate three valid parameter sets and no invalid one; the parameters are compile-time constants, so tests cannot range over them.",
  ["params.rs", "rtree.rs"],
  [("parameter verification", "params.rs")],
  ["RTree::new_with_params", "RTree::bulk_load_with_params"]),
P("X03", "An empty tree answers every query with nothing, without panicking",
  "On a tree with no objects - new, bulk loaded from an empty list, or emptied by removals or drains - every query and removal returns nothing and never panics, for every query point, envelope and distance over the full range of the number type, including fixed-width integers whose extreme values would overflow.",
  ["inputs", "histories"], "all query arguments over the full machine-integer range, every way of emptying a tree",
  "One call with fixed arguments is tested.",
  ["rtree.rs", "algorithm/iterators.rs", "algorithm/nearest_neighbor.rs", "algorithm/removal.rs"],
  [("guards on empty roots", "algorithm/iterators.rs")],
  ["RTree::locate_within_distance", "RTree::nearest_neighbor", "RTree::remove", "RTree::drain_within_distance"]),
P("X04", "What a tree shows of itself is what it holds",
  "Walking a tree by hand from its root meets exactly the objects the iterators yield, each once and as many as the reported size. A node counts as a leaf exactly when it carries an object, and its envelope is that object's envelope or the one its internal node reports; the debug output names the size and lists every object once. This holds for every valid tree and after every insertion, removal, drain and bulk load.",
  ["inputs", "histories"], "every valid tree with arbitrary coordinates",
  "Nothing asserts what a node reports; the debug output is compared for one fixed tree.",
  ["node.rs", "rtree.rs"],
  [("node accessors", "node.rs"), ("debug output", "rtree.rs")],
  ["RTree::root", "RTreeNode::is_leaf", "ParentNode::children", "RTreeNode::envelope", "Debug for RTree"]),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
