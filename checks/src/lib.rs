pub mod geo;
pub mod tree;
pub mod kinds;
pub mod insert;
pub mod query;
pub mod remove;
pub mod bulk;
pub mod traverse;
pub mod nearest;
pub mod env;
pub use insert::height;
pub use query::exact;
pub use geo::*;
pub use kinds::*;
pub use tree::*;
pub use vsym::*;
pub use std::marker::PhantomData;
pub fn ph<T: ?Sized>() -> PhantomData<fn() -> Box<T>> { PhantomData }

pub const FN_INSERT: &[&str] = &["RTree::insert", "RStarInsertionStrategy::insert", "recursive_insert", "forced_insertion", "choose_subtree", "resolve_overflow", "resolve_overflow_without_reinsertion", "get_nodes_for_reinsertion", "split", "get_split_axis", "envelope_for_children", "ParentNode::new_root/new_parent", "AABB: merge, merged, area, intersection_area, perimeter_value, center, contains_envelope, sort_envelopes, new_empty", "PointExt: component_wise, min_point, max_point, sub, length_2"];
pub const ASSUME_TREES: &[&str] = &["number theory Int models i64 exactly as long as no operation overflows; overflow is itself a decided branch (debug-profile panic)", "pre-states are well-formed trees (tight envelopes, one object depth) entered through the public serde representation, or built by the public operations", "the allocator, core sorting and smallvec/heapless run as compiled code on symbolic values; sorting is decided for the comparison outcomes the solver admits"];
pub const FN_QUERY: &[&str] = &["RTree::locate_*", "SelectionIterator::new/next", "SelectionIteratorMut::new/next", "select_nodes", "select_nodes_mut", "SelectInEnvelopeFunction", "SelectInEnvelopeFuncIntersecting", "SelectAtPointFunction", "SelectWithinDistanceFunction", "AABB: contains_point, contains_envelope, intersects, distance_2, min_point", "PointDistance of points, Rectangle, Line, CachedEnvelope, GeomWithData (contains_point, distance_2, distance_2_if_less_or_equal)"];
pub const FN_VISIT: &[&str] = &["RTree::locate_in_envelope_int(_mut)", "RTree::locate_in_envelope_intersecting_int(_mut)", "RTree::locate_all_at_point_int(_mut)", "select_nodes", "select_nodes_mut"];
pub const FN_REMOVE: &[&str] = &["RTree::remove", "RTree::remove_at_point", "RTree::remove_with_selection_function", "RTree::drain", "RTree::drain_in_envelope", "RTree::drain_in_envelope_intersecting", "RTree::drain_within_distance", "RTree::drain_with_selection_function", "DrainIterator::new/next/pop_node/drop", "envelope_for_children", "SelectAllFunc", "SelectInEnvelopeFunction", "SelectInEnvelopeFuncIntersecting", "SelectAtPointFunction", "SelectEqualsFunction", "SelectWithinDistanceFunction", "RTree::insert (afterwards)"];
pub const FN_BULK: &[&str] = &["RTree::bulk_load(_with_params)", "bulk_load_sequential", "bulk_load_recursive", "PartitioningTask", "PartitioningState", "ClusterGroupIterator::new/next", "calculate_number_of_clusters_on_axis", "AABB::partition_envelopes", "ParentNode::new_parent", "envelope_for_children", "RTree::insert", "RTree::remove_at_point", "core select_nth_unstable_by (compiled code)"];
pub const FN_HISTORY: &[&str] = &["RTree::insert", "RTree::remove_at_point", "RTree::pop_nearest_neighbor", "RTree::drain", "RTree::drain_in_envelope_intersecting", "RTree::bulk_load_with_params", "RTree::into_iter", "RTree::contains", "RTree::iter", "DrainIterator", "RStarInsertionStrategy", "nearest_neighbor", "bulk_load_sequential"];
pub const FN_TRAVERSE: &[&str] = &["RTree::iter", "RTree::iter_mut", "IntoIterator for RTree, &RTree, &mut RTree", "removal::IntoIter", "RTree::locate_with_selection_function(_mut)", "SelectionIterator::new/next", "SelectionIteratorMut::new/next", "SelectAllFunc", "user SelectionFunction"];
pub const FN_PAIRS: &[&str] = &["RTree::intersection_candidates_with_other_tree", "IntersectionIterator::new/next/push_if_intersecting/add_intersecting_children", "AABB::intersects"];
pub const FN_NEAREST: &[&str] = &["RTree::nearest_neighbor", "RTree::nearest_neighbor_with_distance_2", "RTree::nearest_neighbors(_with_distance_2)", "RTree::nearest_neighbor_iter(_with_distance_2)", "RTree::pop_nearest_neighbor", "nearest_neighbor::nearest_neighbor_with_distance_2", "nearest_neighbors_with_distance_2", "NearestNeighborDistance2Iterator", "SmallHeap::new/push/pop/extend/spill", "RTreeNodeDistanceWrapper ordering", "SelectByAddressFunction", "DrainIterator", "AABB::distance_2", "AABB::min_max_dist_2", "PointDistance of the object types", "alloc BinaryHeap, heapless BinaryHeap (compiled code)"];
pub const ASSUME_NUM: &[&str] = &["number theory Int models i64 exactly as long as no operation overflows; overflow is itself a decided branch (debug-profile panic)", "Real models arithmetic without rounding", "bit-vector and floating-point models are exact, including rounding, overflow and panics; NaN and infinite inputs are left out", "boxes have lower <= upper on every axis (as every constructor guarantees), except the empty box"];
pub const FN_BOX: &[&str] = &["AABB::contains_point", "AABB::contains_envelope", "AABB::intersects", "AABB::new_empty", "AABB::is_empty", "PointExt::all_component_wise"];
pub const FN_BUILD: &[&str] = &["AABB::from_point", "AABB::from_corners", "AABB::from_bounds", "AABB::from_points", "AABB::from_center", "AABB::merge", "AABB::merged", "AABB::new_empty", "RTreeObject::envelope of points", "PointExt::min_point, max_point, add, sub, from_value, component_wise"];
pub const FN_DIST: &[&str] = &["AABB::min_point", "AABB::distance_2", "Envelope::distance_2", "PointExt::min_point, max_point, sub, length_2"];
pub const FN_MINMAX: &[&str] = &["AABB::min_max_dist_2", "AABB::distance_2", "PointDistance::distance_2 of points", "PointExt::sub, length_2, new, fold"];
pub const FN_MEASURE: &[&str] = &["AABB::area", "AABB::intersection_area", "AABB::perimeter_value", "AABB::center", "AABB::new_empty", "PointExt::sub, fold, component_wise"];
pub const FN_ORDER: &[&str] = &["AABB::sort_envelopes", "AABB::partition_envelopes", "core sort_unstable_by, select_nth_unstable_by (compiled code)"];
pub mod prim;
pub mod empty;
pub mod copies;
pub const FN_LINE: &[&str] = &["Line::new", "Line::length_2", "Line::nearest_point", "Line::project_point", "PointDistance::distance_2 for Line", "RTreeObject::envelope for Line", "PointExt::sub, add, mul, dot, length_2", "AABB::from_corners"];
pub const FN_OBJ: &[&str] = &["PointDistance default methods contains_point, distance_2_if_less_or_equal", "PointDistance for points", "Rectangle::from_corners, from_aabb, lower, upper, nearest_point", "PointDistance for Rectangle, Line, GeomWithData, CachedEnvelope, PointWithData", "AABB::distance_2, min_point, contains_point"];
pub const FN_WRAP: &[&str] = &["RTreeObject and PointDistance for GeomWithData, CachedEnvelope, ObjectRef, PointWithData, Rc, Arc", "GeomWithData::geom, data", "Deref for CachedEnvelope, ObjectRef", "PointWithData::position"];
pub const FN_POINT: &[&str] = &["Point::generate, nth, nth_mut, DIMENSIONS for [S; N], tuples of 1 to 10, mint::Point2, mint::Point3"];
