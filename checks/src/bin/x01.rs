use checks::*;
fn main() {
    driver::run(Check { property: "X01", functions: &["RTree: Clone, Serialize, Deserialize", "ParentNode, RTreeNode, AABB: Clone, Serialize, Deserialize", "Rectangle, Line, GeomWithData, CachedEnvelope, PointWithData: Clone, Serialize, Deserialize", "RTree::insert, remove, pop_nearest_neighbor, drain, drain_in_envelope_intersecting", "RTree::locate_in_envelope_intersecting, nearest_neighbor_iter"], assumptions: &["pre-states are well-formed trees entered through the public serde representation, or built by the public operations (histories)", "serialisation is exercised through the serde_json text format; symbolic numbers are serialised by identity, as any lossless number format would"], harnesses: copies::x01() });
}
