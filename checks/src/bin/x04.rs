use checks::*;
fn main() {
    driver::run(Check { property: "X04", functions: &["RTree::root, size, iter", "ParentNode::children, envelope", "RTreeNode::is_leaf", "RTreeObject for RTreeNode", "Debug for RTree", "RTree::insert, remove, drain_in_envelope_intersecting, bulk_load_with_params"], assumptions: &["pre-states are well-formed trees entered through the public serde representation, or built by the public operations (histories)"], harnesses: copies::x04() });
}
