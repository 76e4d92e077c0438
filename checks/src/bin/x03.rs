use checks::*;
fn main() {
    driver::run(Check { property: "X03", functions: &["all RTree queries, removals and drains", "SelectionIterator(Mut)::new", "select_nodes(_mut)", "DrainIterator", "nearest_neighbor", "nearest_neighbors", "NearestNeighborDistance2Iterator", "IntersectionIterator", "AABB::new_empty, is_empty"], assumptions: ASSUME_NUM, harnesses: empty::x03() });
}
