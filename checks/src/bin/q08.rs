use checks::*;
fn main() {
    driver::run(Check { property: "Q08", functions: &["RTree::contains", "RTree::locate_in_envelope", "SelectionIterator", "SelectInEnvelopeFunction", "AABB::intersects/contains_envelope"], assumptions: ASSUME_TREES, harnesses: query::contains_harnesses() });
}
