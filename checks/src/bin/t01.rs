use checks::*;
fn main() {
    driver::run(Check { property: "T01", functions: FN_INSERT, assumptions: ASSUME_TREES, harnesses: insert::harnesses(insert::What::Content) });
}
