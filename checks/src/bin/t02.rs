use checks::*;
fn main() {
    driver::run(Check { property: "T02", functions: FN_INSERT, assumptions: ASSUME_TREES, harnesses: insert::harnesses(insert::What::Structure) });
}
