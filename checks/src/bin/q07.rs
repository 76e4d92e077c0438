use checks::*;
fn main() {
    driver::run(Check { property: "Q07", functions: FN_PAIRS, assumptions: ASSUME_TREES, harnesses: traverse::q07() });
}
