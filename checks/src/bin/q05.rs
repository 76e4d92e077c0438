use checks::*;
fn main() {
    driver::run(Check { property: "Q05", functions: FN_TRAVERSE, assumptions: ASSUME_TREES, harnesses: traverse::q05() });
}
