use checks::*;
fn main() {
    driver::run(Check { property: "T04", functions: FN_REMOVE, assumptions: ASSUME_TREES, harnesses: remove::harnesses(remove::Set::T04) });
}
