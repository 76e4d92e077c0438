use checks::*;
fn main() {
    driver::run(Check { property: "P04", functions: FN_POINT, assumptions: ASSUME_NUM, harnesses: prim::p04() });
}
