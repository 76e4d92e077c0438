use checks::*;
fn main() {
    driver::run(Check { property: "P01", functions: FN_LINE, assumptions: ASSUME_NUM, harnesses: prim::p01() });
}
