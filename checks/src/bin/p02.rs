use checks::*;
fn main() {
    driver::run(Check { property: "P02", functions: FN_OBJ, assumptions: ASSUME_NUM, harnesses: prim::p02() });
}
