use checks::*;
fn main() {
    driver::run(Check { property: "P03", functions: FN_WRAP, assumptions: ASSUME_NUM, harnesses: prim::p03() });
}
