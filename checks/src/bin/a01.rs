use checks::*;
fn main() {
    driver::run(Check { property: "A01", functions: FN_BOX, assumptions: ASSUME_NUM, harnesses: env::a01() });
}
