use checks::*;
fn main() {
    driver::run(Check { property: "A02", functions: FN_BUILD, assumptions: ASSUME_NUM, harnesses: env::a02() });
}
