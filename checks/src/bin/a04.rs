use checks::*;
fn main() {
    driver::run(Check { property: "A04", functions: FN_MINMAX, assumptions: ASSUME_NUM, harnesses: env::a04() });
}
