use checks::*;
fn main() {
    driver::run(Check { property: "A05", functions: FN_MEASURE, assumptions: ASSUME_NUM, harnesses: env::a05() });
}
