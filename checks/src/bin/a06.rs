use checks::*;
fn main() {
    driver::run(Check { property: "A06", functions: FN_ORDER, assumptions: ASSUME_NUM, harnesses: env::a06() });
}
