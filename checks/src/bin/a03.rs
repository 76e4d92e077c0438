use checks::*;
fn main() {
    driver::run(Check { property: "A03", functions: FN_DIST, assumptions: ASSUME_NUM, harnesses: env::a03() });
}
