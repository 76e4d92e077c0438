use checks::*;
fn main() {
    driver::run(Check { property: "T07", functions: FN_HISTORY, assumptions: ASSUME_TREES, harnesses: bulk::history_harnesses() });
}
