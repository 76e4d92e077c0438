use checks::*;
fn main() {
    driver::run(Check { property: "T03", functions: FN_BULK, assumptions: ASSUME_TREES, harnesses: bulk::bulk_harnesses() });
}
