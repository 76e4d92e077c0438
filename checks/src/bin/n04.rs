use checks::*;
fn main() {
    driver::run(Check { property: "N04", functions: FN_NEAREST, assumptions: ASSUME_TREES, harnesses: nearest::harnesses(nearest::N::Pop) });
}
