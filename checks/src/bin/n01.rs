use checks::*;
fn main() {
    driver::run(Check { property: "N01", functions: FN_NEAREST, assumptions: ASSUME_TREES, harnesses: nearest::harnesses(nearest::N::One) });
}
