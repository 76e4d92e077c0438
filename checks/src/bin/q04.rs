use checks::*;
fn main() {
    driver::run(Check { property: "Q04", functions: FN_QUERY, assumptions: ASSUME_TREES, harnesses: query::harnesses(query::Qk::Within, false) });
}
