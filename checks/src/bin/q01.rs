use checks::*;
fn main() {
    driver::run(Check { property: "Q01", functions: FN_QUERY, assumptions: ASSUME_TREES, harnesses: query::harnesses(query::Qk::In, false) });
}
