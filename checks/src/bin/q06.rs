use checks::*;
use query::Qk;
fn main() {
    let mut hs = query::harnesses(Qk::In, true);
    hs.extend(query::harnesses(Qk::Inter, true));
    hs.extend(query::harnesses(Qk::At, true));
    driver::run(Check { property: "Q06", functions: FN_VISIT, assumptions: ASSUME_TREES, harnesses: hs });
}
