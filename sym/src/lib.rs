//! Symbolic scalar engine: executes generic numeric code on SMT terms.
pub mod driver;
pub mod engine;
pub mod fl;
pub mod q;
pub mod scalar;
pub mod term;
pub mod watch;
pub mod z3;
pub use driver::Check;
pub use q::Q;
pub use fl::Fl;
pub use engine::*;
pub use scalar::*;
pub use term::{Mode, B};
