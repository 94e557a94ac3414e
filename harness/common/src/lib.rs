//! Shared machinery of the verification harnesses: deterministic random
//! numbers, the case runner with its watchdog, and the reference mathematics.
//! Nothing here depends on the repository under test.
pub mod refm;
pub mod rng;
pub mod run;
pub use rng::Rng;
pub use run::*;
