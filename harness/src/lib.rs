//! Runtime monitors for rustnomial: workloads, reference models and the runner of the checks.
#[macro_use]
pub mod coef;
pub mod alloc;
pub mod dy;
pub mod long;
pub mod poly;
pub mod quadratic;
pub mod ring;
pub mod rng;
pub mod run;
pub mod sink;
pub mod text;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub use coef::{any_coef, coef, magnitude, Coef};
pub use dy::Dy;
pub use poly::*;
pub use rng::Rng;
pub use run::{brief, guarded, Ctx, Known, Section, Spec};
