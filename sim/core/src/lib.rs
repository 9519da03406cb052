#[macro_use]
pub mod adapt;
pub mod ctx;
pub mod driver;
pub mod exec;
pub mod gen;
pub mod mem;
pub mod plan;
pub mod rng;
pub mod run;
pub mod sched;
pub mod sources;
pub mod text;
pub mod wire;
pub mod world;
