//! Runtime monitors for barcoders: workloads, an independent model of the symbologies and formats,
//! and oracles that watch the real code.

pub mod big;
pub mod case;
pub mod check;
pub mod first;
pub mod fresh;
pub mod gen;
pub mod hist;
pub mod jsn;
pub mod mem;
pub mod public;
pub mod rng;
pub mod seal;
pub mod shown;
pub mod spec;
pub mod sweep;
pub mod threads;
pub mod time;
pub mod twins;
pub mod xml;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;
