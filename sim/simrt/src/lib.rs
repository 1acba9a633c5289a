//! Deterministic world for running whippyunits' programs: virtual time, seeded scheduling, simulated pipes,
//! processes, standard streams, files and environment, with fault injection.
pub mod ctx;
pub mod pipe;
pub mod proc;
pub mod rng;
pub mod run;
pub mod stdio;
pub mod task;
