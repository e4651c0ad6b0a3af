//! Bounded exhaustive exploration of fizyr-rpc.
pub mod alloc;
pub mod crash;
pub mod exec;
pub mod explore;
pub mod hooks;
pub mod mock;
pub mod pipe;
pub mod real;
pub mod report;
pub mod rec;
pub mod sched;
pub mod seq;
