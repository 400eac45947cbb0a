//! Monitoring framework shared by the per-module workloads.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod args;
pub mod elem;
pub mod iters;
pub mod keys;
pub mod mon;
pub mod rng;
pub mod shapes;
