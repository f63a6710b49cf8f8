//! The error reported by the benchmark: see c_bench.rs
