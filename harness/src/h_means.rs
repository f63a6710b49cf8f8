//! The class means, for any weights and positions: see c_clusterc.rs
