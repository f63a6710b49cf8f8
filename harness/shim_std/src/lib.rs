//! `std` as the code under test sees it: everything is re-exported unchanged except
//! HashMap / HashSet, which are replaced by a model whose iteration order is an arbitrary
//! (solver-chosen) permutation, as the documentation of std::collections::HashMap allows.
pub use ::std::*;
pub mod collections {
    pub use ::std::collections::*;
    pub use crate::map::HashMap;
    pub use crate::map::HashSet;
    pub mod hash_map {
        pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
        pub use crate::map::{Entry, HashMap, IntoIter, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    }
    pub mod hash_set { pub use crate::map::HashSet; }
}
pub mod map;
