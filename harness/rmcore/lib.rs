//! The modules of /repo that do not need rulinalg, compiled in place.
#![allow(missing_docs)]
extern crate rand;
pub mod learning {
    pub mod toolkit {
        #[path = "/repo/src/learning/toolkit/activ_fn.rs"]
        pub mod activ_fn;
        #[path = "/repo/src/learning/toolkit/rand_utils.rs"]
        pub mod rand_utils;
    }
}
pub mod stats {
    #[path = "/repo/src/stats/dist/mod.rs"]
    pub mod dist;
}
