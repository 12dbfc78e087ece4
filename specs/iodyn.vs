%module iodyn src/lib.rs
%head
use crate::level_tree;
use crate::level_tree::{Rng, VGen, level_of};
%raw
/// the thread's random generator: any number may be drawn
pub mod rand {
    use vstd::prelude::*;
    use crate::level_tree::{Rng, VGen};
    verus! {
    pub struct ThreadRng { p: u64 }
    pub uninterp spec fn thread_drawn(pre: ThreadRng, x: u64) -> bool;
    impl Rng for ThreadRng {
        open spec fn drawn(pre: Self, x: u64) -> bool { thread_drawn(pre, x) }
        #[verifier::external_body]
        fn gen<T: VGen>(&mut self) -> (r: T) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
    }
}
%fn inc_level
    ensures 1 <= res <= 64, exists|g: rand::ThreadRng, x: u64| #[trigger] rand::thread_drawn(g, x) && res == level_of(x),
