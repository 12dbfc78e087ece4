%module trees src/trees.rs
%head
use crate::level_tree::{Rng, VGen, level_of, lemma_level_of};
%type NegBin
%raw
pub assume_specification [u8::max_value]() -> (r: u8) ensures r == u8::MAX;
pub assume_specification [u8::min_value]() -> (r: u8) ensures r == 0;
pub assume_specification [usize::min_value]() -> (r: usize) ensures r == 0;
/// levels stand in the order of the numbers `ord`, which has no gaps
pub trait Level: Sized {
    spec fn ord(self) -> int;
    spec fn greatest() -> int;
    fn l_max() -> (r: Self) ensures r.ord() == Self::greatest(), forall|x: Self| (#[trigger] x.ord()) <= r.ord();
    fn l_min() -> (r: Self) ensures r.ord() == 0, forall|x: Self| r.ord() <= #[trigger] x.ord();
    fn l_inc(self) -> (r: Self) requires self.ord() < Self::greatest(), ensures r.ord() == self.ord() + 1;
    fn l_dec(self) -> (r: Self) requires self.ord() > 0, ensures r.ord() == self.ord() - 1;
}
%impl "NegBin as Level"
open spec fn ord(self) -> int { self.0 as int }
open spec fn greatest() -> int { 255 }
%fn "NegBin as Level::l_max"
%fn "NegBin as Level::l_min"
%fn "NegBin as Level::l_inc"
%fn "NegBin as Level::l_dec"
%impl "usize as Level"
open spec fn ord(self) -> int { self as int }
open spec fn greatest() -> int { usize::MAX as int }
%fn "usize as Level::l_max"
%fn "usize as Level::l_min"
%fn "usize as Level::l_inc"
%fn "usize as Level::l_dec"
%fn "NegBin as Rand::rand" params rng
    ensures exists|x: u64| #[trigger] R::drawn(*old(rng), x) && res.0 == level_of(x), 1 <= res.0 <= 64,
%entry "NegBin as Rand::rand"
    assert forall|x: u64| #[trigger] R::drawn(*old(rng), x) implies vstd::std_specs::bits::u64_trailing_zeros(x << 1) == level_of(x) && 1 <= level_of(x) <= 64 by { lemma_level_of(x); }
