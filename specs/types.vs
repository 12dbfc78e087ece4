%module types eval/src/types.rs
%head
use crate::eval_prims::*;
use crate::level_tree::Rng;
%type GenSmall
%type Gen10k
%type Elm
%type GenSetElm
%fn "GenSmall as Rand::rand" params rng
    ensures res.0 < 100, res.0 == drawn_usize(*old(rng)) % 100, *final(rng) == after_usize(*old(rng)),
%fn "GenSmall as Add::add" params rhs
    requires self.0 + rhs.0 <= usize::MAX,
    ensures res.0 == self.0 + rhs.0,
%fn "GenSmall as From::from" params num
    ensures res.0 == num,
%fn "Gen10k as Rand::rand" params rng
    ensures res.0 < 10_000, res.0 == drawn_usize(*old(rng)) % 10_000, *final(rng) == after_usize(*old(rng)),
%fn "Gen10k as Add::add" params rhs
    requires self.0 + rhs.0 <= usize::MAX,
    ensures res.0 == self.0 + rhs.0,
%fn "GenSetElm as Rand::rand" params rng
    ensures (res.0).0 == drawn_usize(*old(rng)), *final(rng) == after_usize(*old(rng)),
%fn "GenSetElm as From::from" params num
    ensures (res.0).0 == num,
%raw
/// the same value hashed n times
pub open spec fn hash_times<H>(h: H, x: usize, n: int) -> H
    decreases n
{
    if n <= 0 { h } else { hasher_step(hash_times(h, x, n - 1), x) }
}
%fn "Elm as Hash::hash" params state
    ensures *final(state) == hash_times(*old(state), self.0, HASH_LOOP_COUNT as int),
%loop "Elm as Hash::hash" 0
    invariant __i0 <= __end0, __end0 == HASH_LOOP_COUNT, *state == hash_times(*old(state), self.0, __i0 as int)
    decreases __end0 - __i0
