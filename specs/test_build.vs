%module test_build eval/src/test_build.rs
%head
use crate::eval_prims::*;
use crate::level_tree::Rng;
use crate::actions::*;
use crate::test_seq::Testor;
use std::marker::PhantomData;
%type TestResult
#[verifier::reject_recursive_types(D)]
%type BuildTest
%raw
/// build i: size multiplier^i, then one batch inserted
pub open spec fn built<D: EditInsert + CreateInc<G>, G: Rng>(t: BuildTest<G>, i: int, ds: Seq<D>, es: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, bs: Seq<Duration>, ed: Seq<Duration>) -> bool {
    D::inits(spec_size(t.multiplier, i as i32), t.init.datagauge, t.init.namegauge, t.init.coord, gs[i], (bs[i], ds[i]), hs[i])
    && ds[i].inserts(t.edit.0, hs[i], (ed[i], es[i]), gs[i + 1])
}
pub open spec fn built_all<D: EditInsert + CreateInc<G>, G: Rng>(t: BuildTest<G>, n: int, ds: Seq<D>, es: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, bs: Seq<Duration>, ed: Seq<Duration>) -> bool {
    ds.len() == n && es.len() == n && gs.len() == n + 1 && hs.len() == n && bs.len() == n && ed.len() == n
    && forall|i: int| 0 <= i < n ==> #[trigger] built::<D, G>(t, i, ds, es, gs, hs, bs, ed)
}
/// `multiplier.powi(i) as usize`; floating point is not modelled
pub uninterp spec fn spec_size(m: f32, i: i32) -> usize;
#[verifier::external_body]
pub fn vpowi_usize(m: f32, i: i32) -> (r: usize) ensures r == spec_size(m, i) { unimplemented!() }
%impl "BuildTest as Testor"
open spec fn fit(&self) -> bool { true }
open spec fn tested(pre: Self, g: StdRng, res: TestResult<D>, post: Self, g2: StdRng) -> bool {
    post == pre && res.build_full@.len() == pre.count && res.edit_full@.len() == pre.count
    && exists|ds: Seq<D>, es: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, bs: Seq<Duration>, ed: Seq<Duration>| #[trigger] built_all::<D, G>(pre, pre.count as int, ds, es, gs, hs, bs, ed)
        && bs == res.build@ && ed == res.edit@ && gs[0] == g && gs.last() == g2
}
%fn "BuildTest as Testor::test" params rng
    // (the loop counter is cast to i32)
%ghost "BuildTest as Testor::test"
    mut ds: Seq<D> = Seq::empty();
    mut es: Seq<D> = Seq::empty();
    mut gs: Seq<StdRng> = seq![*rng];
    mut hs: Seq<StdRng> = Seq::empty();
    mut ds0: Seq<D> = Seq::empty();
    mut es0: Seq<D> = Seq::empty();
    mut gs0: Seq<StdRng> = Seq::empty();
    mut hs0: Seq<StdRng> = Seq::empty();
    mut ed0: Seq<Duration> = Seq::empty();
    mut bs0: Seq<Duration> = Seq::empty();
%after "BuildTest as Testor::test" create 0
    ds = ds.push(__r.1); hs = hs.push(*rng);
%after "BuildTest as Testor::test" edit 0
    es = es.push(__r.1); gs = gs.push(*rng);
%loop "BuildTest as Testor::test" 0
    invariant
        *self == *old(self), build_full@.len() == __i0, edit_full@.len() == __i0, gs[0] == *old(rng), gs.last() == *rng,
        0 <= __i0 <= self.count, built_all::<D, G>(*self, __i0 as int, ds, es, gs, hs, build@, edit@),
    ensures __i0 == self.count,
    decreases self.count - __i0,
%loopstart "BuildTest as Testor::test" 0
    es0 = es; ds0 = ds; gs0 = gs; hs0 = hs; ed0 = edit@; bs0 = build@;
%loopend "BuildTest as Testor::test" 0
    assert forall|i: int| 0 <= i < __i0 implies #[trigger] built::<D, G>(*self, i, ds, es, gs, hs, build@, edit@) by { if i < __i0 - 1 { assert(built::<D, G>(*self, i, ds0, es0, gs0, hs0, bs0, ed0)); } }
%afterloop "BuildTest as Testor::test" 0
    assert(built_all::<D, G>(*self, self.count as int, ds, es, gs, hs, build@, edit@));
