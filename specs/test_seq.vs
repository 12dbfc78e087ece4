%module test_seq eval/src/test_seq.rs
%head
use crate::eval_prims::*;
use crate::actions::*;
use std::marker::PhantomData;
%raw
pub trait Testor<R>: Sized {
    spec fn fit(&self) -> bool;
    spec fn tested(pre: Self, g: StdRng, res: R, post: Self, g2: StdRng) -> bool;
    fn test(&mut self, rng: &mut StdRng) -> (res: R)
        requires old(self).fit(),
        ensures Self::tested(*old(self), *old(rng), res, *final(self), *final(rng));
}
%type TestResult
#[verifier::reject_recursive_types(D)]
%type TestMResult
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)]
%type EditComputeSequence
%raw
/// n changes done: the trace of the collections `ds`, the states `es`, `us` of the actions and `gs`, `hs` of the generator
/// (hs[i]: when the i-th collection was there, gs[i+1]: after computing over it)
pub open spec fn one_created<C: Creator<Duration, D>, E: Editor<Duration, D>, U: Computor<Duration, D>, D>(c0: C, c1: C, e0: E, u0: U, g: StdRng, es: Seq<E>, us: Seq<U>, ds: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>) -> bool {
    es.len() >= 1 && us.len() >= 1 && ds.len() >= 1 && gs.len() >= 1 && hs.len() >= 1 && edits.len() >= 1
    && es[0] == e0 && us[0] == u0 && gs[0] == g && C::created(c0, g, (edits[0], ds[0]), c1, hs[0])
}
pub open spec fn one_computed<C: Creator<Duration, D>, E: Editor<Duration, D>, U: Computor<Duration, D>, D>(i: int, us: Seq<U>, ds: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, computes: Seq<Duration>) -> bool {
    U::computed(us[i], ds[i], hs[i], computes[i], us[i + 1], gs[i + 1])
}
pub open spec fn one_edited<C: Creator<Duration, D>, E: Editor<Duration, D>, U: Computor<Duration, D>, D>(i: int, es: Seq<E>, ds: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>) -> bool {
    E::edited(es[i], ds[i], gs[i + 1], (edits[i + 1], ds[i + 1]), es[i + 1], hs[i + 1])
}
pub open spec fn one_ran<C: Creator<Duration, D>, E: Editor<Duration, D>, U: Computor<Duration, D>, D>(n: int, c0: C, c1: C, e0: E, u0: U, g: StdRng, es: Seq<E>, us: Seq<U>, ds: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>, computes: Seq<Duration>) -> bool {
    &&& one_created::<C, E, U, D>(c0, c1, e0, u0, g, es, us, ds, gs, hs, edits)
    &&& es.len() == n + 1 && us.len() == n + 2 && ds.len() == n + 1 && gs.len() == n + 2 && hs.len() == n + 1 && edits.len() == n + 1 && computes.len() == n + 1
    &&& forall|i: int| 0 <= i < n + 1 ==> #[trigger] one_computed::<C, E, U, D>(i, us, ds, gs, hs, computes)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] one_edited::<C, E, U, D>(i, es, ds, gs, hs, edits)
}
/// n changes done: the trace of the collections `ds`, the states `es`, `us` of the actions and `gs`, `hs` of the generator
/// (hs[i]: when the i-th collection was there, gs[i+1]: after computing over it)
pub open spec fn two_created<C: Creator<Duration, I>, E: Editor<Duration, I>, U: Computor<(Vec<Duration>, O), I>, I, O>(c0: C, c1: C, e0: E, u0: U, g: StdRng, es: Seq<E>, us: Seq<U>, ds: Seq<I>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>) -> bool {
    es.len() >= 1 && us.len() >= 1 && ds.len() >= 1 && gs.len() >= 1 && hs.len() >= 1 && edits.len() >= 1
    && es[0] == e0 && us[0] == u0 && gs[0] == g && C::created(c0, g, (edits[0], ds[0]), c1, hs[0])
}
pub open spec fn two_computed<C: Creator<Duration, I>, E: Editor<Duration, I>, U: Computor<(Vec<Duration>, O), I>, I, O>(i: int, us: Seq<U>, ds: Seq<I>, gs: Seq<StdRng>, hs: Seq<StdRng>, computes: Seq<Vec<Duration>>) -> bool {
    exists|o: O| #[trigger] U::computed(us[i], ds[i], hs[i], (computes[i], o), us[i + 1], gs[i + 1])
}
pub open spec fn two_edited<C: Creator<Duration, I>, E: Editor<Duration, I>, U: Computor<(Vec<Duration>, O), I>, I, O>(i: int, es: Seq<E>, ds: Seq<I>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>) -> bool {
    E::edited(es[i], ds[i], gs[i + 1], (edits[i + 1], ds[i + 1]), es[i + 1], hs[i + 1])
}
pub open spec fn two_ran<C: Creator<Duration, I>, E: Editor<Duration, I>, U: Computor<(Vec<Duration>, O), I>, I, O>(n: int, c0: C, c1: C, e0: E, u0: U, g: StdRng, es: Seq<E>, us: Seq<U>, ds: Seq<I>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>, computes: Seq<Vec<Duration>>) -> bool {
    &&& two_created::<C, E, U, I, O>(c0, c1, e0, u0, g, es, us, ds, gs, hs, edits)
    &&& es.len() == n + 1 && us.len() == n + 2 && ds.len() == n + 1 && gs.len() == n + 2 && hs.len() == n + 1 && edits.len() == n + 1 && computes.len() == n + 1
    &&& forall|i: int| 0 <= i < n + 1 ==> #[trigger] two_computed::<C, E, U, I, O>(i, us, ds, gs, hs, computes)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] two_edited::<C, E, U, I, O>(i, es, ds, gs, hs, edits)
}
%impl "EditComputeSequence as Testor<TestResult<D>>"
open spec fn fit(&self) -> bool { self.comp.ready() }
open spec fn tested(pre: Self, g: StdRng, res: TestResult<D>, post: Self, g2: StdRng) -> bool {
    &&& res.full_edits@.len() == pre.changes + 1 && res.full_computes@.len() == pre.changes + 1 && post.changes == pre.changes
    &&& exists|es: Seq<E>, us: Seq<U>, ds: Seq<D>, gs: Seq<StdRng>, hs: Seq<StdRng>, ed: Seq<Duration>, co: Seq<Duration>|
        #[trigger] one_ran::<C, E, U, D>(pre.changes as int, pre.init, post.init, pre.edit, pre.comp, g, es, us, ds, gs, hs, ed, co)
        && ed == res.edits@ && co == res.computes@ && es.last() == post.edit && us.last() == post.comp && gs.last() == g2
}
%fn "EditComputeSequence as Testor<TestResult<D>>::test" params rng
%ghost "EditComputeSequence as Testor<TestResult<D>>::test"
    mut es: Seq<E> = seq![self.edit];
    mut us: Seq<U> = seq![self.comp];
    mut gs: Seq<StdRng> = seq![*rng];
    mut ds: Seq<D> = Seq::empty();
    mut hs: Seq<StdRng> = Seq::empty();
    mut es0: Seq<E> = Seq::empty();
    mut us0: Seq<U> = Seq::empty();
    mut gs0: Seq<StdRng> = Seq::empty();
    mut ds0: Seq<D> = Seq::empty();
    mut hs0: Seq<StdRng> = Seq::empty();
    mut ed0: Seq<Duration> = Seq::empty();
    
    mut co0: Seq<Duration> = Seq::empty();
%after "EditComputeSequence as Testor<TestResult<D>>::test" create 0
    ds = ds.push(__r.1); hs = hs.push(*rng);
%after "EditComputeSequence as Testor<TestResult<D>>::test" compute 0
    us = us.push(self.comp); gs = gs.push(*rng);
%beforeloop "EditComputeSequence as Testor<TestResult<D>>::test" 0
    
    assert(one_computed::<C, E, U, D>(0, us, ds, gs, hs, computes@));
%after "EditComputeSequence as Testor<TestResult<D>>::test" edit 0
    ds = ds.push(__r.1); hs = hs.push(*rng); es = es.push(self.edit);
%after "EditComputeSequence as Testor<TestResult<D>>::test" compute 1
    us = us.push(self.comp); gs = gs.push(*rng);
%loop "EditComputeSequence as Testor<TestResult<D>>::test" 0
    invariant
        self.changes == old(self).changes, self.comp.ready(),
        full_edits@.len() == __i0 + 1, full_computes@.len() == __i0 + 1, testdata == ds.last(),
        es.last() == self.edit, us.last() == self.comp, gs.last() == *rng,
        0 <= __i0 <= self.changes, one_ran::<C, E, U, D>(__i0 as int, old(self).init, self.init, old(self).edit, old(self).comp, *old(rng), es, us, ds, gs, hs, edits@, computes@),
    ensures __i0 == self.changes,
    decreases self.changes - __i0,
%loopstart "EditComputeSequence as Testor<TestResult<D>>::test" 0
    es0 = es; us0 = us; ds0 = ds; gs0 = gs; hs0 = hs; ed0 = edits@; co0 = computes@;
%loopend "EditComputeSequence as Testor<TestResult<D>>::test" 0
    
    assert forall|i: int| 0 <= i < __i0 + 1 implies #[trigger] one_computed::<C, E, U, D>(i, us, ds, gs, hs, computes@) by { if i < __i0 { assert(one_computed::<C, E, U, D>(i, us0, ds0, gs0, hs0, co0));  } }
    assert forall|i: int| 0 <= i < __i0 implies #[trigger] one_edited::<C, E, U, D>(i, es, ds, gs, hs, edits@) by { if i < __i0 - 1 { assert(one_edited::<C, E, U, D>(i, es0, ds0, gs0, hs0, ed0)); } }
%afterloop "EditComputeSequence as Testor<TestResult<D>>::test" 0
    assert(one_ran::<C, E, U, D>(old(self).changes as int, old(self).init, self.init, old(self).edit, old(self).comp, *old(rng), es, us, ds, gs, hs, edits@, computes@));
    assert(es.last() == self.edit && us.last() == self.comp && gs.last() == *rng);
%impl "EditComputeSequence as Testor<TestMResult<I,O>>"
open spec fn fit(&self) -> bool { self.comp.ready() }
open spec fn tested(pre: Self, g: StdRng, res: TestMResult<I,O>, post: Self, g2: StdRng) -> bool {
    &&& res.full_edits@.len() == pre.changes + 1 && res.full_computes@.len() == pre.changes + 1 && post.changes == pre.changes
    &&& exists|es: Seq<E>, us: Seq<U>, ds: Seq<I>, gs: Seq<StdRng>, hs: Seq<StdRng>, ed: Seq<Duration>, co: Seq<Vec<Duration>>|
        #[trigger] two_ran::<C, E, U, I, O>(pre.changes as int, pre.init, post.init, pre.edit, pre.comp, g, es, us, ds, gs, hs, ed, co)
        && ed == res.edits@ && co == res.computes@ && es.last() == post.edit && us.last() == post.comp && gs.last() == g2
}
%fn "EditComputeSequence as Testor<TestMResult<I,O>>::test" params rng
%ghost "EditComputeSequence as Testor<TestMResult<I,O>>::test"
    mut es: Seq<E> = seq![self.edit];
    mut us: Seq<U> = seq![self.comp];
    mut gs: Seq<StdRng> = seq![*rng];
    mut ds: Seq<I> = Seq::empty();
    mut hs: Seq<StdRng> = Seq::empty();
    mut es0: Seq<E> = Seq::empty();
    mut us0: Seq<U> = Seq::empty();
    mut gs0: Seq<StdRng> = Seq::empty();
    mut ds0: Seq<I> = Seq::empty();
    mut hs0: Seq<StdRng> = Seq::empty();
    mut ed0: Seq<Duration> = Seq::empty();
    mut os: Seq<O> = Seq::empty();
    mut co0: Seq<Vec<Duration>> = Seq::empty();
%after "EditComputeSequence as Testor<TestMResult<I,O>>::test" create 0
    ds = ds.push(__r.1); hs = hs.push(*rng);
%after "EditComputeSequence as Testor<TestMResult<I,O>>::test" compute 0
    us = us.push(self.comp); gs = gs.push(*rng); os = os.push(__r.1);
%beforeloop "EditComputeSequence as Testor<TestMResult<I,O>>::test" 0
    assert(U::computed(us[0], ds[0], hs[0], (computes@[0], os[0]), us[1], gs[1]));
    assert(two_computed::<C, E, U, I, O>(0, us, ds, gs, hs, computes@));
%after "EditComputeSequence as Testor<TestMResult<I,O>>::test" edit 0
    ds = ds.push(__r.1); hs = hs.push(*rng); es = es.push(self.edit);
%after "EditComputeSequence as Testor<TestMResult<I,O>>::test" compute 1
    us = us.push(self.comp); gs = gs.push(*rng); os = os.push(__r.1);
%loop "EditComputeSequence as Testor<TestMResult<I,O>>::test" 0
    invariant
        self.changes == old(self).changes, self.comp.ready(),
        full_edits@.len() == __i0 + 1, full_computes@.len() == __i0 + 1, testdata == ds.last(),
        es.last() == self.edit, us.last() == self.comp, gs.last() == *rng,
        0 <= __i0 <= self.changes, two_ran::<C, E, U, I, O>(__i0 as int, old(self).init, self.init, old(self).edit, old(self).comp, *old(rng), es, us, ds, gs, hs, edits@, computes@),
    ensures __i0 == self.changes,
    decreases self.changes - __i0,
%loopstart "EditComputeSequence as Testor<TestMResult<I,O>>::test" 0
    es0 = es; us0 = us; ds0 = ds; gs0 = gs; hs0 = hs; ed0 = edits@; co0 = computes@;
%loopend "EditComputeSequence as Testor<TestMResult<I,O>>::test" 0
    assert(U::computed(us[__i0 as int], ds[__i0 as int], hs[__i0 as int], (computes@[__i0 as int], os.last()), us[__i0 + 1], gs[__i0 + 1]));
    assert forall|i: int| 0 <= i < __i0 + 1 implies #[trigger] two_computed::<C, E, U, I, O>(i, us, ds, gs, hs, computes@) by { if i < __i0 { assert(two_computed::<C, E, U, I, O>(i, us0, ds0, gs0, hs0, co0)); let o = choose|o: O| #[trigger] U::computed(us0[i], ds0[i], hs0[i], (co0[i], o), us0[i + 1], gs0[i + 1]); assert(U::computed(us[i], ds[i], hs[i], (computes@[i], o), us[i + 1], gs[i + 1])); } }
    assert forall|i: int| 0 <= i < __i0 implies #[trigger] two_edited::<C, E, U, I, O>(i, es, ds, gs, hs, edits@) by { if i < __i0 - 1 { assert(two_edited::<C, E, U, I, O>(i, es0, ds0, gs0, hs0, ed0)); } }
%afterloop "EditComputeSequence as Testor<TestMResult<I,O>>::test" 0
    assert(two_ran::<C, E, U, I, O>(old(self).changes as int, old(self).init, self.init, old(self).edit, old(self).comp, *old(rng), es, us, ds, gs, hs, edits@, computes@));
    assert(es.last() == self.edit && us.last() == self.comp && gs.last() == *rng);
