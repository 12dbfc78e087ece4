import os
def part(name, tr, D, gens, comp, compres, rel, o=False):
    # one of the two test drivers
    key = f'"EditComputeSequence as Testor<{tr}>::test"'
    imp = f'"EditComputeSequence as Testor<{tr}>"'
    T = f"<C: Creator<Duration, {D}>, E: Editor<Duration, {D}>, U: Computor<{comp}, {D}>, {gens}>"
    A = f"<C, E, U, {gens}>"
    raw = f'''/// n changes done: the trace of the collections `ds`, the states `es`, `us` of the actions and `gs`, `hs` of the generator
/// (hs[i]: when the i-th collection was there, gs[i+1]: after computing over it)
pub open spec fn {name}_created{T}(c0: C, c1: C, e0: E, u0: U, g: StdRng, es: Seq<E>, us: Seq<U>, ds: Seq<{D}>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>) -> bool {{
    es.len() >= 1 && us.len() >= 1 && ds.len() >= 1 && gs.len() >= 1 && hs.len() >= 1 && edits.len() >= 1
    && es[0] == e0 && us[0] == u0 && gs[0] == g && C::created(c0, g, (edits[0], ds[0]), c1, hs[0])
}}
pub open spec fn {name}_computed{T}(i: int, us: Seq<U>, ds: Seq<{D}>, gs: Seq<StdRng>, hs: Seq<StdRng>, computes: Seq<{compres}>) -> bool {{
    {rel}
}}
pub open spec fn {name}_edited{T}(i: int, es: Seq<E>, ds: Seq<{D}>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>) -> bool {{
    E::edited(es[i], ds[i], gs[i + 1], (edits[i + 1], ds[i + 1]), es[i + 1], hs[i + 1])
}}
pub open spec fn {name}_ran{T}(n: int, c0: C, c1: C, e0: E, u0: U, g: StdRng, es: Seq<E>, us: Seq<U>, ds: Seq<{D}>, gs: Seq<StdRng>, hs: Seq<StdRng>, edits: Seq<Duration>, computes: Seq<{compres}>) -> bool {{
    &&& {name}_created::{A}(c0, c1, e0, u0, g, es, us, ds, gs, hs, edits)
    &&& es.len() == n + 1 && us.len() == n + 2 && ds.len() == n + 1 && gs.len() == n + 2 && hs.len() == n + 1 && edits.len() == n + 1 && computes.len() == n + 1
    &&& forall|i: int| 0 <= i < n + 1 ==> #[trigger] {name}_computed::{A}(i, us, ds, gs, hs, computes)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] {name}_edited::{A}(i, es, ds, gs, hs, edits)
}}
'''
    ran = lambda n, c1, ed, co: f"{name}_ran::{A}({n}, pre.init, {c1}, pre.edit, pre.comp, g, es, us, ds, gs, hs, {ed}, {co})"
    spec = f'''%impl {imp}
open spec fn fit(&self) -> bool {{ self.comp.ready() }}
open spec fn tested(pre: Self, g: StdRng, res: {tr}, post: Self, g2: StdRng) -> bool {{
    &&& res.full_edits@.len() == pre.changes + 1 && res.full_computes@.len() == pre.changes + 1 && post.changes == pre.changes
    &&& exists|es: Seq<E>, us: Seq<U>, ds: Seq<{D}>, gs: Seq<StdRng>, hs: Seq<StdRng>, ed: Seq<Duration>, co: Seq<{compres}>|
        #[trigger] {name}_ran::{A}(pre.changes as int, pre.init, post.init, pre.edit, pre.comp, g, es, us, ds, gs, hs, ed, co)
        && ed == res.edits@ && co == res.computes@ && es.last() == post.edit && us.last() == post.comp && gs.last() == g2
}}
%fn {key} params rng
%ghost {key}
    mut es: Seq<E> = seq![self.edit];
    mut us: Seq<U> = seq![self.comp];
    mut gs: Seq<StdRng> = seq![*rng];
    mut ds: Seq<{D}> = Seq::empty();
    mut hs: Seq<StdRng> = Seq::empty();
    mut es0: Seq<E> = Seq::empty();
    mut us0: Seq<U> = Seq::empty();
    mut gs0: Seq<StdRng> = Seq::empty();
    mut ds0: Seq<{D}> = Seq::empty();
    mut hs0: Seq<StdRng> = Seq::empty();
    mut ed0: Seq<Duration> = Seq::empty();
    {'mut os: Seq<O> = Seq::empty();' if o else ''}
    mut co0: Seq<{compres}> = Seq::empty();
%after {key} create 0
    ds = ds.push(__r.1); hs = hs.push(*rng);
%after {key} compute 0
    us = us.push(self.comp); gs = gs.push(*rng);{' os = os.push(__r.1);' if o else ''}
%beforeloop {key} 0
    {'assert(U::computed(us[0], ds[0], hs[0], (computes@[0], os[0]), us[1], gs[1]));' if o else ''}
    assert({name}_computed::{A}(0, us, ds, gs, hs, computes@));
%after {key} edit 0
    ds = ds.push(__r.1); hs = hs.push(*rng); es = es.push(self.edit);
%after {key} compute 1
    us = us.push(self.comp); gs = gs.push(*rng);{' os = os.push(__r.1);' if o else ''}
%loop {key} 0
    invariant
        self.changes == old(self).changes, self.comp.ready(),
        full_edits@.len() == __i0 + 1, full_computes@.len() == __i0 + 1, testdata == ds.last(),
        es.last() == self.edit, us.last() == self.comp, gs.last() == *rng,
        0 <= __i0 <= self.changes, {name}_ran::{A}(__i0 as int, old(self).init, self.init, old(self).edit, old(self).comp, *old(rng), es, us, ds, gs, hs, edits@, computes@),
    ensures __i0 == self.changes,
    decreases self.changes - __i0,
%loopstart {key} 0
    es0 = es; us0 = us; ds0 = ds; gs0 = gs; hs0 = hs; ed0 = edits@; co0 = computes@;
%loopend {key} 0
    {'assert(U::computed(us[__i0 as int], ds[__i0 as int], hs[__i0 as int], (computes@[__i0 as int], os.last()), us[__i0 + 1], gs[__i0 + 1]));' if o else ''}
    assert forall|i: int| 0 <= i < __i0 + 1 implies #[trigger] {name}_computed::{A}(i, us, ds, gs, hs, computes@) by {{ if i < __i0 {{ assert({name}_computed::{A}(i, us0, ds0, gs0, hs0, co0)); {'let o = choose|o: O| #[trigger] U::computed(us0[i], ds0[i], hs0[i], (co0[i], o), us0[i + 1], gs0[i + 1]); assert(U::computed(us[i], ds[i], hs[i], (computes@[i], o), us[i + 1], gs[i + 1]));' if o else ''} }} }}
    assert forall|i: int| 0 <= i < __i0 implies #[trigger] {name}_edited::{A}(i, es, ds, gs, hs, edits@) by {{ if i < __i0 - 1 {{ assert({name}_edited::{A}(i, es0, ds0, gs0, hs0, ed0)); }} }}
'''
    spec += f"""%afterloop {key} 0
    assert({name}_ran::{A}(old(self).changes as int, old(self).init, self.init, old(self).edit, old(self).comp, *old(rng), es, us, ds, gs, hs, edits@, computes@));
"""
    spec += f"""    assert(es.last() == self.edit && us.last() == self.comp && gs.last() == *rng);
"""
    return raw, spec

h='''%module test_seq eval/src/test_seq.rs
%head
use crate::eval_prims::*;
use crate::actions::*;
use std::marker::PhantomData;
%raw
pub trait Testor<R>: Sized {
    spec fn fit(&self) -> bool;
    spec fn tested(pre: Self, g: StdRng, res: R, post: Self, g2: StdRng) -> bool;
    fn test(&mut self, rng: &mut StdRng) -> (res: R)
        requires old(self).fit(),
        ensures Self::tested(*old(self), *old(rng), res, *final(self), *final(rng));
}
%type TestResult
#[verifier::reject_recursive_types(D)]
%type TestMResult
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)]
%type EditComputeSequence
'''
r1,s1=part("one","TestResult<D>","D","D","Duration","Duration","U::computed(us[i], ds[i], hs[i], computes[i], us[i + 1], gs[i + 1])")
r2,s2=part("two","TestMResult<I,O>","I","I, O","(Vec<Duration>, O)","Vec<Duration>","exists|o: O| #[trigger] U::computed(us[i], ds[i], hs[i], (computes[i], o), us[i + 1], gs[i + 1])", True)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'specs', 'test_seq.vs'), 'w').write(h+"%raw\n"+r1+r2+s1+s2)
