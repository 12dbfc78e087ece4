%module actions eval/src/actions.rs
%head
use crate::eval_prims::*;
use crate::level_tree::Rng;
use std::marker::PhantomData;
%raw
// What the actions drive: collections, whatever they are. Each operation is any relation between its arguments, the
// state of the random generator, the results and the generator's next state; the actions have to run exactly it.
pub trait CreateEmpty<G: Rng>: Sized {
    spec fn emptied(datagauge: usize, namegauge: usize, coord: G, g: StdRng, res: (Duration, Self), g2: StdRng) -> bool;
    fn inc_empty(datagauge: usize, namegauge: usize, coord: &G, rng: &mut StdRng) -> (res: (Duration, Self))
        ensures Self::emptied(datagauge, namegauge, *coord, *old(rng), res, *final(rng));
}
pub trait CreateFrom<T, G: Rng>: Sized {
    spec fn froms(data: T, datagauge: usize, namegauge: usize, coord: G, g: StdRng, res: (Duration, Self), g2: StdRng) -> bool;
    fn inc_from(data: T, datagauge: usize, namegauge: usize, coord: &G, rng: &mut StdRng) -> (res: (Duration, Self))
        ensures Self::froms(data, datagauge, namegauge, *coord, *old(rng), res, *final(rng));
}
pub trait CreateInc<G: Rng>: Sized {
    spec fn inits(size: usize, datagauge: usize, namegauge: usize, coord: G, g: StdRng, res: (Duration, Self), g2: StdRng) -> bool;
    fn inc_init(size: usize, datagauge: usize, namegauge: usize, coord: &G, rng: &mut StdRng) -> (res: (Duration, Self))
        ensures Self::inits(size, datagauge, namegauge, *coord, *old(rng), res, *final(rng));
}
pub trait EditExtend: Sized {
    spec fn extends(self, batch_size: usize, g: StdRng, res: (Duration, Self), g2: StdRng) -> bool;
    fn extend(self, batch_size: usize, rng: &mut StdRng) -> (res: (Duration, Self))
        ensures self.extends(batch_size, *old(rng), res, *final(rng));
}
pub trait EditAppend: Sized {
    spec fn appends(self, batch_size: usize, g: StdRng, res: (Duration, Self), g2: StdRng) -> bool;
    fn append(self, batch_size: usize, rng: &mut StdRng) -> (res: (Duration, Self))
        ensures self.appends(batch_size, *old(rng), res, *final(rng));
}
pub trait EditInsert: Sized {
    spec fn inserts(self, batch_size: usize, g: StdRng, res: (Duration, Self), g2: StdRng) -> bool;
    fn insert(self, batch_size: usize, rng: &mut StdRng) -> (res: (Duration, Self))
        ensures self.inserts(batch_size, *old(rng), res, *final(rng));
}
pub trait CompMax {
    type Target;
    spec fn maxes(&self, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_max(&self, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.maxes(*old(rng), res, *final(rng));
}
pub trait CompRev {
    type Target;
    spec fn revs(&self, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_rev(&self, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.revs(*old(rng), res, *final(rng));
}
pub trait CompNative<O> {
    type Input;
    spec fn natives<F: Fn(&Self::Input) -> O>(&self, f: F, g: StdRng, res: (Duration, O), g2: StdRng) -> bool;
    fn comp_native<F: Fn(&Self::Input) -> O>(&self, f: Rc<F>, rng: &mut StdRng) -> (res: (Duration, O))
        ensures self.natives(*f, *old(rng), res, *final(rng));
}
pub trait CompTreeFold<R, O, I: Fn(&R) -> O, B: Fn(O, O) -> O> {
    type Target;
    spec fn tfolds(&self, init: I, bin: B, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_tfold(&self, init: Rc<I>, bin: Rc<B>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.tfolds(*init, *bin, *old(rng), res, *final(rng));
}
pub trait CompTreeFoldNL<R, O, I: Fn(&R) -> O, B: Fn(O, O) -> O, M: Fn(O, u32, Option<Name>, O) -> O> {
    type Target;
    spec fn tfoldnls(&self, init: I, bin: B, binnl: M, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_tfoldnl(&self, init: Rc<I>, bin: Rc<B>, binnl: Rc<M>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.tfoldnls(*init, *bin, *binnl, *old(rng), res, *final(rng));
}
pub trait CompTreeFoldG<R, O, I: Fn(&Vec<R>) -> O, B: Fn(O, u32, Option<Name>, O) -> O> {
    type Target;
    spec fn tfoldgs(&self, init: I, bin: B, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_tfoldg(&self, init: Rc<I>, bin: Rc<B>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.tfoldgs(*init, *bin, *old(rng), res, *final(rng));
}
pub trait CompMap<I, O, F: Fn(&I) -> O> {
    type Target;
    spec fn maps(&self, f: F, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_map(&self, f: Rc<F>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.maps(*f, *old(rng), res, *final(rng));
}
pub trait CompFold<I, O, F: Fn(O, &I) -> O> {
    type Target;
    spec fn folds(&self, accum: O, f: F, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_fold(&self, accum: O, f: Rc<F>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.folds(accum, *f, *old(rng), res, *final(rng));
}
pub trait CompFoldMeta<I, O, M, B: Fn(O, &I) -> O, N: Fn(O, M) -> O> {
    type Target;
    spec fn mfolds(&self, accum: O, b: B, m: N, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_fold_meta(&self, accum: O, b: Rc<B>, m: Rc<N>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.mfolds(accum, *b, *m, *old(rng), res, *final(rng));
}
pub trait CompFoldArchive<I, O, M, B: Fn(O, &I) -> O, FB: Fn(O, Option<Name>) -> O, N: Fn(O, M) -> O> {
    type Target;
    spec fn afolds(&self, accum: O, b: B, fb: FB, m: N, g: StdRng, res: (Duration, Self::Target), g2: StdRng) -> bool;
    fn comp_fold_archive(&self, accum: O, b: Rc<B>, fb: Rc<FB>, m: Rc<N>, rng: &mut StdRng) -> (res: (Duration, Self::Target))
        ensures self.afolds(accum, *b, *fb, *m, *old(rng), res, *final(rng));
}
// The actions, and what runs them. `ready`: the callbacks they hold accept every value.
pub trait Creator<R, D>: Sized {
    spec fn created(pre: Self, g: StdRng, res: (R, D), post: Self, g2: StdRng) -> bool;
    fn create(&mut self, rnd: &mut StdRng) -> (res: (R, D))
        ensures Self::created(*old(self), *old(rnd), res, *final(self), *final(rnd));
}
pub trait Editor<R, D>: Sized {
    spec fn edited(pre: Self, data: D, g: StdRng, res: (R, D), post: Self, g2: StdRng) -> bool;
    fn edit(&mut self, data: D, rng: &mut StdRng) -> (res: (R, D))
        ensures Self::edited(*old(self), data, *old(rng), res, *final(self), *final(rng));
}
pub trait Computor<R, D>: Sized {
    spec fn ready(&self) -> bool;
    spec fn computed(pre: Self, data: D, g: StdRng, res: R, post: Self, g2: StdRng) -> bool;
    fn compute(&mut self, data: &D, rng: &mut StdRng) -> (res: R)
        requires old(self).ready(),
        ensures final(self).ready(), Self::computed(*old(self), *data, *old(rng), res, *final(self), *final(rng));
}
%type IncrementalEmpty
%type IncrementalFrom
%type IncrementalInit
%type SingleAppend
%type BatchAppend
%type BatchInsert
%type BatchExtend
%type Compute2
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(J)] #[verifier::reject_recursive_types(K)] 
%type Proj0
%type FindMax
%type Native
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(F)] 
%type Reverse
%type TreeFold
#[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] 
%type TreeFoldNL
#[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(M)] 
%type TreeFoldG
#[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] 
%type Mapper
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(F)] 
%type Folder
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(F)] 
%type FFolder
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(F)] 
%type MFolder
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(N)] #[verifier::reject_recursive_types(F)] 
%type HFolder
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(RF)] #[verifier::reject_recursive_types(N)] #[verifier::reject_recursive_types(F)] 
%impl "IncrementalEmpty as Creator"
open spec fn created(pre: Self, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && D::emptied(pre.datagauge, pre.namegauge, pre.coord, g, res, g2) }
%impl "IncrementalFrom as Creator"
open spec fn created(pre: Self, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && D::froms(pre.data, pre.datagauge, pre.namegauge, pre.coord, g, res, g2) }
%impl "IncrementalInit as Creator"
open spec fn created(pre: Self, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && D::inits(pre.size, pre.datagauge, pre.namegauge, pre.coord, g, res, g2) }
%impl "SingleAppend as Editor"
open spec fn edited(pre: Self, data: D, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && data.appends(1, g, res, g2) }
%impl "BatchAppend as Editor"
open spec fn edited(pre: Self, data: D, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && data.appends(pre.0, g, res, g2) }
%impl "BatchInsert as Editor"
open spec fn edited(pre: Self, data: D, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && data.inserts(pre.0, g, res, g2) }
%impl "BatchExtend as Editor"
open spec fn edited(pre: Self, data: D, g: StdRng, res: (Duration, D), post: Self, g2: StdRng) -> bool { post == pre && data.extends(pre.0, g, res, g2) }
%fn Compute2::new
    ensures res.0 == a, res.1 == b,
%impl "Compute2 as Computor"
open spec fn ready(&self) -> bool { self.0.ready() && self.1.ready() }
open spec fn computed(pre: Self, data: I, g: StdRng, res: (Vec<Duration>, K), post: Self, g2: StdRng) -> bool {
    exists|r0: (Vec<Duration>, J), gm: StdRng, r1: (Vec<Duration>, K)| #[trigger] A::computed(pre.0, data, g, r0, post.0, gm) && #[trigger] B::computed(pre.1, r0.1, gm, r1, post.1, g2)
        && res.0@ =~= r0.0@ + r1.0@ && res.1 == r1.1
}
%fn "Compute2 as Computor::compute"
%ghost "Compute2 as Computor::compute"
    mut r0: (Vec<Duration>, J) = vstd::pervasive::arbitrary();
    mut gm: StdRng = vstd::pervasive::arbitrary();
%after "Compute2 as Computor::compute" compute 0
    r0 = __r; gm = *rng; assert(A::computed(old(self).0, *data, *old(rng), r0, self.0, gm));
%after "Compute2 as Computor::compute" compute 1
    assert(B::computed(old(self).1, r0.1, gm, __r, self.1, *rng));
%impl "Proj0 as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: (R, E), g: StdRng, res: (Vec<Duration>, R), post: Self, g2: StdRng) -> bool { res.0@.len() == 0 && res.1 == data.0 && post == pre && g2 == g }
%impl "FindMax as Computor<Duration,D>"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.maxes(g, (res, a), g2) }
%impl "FindMax as Computor<(Duration,D::Target),D>"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: (Duration, D::Target), post: Self, g2: StdRng) -> bool { post == pre && data.maxes(g, res, g2) }
%fn Native::new
    ensures *res.0 == f,
%impl "Native as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: O| #[trigger] data.natives(*pre.0, g, (res, a), g2) }
%impl "Reverse as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.revs(g, (res, a), g2) }
%fn TreeFold::new
    ensures *res.0 == init, *res.1 == bin,
%impl "TreeFold as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.tfolds(*pre.0, *pre.1, g, (res, a), g2) }
%fn TreeFoldNL::new
    ensures *res.init == init, *res.bin == bin, *res.binnl == binnl,
%impl "TreeFoldNL as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.tfoldnls(*pre.init, *pre.bin, *pre.binnl, g, (res, a), g2) }
%fn TreeFoldG::new
    ensures *res.init == init, *res.bin == bin,
%impl "TreeFoldG as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.tfoldgs(*pre.init, *pre.bin, g, (res, a), g2) }
%fn Mapper::new
    ensures *res.mapfn == f, res.name == n,
%impl "Mapper as Computor"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.maps(*pre.mapfn, g, (res, a), g2) }
%fn Folder::new
    ensures res.0 == a, *res.1 == f,
%impl "Folder as Computor<Duration,D>"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target| #[trigger] data.folds(pre.0, *pre.1, g, (res, a), g2) }
%impl "Folder as Computor<(Duration,D::Target),D>"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: (Duration, D::Target), post: Self, g2: StdRng) -> bool { post == pre && data.folds(pre.0, *pre.1, g, res, g2) }
%impl "Folder as Computor<(Vec<Duration>,D::Target),D>"
open spec fn ready(&self) -> bool { true }
open spec fn computed(pre: Self, data: D, g: StdRng, res: (Vec<Duration>, D::Target), post: Self, g2: StdRng) -> bool { post == pre && res.0@.len() == 1 && data.folds(pre.0, *pre.1, g, (res.0@[0], res.1), g2) }
%fn FFolder::new
    ensures res.init == a, *res.run == r, *res.finish == f,
%impl "FFolder as Computor<Duration,D>"
open spec fn ready(&self) -> bool { forall|t: D::Target| #[trigger] self.finish.requires((t,)) }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target, o: O| #[trigger] data.folds(pre.init, *pre.run, g, (res, a), g2) && #[trigger] pre.finish.ensures((a,), o) }
%impl "FFolder as Computor<(Vec<Duration>,O),D>"
open spec fn ready(&self) -> bool { forall|t: D::Target| #[trigger] self.finish.requires((t,)) }
open spec fn computed(pre: Self, data: D, g: StdRng, res: (Vec<Duration>, O), post: Self, g2: StdRng) -> bool {
    post == pre && exists|d: Duration, a: D::Target| #[trigger] data.folds(pre.init, *pre.run, g, (d, a), g2) && res.0@ =~= seq![d] && pre.finish.ensures((a,), res.1)
}
%fn MFolder::new
    ensures res.name == name, res.init == a, *res.run == r, *res.run_meta == m, *res.finish == f,
%impl "MFolder as Computor<Duration,D>"
open spec fn ready(&self) -> bool { forall|t: D::Target| #[trigger] self.finish.requires((t,)) }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target, o: O| #[trigger] data.mfolds(pre.init, *pre.run, *pre.run_meta, g, (res, a), g2) && #[trigger] pre.finish.ensures((a,), o) }
%impl "MFolder as Computor<(Vec<Duration>,O),D>"
open spec fn ready(&self) -> bool { forall|t: D::Target| #[trigger] self.finish.requires((t,)) }
open spec fn computed(pre: Self, data: D, g: StdRng, res: (Vec<Duration>, O), post: Self, g2: StdRng) -> bool {
    post == pre && exists|d: Duration, a: D::Target| #[trigger] data.mfolds(pre.init, *pre.run, *pre.run_meta, g, (d, a), g2) && res.0@ =~= seq![d] && pre.finish.ensures((a,), res.1)
}
%fn HFolder::new
    ensures res.name == name, res.init == a, *res.run == r, *res.run_fin == rf, *res.run_meta == m, *res.finish == f,
%impl "HFolder as Computor<Duration,D>"
open spec fn ready(&self) -> bool { forall|t: D::Target| #[trigger] self.finish.requires((t,)) }
open spec fn computed(pre: Self, data: D, g: StdRng, res: Duration, post: Self, g2: StdRng) -> bool { post == pre && exists|a: D::Target, o: O| #[trigger] data.afolds(pre.init, *pre.run, *pre.run_fin, *pre.run_meta, g, (res, a), g2) && #[trigger] pre.finish.ensures((a,), o) }
%impl "HFolder as Computor<(Vec<Duration>,O),D>"
open spec fn ready(&self) -> bool { forall|t: D::Target| #[trigger] self.finish.requires((t,)) }
open spec fn computed(pre: Self, data: D, g: StdRng, res: (Vec<Duration>, O), post: Self, g2: StdRng) -> bool {
    post == pre && exists|d: Duration, a: D::Target| #[trigger] data.afolds(pre.init, *pre.run, *pre.run_fin, *pre.run_meta, g, (d, a), g2) && res.0@ =~= seq![d] && pre.finish.ensures((a,), res.1)
}
