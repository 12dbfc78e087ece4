%module eval_vec eval/src/eval_vec.rs
%head
use crate::eval_prims::*;
use crate::level_tree::Rng;
use crate::raz::{tot1, totb, img, lrel, lrel_hint, take_hint, isb, lfold, lemma_lrel};
%type EvalVec
%fn EvalVec::new params coord
    ensures res.vec@.len() == 0, res.coord == coord,
%fn "EvalVec as CreateEmpty::inc_empty" params _datagauge,_namegauge,coord,_rng
    ensures res.1.vec@.len() == 0, res.1.coord == *coord,
%fn "EvalVec as CreateFrom::inc_from" params data,_datagauge,_namegauge,coord,_rng
    ensures res.1.vec@ == data@, res.1.coord == *coord,
%fn "EvalVec as CreateInc::inc_init" params size,_datagauge,_namegauge,coord,_rng
    ensures res.1.vec@ == drawn_seq::<G, E>(*coord, size as nat), res.1.coord == after_seq::<G, E>(*coord, size as nat),
%loop "EvalVec as CreateInc::inc_init" 0
    invariant 0 <= __i0 <= __v0@.len(), eval.vec@ =~= __v0@.take(__i0 as int), eval.coord == after_seq::<G, E>(*coord, size as nat),
    ensures eval.vec@ == __v0@,
    decreases __v0@.len() - __i0,
%fn "EvalVec as EditExtend::extend" params batch_size,_rng
    ensures res.1.vec@ =~= self.vec@ + drawn_seq::<G, E>(self.coord, batch_size as nat), res.1.coord == after_seq::<G, E>(self.coord, batch_size as nat),
%fn "EvalVec as EditAppend::append" params batch_size,_rng
    ensures res.1.vec@ == self.vec@ + drawn_seq::<G, E>(self.coord, batch_size as nat), res.1.coord == after_seq::<G, E>(self.coord, batch_size as nat),
%loop "EvalVec as EditAppend::append" 0
    invariant 0 <= __i0 <= __v0@.len(), self_.vec@ =~= self.vec@ + __v0@.take(__i0 as int), self_.coord == after_seq::<G, E>(self.coord, batch_size as nat),
    ensures self_.vec@ == self.vec@ + __v0@,
    decreases __v0@.len() - __i0,
%raw
/// what a map and a fold return, for functions that compute mathematical ones
pub proof fn vec_map_exact<E, O, F: Fn(&E) -> O>(f: F, a: Seq<E>, b: Seq<O>, g: spec_fn(E) -> O)
    requires img(f, a, b), crate::raz::is1(f, g)
    ensures b == a.map(|i: int, e: E| g(e))
{
    assert forall|i: int| 0 <= i < a.len() implies b[i] == g(a[i]) by { assert(f.ensures((&a[i],), b[i])); }
    assert(b =~= a.map(|i: int, e: E| g(e)));
}
pub proof fn vec_fold_exact<E, O, F: Fn(O, &E) -> O>(f: F, accum: O, a: Seq<E>, r: O, g: spec_fn(O, E) -> O)
    requires lrel(f, accum, a, r), isb(f, g)
    ensures r == lfold(a, accum, g)
{
    lemma_lrel(f, accum, a, r, g);
}
/// the batch at the position drawn after it, each element before the previous one
pub open spec fn vec_inserted<E, G>(v: Seq<E>, coord: G, n: nat, r: Seq<E>) -> bool {
    let k = drawn_usize(after_seq::<G, E>(coord, n)) as int % v.len() as int;
    r == v.take(k) + drawn_seq::<G, E>(coord, n).reverse() + v.skip(k)
}
pub proof fn lemma_insert<E>(v: Seq<E>, k: int, b: Seq<E>, i: int)
    requires 0 <= k <= v.len(), 0 <= i < b.len()
    ensures (v.take(k) + b.take(i).reverse() + v.skip(k)).insert(k, b[i]) == v.take(k) + b.take(i + 1).reverse() + v.skip(k)
{
    let x = (v.take(k) + b.take(i).reverse() + v.skip(k)).insert(k, b[i]);
    let y = v.take(k) + b.take(i + 1).reverse() + v.skip(k);
    assert(x.len() == y.len());
    assert forall|j: int| 0 <= j < x.len() implies x[j] == y[j] by {}
    assert(x =~= y);
}
pub proof fn lemma_insert0<E>(v: Seq<E>, k: int, b: Seq<E>)
    requires 0 <= k <= v.len()
    ensures v == v.take(k) + b.take(0).reverse() + v.skip(k), b.take(b.len() as int) == b
{
    assert(v =~= v.take(k) + b.take(0).reverse() + v.skip(k)); assert(b.take(b.len() as int) =~= b);
}
%fn "EvalVec as EditInsert::insert" params batch_size,_rng
    requires self.vec@.len() > 0,
    ensures vec_inserted(self.vec@, self.coord, batch_size as nat, res.1.vec@), res.1.coord == after_usize(after_seq::<G, E>(self.coord, batch_size as nat)),
%loop "EvalVec as EditInsert::insert" 0
    invariant 0 <= __i0 <= __v0@.len(), loc < self.vec@.len(), self_.vec@ == self.vec@.take(loc as int) + __v0@.take(__i0 as int).reverse() + self.vec@.skip(loc as int), self_.coord == after_usize(after_seq::<G, E>(self.coord, batch_size as nat)),
    ensures __i0 == __v0@.len(),
    decreases __v0@.len() - __i0,
%loopstart "EvalVec as EditInsert::insert" 0
    if __i0 < __v0@.len() { lemma_insert(self.vec@, loc as int, __v0@, __i0 as int); }
%beforeloop "EvalVec as EditInsert::insert" 0
    lemma_insert0(self.vec@, loc as int, __v0@);
%fn "EvalVec as CompMax::comp_max" params _rng
    ensures res.1 is None <==> self.vec@.len() == 0, res.1 matches Some(x) ==> is_max(self.vec@, x),
%fn "EvalVec as CompRev::comp_rev" params _rng
    ensures res.1@ == self.vec@.reverse(),
%fn "EvalVec as CompNative::comp_native" params f,_rng
    requires forall|v: &Vec<E>| #[trigger] f.requires((v,)),
    ensures f.ensures((&self.vec,), res.1),
%fn "EvalVec as CompMap::comp_map" params f,_rng
    requires tot1(*f),
    ensures img(*f, self.vec@, res.1@),
%loop "EvalVec as CompMap::comp_map" 0
    invariant 0 <= __i0 <= self.vec@.len(), img(*f, self.vec@.take(__i0 as int), __acc0@), tot1(*f),
    ensures __i0 == self.vec@.len(),
    decreases self.vec@.len() - __i0,
%fn "EvalVec as CompFold::comp_fold" params accum,f,_rng
    requires totb(*f),
    ensures lrel(*f, accum, self.vec@, res.1),
%loop "EvalVec as CompFold::comp_fold" 0
    invariant 0 <= __i0 <= self.vec@.len(), lrel(*f, accum, self.vec@.take(__i0 as int), __acc0), totb(*f),
    ensures __i0 == self.vec@.len(),
    decreases self.vec@.len() - __i0,
%entry "EvalVec as CompFold::comp_fold"
    lrel_hint::<O, E, F>(&f);
%fn "EvalVec as CompFoldMeta::comp_fold_meta" params accum,f,_n,_rng
    requires totb(*f),
    ensures lrel(*f, accum, self.vec@, res.1),
%loop "EvalVec as CompFoldMeta::comp_fold_meta" 0
    invariant 0 <= __i0 <= self.vec@.len(), lrel(*f, accum, self.vec@.take(__i0 as int), __acc0), totb(*f),
    ensures __i0 == self.vec@.len(),
    decreases self.vec@.len() - __i0,
%entry "EvalVec as CompFoldMeta::comp_fold_meta"
    lrel_hint::<O, E, F>(&f);
%entry "EvalVec as CompMap::comp_map"
    take_hint::<E>();
