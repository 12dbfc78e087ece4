%module eval_iraz eval/src/eval_iraz.rs
%head
use crate::eval_prims::*;
use crate::level_tree::{Rng, Tree, gen_branch_level as gen_level};
use crate::archive_stack::{AStack, AtTail};
use crate::raz::*;
use crate::tree_cursor::{cin, lseq, rseq, okt};
use crate::raz_meta::{RazMeta, Count, Names, FirstLast, Position};
pub type IRaz<E> = crate::raz::Raz<E, Count>;
pub type IRazTree<E> = crate::raz::RazTree<E, Count>;
%type EvalIRaz
%raw
impl<E, G: Rng> EvalIRaz<E, G> {
    /// an initialized harness over a sound sequence
    pub open spec fn wf(&self) -> bool {
        self.raztree is Some && self.raztree->0.wf() && self.raztree->0.pos() && self.raztree->0.canon()
        && self.datagauge >= 1 && self.namegauge >= 1 && self.namegauge * self.datagauge <= usize::MAX
    }
    pub open spec fn elems(&self) -> Seq<E> { self.raztree->0.elems() }
    /// room for the counters of an edit of n elements
    pub open spec fn room(&self, n: usize) -> bool { n < usize::MAX && self.counter + n <= usize::MAX && self.names + n + 1 <= usize::MAX }
    pub open spec fn fresh(&self, us: usize, ns: usize, g: G) -> bool { self.names == 0 && self.coord == g && self.counter == 0 && self.datagauge == us && self.namegauge == ns }
    pub open spec fn gauges(&self, o: EvalIRaz<E, G>) -> bool { self.datagauge == o.datagauge && self.namegauge == o.namegauge }
}
/// the archive points of an edit: every datagauge-th element of the counter, named at every multiple of both gauges
pub open spec fn edited<E, M: RazMeta<E>, G: Rng>(h0: EvalIRaz<E, G>, z0: Raz<E, M>, batch: Seq<E>, z1: Raz<E, M>) -> bool {
    arch_steps(z0.l_stack.arch(), z0.l_stack.cur(), h0.counter as int, h0.datagauge as int, h0.namegauge as int, h0.names as int, batch, z1.l_stack.arch(), z1.l_stack.cur())
    && z1.lt() == z0.lt() && z1.rsame(z0)
}
/// what focusing at the length needs
pub proof fn lemma_focus_len<E>(t: RazTree<E, Count>)
    requires t.wf()
    ensures freq(t.tree, t.meta.0), t.meta.0 == t.elems().len(), t.tree is Some ==> fpos(t.tree, t.meta.0) == Some(t.elems().len() as int),
{
    els_hint::<E>(); match t.tree { Some(x) => { lemma_count(x, t.meta.0, 0, None, t.meta); lemma_tree(x); }, None => { assert(cin(t.tree) =~= Seq::empty()); } }
}
%fn EvalIRaz::new params us,ns,coord
    ensures res.raztree is None, res.fresh(us, ns, coord),
%fn EvalIRaz::next_name
    requires old(self).names < usize::MAX,
    ensures res == spec_name_of_usize(old(self).names), final(self).names == old(self).names + 1, final(self).raztree == old(self).raztree, final(self).coord == old(self).coord,
        final(self).counter == old(self).counter, final(self).gauges(*old(self)),
%fn "EvalIRaz as CreateEmpty::inc_empty" params datagauge,namegauge,coord,_rng
    ensures res.1.raztree is Some, res.1.elems().len() == 0, datagauge >= 1 && namegauge >= 1 && namegauge * datagauge <= usize::MAX ==> res.1.wf(), res.1.fresh(datagauge, namegauge, *coord),
%fn "EvalIRaz as CreateFrom<IRaz<E>,G>::inc_from" as inc_from_raz params data,datagauge,namegauge,coord,_rng
    requires data.wf(), data.pos(), data.canon(),
    ensures res.1.raztree is Some, res.1.elems() == data.left() + data.right(), datagauge >= 1 && namegauge >= 1 && namegauge * datagauge <= usize::MAX ==> res.1.wf(), res.1.fresh(datagauge, namegauge, *coord),
        exists|nt: Name| #[trigger] unfs(data, nt, cin((res.1.raztree->0).tree)),
%fn "EvalIRaz as CreateFrom<IRazTree<E>,G>::inc_from" as inc_from_tree params data,datagauge,namegauge,coord,_rng
    ensures res.1.raztree == Some(data), res.1.fresh(datagauge, namegauge, *coord),
%fn "EvalIRaz as CreateFrom<AtTail<E,u32>,G>::inc_from" as inc_from_tail params data,datagauge,namegauge,coord,_rng
    requires data.0.wf(), slv(true, data.0),
    ensures res.1.raztree is Some, res.1.elems() == data.0.elems(), cin((res.1.raztree->0).tree) == snodes(true, data.0),
        datagauge >= 1 && namegauge >= 1 && namegauge * datagauge <= usize::MAX ==> res.1.wf(), res.1.fresh(datagauge, namegauge, *coord),
%fn "EvalIRaz as CreateInc::inc_init" params size,datagauge,namegauge,coord,rng
    requires datagauge >= 1, namegauge >= 1, namegauge * datagauge <= usize::MAX, size < usize::MAX,
    ensures res.1.wf(), res.1.elems() == drawn_seq::<G, E>(*coord, size as nat), res.1.coord == after_seq::<G, E>(*coord, size as nat),
        res.1.datagauge == datagauge, res.1.namegauge == namegauge, res.1.counter == 0, res.1.names >= size / (namegauge * datagauge) as usize,
        exists|z: Raz<E, Count>, nt: Name| #[trigger] unfs(z, nt, cin((res.1.raztree->0).tree)) && z.lt().len() == 0 && z.right().len() == 0 && z.pos()
            && arch_steps(Seq::empty(), Seq::empty(), 0, datagauge as int, namegauge as int, 0, drawn_seq::<G, E>(*coord, size as nat), z.l_stack.arch(), z.l_stack.cur()),
%fn "EvalIRaz as EditInsert::insert" params batch_size,rng
    requires self.wf(), self.room(batch_size), self.elems().len() > 0,
    ensures res.1.wf(), res.1.gauges(self), res.1.counter == self.counter + batch_size, res.1.names >= self.names + used(self.counter as int, batch_size as int, self.namegauge * self.datagauge),
        exists|z0: Raz<E, Count>, z1: Raz<E, Count>, k: int, nt: Name| {
            &&& #[trigger] at_cut(self.raztree->0, z0, k) && k == drawn_usize(self.coord) as int % self.elems().len() as int
            &&& #[trigger] unfs(z1, nt, cin((res.1.raztree->0).tree)) && edited(self, z0, drawn_seq::<G, E>(after_usize(self.coord), batch_size as nat), z1)
            &&& res.1.elems() == self.elems().take(k) + drawn_seq::<G, E>(after_usize(self.coord), batch_size as nat) + self.elems().skip(k)
        },
%fn "EvalIRaz as EditAppend::append" params batch_size,rng
    requires self.wf(), self.room(batch_size),
    ensures res.1.wf(), res.1.gauges(self), res.1.counter == self.counter + batch_size, res.1.names >= self.names + used(self.counter as int, batch_size as int, self.namegauge * self.datagauge),
        res.1.elems() == self.elems() + drawn_seq::<G, E>(self.coord, batch_size as nat), res.1.coord == after_seq::<G, E>(self.coord, batch_size as nat),
        exists|z0: Raz<E, Count>, z1: Raz<E, Count>, nt: Name| #[trigger] at_cut(self.raztree->0, z0, self.elems().len() as int)
            && #[trigger] unfs(z1, nt, cin((res.1.raztree->0).tree)) && edited(self, z0, drawn_seq::<G, E>(self.coord, batch_size as nat), z1),
%fn "EvalIRaz as CompMax::comp_max" params _rng
    requires self.wf(),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(x) ==> is_max(self.elems(), x),
%closure "EvalIRaz as CompMax::comp_max" 0 "(e: &E) -> (r: E)"
    ensures r == *e,
%closure "EvalIRaz as CompMax::comp_max" 1 "(e1: E, e2: E) -> (r: E)"
    ensures r == max_of(e1, e2),
%fn "EvalIRaz as CompTreeFold::comp_tfold" params init,bin,_rng
    requires self.wf(), tot1(*init), tot2(*bin),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(r) ==> folded(*init, *bin, self.elems(), r),
%fn "EvalIRaz as CompTreeFoldNL::comp_tfoldnl" params init,bin,binnl,_rng
    requires self.wf(), tot1(*init), tot2(*bin), totn(*binnl),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(r) ==> folded_nl(*init, *bin, *binnl, (self.raztree->0).tree, r),
%fn "EvalIRaz as CompTreeFoldG::comp_tfoldg" params init,bin,_rng
    requires self.wf(), totv(*init), totn(*bin),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(r) ==> folded_gg(*init, *bin, (self.raztree->0).tree, r),
%fn "EvalIRaz as CompMap::comp_map" params f,_rng
    requires self.wf(), tot1(*f),
    ensures res.1.wf(), mapped(*f, (self.raztree->0).tree, res.1.tree), img(*f, self.elems(), res.1.elems()),
%fn "EvalIRaz as CompFold::comp_fold" params accum,f,_rng
    requires self.wf(), totb(*f),
    ensures forall|b: spec_fn(O, E) -> O| #[trigger] isb(*f, b) ==> res.1 == lfold(self.elems(), accum, b),
%closure "EvalIRaz as CompFold::comp_fold" 0 "(a: O, m: (u32, Option<Name>)) -> (r: O)"
    ensures r == a,
%closure_after "EvalIRaz as CompFold::comp_fold" 0
    assert forall|r: O| #[trigger] folded_lr(*f, __c, accum, cin((self.raztree->0).tree), r) implies (forall|b: spec_fn(O, E) -> O| #[trigger] isb(*f, b) ==> r == lfold(self.elems(), accum, b)) by { lemma_lr_plain(rcv(f), __c, accum, cin((self.raztree->0).tree), r); }
%fn "EvalIRaz as CompFoldMeta::comp_fold_meta" params accum,f,n,_rng
    requires self.wf(), totb(*f), totm(*n),
    ensures folded_lr(*f, *n, accum, cin((self.raztree->0).tree), res.1),
%fn "EvalIRaz as CompFoldArchive::comp_fold_archive" params accum,f,ff,n,_rng
    requires self.wf(), totb(*f), totf(*ff), totl(*n),
    ensures exists|start: Option<Name>| folded_ar(*f, *ff, *n, accum, #[trigger] crate::level_tree::visits((self.raztree->0).tree, start), res.1),
%hide "EvalIRaz as EditAppend::append" edd,edp,arch_steps,arch_step,push_steps,ed_base,unf,gauge_name,els,lseq,rseq,cin,okt
%ghost "EvalIRaz as EditAppend::append"
    mut z0 = vstd::pervasive::arbitrary::<Raz<E, Count>>();
    mut zb = vstd::pervasive::arbitrary::<Raz<E, Count>>();
    mut dv = drawn_seq::<G, E>(self.coord, batch_size as nat);
    mut c0 = self.counter;
    mut n0 = self.names;
    mut dg = self.datagauge;
    mut ng = self.namegauge;
    mut gg = self.namegauge * self.datagauge;
    mut l0 = 0u32;
    mut nm0 = None::<Name>;
%entry "EvalIRaz as EditAppend::append"
    assert(gg >= 1) by (nonlinear_arith) requires gg == ng * dg, ng >= 1, dg >= 1;
    lemma_gauge_room(c0 as int, batch_size as int, dg as int);
    lemma_gauge_room(c0 as int, batch_size as int, gg as int);
    assert(dv.len() == batch_size) by { lemma_drawn::<G, E>(self.coord, batch_size as nat); }
    lemma_focus_len(self.raztree->0); 
%before "EvalIRaz as EditAppend::append" focus 0
    lemma_focus_len(self.raztree->0);
%after "EvalIRaz as EditAppend::append" focus 0
    lemma_focus_count(self.raztree->0, len, __r); els_hint::<E>(); if __r is Some { z0 = __r->0; }
%loop "EvalIRaz as EditAppend::append" 0
    invariant __end0 == new_levels + 1, 0 <= __i0 <= __end0, lev_vec@.len() == __i0, levs(lev_vec@),
    ensures __i0 == __end0,
    decreases __end0 - __i0,
%loop "EvalIRaz as EditAppend::append" 1
    invariant __end1 == new_names + 1, 0 <= __i1 <= __end1, new_names <= batch_size, name_vec@.len() == __i1, self_.names == n0 + __i1, self_.raztree is None, self_.counter == c0, self_.datagauge == dg, self_.namegauge == ng, self_.coord == self.coord,
        n0 + batch_size + 1 <= usize::MAX, consec(name_vec@, n0 as int),
    ensures __i1 == __end1,
    decreases __end1 - __i1,
%beforeloop "EvalIRaz as EditAppend::append" 2
    lemma_ed_new(raz, dv, c0 as int, n0 as int, dg as int, ng as int);
    z0 = raz;
%loop "EvalIRaz as EditAppend::append" 2
    invariant __v2@ == dv, dv.len() == batch_size, 0 <= __i2 <= batch_size, self_.counter == c0 + __i2, c0 + batch_size <= usize::MAX,
        self_.datagauge == dg, self_.namegauge == ng, gg == ng * dg, 1 <= gg <= usize::MAX, dg >= 1, ng >= 1, edd(z0, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int),
        (c0 + batch_size) / dg as int - c0 as int / dg as int <= new_levels + 1, (c0 + batch_size) / gg as int - c0 as int / gg as int <= new_names + 1, new_names <= batch_size, n0 + batch_size + 1 <= usize::MAX,
        lev_iter@.len() == new_levels + 1 - (self_.counter as int / dg as int - c0 as int / dg as int), name_iter@.len() == new_names + 1 - (self_.counter as int / gg as int - c0 as int / gg as int),
        levs(lev_iter@), consec(name_iter@, n0 + (self_.counter as int / gg as int - c0 as int / gg as int)),
    ensures __i2 == batch_size,
    decreases batch_size - __i2,
%before "EvalIRaz as EditAppend::append" push_left 0
    lemma_gauge_step(self_.counter as int, c0 + batch_size, dg as int, ng as int);
    lemma_ed_facts(z0, raz, dv, __i2 - 1, c0 as int, n0 as int, dg as int, ng as int); zb = raz;
%after "EvalIRaz as EditAppend::append" push_left 0
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[__i2 - 1]));
    lemma_ed_push(z0, zb, raz, dv, __i2 - 1, c0 as int, n0 as int, dg as int, ng as int); zb = raz;
%before "EvalIRaz as EditAppend::append" archive_left 0
    l0 = lev_iter@[0]; nm0 = name_iter@[0];
%after "EvalIRaz as EditAppend::append" archive_left 0
    assert(nm0 == gauge_name(c0 as int, c0 + __i2, n0 as int, dg as int, ng as int)) by { reveal(gauge_name); }
    lemma_ed_arch(z0, zb, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int, l0, nm0);
%before "EvalIRaz as EditAppend::append" archive_left 1
    l0 = lev_iter@[0];
%after "EvalIRaz as EditAppend::append" archive_left 1
    assert(None::<Name> == gauge_name(c0 as int, c0 + __i2, n0 as int, dg as int, ng as int)) by { reveal(gauge_name); }
    lemma_ed_arch(z0, zb, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int, l0, None);
%loopend "EvalIRaz as EditAppend::append" 2
    if self_.counter as int % dg as int != 0 { lemma_ed_none(z0, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int); }
%before "EvalIRaz as EditAppend::append" unfocus 0
    lemma_ed_all(z0, raz, dv, c0 as int, n0 as int, dg as int, ng as int);
    zb = raz;
%after "EvalIRaz as EditAppend::append" unfocus 0
    assert(unfs(zb, choose|nt: Name| unfs(zb, nt, cin(__r.tree)), cin(__r.tree)));
    assert(at_cut(self.raztree->0, z0, self.elems().len() as int));
    assert(edited(self, z0, dv, zb));
    assert(__r.elems() =~= self.elems() + dv);
%hide "EvalIRaz as EditInsert::insert" edd,edp,arch_steps,arch_step,push_steps,ed_base,unf,gauge_name,els,lseq,rseq,cin,okt
%ghost "EvalIRaz as EditInsert::insert"
    mut z0 = vstd::pervasive::arbitrary::<Raz<E, Count>>();
    mut zb = vstd::pervasive::arbitrary::<Raz<E, Count>>();
    mut dv = drawn_seq::<G, E>(after_usize(self.coord), batch_size as nat);
    mut c0 = self.counter;
    mut n0 = self.names;
    mut dg = self.datagauge;
    mut ng = self.namegauge;
    mut gg = self.namegauge * self.datagauge;
    mut l0 = 0u32;
    mut nm0 = None::<Name>;
    mut k = vstd::pervasive::arbitrary::<int>();
%entry "EvalIRaz as EditInsert::insert"
    assert(gg >= 1) by (nonlinear_arith) requires gg == ng * dg, ng >= 1, dg >= 1;
    lemma_gauge_room(c0 as int, batch_size as int, dg as int);
    lemma_gauge_room(c0 as int, batch_size as int, gg as int);
    assert(dv.len() == batch_size) by { lemma_drawn::<G, E>(after_usize(self.coord), batch_size as nat); }
    lemma_focus_len(self.raztree->0); 
%before "EvalIRaz as EditInsert::insert" focus 0
    lemma_focus_len(self.raztree->0);
    if (self.raztree->0).tree is Some { lemma_count((self.raztree->0).tree->0, loc, 0, None, (self.raztree->0).meta); }
%after "EvalIRaz as EditInsert::insert" focus 0
    k = loc as int; if __r is Some { z0 = __r->0; } lemma_focus_count(self.raztree->0, loc, __r);
%loop "EvalIRaz as EditInsert::insert" 0
    invariant __end0 == new_levels + 1, 0 <= __i0 <= __end0, lev_vec@.len() == __i0, levs(lev_vec@),
    ensures __i0 == __end0,
    decreases __end0 - __i0,
%loop "EvalIRaz as EditInsert::insert" 1
    invariant __end1 == new_names + 1, 0 <= __i1 <= __end1, new_names <= batch_size, name_vec@.len() == __i1, self_.names == n0 + __i1, self_.raztree is None, self_.counter == c0, self_.datagauge == dg, self_.namegauge == ng, self_.coord == after_usize(self.coord),
        n0 + batch_size + 1 <= usize::MAX, consec(name_vec@, n0 as int),
    ensures __i1 == __end1,
    decreases __end1 - __i1,
%beforeloop "EvalIRaz as EditInsert::insert" 2
    lemma_ed_new(raz, dv, c0 as int, n0 as int, dg as int, ng as int);
    z0 = raz;
%loop "EvalIRaz as EditInsert::insert" 2
    invariant __v2@ == dv, dv.len() == batch_size, 0 <= __i2 <= batch_size, self_.counter == c0 + __i2, c0 + batch_size <= usize::MAX,
        self_.datagauge == dg, self_.namegauge == ng, gg == ng * dg, 1 <= gg <= usize::MAX, dg >= 1, ng >= 1, edd(z0, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int),
        (c0 + batch_size) / dg as int - c0 as int / dg as int <= new_levels + 1, (c0 + batch_size) / gg as int - c0 as int / gg as int <= new_names + 1, new_names <= batch_size, n0 + batch_size + 1 <= usize::MAX,
        lev_iter@.len() == new_levels + 1 - (self_.counter as int / dg as int - c0 as int / dg as int), name_iter@.len() == new_names + 1 - (self_.counter as int / gg as int - c0 as int / gg as int),
        levs(lev_iter@), consec(name_iter@, n0 + (self_.counter as int / gg as int - c0 as int / gg as int)),
    ensures __i2 == batch_size,
    decreases batch_size - __i2,
%before "EvalIRaz as EditInsert::insert" push_left 0
    lemma_gauge_step(self_.counter as int, c0 + batch_size, dg as int, ng as int);
    lemma_ed_facts(z0, raz, dv, __i2 - 1, c0 as int, n0 as int, dg as int, ng as int); zb = raz;
%after "EvalIRaz as EditInsert::insert" push_left 0
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[__i2 - 1]));
    lemma_ed_push(z0, zb, raz, dv, __i2 - 1, c0 as int, n0 as int, dg as int, ng as int); zb = raz;
%before "EvalIRaz as EditInsert::insert" archive_left 0
    l0 = lev_iter@[0]; nm0 = name_iter@[0];
%after "EvalIRaz as EditInsert::insert" archive_left 0
    assert(nm0 == gauge_name(c0 as int, c0 + __i2, n0 as int, dg as int, ng as int)) by { reveal(gauge_name); }
    lemma_ed_arch(z0, zb, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int, l0, nm0);
%before "EvalIRaz as EditInsert::insert" archive_left 1
    l0 = lev_iter@[0];
%after "EvalIRaz as EditInsert::insert" archive_left 1
    assert(None::<Name> == gauge_name(c0 as int, c0 + __i2, n0 as int, dg as int, ng as int)) by { reveal(gauge_name); }
    lemma_ed_arch(z0, zb, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int, l0, None);
%loopend "EvalIRaz as EditInsert::insert" 2
    if self_.counter as int % dg as int != 0 { lemma_ed_none(z0, raz, dv, __i2 as int, c0 as int, n0 as int, dg as int, ng as int); }
%before "EvalIRaz as EditInsert::insert" unfocus 0
    lemma_ed_all(z0, raz, dv, c0 as int, n0 as int, dg as int, ng as int);
    zb = raz;
%after "EvalIRaz as EditInsert::insert" unfocus 0
    assert(unfs(zb, choose|nt: Name| unfs(zb, nt, cin(__r.tree)), cin(__r.tree)));
    assert(at_cut(self.raztree->0, z0, k));
    assert(edited(self, z0, dv, zb));
    assert(__r.elems() =~= self.elems().take(k) + dv + self.elems().skip(k));
%hide "EvalIRaz as CreateInc::inc_init" edd,edp,arch_steps,arch_step,push_steps,ed_base,unf,gauge_name,els,lseq,rseq,cin,okt
%ghost "EvalIRaz as CreateInc::inc_init"
    mut i = 0int;
    mut a = 0int;
    mut dv = drawn_seq::<G, E>(*coord, size as nat);
    mut nv = Seq::<Option<Name>>::empty();
    mut dg = datagauge as int;
    mut ng = namegauge as int;
    mut l0 = 0u32;
    mut nm0 = None::<Name>;
    mut z0 = vstd::pervasive::arbitrary::<Raz<E, Count>>();
    mut zb = vstd::pervasive::arbitrary::<Raz<E, Count>>();
%entry "EvalIRaz as CreateInc::inc_init"
    lemma_init_counts(size as int, dg, ng);
    assert(dv.len() == size) by { lemma_drawn::<G, E>(*coord, size as nat); }
%loop "EvalIRaz as CreateInc::inc_init" 0
    invariant __end0 == levels, 0 <= __i0 <= __end0, lev_vec@.len() == __i0, levs(lev_vec@),
    ensures __i0 == __end0,
    decreases __end0 - __i0,
%loop "EvalIRaz as CreateInc::inc_init" 1
    invariant __end1 == names, 0 <= __i1 <= __end1, names < usize::MAX, name_vec@.len() == __i1 * ng, marked(name_vec@, ng), eval.names == __i1, eval.counter == 0, eval.raztree is None, eval.coord == *coord, eval.datagauge == dg, eval.namegauge == ng,
    ensures __i1 == __end1,
    decreases __end1 - __i1,
%loop "EvalIRaz as CreateInc::inc_init" 2
    invariant __end2 == ng - 1, 0 <= __i2 <= __end2, name_vec@.len() == (__i1 - 1) * ng + __i2, marked(name_vec@, ng),
    ensures __i2 == __end2,
    decreases __end2 - __i2,
%before "EvalIRaz as CreateInc::inc_init" push 1
    lemma_mark(__i1 - 1, __i2 - 1, ng);
%before "EvalIRaz as CreateInc::inc_init" push 2
    lemma_mark(__i1 - 1, ng - 1, ng);
%afterloop "EvalIRaz as CreateInc::inc_init" 1
    nv = name_vec@;
%beforeloop "EvalIRaz as CreateInc::inc_init" 3
    z0 = raz;
    lemma_ed_new(raz, dv, 0, 0, dg, ng);
    assert(dv.skip(0) =~= dv); assert(nv.skip(0) =~= nv);
%loop "EvalIRaz as CreateInc::inc_init" 3
    invariant __end3 == names, 0 <= __i3 <= __end3, a == __i3 * ng, i == a * dg, data_iter@ == dv.skip(i), level_iter@.len() == levels - a, levs(level_iter@), a >= 0, name_iter@ == nv.skip(a), edd(z0, raz, dv, i, 0, 0, dg, ng),
    ensures __i3 == __end3,
    decreases __end3 - __i3,
%loop "EvalIRaz as CreateInc::inc_init" 4
    invariant __end4 == ng, 0 <= __i4 <= __end4, a == (__i3 - 1) * ng + __i4, i == a * dg, data_iter@ == dv.skip(i), level_iter@.len() == levels - a, levs(level_iter@), a >= 0, name_iter@ == nv.skip(a), edd(z0, raz, dv, i, 0, 0, dg, ng),
    ensures __i4 == __end4,
    decreases __end4 - __i4,
%loop "EvalIRaz as CreateInc::inc_init" 5
    invariant __end5 == dg, 0 <= __i5 <= __end5, i == a * dg + __i5, data_iter@ == dv.skip(i), __i5 < dg ==> edd(z0, raz, dv, i, 0, 0, dg, ng), __i5 == dg ==> edp(z0, raz, dv, i, 0, 0, dg, ng),
    ensures __i5 == __end5,
    decreases __end5 - __i5,
%before "EvalIRaz as CreateInc::inc_init" push_left 0
    lemma_grid(__i3 - 1, names as int, __i4 - 1, ng); lemma_grid(a, names * ng, __i5 - 1, dg);
    lemma_ed_facts(z0, raz, dv, i, 0, 0, dg, ng);
    zb = raz;
%after "EvalIRaz as CreateInc::inc_init" push_left 0
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[i]));
    lemma_ed_push(z0, zb, raz, dv, i, 0, 0, dg, ng); assert(dv.skip(i).skip(1) =~= dv.skip(i + 1)); i = i + 1;
%loopend "EvalIRaz as CreateInc::inc_init" 5
    if __i5 < dg { lemma_in_run(a, __i5 as int, dg, ng); lemma_ed_none(z0, raz, dv, i, 0, 0, dg, ng); }
%before "EvalIRaz as CreateInc::inc_init" archive_left 0
    lemma_mark(__i3 - 1, __i4 - 1, ng); lemma_grid(__i3 - 1, names as int, __i4 - 1, ng); lemma_grid(a, names * ng, 0, dg); lemma_run_end(a + 1, dg, ng);
    l0 = level_iter@[0]; nm0 = name_iter@[0]; zb = raz;
    assert(nm0 == nv[a]);
    lemma_ed_facts(z0, raz, dv, i, 0, 0, dg, ng); lemma_ed_names(dg, ng, i);
%after "EvalIRaz as CreateInc::inc_init" archive_left 0
    lemma_ed_arch(z0, zb, raz, dv, i, 0, 0, dg, ng, l0, nm0); assert(nv.skip(a).skip(1) =~= nv.skip(a + 1)); a = a + 1;
%loopend "EvalIRaz as CreateInc::inc_init" 3
    lemma_grid(__i3 - 1, names as int, 0, ng);
%loop "EvalIRaz as CreateInc::inc_init" 6
    invariant __end6 == units, 0 <= __i6 <= __end6, a == names * ng + __i6, i == a * dg, data_iter@ == dv.skip(i), level_iter@.len() == levels - a, levs(level_iter@), a >= 0, edd(z0, raz, dv, i, 0, 0, dg, ng),
    ensures __i6 == __end6,
    decreases __end6 - __i6,
%loop "EvalIRaz as CreateInc::inc_init" 7
    invariant __end7 == dg, 0 <= __i7 <= __end7, i == a * dg + __i7, data_iter@ == dv.skip(i), __i7 < dg ==> edd(z0, raz, dv, i, 0, 0, dg, ng), __i7 == dg ==> edp(z0, raz, dv, i, 0, 0, dg, ng),
    ensures __i7 == __end7,
    decreases __end7 - __i7,
%before "EvalIRaz as CreateInc::inc_init" push_left 1
    lemma_grid(a, names * ng + units, __i7 - 1, dg);
    lemma_ed_facts(z0, raz, dv, i, 0, 0, dg, ng);
    zb = raz;
%after "EvalIRaz as CreateInc::inc_init" push_left 1
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[i]));
    lemma_ed_push(z0, zb, raz, dv, i, 0, 0, dg, ng); assert(dv.skip(i).skip(1) =~= dv.skip(i + 1)); i = i + 1;
%loopend "EvalIRaz as CreateInc::inc_init" 7
    if __i7 < dg { lemma_in_run(a, __i7 as int, dg, ng); lemma_ed_none(z0, raz, dv, i, 0, 0, dg, ng); }
%before "EvalIRaz as CreateInc::inc_init" archive_left 1
    lemma_grid(a, names * ng + units, 0, dg); lemma_run_end(a + 1, dg, ng);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + 1, ng, names as int, __i6 as int);
    l0 = level_iter@[0]; zb = raz;
    lemma_ed_facts(z0, raz, dv, i, 0, 0, dg, ng); lemma_ed_names(dg, ng, i);
%after "EvalIRaz as CreateInc::inc_init" archive_left 1
    lemma_ed_arch(z0, zb, raz, dv, i, 0, 0, dg, ng, l0, None); a = a + 1;
%loop "EvalIRaz as CreateInc::inc_init" 8
    invariant __end8 == nounits, 0 <= __i8 <= __end8, i == a * dg + __i8, data_iter@ == dv.skip(i), edd(z0, raz, dv, i, 0, 0, dg, ng),
    ensures __i8 == __end8,
    decreases __end8 - __i8,
%before "EvalIRaz as CreateInc::inc_init" push_left 2
    lemma_ed_facts(z0, raz, dv, i, 0, 0, dg, ng);
    zb = raz;
%after "EvalIRaz as CreateInc::inc_init" push_left 2
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[i]));
    lemma_ed_push(z0, zb, raz, dv, i, 0, 0, dg, ng); assert(dv.skip(i).skip(1) =~= dv.skip(i + 1)); i = i + 1;
%loopend "EvalIRaz as CreateInc::inc_init" 8
    lemma_in_run(a, __i8 as int, dg, ng); lemma_ed_none(z0, raz, dv, i, 0, 0, dg, ng);
%before "EvalIRaz as CreateInc::inc_init" unfocus 0
    assert(i == size);
    lemma_ed_fresh(z0, raz, dv, 0, dg, ng);
    zb = raz;
%after "EvalIRaz as CreateInc::inc_init" unfocus 0
    assert(unfs(zb, choose|nt: Name| unfs(zb, nt, cin(__r.tree)), cin(__r.tree)));
    assert(__r.elems() =~= dv);
%closure_after "EvalIRaz as CompMax::comp_max" 0
    assert(is1(__c, id_fn::<E>()));
%closure_after "EvalIRaz as CompMax::comp_max" 1
    assert(is2(__c, max_fn::<E>())); lemma_max_fn::<E>();
