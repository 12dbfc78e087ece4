# writes specs/eval_iraz.vs and specs/eval_raz_name_index.vs from one template (development helper)
T = r'''%module @MOD@ eval/src/@MOD@.rs
%head
use crate::eval_prims::*;
use crate::level_tree::{Rng, Tree, gen_branch_level as gen_level};
use crate::archive_stack::{AStack, AtTail};
use crate::raz::*;
use crate::tree_cursor::{cin, lseq, rseq, okt};
use crate::raz_meta::{RazMeta, Count, Names, FirstLast, Position};
pub type IRaz<E> = crate::raz::Raz<E, Count>;
pub type IRazTree<E> = crate::raz::RazTree<E, Count>;
%type @X@
%raw
impl<E, G: Rng> @X@<E, G> {
    /// an initialized harness over a sound sequence
    pub open spec fn wf(&self) -> bool {
        self.raztree is Some && self.raztree->0.wf() && self.raztree->0.pos() && self.raztree->0.canon()
        && self.datagauge >= 1 && self.namegauge >= 1 && self.namegauge * self.datagauge <= usize::MAX
    }
    pub open spec fn elems(&self) -> Seq<E> { self.raztree->0.elems() }
    /// room for the counters of an edit of n elements
    pub open spec fn room(&self, n: usize) -> bool { n < usize::MAX && self.counter + n <= usize::MAX && self.names + n + 1 <= usize::MAX }
    pub open spec fn fresh(&self, us: usize, ns: usize, g: G) -> bool { self.names == 0 && self.coord == g && self.counter == 0 && self.datagauge == us && self.namegauge == ns }
    pub open spec fn gauges(&self, o: @X@<E, G>) -> bool { self.datagauge == o.datagauge && self.namegauge == o.namegauge }
}
/// the archive points of an edit: every datagauge-th element of the counter, named at every multiple of both gauges
pub open spec fn edited<E, M: RazMeta<E>, G: Rng>(h0: @X@<E, G>, z0: Raz<E, M>, batch: Seq<E>, z1: Raz<E, M>) -> bool {
    arch_steps(z0.l_stack.arch(), z0.l_stack.cur(), h0.counter as int, h0.datagauge as int, h0.namegauge as int, h0.names as int, batch, z1.l_stack.arch(), z1.l_stack.cur())
    && z1.lt() == z0.lt() && z1.rsame(z0)
}
/// what focusing at the length needs
pub proof fn lemma_focus_len<E>(t: RazTree<E, @M@>)
    requires t.wf()
    ensures freq(t.tree, @LAST@), @LENEQ@ t.tree is Some ==> fpos(t.tree, @LAST@) == Some(t.elems().len() as int),
{
    @LENPF@
}
%fn @X@::new params us,ns,coord
    ensures res.raztree is None, res.fresh(us, ns, coord),
%fn @X@::next_name
    requires old(self).names < usize::MAX,
    ensures res == spec_name_of_usize(old(self).names), final(self).names == old(self).names + 1, final(self).raztree == old(self).raztree, final(self).coord == old(self).coord,
        final(self).counter == old(self).counter, final(self).gauges(*old(self)),
%fn "@X@ as CreateEmpty::inc_empty" params datagauge,namegauge,coord,_rng
    ensures res.1.raztree is Some, res.1.elems().len() == 0, datagauge >= 1 && namegauge >= 1 && namegauge * datagauge <= usize::MAX ==> res.1.wf(), res.1.fresh(datagauge, namegauge, *coord),
%fn "@X@ as CreateFrom<@RAZ@,G>::inc_from" as inc_from_raz params data,datagauge,namegauge,coord,_rng
    requires data.wf(), data.pos(), data.canon(),
    ensures res.1.raztree is Some, res.1.elems() == data.left() + data.right(), datagauge >= 1 && namegauge >= 1 && namegauge * datagauge <= usize::MAX ==> res.1.wf(), res.1.fresh(datagauge, namegauge, *coord),
        exists|nt: Name| #[trigger] unfs(data, nt, cin((res.1.raztree->0).tree)),
%fn "@X@ as CreateFrom<@TREE@,G>::inc_from" as inc_from_tree params data,datagauge,namegauge,coord,_rng
    ensures res.1.raztree == Some(data), res.1.fresh(datagauge, namegauge, *coord),
%fn "@X@ as CreateFrom<AtTail<E,u32>,G>::inc_from" as inc_from_tail params data,datagauge,namegauge,coord,_rng
    requires data.0.wf(), slv(true, data.0),
    ensures res.1.raztree is Some, res.1.elems() == data.0.elems(), cin((res.1.raztree->0).tree) == snodes(true, data.0),
        datagauge >= 1 && namegauge >= 1 && namegauge * datagauge <= usize::MAX ==> res.1.wf(), res.1.fresh(datagauge, namegauge, *coord),
%fn "@X@ as CreateInc::inc_init" params size,datagauge,namegauge,coord,rng
    requires datagauge >= 1, namegauge >= 1, namegauge * datagauge <= usize::MAX, size < usize::MAX,
    ensures res.1.wf(), res.1.elems() == drawn_seq::<G, E>(*coord, size as nat), res.1.coord == after_seq::<G, E>(*coord, size as nat),
        res.1.datagauge == datagauge, res.1.namegauge == namegauge, res.1.counter == 0, res.1.names >= size / (namegauge * datagauge) as usize,
        exists|z: Raz<E, @M@>, nt: Name| #[trigger] unfs(z, nt, cin((res.1.raztree->0).tree)) && z.lt().len() == 0 && z.right().len() == 0 && z.pos()
            && arch_steps(Seq::empty(), Seq::empty(), 0, datagauge as int, namegauge as int, 0, drawn_seq::<G, E>(*coord, size as nat), z.l_stack.arch(), z.l_stack.cur()),
%fn "@X@ as EditInsert::insert" params batch_size,rng
    requires self.wf(), self.room(batch_size), @INSREQ@
    ensures res.1.wf(), res.1.gauges(self), res.1.counter == self.counter + batch_size, res.1.names >= self.names + used(self.counter as int, batch_size as int, self.namegauge * self.datagauge),
        exists|z0: Raz<E, @M@>, z1: Raz<E, @M@>, k: int, nt: Name| {
            &&& #[trigger] at_cut(self.raztree->0, z0, k) && @SPOT@
            &&& #[trigger] unfs(z1, nt, cin((res.1.raztree->0).tree)) && edited(self, z0, drawn_seq::<G, E>(@AFTER@, batch_size as nat), z1)
            &&& res.1.elems() == self.elems().take(k) + drawn_seq::<G, E>(@AFTER@, batch_size as nat) + self.elems().skip(k)
        },
%fn "@X@ as EditAppend::append" params batch_size,rng
    requires self.wf(), self.room(batch_size),
    ensures res.1.wf(), res.1.gauges(self), res.1.counter == self.counter + batch_size, res.1.names >= self.names + used(self.counter as int, batch_size as int, self.namegauge * self.datagauge),
        res.1.elems() == self.elems() + drawn_seq::<G, E>(self.coord, batch_size as nat), res.1.coord == after_seq::<G, E>(self.coord, batch_size as nat),
        exists|z0: Raz<E, @M@>, z1: Raz<E, @M@>, nt: Name| #[trigger] at_cut(self.raztree->0, z0, self.elems().len() as int)
            && #[trigger] unfs(z1, nt, cin((res.1.raztree->0).tree)) && edited(self, z0, drawn_seq::<G, E>(self.coord, batch_size as nat), z1),
%fn "@X@ as CompMax::comp_max" params _rng
    requires self.wf(),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(x) ==> is_max(self.elems(), x),
%closure "@X@ as CompMax::comp_max" 0 "(e: &E) -> (r: E)"
    ensures r == *e,
%closure "@X@ as CompMax::comp_max" 1 "(e1: E, e2: E) -> (r: E)"
    ensures r == max_of(e1, e2),
%fn "@X@ as CompTreeFold::comp_tfold" params init,bin,_rng
    requires self.wf(), tot1(*init), tot2(*bin),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(r) ==> folded(*init, *bin, self.elems(), r),
@NL@%fn "@X@ as CompMap::comp_map" params f,_rng
    requires self.wf(), tot1(*f),
    ensures res.1.wf(), mapped(*f, (self.raztree->0).tree, res.1.tree), img(*f, self.elems(), res.1.elems()),
%fn "@X@ as CompFold::comp_fold" params accum,f,_rng
    requires self.wf(), totb(*f),
    ensures forall|b: spec_fn(O, E) -> O| #[trigger] isb(*f, b) ==> res.1 == lfold(self.elems(), accum, b),
%closure "@X@ as CompFold::comp_fold" 0 "(a: O, m: (u32, Option<Name>)) -> (r: O)"
    ensures r == a,
%closure_after "@X@ as CompFold::comp_fold" 0
    assert forall|r: O| #[trigger] folded_lr(*f, __c, accum, cin((self.raztree->0).tree), r) implies (forall|b: spec_fn(O, E) -> O| #[trigger] isb(*f, b) ==> r == lfold(self.elems(), accum, b)) by { lemma_lr_plain(rcv(f), __c, accum, cin((self.raztree->0).tree), r); }
%fn "@X@ as CompFoldMeta::comp_fold_meta" params accum,f,n,_rng
    requires self.wf(), totb(*f), totm(*n),
    ensures folded_lr(*f, *n, accum, cin((self.raztree->0).tree), res.1),
%fn "@X@ as CompFoldArchive::comp_fold_archive" params accum,f,ff,n,_rng
    requires self.wf(), totb(*f), totf(*ff), totl(*n),
    ensures exists|start: Option<Name>| folded_ar(*f, *ff, *n, accum, #[trigger] crate::level_tree::visits((self.raztree->0).tree, start), res.1),
'''
NL = r'''%fn "@X@ as CompTreeFoldNL::comp_tfoldnl" params init,bin,binnl,_rng
    requires self.wf(), tot1(*init), tot2(*bin), totn(*binnl),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(r) ==> folded_nl(*init, *bin, *binnl, (self.raztree->0).tree, r),
%fn "@X@ as CompTreeFoldG::comp_tfoldg" params init,bin,_rng
    requires self.wf(), totv(*init), totn(*bin),
    ensures res.1 is None <==> self.elems().len() == 0, res.1 matches Some(r) ==> folded_gg(*init, *bin, (self.raztree->0).tree, r),
'''
import sys
exec(open('/verif/tools/gen_eval/body.py').read())
for d in [
  {"X": "EvalIRaz", "MOD": "eval_iraz", "M": "Count", "RAZ": "IRaz<E>", "TREE": "IRazTree<E>", "NL": NL, "LAST": "t.meta.0", "LENEQ": "t.meta.0 == t.elems().len(),", "LENPF": "els_hint::<E>(); match t.tree { Some(x) => { lemma_count(x, t.meta.0, 0, None, t.meta); lemma_tree(x); }, None => { assert(cin(t.tree) =~= Seq::empty()); } }", "AFTER": "after_usize(self.coord)",
   "INSREQ": "self.elems().len() > 0,", "SPOT": "k == drawn_usize(self.coord) as int % self.elems().len() as int"},
  {"X": "EvalRazNameIndex", "MOD": "eval_raz_name_index", "M": "Names", "RAZ": "Raz<E,Names>", "TREE": "RazTree<E,Names>", "NL": "", "LAST": "Position::Right", "LENEQ": "", "LENPF": "els_hint::<E>(); lemma_marker_ends::<E>(); match t.tree { Some(x) => { lemma_ends(x); lemma_tree(x); }, None => { assert(cin(t.tree) =~= Seq::empty()); } }", "AFTER": "after_usize(self.coord)",
   "INSREQ": "exists|n: Name| #[trigger] named(cin((self.raztree->0).tree), n),", "SPOT": "at_name(self.raztree->0, k)"}]:
    t = T + BODY
    for _ in range(2):
        for k, v in d.items(): t = t.replace("@%s@" % k, v)
    for k, v in EXTRA[d["X"]].items(): t = t.replace("@@%s@@" % k, v)
    for k, v in d.items(): t = t.replace("@%s@" % k, v)
    t = t.replace("%fn @X@", "%fn")
    for k, v in {}.items(): t = t.replace("@@%s@@" % k, v)
    open("/verif/specs/%s.vs" % d["MOD"], "w").write(t)
