%module examples eval/src/examples.rs
%head
use crate::raz::*;
use crate::tree_cursor::{cin, lseq, rseq, okt, canonical};
use crate::archive_stack as stack;
use crate::raz_meta::Count;
use vstd::std_specs::convert::FromSpec;
pub type IRaz<E> = crate::raz::Raz<E, Count>;
pub type IRazTree<E> = crate::raz::RazTree<E, Count>;
%raw
/// the drawn tree, from left to right: its branches' levels and names (told apart from those of other trees by a
/// common name), and two elements to a leaf
pub open spec fn lev(k: int) -> u32 { if k == 1 { 1 } else if k == 2 { 4 } else if k == 3 { 2 } else if k == 4 { 6 } else if k == 5 { 3 } else if k == 6 { 5 } else { 4 } }
pub open spec fn nam(k: int) -> Name {
    if k == 1 { spec_name_of_str("ll"@) } else if k == 2 { spec_name_of_str("l"@) } else if k == 3 { spec_name_of_str("lr"@) } else if k == 4 { spec_name_of_str("t"@) }
    else if k == 5 { spec_name_of_str("rl"@) } else if k == 6 { spec_name_of_str("r"@) } else { spec_name_of_str("rr"@) }
}
pub open spec fn elm<A: From<usize>>(i: int) -> A { <A as FromSpec<usize>>::from_spec(i as usize) }
pub open spec fn pair<A: From<usize>>(k: int) -> Seq<A> { seq![elm::<A>(2 * k - 1), elm::<A>(2 * k)] }
pub open spec fn drawn<A: From<usize>>(k: int, nt: Name) -> Nodes<A>
    decreases k
{
    if k <= 0 { Seq::empty() } else { drawn::<A>(k - 1, nt) + seq![(0u32, None::<Name>, Some(pair::<A>(k)))] + seq![(lev(k), Some(spec_name_pair(nam(k), nt)), None::<Seq<A>>)] }
}
pub open spec fn made<A: From<usize>>(k: int, a: Arch<A>) -> bool { forall|nt: Name| #[trigger] lnodes(a, nt) == drawn::<A>(k, nt) }
pub proof fn lemma_made<A: From<usize>>(k: int, a0: Arch<A>, c0: Seq<A>, a1: Arch<A>, c1: Seq<A>)
    requires k >= 1, made::<A>(k - 1, a0), c0 == pair::<A>(k), archd(a0, c0, lev(k), Some(nam(k)), a1, c1)
    ensures made::<A>(k, a1), c1.len() == 0
{
    assert forall|nt: Name| #[trigger] lnodes(a1, nt) == drawn::<A>(k, nt) by {
        assert(lnodes(a0, nt) == drawn::<A>(k - 1, nt));
        assert(lnodes(a1, nt) =~= drawn::<A>(k, nt));
    }
}
pub proof fn lemma_made0<A: From<usize>>(a: Arch<A>)
    requires a.len() == 0
    ensures made::<A>(0, a)
{
    assert forall|nt: Name| #[trigger] lnodes(a, nt) == drawn::<A>(0, nt) by { }
}
pub proof fn lemma_made_end<A: From<usize>>(z: Raz<A, Count>, a: Arch<A>, c: Seq<A>)
    requires a == z.l_stack.arch(), c == z.l_stack.cur(), made::<A>(7, a), c == pair::<A>(8), z.lt().len() == 0, z.rt().len() == 0, z.r_stack.arch().len() == 0, z.r_stack.cur().len() == 0
    ensures forall|nt: Name| #[trigger] unf(z, nt) == drawn::<A>(7, nt) + seq![(0u32, None::<Name>, Some(pair::<A>(8)))]
{
    assert forall|nt: Name| #[trigger] unf(z, nt) == drawn::<A>(7, nt) + seq![(0u32, None::<Name>, Some(pair::<A>(8)))] by {
        assert(lnodes(a, nt) == drawn::<A>(7, nt));
        assert(c + z.r_stack.cur().reverse() =~= pair::<A>(8));
        assert(unf(z, nt) =~= drawn::<A>(7, nt) + seq![(0u32, None::<Name>, Some(pair::<A>(8)))]);
    }
}
%fn iraztree_depth_4
    requires <A as FromSpec<usize>>::obeys_from_spec(),
    ensures res.wf(), res.canon(), res.elems() =~= Seq::new(16, |i: int| elm::<A>(i + 1)),
        exists|nt: Name| cin(res.tree) == #[trigger] drawn::<A>(7, nt) + seq![(0u32, None::<Name>, Some(pair::<A>(8)))],
%hide iraztree_depth_4 lseq,rseq,els,cin,pos,lnodes,rnodes,drawn,made,unf,stack::arch_elems,lside,rside,slev,llev,rlev,okt,canonical,Raz::left,Raz::right,Raz::wf,Raz::pos,Raz::canon
%ghost iraztree_depth_4
    mut a0: Arch<A> = Seq::empty();
    mut c0: Seq<A> = Seq::empty();
%before iraztree_depth_4 archive_left 0
    lemma_made0::<A>(r.l_stack.arch());
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(1));
%after iraztree_depth_4 archive_left 0
    lemma_made::<A>(1, a0, c0, r.l_stack.arch(), r.l_stack.cur());
%before iraztree_depth_4 archive_left 1
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(2));
%after iraztree_depth_4 archive_left 1
    lemma_made::<A>(2, a0, c0, r.l_stack.arch(), r.l_stack.cur());
%before iraztree_depth_4 archive_left 2
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(3));
%after iraztree_depth_4 archive_left 2
    lemma_made::<A>(3, a0, c0, r.l_stack.arch(), r.l_stack.cur());
%before iraztree_depth_4 archive_left 3
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(4));
%after iraztree_depth_4 archive_left 3
    lemma_made::<A>(4, a0, c0, r.l_stack.arch(), r.l_stack.cur());
%before iraztree_depth_4 archive_left 4
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(5));
%after iraztree_depth_4 archive_left 4
    lemma_made::<A>(5, a0, c0, r.l_stack.arch(), r.l_stack.cur());
%before iraztree_depth_4 archive_left 5
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(6));
%after iraztree_depth_4 archive_left 5
    lemma_made::<A>(6, a0, c0, r.l_stack.arch(), r.l_stack.cur());
%before iraztree_depth_4 archive_left 6
    a0 = r.l_stack.arch(); c0 = r.l_stack.cur(); assert(c0 =~= pair::<A>(7));
%after iraztree_depth_4 archive_left 6
    lemma_made::<A>(7, a0, c0, r.l_stack.arch(), r.l_stack.cur());
    assert(r.left() =~= Seq::new(14, |i: int| elm::<A>(i + 1)));
%before iraztree_depth_4 unfocus 0
    assert(r.l_stack.cur() =~= pair::<A>(8)); lemma_made_end::<A>(r, r.l_stack.arch(), r.l_stack.cur()); assert(r.left() + r.right() =~= Seq::new(16, |i: int| elm::<A>(i + 1)));
