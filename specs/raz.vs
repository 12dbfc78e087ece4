%module raz src/raz.rs
%head
use crate::tree_cursor as tree;
use crate::tree_cursor::*;
use crate::archive_stack as stack;
use crate::level_tree as ltree;
use crate::raz_meta::{RazMeta, Navigation, FirstLast, Position, Count, Names};
%type TreeData
%type RazTree
%type Raz
%raw
/// in-order nodes with what rebuilding preserves: the elements of a leaf
pub type Nodes<E> = Seq<(u32, Option<Name>, Option<Seq<E>>)>;
pub open spec fn oseq<E>(o: Option<Seq<E>>) -> Seq<E> { match o { Some(s) => s, None => Seq::empty() } }
/// the elements of the leaves
pub open spec fn els<E>(s: Nodes<E>) -> Seq<E>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { els(s.drop_last()) + oseq(s.last().2) }
}
/// every branch level is at least 1
pub open spec fn nlev<E>(x: (u32, Option<Name>, Option<Seq<E>>)) -> bool { x.2 is None ==> x.0 >= 1 }
pub open spec fn pos<E>(s: Nodes<E>) -> bool { forall|i: int| 0 <= i < s.len() ==> nlev(#[trigger] s[i]) }
pub open spec fn telems<E, M: RazMeta<E>>(t: Option<Tree<TreeData<E, M>>>) -> Seq<E> { els(cin(t)) }
/// `m` is the metadata of a subtree with top data `b`, under level `lev` and name `n`
pub open spec fn side_ok<E, M: RazMeta<E>>(b: Option<TreeData<E, M>>, lev: u32, n: Option<Name>, m: M) -> bool {
    match b {
        None => M::none_ok(lev, n, m),
        Some(TreeData::Leaf(v)) => M::vec_ok(v@, lev, n, m),
        Some(TreeData::Branch(l, r)) => M::meta_ok(l, r, lev, n, m),
        Some(TreeData::Dummy) => false,
    }
}
impl<E, M: RazMeta<E>> RazTree<E, M> {
    /// leaves are non-empty and without branches, branches have both branches and exact metadata
    pub open spec fn wf(&self) -> bool { okt(self.tree) && side_ok(odata(self.tree), 0, None, self.meta) }
    pub open spec fn pos(&self) -> bool { pos(cin(self.tree)) }
    pub open spec fn elems(&self) -> Seq<E> { telems(self.tree) }
    pub open spec fn canon(&self) -> bool { canonical(self.tree) }
}
pub proof fn lemma_els_cat<E>(a: Nodes<E>, b: Nodes<E>)
    ensures els(a + b) == els(a) + els(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(els(a + b) =~= els(a) + els(b)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_els_cat(a, b.drop_last());
        assert(els(a + b) =~= els(a) + els(b));
    }
}
pub proof fn lemma_els3<E>(a: Nodes<E>, b: Nodes<E>, c: Nodes<E>)
    ensures els(a + b + c) == els(a) + els(b) + els(c)
{
    lemma_els_cat(a + b, c); lemma_els_cat(a, b);
}
pub proof fn lemma_els_one<E>(x: (u32, Option<Name>, Option<Seq<E>>))
    ensures els(seq![x]) == oseq(x.2)
{
    reveal_with_fuel(els, 2);
    assert(seq![x].drop_last() =~= Seq::empty());
    assert(els(seq![x]) =~= oseq(x.2));
}
pub open spec fn els_laws<E>() -> bool {
    &&& forall|a: Nodes<E>, b: Nodes<E>| #[trigger] els(a + b) == els(a) + els(b)
    &&& forall|x: (u32, Option<Name>, Option<Seq<E>>)| #[trigger] els(seq![x]) == oseq(x.2)
    &&& els(Seq::<(u32, Option<Name>, Option<Seq<E>>)>::empty()) == Seq::<E>::empty()
}
pub proof fn els_hint<E>()
    ensures els_laws::<E>()
{
    assert forall|a: Nodes<E>, b: Nodes<E>| #[trigger] els(a + b) == els(a) + els(b) by { lemma_els_cat(a, b); }
    assert forall|x: (u32, Option<Name>, Option<Seq<E>>)| #[trigger] els(seq![x]) == oseq(x.2) by { lemma_els_one(x); }
}
/// what a sound tree looks like at the top
pub open spec fn tfacts<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>) -> bool {
    match t.data() {
        TreeData::Dummy => false,
        TreeData::Leaf(v) => t.level == 0 && v@.len() > 0 && t.lb() is None && t.rb() is None && telems(Some(t)) == v@,
        TreeData::Branch(ml, mr) => t.lb() is Some && t.rb() is Some && okt(t.lb()) && okt(t.rb())
            && telems(Some(t)) == telems(t.lb()) + telems(t.rb())
            && (pos(cin(Some(t))) ==> t.level >= 1 && pos(cin(t.lb())) && pos(cin(t.rb())))
            && side_ok(odata(t.lb()), t.level, t.name, ml) && side_ok(odata(t.rb()), t.level, t.name, mr),
    }
}
pub proof fn lemma_tree<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>)
    requires okt(Some(t))
    ensures tfacts(t), telems(Some(t)).len() > 0
    decreases t
{
    els_hint::<E>();
    let c = cin(Some(t));
    assert(c == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
    match t.data() {
        TreeData::Leaf(v) => {
            assert(cin(t.lb()) =~= Seq::empty());
            assert(cin(t.rb()) =~= Seq::empty());
            assert(c =~= seq![cnode(t)]);
            assert(telems(Some(t)) =~= v@);
        },
        TreeData::Branch(_, _) => {
            lemma_tree(t.lb()->0); lemma_tree(t.rb()->0);
            assert(els(c) == els(cin(t.lb()) + seq![cnode(t)]) + els(cin(t.rb())));
            assert(els(c) =~= telems(t.lb()) + telems(t.rb()));
            if pos(c) {
                let k = cin(t.lb()).len() as int;
                assert(c[k] == cnode(t));
                assert forall|i: int| 0 <= i < cin(t.lb()).len() implies nlev(#[trigger] cin(t.lb())[i]) by { assert(c[i] == cin(t.lb())[i]); }
                assert forall|i: int| 0 <= i < cin(t.rb()).len() implies nlev(#[trigger] cin(t.rb())[i]) by { assert(c[k + 1 + i] == cin(t.rb())[i]); }
            }
        },
        TreeData::Dummy => {},
    }
}
pub proof fn tree_hint<E, M: RazMeta<E>>()
    ensures forall|t: Tree<TreeData<E, M>>| #[trigger] okt(Some(t)) ==> tfacts(t) && telems(Some(t)).len() > 0,
{
    assert forall|t: Tree<TreeData<E, M>>| #[trigger] okt(Some(t)) implies tfacts(t) && telems(Some(t)).len() > 0 by { lemma_tree(t); }
}
/// building: a leaf, and a branch over two sound trees
pub open spec fn is_leaf<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, n: Option<Name>, s: Seq<E>) -> bool {
    t.level == 0 && t.name == n && pin(t) && t.lb() is None && t.rb() is None && t.data() is Leaf && t.data()->Leaf_0@ == s
}
pub open spec fn is_bin<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, l: Tree<TreeData<E, M>>, level: u32, n: Option<Name>, r: Tree<TreeData<E, M>>) -> bool {
    t.level == level && t.name == n && pin(t) && t.lb() == Some(l) && t.rb() == Some(r) && t.data().core() is None && t.data().valid()
    && <TreeData<E, M> as TreeUpdate>::good(Some(l.data()), level, n, Some(r.data()), t.data())
}
pub open spec fn leaf_facts<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, n: Option<Name>, s: Seq<E>) -> bool {
    s.len() > 0 ==> okt(Some(t)) && canonical(Some(t)) && cin(Some(t)) == seq![(0u32, n, Some(s))] && telems(Some(t)) == s && pos(cin(Some(t)))
}
pub open spec fn bin_facts<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, l: Tree<TreeData<E, M>>, level: u32, n: Option<Name>, r: Tree<TreeData<E, M>>) -> bool {
    okt(Some(l)) && okt(Some(r)) ==> {
        &&& okt(Some(t))
        &&& cin(Some(t)) == cin(Some(l)) + seq![(level, n, None::<Seq<E>>)] + cin(Some(r))
        &&& telems(Some(t)) == telems(Some(l)) + telems(Some(r))
        &&& (level >= 1 && pos(cin(Some(l))) && pos(cin(Some(r))) ==> pos(cin(Some(t))))
        &&& (canonical(Some(l)) && canonical(Some(r)) && l.level < level && r.level <= level ==> canonical(Some(t)))
    }
}
pub proof fn lemma_leaf<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, n: Option<Name>, s: Seq<E>)
    requires is_leaf(t, n, s)
    ensures leaf_facts(t, n, s)
{
    els_hint::<E>();
    assert(cin(t.lb()) =~= Seq::empty());
    assert(cin(t.rb()) =~= Seq::empty());
    assert(cin(Some(t)) =~= seq![cnode(t)]);
    assert(canonical(t.lb()) && canonical(t.rb()));
    if s.len() > 0 { assert(okt(t.lb()) && okt(t.rb())); assert(okt(Some(t))); }
}
pub proof fn lemma_bin<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, l: Tree<TreeData<E, M>>, level: u32, n: Option<Name>, r: Tree<TreeData<E, M>>)
    requires is_bin(t, l, level, n, r)
    ensures bin_facts(t, l, level, n, r)
{
    if okt(Some(l)) && okt(Some(r)) {
        assert(okt(t.lb()) && okt(t.rb()));
        assert(okt(Some(t)));
        lemma_tree(t);
        assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
        let (a, b, c) = (cin(t.lb()), cin(t.rb()), cin(Some(t)));
        if level >= 1 && pos(a) && pos(b) {
            assert forall|i: int| 0 <= i < c.len() implies nlev(#[trigger] c[i]) by {
                if i < a.len() { assert(c[i] == a[i]); } else if i > a.len() { assert(c[i] == b[i - a.len() - 1]); }
            }
        }
        if canonical(Some(l)) && canonical(Some(r)) && l.level < level && r.level <= level { assert(canonical(t.lb()) && canonical(t.rb())); }
    }
}
%impl "TreeData as TreeUpdate"
type Core = Option<Seq<E>>;
open spec fn core(&self) -> Option<Seq<E>> { match *self { TreeData::Leaf(v) => Some(v@), _ => None } }
open spec fn valid(&self) -> bool { !(*self is Dummy) }
open spec fn loose() -> bool { false }
open spec fn shape(l: bool, level: u32, r: bool, c: Option<Seq<E>>) -> bool { match c { Some(s) => !l && !r && level == 0 && s.len() > 0, None => l && r } }
open spec fn good(l: Option<Self>, level: u32, name: Option<Name>, r: Option<Self>, d: Self) -> bool {
    match d { TreeData::Leaf(_) => true, TreeData::Dummy => false, TreeData::Branch(ml, mr) => side_ok(l, level, name, ml) && side_ok(r, level, name, mr) }
}
proof fn law_shape(l: bool, level: u32, r: bool, c: Option<Seq<E>>) {}
%fn "TreeData as TreeUpdate::rebuild" params l_branch,old_data,level,name,r_branch
%fn treetop_meta params t
    requires t matches Some(x) ==> okt(Some(*x)),
    ensures side_ok(match t { Some(x) => Some(x.data()), None => None }, 0, None, res),
%fn leaf params v,n
    ensures is_leaf(res, n, v@), leaf_facts(res, n, v@),
%exit leaf
    lemma_leaf(__res, n, v@);
%fn bin params t1,l,n,t2
    requires okt(Some(t1)), okt(Some(t2)),
    ensures is_bin(res, t1, l, n, t2), bin_facts(res, t1, l, n, t2),
%exit bin
    lemma_bin(__res, t1, l, n, t2);
%fn RazTree::meta
    ensures *res == self.meta,
%fn RazTree::is_empty
    requires self.wf(),
    ensures res == (self.elems().len() == 0),
%entry RazTree::is_empty
    tree_hint::<E, M>(); els_hint::<E>();
%fn RazTree::empty
    ensures res.wf(), res.pos(), res.canon(), res.elems().len() == 0,
%entry RazTree::empty
    els_hint::<E>();
%fn RazTree::join params ltree,level,name,rtree
    requires ltree.wf(), rtree.wf(),
    ensures res is None <==> ltree.elems().len() == 0 || rtree.elems().len() == 0,
        res matches Some(t) ==> t.wf() && t.elems() == ltree.elems() + rtree.elems() && (level >= 1 && ltree.pos() && rtree.pos() ==> t.pos())
            && cin(t.tree) == cin(ltree.tree) + seq![(level, name, None::<Seq<E>>)] + cin(rtree.tree),
%entry RazTree::join
    tree_hint::<E, M>(); els_hint::<E>();
%fn RazTree::from_vec params vec
    ensures res is None <==> vec@.len() == 0,
        res matches Some(t) ==> t.wf() && t.pos() && t.canon() && t.elems() == vec@ && cin(t.tree) == seq![(0u32, None::<Name>, Some(vec@))],
%raw
/// the side cursors of a zipper: ancestors on one side only; the tree under
/// the cursor has been taken over by the stacks and does not count
pub open spec fn lside<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> bool { c.rf().len() == 0 && okf(c.lf()) && vt(c.tree) }
pub open spec fn rside<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> bool { c.lf().len() == 0 && okf(c.rf()) && vt(c.tree) }
pub open spec fn llev<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>) -> bool { levf(f, None, Seq::empty()) }
pub open spec fn rlev<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>) -> bool { levf(Seq::empty(), None, f) }
/// archive levels are at least 1
pub open spec fn slev<E>(s: stack::AStack<E, u32>) -> bool { forall|i: int| 0 <= i < s.arch().len() ==> (#[trigger] s.arch()[i]).1.0 >= 1 }
/// the nearest leaf has been taken over by the stack: it and the branch between it and the cursor are gone
pub open spec fn lgone<E>(n0: Nodes<E>, n1: Nodes<E>, cur: Seq<E>, e: E) -> bool {
    n0.len() >= 2 && n0.last().2 is None && n0.drop_last().drop_last() == n1
    && (n0.drop_last().last().2 matches Some(v) && v.len() > 0 && cur == v.drop_last() && e == v.last())
}
pub open spec fn rgone<E>(n0: Nodes<E>, n1: Nodes<E>, cur: Seq<E>, e: E) -> bool {
    n0.len() >= 2 && n0[0].2 is None && n0.skip(1).skip(1) == n1
    && (n0.skip(1)[0].2 matches Some(v) && v.len() > 0 && cur == v.reverse().drop_last() && e == v[0])
}
impl<E, M: RazMeta<E>> Raz<E, M> {
    pub open spec fn wf(&self) -> bool {
        lside(self.l_forest) && rside(self.r_forest) && self.l_stack.wf() && self.r_stack.wf()
    }
    /// every level is one a branch may have
    pub open spec fn pos(&self) -> bool { pos(lseq(self.l_forest.lf())) && pos(rseq(self.r_forest.rf())) && slev(self.l_stack) && slev(self.r_stack) }
    pub open spec fn canon(&self) -> bool { llev(self.l_forest.lf()) && rlev(self.r_forest.rf()) }
    pub open spec fn left(&self) -> Seq<E> { els(lseq(self.l_forest.lf())) + self.l_stack.elems() }
    pub open spec fn right(&self) -> Seq<E> { self.r_stack.elems().reverse() + els(rseq(self.r_forest.rf())) }
    /// the parts of a zipper: nodes outside the cursor, archived and active sections
    pub open spec fn lt(&self) -> Nodes<E> { lseq(self.l_forest.lf()) }
    pub open spec fn rt(&self) -> Nodes<E> { rseq(self.r_forest.rf()) }
    /// the same on the left (right), at the nodes, archived and active sections level
    pub open spec fn lsame(&self, o: Raz<E, M>) -> bool { self.lt() == o.lt() && self.l_stack.arch() == o.l_stack.arch() && self.l_stack.cur() == o.l_stack.cur() }
    pub open spec fn rsame(&self, o: Raz<E, M>) -> bool { self.rt() == o.rt() && self.r_stack.arch() == o.r_stack.arch() && self.r_stack.cur() == o.r_stack.cur() }
    /// a zipper made by focusing a tree with these nodes
    pub open spec fn cut(&self, s: Nodes<E>) -> bool {
        let k = self.lt().len() as int;
        self.l_stack.arch().len() == 0 && self.r_stack.arch().len() == 0
        && k < s.len() && s == self.lt() + seq![s[k]] + self.rt() && s[k].2 == Some(self.l_stack.cur() + self.r_stack.cur().reverse())
    }
}
/// a new archive point, or nothing if there is nothing to archive
pub open spec fn archd<E>(a0: Seq<(Option<Name>, (u32, Vec<E>))>, c0: Seq<E>, level: u32, name: Option<Name>, a1: Seq<(Option<Name>, (u32, Vec<E>))>, c1: Seq<E>) -> bool {
    if c0.len() == 0 { a1 == a0 && c1 == c0 }
    else { c1.len() == 0 && a1.len() == a0.len() + 1 && a1.skip(1) == a0 && a1[0].0 == name && a1[0].1.0 == level && a1[0].1.1@ == c0 }
}
/// one element taken off the active section, after opening the section above it if it is empty
pub open spec fn popd<E>(a0: Seq<(Option<Name>, (u32, Vec<E>))>, c0: Seq<E>, a1: Seq<(Option<Name>, (u32, Vec<E>))>, c1: Seq<E>) -> bool {
    if c0.len() > 0 { a1 == a0 && c1 == c0.drop_last() }
    else if a0.len() > 0 { a1 == a0.skip(1) && c1 == a0[0].1.1@.drop_last() }
    else { a1 == a0 }
}
impl<E, M: RazMeta<E>> Raz<E, M> {
}
/// pos over concatenation
pub proof fn lemma_pos_cat<E>(a: Nodes<E>, b: Nodes<E>)
    ensures pos(a + b) == (pos(a) && pos(b))
{
    if pos(a + b) {
        assert forall|i: int| 0 <= i < a.len() implies nlev(#[trigger] a[i]) by { assert((a + b)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies nlev(#[trigger] b[i]) by { assert((a + b)[a.len() + i] == b[i]); }
    }
    if pos(a) && pos(b) {
        assert forall|i: int| 0 <= i < (a + b).len() implies nlev(#[trigger] (a + b)[i]) by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}
pub proof fn slev_hint<E>(s0: stack::AStack<E, u32>)
    ensures forall|s: stack::AStack<E, u32>| #[trigger] slev(s) || (s.arch().len() == s0.arch().len() + 1 && s.arch().skip(1) == s0.arch() && slev(s0) && s.arch()[0].1.0 >= 1 ==> false),
{
    assert forall|s: stack::AStack<E, u32>| s.arch().len() == s0.arch().len() + 1 && s.arch().skip(1) == s0.arch() && slev(s0) && s.arch()[0].1.0 >= 1 implies #[trigger] slev(s) by {
        assert forall|i: int| 0 <= i < s.arch().len() implies (#[trigger] s.arch()[i]).1.0 >= 1 by { if i > 0 { assert(s.arch().skip(1)[i - 1] == s.arch()[i]); } }
    }
}
pub open spec fn pos_laws<E>() -> bool {
    &&& forall|a: Nodes<E>, b: Nodes<E>| #[trigger] pos(a + b) == (pos(a) && pos(b))
    &&& forall|x: (u32, Option<Name>, Option<Seq<E>>)| #[trigger] pos(seq![x]) == (x.2 is None ==> x.0 >= 1)
    &&& pos(Seq::<(u32, Option<Name>, Option<Seq<E>>)>::empty())
}
pub proof fn pos_hint<E>()
    ensures pos_laws::<E>()
{
    assert forall|a: Nodes<E>, b: Nodes<E>| #[trigger] pos(a + b) == (pos(a) && pos(b)) by { lemma_pos_cat(a, b); }
    assert forall|x: (u32, Option<Name>, Option<Seq<E>>)| #[trigger] pos(seq![x]) == (x.2 is None ==> x.0 >= 1) by { assert(seq![x][0] == x); }
}
%fn Raz::new
    ensures res.wf(), res.pos(), res.canon(), res.left().len() == 0, res.right().len() == 0,
        res.lt().len() == 0, res.rt().len() == 0, res.l_stack.empty(), res.r_stack.empty(),
%fn Raz::push_left params elm
    requires old(self).wf(),
    ensures final(self).wf(), old(self).pos() ==> final(self).pos(), old(self).canon() ==> final(self).canon(),
        final(self).left() == old(self).left().push(elm), final(self).right() == old(self).right(),
        res == final(self).l_stack.cur().len(), res >= 1,
        final(self).rsame(*old(self)), final(self).lt() == old(self).lt(), final(self).l_stack.arch() == old(self).l_stack.arch(), final(self).l_stack.cur() == old(self).l_stack.cur().push(elm),
%exit Raz::push_left
    assert(self.left() =~= old(self).left().push(elm));
%fn Raz::push_right params elm
    requires old(self).wf(),
    ensures final(self).wf(), old(self).pos() ==> final(self).pos(), old(self).canon() ==> final(self).canon(),
        final(self).right() == seq![elm] + old(self).right(), final(self).left() == old(self).left(),
        res == final(self).r_stack.cur().len(), res >= 1,
        final(self).lsame(*old(self)), final(self).rt() == old(self).rt(), final(self).r_stack.arch() == old(self).r_stack.arch(), final(self).r_stack.cur() == old(self).r_stack.cur().push(elm),
%exit Raz::push_right
    assert(self.r_stack.elems().reverse() =~= seq![elm] + old(self).r_stack.elems().reverse());
    assert(self.right() =~= seq![elm] + old(self).right());
%fn Raz::archive_left params level,name
    requires old(self).wf(),
    ensures final(self).wf(), old(self).pos() && level >= 1 ==> final(self).pos(), old(self).canon() ==> final(self).canon(),
        final(self).left() == old(self).left(), final(self).right() == old(self).right(),
        final(self).rsame(*old(self)), final(self).lt() == old(self).lt(),
        archd(old(self).l_stack.arch(), old(self).l_stack.cur(), level, name, final(self).l_stack.arch(), final(self).l_stack.cur()),
%entry Raz::archive_left
    slev_hint(self.l_stack);
%fn Raz::archive_right params level,name
    requires old(self).wf(),
    ensures final(self).wf(), old(self).pos() && level >= 1 ==> final(self).pos(), old(self).canon() ==> final(self).canon(),
        final(self).left() == old(self).left(), final(self).right() == old(self).right(),
        final(self).lsame(*old(self)), final(self).rt() == old(self).rt(),
        archd(old(self).r_stack.arch(), old(self).r_stack.cur(), level, name, final(self).r_stack.arch(), final(self).r_stack.cur()),
%entry Raz::archive_right
    slev_hint(self.r_stack);
%raw
/// the topmost entry of a left (right) forest
pub open spec fn lfacts<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>) -> bool {
    if f.len() == 0 { els(lseq(f)) == Seq::<E>::empty() } else {
        let u = f.last().1;
        &&& okf(f.drop_last()) && okt(u.lb()) && u.lb() is Some
        &&& els(lseq(f)) == els(lseq(f.drop_last())) + telems(u.lb())
        &&& (pos(lseq(f)) ==> pos(lseq(f.drop_last())) && pos(cin(u.lb())) && u.level >= 1)
        &&& (llev(f) ==> levf(f.drop_last(), u.lb(), Seq::empty()))
    }
}
pub open spec fn rfacts<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>) -> bool {
    if f.len() == 0 { els(rseq(f)) == Seq::<E>::empty() } else {
        let u = f.last().1;
        &&& okf(f.drop_last()) && okt(u.rb()) && u.rb() is Some
        &&& els(rseq(f)) == telems(u.rb()) + els(rseq(f.drop_last()))
        &&& (pos(rseq(f)) ==> pos(rseq(f.drop_last())) && pos(cin(u.rb())) && u.level >= 1)
        &&& (rlev(f) ==> levf(Seq::empty(), u.rb(), f.drop_last()))
    }
}
pub proof fn lemma_forests<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>)
    requires okf(f)
    ensures lfacts(f), rfacts(f)
{
    els_hint::<E>(); pos_hint::<E>();
    if f.len() > 0 {
        let u = f.last().1;
        assert(f[f.len() - 1].1 == u);
        assert(okt(Some(u)));
        lemma_tree(u);
        assert(u.data().core() is None);
        assert(lseq(f) == lseq(f.drop_last()) + cin(u.lb()) + seq![cnode(u)]);
        assert(rseq(f) == seq![cnode(u)] + cin(u.rb()) + rseq(f.drop_last()));
        assert(els(lseq(f)) =~= els(lseq(f.drop_last())) + telems(u.lb()));
        assert(els(rseq(f)) =~= telems(u.rb()) + els(rseq(f.drop_last())));
        if llev(f) { assert(canonical(Some(u))); }
        if rlev(f) { assert(canonical(Some(u))); }
    }
}
pub proof fn forest_hint<E, M: RazMeta<E>>()
    ensures forall|f: Forest<TreeData<E, M>>| #[trigger] okf(f) ==> lfacts(f) && rfacts(f),
        els(lseq(Seq::<(bool, Tree<TreeData<E, M>>)>::empty())) == Seq::<E>::empty(),
        els(rseq(Seq::<(bool, Tree<TreeData<E, M>>)>::empty())) == Seq::<E>::empty(),
{
    els_hint::<E>();
    assert forall|f: Forest<TreeData<E, M>>| #[trigger] okf(f) implies lfacts(f) && rfacts(f) by { lemma_forests(f); }
}
/// the nodes of a left (right) forest without the branch next to the cursor
pub open spec fn lcutf<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>) -> Nodes<E> { lseq(f.drop_last()) + cin(f.last().1.lb()) }
pub open spec fn rcutf<E, M: RazMeta<E>>(f: Forest<TreeData<E, M>>) -> Nodes<E> { cin(f.last().1.rb()) + rseq(f.drop_last()) }
/// what is left once a side cursor has come to a leaf
pub open spec fn lend<E, M: RazMeta<E>>(n: Nodes<E>, c: Cursor<TreeData<E, M>>) -> bool {
    n.len() == lseq(c.lf()).len() + 1 && n.drop_last() == lseq(c.lf()) && n.last().2 == Some(c.tree->0.data()->Leaf_0@)
    && els(n) == els(lseq(c.lf())) + c.tree->0.data()->Leaf_0@
}
pub open spec fn rend<E, M: RazMeta<E>>(n: Nodes<E>, c: Cursor<TreeData<E, M>>) -> bool {
    n.len() == rseq(c.rf()).len() + 1 && n.skip(1) == rseq(c.rf()) && n[0].2 == Some(c.tree->0.data()->Leaf_0@)
    && els(n) == c.tree->0.data()->Leaf_0@ + els(rseq(c.rf()))
}
/// the side cursor on its way to the nearest leaf
pub open spec fn lwalk<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, e: Nodes<E>, p: bool, canon: bool) -> bool {
    c.rf().len() == 0 && c.ok() && c.tree is Some && e == lseq(c.lf()) + cin(c.tree) && (p ==> pos(lseq(c.lf())) && pos(cin(c.tree))) && (canon ==> c.lev())
}
pub open spec fn rwalk<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, e: Nodes<E>, p: bool, canon: bool) -> bool {
    c.lf().len() == 0 && c.ok() && c.tree is Some && e == cin(c.tree) + rseq(c.rf()) && (p ==> pos(rseq(c.rf())) && pos(cin(c.tree))) && (canon ==> c.lev())
}
pub proof fn lemma_walk<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, e: Nodes<E>, p: bool, canon: bool)
    requires down_post(c0, left, Force::No, c1, true), down_facts(c0, left, Force::No, c1),
    ensures !left && lwalk(c0, e, p, canon) ==> lwalk(c1, e, p, canon), left && rwalk(c0, e, p, canon) ==> rwalk(c1, e, p, canon),
{
    pos_hint::<E>();
    let t = c0.tree->0;
    if !left && lwalk(c0, e, p, canon) {
        lemma_tree(t);
        assert(c1.lf().last().1 == t); assert(c1.lf().drop_last() =~= c0.lf());
        assert(lseq(c1.lf()) == lseq(c0.lf()) + cin(t.lb()) + seq![cnode(t)]);
        assert(lseq(c1.lf()) + cin(c1.tree) =~= lseq(c0.lf()) + cin(c0.tree));
    }
    if left && rwalk(c0, e, p, canon) {
        lemma_tree(t);
        assert(c1.rf().last().1 == t); assert(c1.rf().drop_last() =~= c0.rf());
        assert(rseq(c1.rf()) == seq![cnode(t)] + cin(t.rb()) + rseq(c0.rf()));
        assert(cin(c1.tree) + rseq(c1.rf()) =~= cin(c0.tree) + rseq(c0.rf()));
    }
}
pub proof fn lemma_lend<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, n: Nodes<E>, p: bool, canon: bool)
    requires c.tree is Some, c.tree->0.data() is Leaf
    ensures lwalk(c, n, p, canon) ==> lend(n, c), rwalk(c, n, p, canon) ==> rend(n, c),
{
    let t = c.tree->0;
    if c.ok() {
        lemma_tree(t);
        assert(cin(c.tree) =~= seq![cnode(t)]) by { assert(cin(t.lb()) =~= Seq::empty()); assert(cin(t.rb()) =~= Seq::empty()); }
        if lwalk(c, n, p, canon) { lemma_els_cat(lseq(c.lf()), cin(c.tree)); assert(n.drop_last() =~= lseq(c.lf())); }
        if rwalk(c, n, p, canon) { lemma_els_cat(cin(c.tree), rseq(c.rf())); assert(n.skip(1) =~= rseq(c.rf())); }
    }
}
pub open spec fn at_leaf<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> bool {
    c.tree is Some && c.tree->0.data() is Leaf && c.tree->0.data()->Leaf_0@.len() > 0 && c.tree->0.data()->Leaf_0@ == telems(c.tree)
}
pub open spec fn lpk<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, s: Seq<E>) -> bool { c.tree is Some && okt(c.tree) && telems(c.tree).len() > 0 && s.len() > 0 && telems(c.tree).last() == s.last() }
pub open spec fn rpk<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, s: Seq<E>) -> bool { c.tree is Some && okt(c.tree) && telems(c.tree).len() > 0 && s.len() > 0 && telems(c.tree)[0] == s[0] }
/// going up from a side cursor and into the other branch
pub proof fn lside_hint<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>)
    requires lside(c0)
    ensures c0.vv(), okf(c0.lf()),
        c0.lf().len() == 0 ==> els(lseq(c0.lf())) == Seq::<E>::empty(),
        c0.lf().len() > 0 ==> els(lseq(c0.lf())).len() > 0 && els(lcutf(c0.lf())) == els(lseq(c0.lf()))
            && lseq(c0.lf()).len() == lcutf(c0.lf()).len() + 1 && lseq(c0.lf()).drop_last() == lcutf(c0.lf()) && lseq(c0.lf()).last().2 is None,
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] up_post(c0, c1, r) ==> (r == UpResult::Fail <==> c0.lf().len() == 0)
            && (r != UpResult::Fail ==> c1.tree is Some && c1.tree->0.lb() is Some),
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool| #![trigger up_post(c0, c1, r), down_post(c1, true, Force::Discard, c2, b)]
            up_post(c0, c1, r) && r != UpResult::Fail && down_post(c1, true, Force::Discard, c2, b)
            ==> lwalk(c2, lcutf(c0.lf()), pos(lseq(c0.lf())), llev(c0.lf())),
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool| #![trigger up_post(c0, c1, r), down_post(c1, true, Force::No, c2, b)]
            up_post(c0, c1, r) && r != UpResult::Fail && down_post(c1, true, Force::No, c2, b)
            ==> lpk(c2, els(lseq(c0.lf()))),
{
    els_hint::<E>();
    lemma_forests(c0.lf());
    assert forall|i: int| 0 <= i < c0.lf().len() implies vt(Some((#[trigger] c0.lf()[i]).1)) by { lemma_ok_valid(Some(c0.lf()[i].1)); }
    if c0.lf().len() > 0 {
        let u = c0.lf().last().1;
        lemma_tree(u.lb()->0);
        assert(c0.lf()[c0.lf().len() - 1].1 == u); assert(okt(Some(u))); lemma_tree(u);
        assert(lseq(c0.lf()) == lcutf(c0.lf()) + seq![cnode(u)]);
        assert(lseq(c0.lf()).drop_last() =~= lcutf(c0.lf()));
        lemma_els_cat(lseq(c0.lf().drop_last()), cin(u.lb()));
        assert(okf(Seq::<(bool, Tree<TreeData<E, M>>)>::empty()));
    }
}
pub proof fn rside_hint<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>)
    requires rside(c0)
    ensures c0.vv(), okf(c0.rf()),
        c0.rf().len() == 0 ==> els(rseq(c0.rf())) == Seq::<E>::empty(),
        c0.rf().len() > 0 ==> els(rseq(c0.rf())).len() > 0 && els(rcutf(c0.rf())) == els(rseq(c0.rf()))
            && rseq(c0.rf()).len() == rcutf(c0.rf()).len() + 1 && rseq(c0.rf()).skip(1) == rcutf(c0.rf()) && rseq(c0.rf())[0].2 is None,
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] up_post(c0, c1, r) ==> (r == UpResult::Fail <==> c0.rf().len() == 0)
            && (r != UpResult::Fail ==> c1.tree is Some && c1.tree->0.rb() is Some),
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool| #![trigger up_post(c0, c1, r), down_post(c1, false, Force::Discard, c2, b)]
            up_post(c0, c1, r) && r != UpResult::Fail && down_post(c1, false, Force::Discard, c2, b)
            ==> rwalk(c2, rcutf(c0.rf()), pos(rseq(c0.rf())), rlev(c0.rf())),
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool| #![trigger up_post(c0, c1, r), down_post(c1, false, Force::No, c2, b)]
            up_post(c0, c1, r) && r != UpResult::Fail && down_post(c1, false, Force::No, c2, b)
            ==> rpk(c2, els(rseq(c0.rf()))),
{
    els_hint::<E>();
    lemma_forests(c0.rf());
    assert forall|i: int| 0 <= i < c0.rf().len() implies vt(Some((#[trigger] c0.rf()[i]).1)) by { lemma_ok_valid(Some(c0.rf()[i].1)); }
    if c0.rf().len() > 0 {
        let u = c0.rf().last().1;
        lemma_tree(u.rb()->0);
        assert(c0.rf()[c0.rf().len() - 1].1 == u); assert(okt(Some(u))); lemma_tree(u);
        assert(rseq(c0.rf()) =~= seq![cnode(u)] + rcutf(c0.rf()));
        assert(rseq(c0.rf()).skip(1) =~= rcutf(c0.rf()));
        lemma_els_cat(cin(u.rb()), rseq(c0.rf().drop_last()));
        assert(okf(Seq::<(bool, Tree<TreeData<E, M>>)>::empty()));
    }
}
pub proof fn lpk_leaf<E, M: RazMeta<E>>(s: Seq<E>)
    ensures forall|c: Cursor<TreeData<E, M>>| #![trigger lpk(c, s), at_leaf(c)] at_leaf(c) && lpk(c, s) ==> s.len() > 0 && c.tree->0.data()->Leaf_0@.last() == s.last() {}
pub proof fn rpk_leaf<E, M: RazMeta<E>>(s: Seq<E>)
    ensures forall|c: Cursor<TreeData<E, M>>| #![trigger rpk(c, s), at_leaf(c)] at_leaf(c) && rpk(c, s) ==> s.len() > 0 && c.tree->0.data()->Leaf_0@[0] == s[0] {}
/// the walk: invariant, measure, and what is known at its end
pub proof fn lwalk_hint<E, M: RazMeta<E>>(e: Nodes<E>, p: bool, canon: bool)
    ensures
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #![trigger down_post(c0, false, Force::No, c1, b), lwalk(c0, e, p, canon)]
            down_post(c0, false, Force::No, c1, b) && lwalk(c0, e, p, canon) ==> lwalk(c1, e, p, canon) && (b ==> c1.tree == c0.tree->0.rb() && c0.tree is Some && c1.tree is Some)
                && (!b ==> c1.same(c0) && at_leaf(c1) && lside(c1) && lend(e, c1) && (canon ==> llev(c1.lf())) && (p ==> pos(lseq(c1.lf())))),
{
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #[trigger] down_post(c0, false, Force::No, c1, b) && #[trigger] lwalk(c0, e, p, canon)
        implies lwalk(c1, e, p, canon) && (b ==> c1.tree == c0.tree->0.rb() && c0.tree is Some && c1.tree is Some)
                && (!b ==> c1.same(c0) && at_leaf(c1) && lside(c1) && lend(e, c1) && (canon ==> llev(c1.lf())) && (p ==> pos(lseq(c1.lf())))) by {
        lemma_down(c0, false, Force::No, c1, b);
        if b { lemma_walk(c0, false, c1, e, p, canon); } else { lemma_tree(c0.tree->0); lemma_ok_valid(c1.tree); lemma_lend(c1, e, p, canon); }
    }
}
pub proof fn rwalk_hint<E, M: RazMeta<E>>(e: Nodes<E>, p: bool, canon: bool)
    ensures
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #![trigger down_post(c0, true, Force::No, c1, b), rwalk(c0, e, p, canon)]
            down_post(c0, true, Force::No, c1, b) && rwalk(c0, e, p, canon) ==> rwalk(c1, e, p, canon) && (b ==> c1.tree == c0.tree->0.lb() && c0.tree is Some && c1.tree is Some)
                && (!b ==> c1.same(c0) && at_leaf(c1) && rside(c1) && rend(e, c1) && (canon ==> rlev(c1.rf())) && (p ==> pos(rseq(c1.rf())))),
{
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #[trigger] down_post(c0, true, Force::No, c1, b) && #[trigger] rwalk(c0, e, p, canon)
        implies rwalk(c1, e, p, canon) && (b ==> c1.tree == c0.tree->0.lb() && c0.tree is Some && c1.tree is Some)
                && (!b ==> c1.same(c0) && at_leaf(c1) && rside(c1) && rend(e, c1) && (canon ==> rlev(c1.rf())) && (p ==> pos(rseq(c1.rf())))) by {
        lemma_down(c0, true, Force::No, c1, b);
        if b { lemma_walk(c0, true, c1, e, p, canon); } else { lemma_tree(c0.tree->0); lemma_ok_valid(c1.tree); lemma_lend(c1, e, p, canon); }
    }
}
pub proof fn pk_hint<E, M: RazMeta<E>>(s: Seq<E>)
    ensures
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #![trigger down_post(c0, false, Force::No, c1, b), lpk(c0, s)]
            down_post(c0, false, Force::No, c1, b) && lpk(c0, s) ==> lpk(c1, s) && (b ==> c0.tree is Some && c1.tree == c0.tree->0.rb()) && (!b ==> c1.same(c0) && at_leaf(c1)),
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #![trigger down_post(c0, true, Force::No, c1, b), rpk(c0, s)]
            down_post(c0, true, Force::No, c1, b) && rpk(c0, s) ==> rpk(c1, s) && (b ==> c0.tree is Some && c1.tree == c0.tree->0.lb()) && (!b ==> c1.same(c0) && at_leaf(c1)),
{
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #[trigger] down_post(c0, false, Force::No, c1, b) && #[trigger] lpk(c0, s)
        implies lpk(c1, s) && (b ==> c0.tree is Some && c1.tree == c0.tree->0.rb()) && (!b ==> c1.same(c0) && at_leaf(c1)) by {
        lemma_tree(c0.tree->0); if b { lemma_tree(c1.tree->0); }
    }
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #[trigger] down_post(c0, true, Force::No, c1, b) && #[trigger] rpk(c0, s)
        implies rpk(c1, s) && (b ==> c0.tree is Some && c1.tree == c0.tree->0.lb()) && (!b ==> c1.same(c0) && at_leaf(c1)) by {
        lemma_tree(c0.tree->0); if b { lemma_tree(c1.tree->0); }
    }
}
%fn Raz::peek_left
    requires self.wf(),
    ensures res == (if self.left().len() > 0 { Some(self.left().last()) } else { None }),
%hide Raz::peek_left lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,lpk
%entry Raz::peek_left
    lside_hint(self.l_forest); pk_hint::<E, M>(els(lseq(self.l_forest.lf()))); stack::lemma_empty(self.l_stack);
    lpk_leaf::<E, M>(els(lseq(self.l_forest.lf())));
%loop Raz::peek_left 0
    invariant lpk(peek_forest, els(lseq(self.l_forest.lf()))),
    ensures at_leaf(peek_forest),
    decreases peek_forest.tree,
%fn Raz::peek_right
    requires self.wf(),
    ensures res == (if self.right().len() > 0 { Some(self.right()[0]) } else { None }),
%hide Raz::peek_right lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,rpk
%entry Raz::peek_right
    rside_hint(self.r_forest); pk_hint::<E, M>(els(rseq(self.r_forest.rf()))); stack::lemma_empty(self.r_stack);
    rpk_leaf::<E, M>(els(rseq(self.r_forest.rf())));
%loop Raz::peek_right 0
    invariant rpk(peek_forest, els(rseq(self.r_forest.rf()))),
    ensures at_leaf(peek_forest),
    decreases peek_forest.tree,
%fn Raz::pop_left
    requires old(self).wf(),
    ensures final(self).wf(), old(self).pos() ==> final(self).pos(), old(self).canon() ==> final(self).canon(),
        final(self).right() == old(self).right(),
        old(self).left().len() == 0 ==> res is None && final(self).left() == old(self).left(),
        old(self).left().len() > 0 ==> res == Some(old(self).left().last()) && final(self).left() == old(self).left().drop_last(),
        final(self).rsame(*old(self)),
        popd(old(self).l_stack.arch(), old(self).l_stack.cur(), final(self).l_stack.arch(), final(self).l_stack.cur()),
        !old(self).l_stack.empty() || old(self).left().len() == 0 ==> final(self).lt() == old(self).lt(),
        old(self).l_stack.empty() && old(self).left().len() > 0 ==> lgone(old(self).lt(), final(self).lt(), final(self).l_stack.cur(), res->0),
%hide Raz::pop_left lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,lwalk,lcutf
%ghost Raz::pop_left
    e = lcutf(self.l_forest.lf());
    p = pos(lseq(self.l_forest.lf()));
    k = llev(self.l_forest.lf());
%entry Raz::pop_left
    lside_hint(self.l_forest); stack::lemma_empty(self.l_stack);
    lwalk_hint::<E, M>(e, p, k);
%loop Raz::pop_left 0
    invariant self.r_stack == old(self).r_stack, self.r_forest == old(self).r_forest, self.l_stack == old(self).l_stack,
        lwalk(self.l_forest, e, p, k),
    ensures at_leaf(self.l_forest), lside(self.l_forest), lend(e, self.l_forest),
        k ==> llev(self.l_forest.lf()), p ==> pos(lseq(self.l_forest.lf())),
    decreases self.l_forest.tree,
%fn Raz::pop_right
    requires old(self).wf(),
    ensures final(self).wf(), old(self).pos() ==> final(self).pos(), old(self).canon() ==> final(self).canon(),
        final(self).left() == old(self).left(),
        old(self).right().len() == 0 ==> res is None && final(self).right() =~= old(self).right(),
        old(self).right().len() > 0 ==> res == Some(old(self).right()[0]) && final(self).right() =~= old(self).right().skip(1),
        final(self).lsame(*old(self)),
        popd(old(self).r_stack.arch(), old(self).r_stack.cur(), final(self).r_stack.arch(), final(self).r_stack.cur()),
        !old(self).r_stack.empty() || old(self).right().len() == 0 ==> final(self).rt() == old(self).rt(),
        old(self).r_stack.empty() && old(self).right().len() > 0 ==> rgone(old(self).rt(), final(self).rt(), final(self).r_stack.cur(), res->0),
%hide Raz::pop_right lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,rwalk,rcutf
%ghost Raz::pop_right
    e = rcutf(self.r_forest.rf());
    p = pos(rseq(self.r_forest.rf()));
    k = rlev(self.r_forest.rf());
%entry Raz::pop_right
    rside_hint(self.r_forest); stack::lemma_empty(self.r_stack);
    rwalk_hint::<E, M>(e, p, k);
    if self.r_stack.elems().len() > 0 { assert(self.r_stack.elems().reverse()[0] == self.r_stack.elems().last()); }
%loop Raz::pop_right 0
    invariant self.l_stack == old(self).l_stack, self.l_forest == old(self).l_forest, self.r_stack == old(self).r_stack,
        rwalk(self.r_forest, e, p, k),
    ensures at_leaf(self.r_forest), rside(self.r_forest), rend(e, self.r_forest),
        k ==> rlev(self.r_forest.rf()), p ==> pos(rseq(self.r_forest.rf())),
    decreases self.r_forest.tree,
%raw
/// a cursor on its way down from the root of a sound tree
pub open spec fn fw<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, e: Nodes<E>, p: bool, canon: bool) -> bool {
    c.ok() && c.tree is Some && c.content() == e && (p ==> pos(c.content())) && (canon ==> c.lev())
}
pub open spec fn fw_next<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool, e: Nodes<E>, p: bool, canon: bool) -> bool {
    fw(c1, e, p, canon) && c0.tree is Some && c1.tree is Some
    && (b ==> c1.tree == (if left { c0.tree->0.lb() } else { c0.tree->0.rb() })) && (!b ==> c1.same(c0) && at_leaf(c1))
}
/// the nodes around a leaf
pub open spec fn fcut<E>(n: Nodes<E>, a: Nodes<E>, v: Seq<E>, b: Nodes<E>) -> bool {
    a.len() < n.len() && n == a + seq![n[a.len() as int]] + b && n[a.len() as int].2 == Some(v) && els(n) == els(a) + v + els(b)
}
pub proof fn fw_hint<E, M: RazMeta<E>>(e: Nodes<E>, p: bool, canon: bool)
    ensures
        forall|c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool| #![trigger down_post(c0, left, Force::No, c1, b), fw(c0, e, p, canon)]
            down_post(c0, left, Force::No, c1, b) && fw(c0, e, p, canon) ==> fw_next(c0, left, c1, b, e, p, canon),
        forall|c: Cursor<TreeData<E, M>>, l: Cursor<TreeData<E, M>>, t: Option<Tree<TreeData<E, M>>>, r: Cursor<TreeData<E, M>>| #![trigger split_post(c, l, t, r), fw(c, e, p, canon)]
            split_post(c, l, t, r) && fw(c, e, p, canon) && c.tree->0.data() is Leaf ==> t == c.tree && at_leaf(c) && lside(l) && rside(r) && l.lf() == c.lf()
                && fcut(e, lseq(l.lf()), c.tree->0.data()->Leaf_0@, rseq(r.rf()))
                && (p ==> pos(lseq(l.lf())) && pos(rseq(r.rf()))) && (canon ==> llev(l.lf()) && rlev(r.rf())),
{
    els_hint::<E>(); pos_hint::<E>();
    assert forall|c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool| #[trigger] down_post(c0, left, Force::No, c1, b) && #[trigger] fw(c0, e, p, canon)
        implies fw_next(c0, left, c1, b, e, p, canon) by {
        lemma_down(c0, left, Force::No, c1, b);
        lemma_tree(c0.tree->0);
    }
    assert forall|c: Cursor<TreeData<E, M>>, l: Cursor<TreeData<E, M>>, t: Option<Tree<TreeData<E, M>>>, r: Cursor<TreeData<E, M>>| #[trigger] split_post(c, l, t, r) && #[trigger] fw(c, e, p, canon) && c.tree->0.data() is Leaf
        implies t == c.tree && at_leaf(c) && lside(l) && rside(r) && l.lf() == c.lf()
                && fcut(e, lseq(l.lf()), c.tree->0.data()->Leaf_0@, rseq(r.rf()))
                && (p ==> pos(lseq(l.lf())) && pos(rseq(r.rf()))) && (canon ==> llev(l.lf()) && rlev(r.rf())) by {
        let t = c.tree->0;
        lemma_tree(t);
        assert(cin(Some(t)) =~= seq![cnode(t)]) by { assert(cin(t.lb()) =~= Seq::empty()); assert(cin(t.rb()) =~= Seq::empty()); }
        assert(c.content() =~= lseq(c.lf()) + seq![cnode(t)] + rseq(c.rf()));
        assert(e[lseq(l.lf()).len() as int] == cnode(t)); lemma_els3(lseq(l.lf()), seq![cnode(t)], rseq(r.rf()));
    }
}
/// empty sides
pub proof fn sides_hint<E, M: RazMeta<E>>()
    ensures forall|c: Cursor<TreeData<E, M>>| #[trigger] c.inv() && c.ok() && c.lf().len() == 0 && c.rf().len() == 0 ==> lside(c) && rside(c) && llev(c.lf()) && rlev(c.rf()),
        forall|f: Forest<TreeData<E, M>>| f.len() == 0 ==> #[trigger] lseq(f) == Nodes::<E>::empty(),
        forall|f: Forest<TreeData<E, M>>| f.len() == 0 ==> #[trigger] rseq(f) == Nodes::<E>::empty(),
        els(Nodes::<E>::empty()) == Seq::<E>::empty(), pos(Nodes::<E>::empty()), cin(None::<Tree<TreeData<E, M>>>) == Nodes::<E>::empty(),
        els(cin(None::<Tree<TreeData<E, M>>>)) == Seq::<E>::empty(),
{
    els_hint::<E>();
    assert(cin(None::<Tree<TreeData<E, M>>>) =~= Nodes::<E>::empty());
}
pub proof fn from_hint<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>)
    requires okt(Some(t))
    ensures forall|c: Cursor<TreeData<E, M>>| #[trigger] from_post(t, c) ==> fw(c, cin(Some(t)), pos(cin(Some(t))), canonical(Some(t))),
{
    assert forall|c: Cursor<TreeData<E, M>>| #[trigger] from_post(t, c) implies fw(c, cin(Some(t)), pos(cin(Some(t))), canonical(Some(t))) by {
        assert(c.content() =~= cin(Some(t)));
        assert(okf(c.lf())); assert(okf(c.rf()));
    }
}
pub proof fn lemma_halves<A>(l: Seq<A>, r: Seq<A>, v: Seq<A>, k: int)
    requires 0 <= k <= v.len()
    ensures l =~= v.take(k) && r == v.skip(k).reverse() ==> l + r.reverse() == v
{
    assert(v.skip(k).reverse().reverse() =~= v.skip(k));
    assert(v.take(k) + v.skip(k) =~= v);
}
%fn RazTree::focus_left
    requires self.wf(),
    ensures res.wf(), self.pos() ==> res.pos(), self.canon() ==> res.canon(), res.left().len() == 0, res.right() == self.elems(),
        self.tree is Some ==> res.cut(cin(self.tree)),
%hide RazTree::focus_left lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,fw,split_post
%entry RazTree::focus_left
    if self.tree is Some { from_hint(self.tree->0); lemma_tree(self.tree->0); }
    fw_hint::<E, M>(cin(self.tree), self.pos(), self.canon());
    sides_hint::<E, M>();
%loop RazTree::focus_left 0
    invariant fw(cursor, cin(self.tree), self.pos(), self.canon()), cursor.lf().len() == 0,
    ensures at_leaf(cursor),
    decreases cursor.tree,
%after RazTree::focus_left extend_rev 0
    lemma_halves(l_astack.cur(), r_astack.cur(), cursor.tree->0.data()->Leaf_0@, 0);
    assert(l_astack.arch().len() == 0); assert(r_astack.arch().len() == 0);
    assert(l_astack.cur().len() == 0); assert(r_astack.cur() == cursor.tree->0.data()->Leaf_0@.reverse());
    assert(fcut(cin(self.tree), lseq(l_cursor.lf()), cursor.tree->0.data()->Leaf_0@, rseq(r_cursor.rf())));
    assert(l_astack.cur() + r_astack.cur().reverse() == cursor.tree->0.data()->Leaf_0@);
%raw
/// where an index leads: the number of elements to its left, or nowhere
pub open spec fn fpos<E, M: RazMeta<E>>(t: Option<Tree<TreeData<E, M>>>, idx: M::Index) -> Option<int>
    decreases t
{
    match t {
        None => None,
        Some(t) => match t.link.v.data {
            TreeData::Dummy => None,
            TreeData::Leaf(v) => if M::split_req(v@, idx) { Some(M::split_pt(v@, idx)) } else { None },
            TreeData::Branch(ml, mr) => if !M::nav_req(ml, mr, idx) { None } else { match M::s_nav(ml, mr, idx) {
                Navigation::Left(i) => fpos(t.link.v.l_branch, i),
                Navigation::Right(i) => oshift(fpos(t.link.v.r_branch, i), telems(t.link.v.l_branch).len() as int),
                Navigation::Here => Some(telems(t.link.v.l_branch).len() as int),
                Navigation::Nowhere => None,
            } },
        },
    }
}
pub open spec fn oshift(o: Option<int>, k: int) -> Option<int> { match o { None => None, Some(x) => Some(x + k) } }
/// the index may be used wherever it leads
pub open spec fn freq<E, M: RazMeta<E>>(t: Option<Tree<TreeData<E, M>>>, idx: M::Index) -> bool
    decreases t
{
    match t {
        None => true,
        Some(t) => match t.link.v.data {
            TreeData::Dummy => true,
            TreeData::Leaf(v) => M::split_req(v@, idx),
            TreeData::Branch(ml, mr) => M::nav_req(ml, mr, idx) && match M::s_nav(ml, mr, idx) {
                Navigation::Left(i) => freq(t.link.v.l_branch, i),
                Navigation::Right(i) => freq(t.link.v.r_branch, i),
                _ => true,
            },
        },
    }
}
/// the position looked for is the one the index leads to from here; from the end of this tree
pub open spec fn fpw<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, idx: M::Index, want: Option<int>) -> bool {
    c.tree is Some && (may_panic() || freq(c.tree, idx)) && want == oshift(fpos(c.tree, idx), els(lseq(c.lf())).len() as int)
}
pub open spec fn hw<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, want: Option<int>) -> bool {
    c.tree is Some && want == Some((els(lseq(c.lf())).len() + telems(c.tree).len()) as int)
}
pub open spec fn fstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool, idx: M::Index, want: Option<int>) -> bool {
    match c0.tree->0.data() {
        TreeData::Branch(ml, mr) => b && csize(c1) < csize(c0) && match M::s_nav(ml, mr, idx) {
            _ if !M::nav_req(ml, mr, idx) => true,
            Navigation::Left(i) => left ==> fpw(c1, i, want),
            Navigation::Right(i) => !left ==> fpw(c1, i, want),
            Navigation::Here => left ==> hw(c1, want),
            Navigation::Nowhere => true,
        },
        _ => true,
    }
}
pub open spec fn csize<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> nat { cin(c.tree).len() }
pub open spec fn fhere<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, idx: M::Index, want: Option<int>) -> bool {
    c.tree is Some && match c.tree->0.data() {
        TreeData::Dummy => false,
        TreeData::Branch(ml, mr) => (may_panic() || M::nav_req(ml, mr, idx)) && (M::nav_req(ml, mr, idx) && M::s_nav(ml, mr, idx) is Nowhere ==> want is None),
        TreeData::Leaf(v) => (may_panic() || M::split_req(v@, idx)) && (M::split_req(v@, idx) ==> 0 <= M::split_pt(v@, idx) <= v@.len() && want == Some(M::split_pt(v@, idx) + els(lseq(c.lf())).len())),
    }
}
pub open spec fn hstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool, want: Option<int>) -> bool {
    if b { hw(c1, want) && csize(c1) < csize(c0) } else { fpw(c1, M::Index::s_last(), want) && csize(c1) == csize(c0) }
}
pub proof fn lemma_go_right<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>)
    requires down_post(c0, false, Force::No, c1, true)
    ensures els(lseq(c1.lf())) == els(lseq(c0.lf())) + telems(c0.tree->0.lb()) || !(c0.tree->0.data() is Branch)
{
    els_hint::<E>();
    let t = c0.tree->0;
    assert(c1.lf().drop_last() =~= c0.lf()); assert(c1.lf().last().1 == t);
    assert(lseq(c1.lf()) == lseq(c0.lf()) + cin(t.lb()) + seq![cnode(t)]);
    if t.data() is Branch { assert(els(lseq(c1.lf())) =~= els(lseq(c0.lf())) + telems(t.lb())); }
}
pub proof fn lemma_fstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool, idx: M::Index, want: Option<int>)
    requires down_post(c0, left, Force::No, c1, b), c0.tree is Some, okt(c0.tree), fpw(c0, idx, want)
    ensures fstep(c0, left, c1, b, idx, want)
{
    let t = c0.tree->0;
    lemma_tree(t);
    assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
    if t.data() is Branch && !left { lemma_go_right(c0, c1); }
}
pub proof fn lemma_hstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool, want: Option<int>)
    requires down_post(c0, false, Force::No, c1, b), c0.tree is Some, okt(c0.tree), hw(c0, want)
    ensures hstep(c0, c1, b, want)
{
    let t = c0.tree->0;
    lemma_tree(t);
    assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
    if b { lemma_go_right(c0, c1); } else { M::law_split(t.data()->Leaf_0@, M::Index::s_last()); }
}
pub proof fn focus_hint<E, M: RazMeta<E>>(e: Nodes<E>, p: bool, canon: bool, want: Option<int>)
    ensures
        forall|c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool, idx: M::Index| #![trigger down_post(c0, left, Force::No, c1, b), fpw(c0, idx, want)]
            down_post(c0, left, Force::No, c1, b) && fw(c0, e, p, canon) && fpw(c0, idx, want) ==> fstep(c0, left, c1, b, idx, want),
        forall|c: Cursor<TreeData<E, M>>, idx: M::Index| #![trigger fw(c, e, p, canon), fpw(c, idx, want)] fw(c, e, p, canon) && fpw(c, idx, want) ==> fhere(c, idx, want),
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #![trigger down_post(c0, false, Force::No, c1, b), hw(c0, want)]
            down_post(c0, false, Force::No, c1, b) && fw(c0, e, p, canon) && hw(c0, want) ==> hstep(c0, c1, b, want),
{
    hide(fpw); hide(hw); hide(fstep); hide(hstep); hide(els); hide(lseq); hide(rseq); hide(cin); hide(okt); hide(okf);
    assert forall|c0: Cursor<TreeData<E, M>>, left: bool, c1: Cursor<TreeData<E, M>>, b: bool, idx: M::Index| #[trigger] down_post(c0, left, Force::No, c1, b) && fw(c0, e, p, canon) && #[trigger] fpw(c0, idx, want)
        implies fstep(c0, left, c1, b, idx, want) by { lemma_fstep(c0, left, c1, b, idx, want); }
    assert forall|c: Cursor<TreeData<E, M>>, idx: M::Index| #[trigger] fw(c, e, p, canon) && #[trigger] fpw(c, idx, want) implies fhere(c, idx, want) by {
        reveal(fpw);
        lemma_tree(c.tree->0);
        if c.tree->0.data() is Leaf { M::law_split(c.tree->0.data()->Leaf_0@, idx); }
    }
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, b: bool| #[trigger] down_post(c0, false, Force::No, c1, b) && fw(c0, e, p, canon) && #[trigger] hw(c0, want)
        implies hstep(c0, c1, b, want) by { lemma_hstep(c0, c1, b, want); }
}
pub open spec fn focus_post<E, M: RazMeta<E>>(s: RazTree<E, M>, idx: M::Index, res: Option<Raz<E, M>>) -> bool {
    &&& (s.tree is None ==> res is Some && res->0.left().len() == 0 && res->0.right().len() == 0)
    &&& (s.tree is Some ==> (res is None <==> fpos(s.tree, idx) is None))
    &&& (res matches Some(z) ==> z.wf() && (s.pos() ==> z.pos()) && (s.canon() ==> z.canon()))
    &&& (s.tree is Some && res is Some ==> res->0.cut(cin(s.tree)))
    &&& (s.tree is Some && res is Some ==> 0 <= fpos(s.tree, idx)->0 <= s.elems().len()
            && res->0.left() == s.elems().take(fpos(s.tree, idx)->0) && res->0.right() == s.elems().skip(fpos(s.tree, idx)->0))
}
pub proof fn lemma_cut<A>(a: Seq<A>, v: Seq<A>, b: Seq<A>, k: int, e: Seq<A>)
    requires 0 <= k <= v.len(), e == a + v + b
    ensures e.take(k + a.len()) == a + v.take(k), e.skip(k + a.len()) == v.skip(k).reverse().reverse() + b, k + a.len() <= e.len()
{
    assert(v.skip(k).reverse().reverse() =~= v.skip(k));
    assert(e.take(k + a.len()) =~= a + v.take(k));
    assert(e.skip(k + a.len()) =~= v.skip(k) + b);
}
%fn RazTree::focus params index
    requires self.wf(), forall|i: M::Index| #[trigger] index.into_ok(i) ==> may_panic() || freq(self.tree, i),
    ensures exists|i: M::Index| #[trigger] index.into_ok(i) && focus_post(self, i, res),
%hide RazTree::focus lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,fw,split_post,fpos,freq,fpw,hw,csize
%ghost RazTree::focus
    mut want = vstd::pervasive::arbitrary::<Option<int>>();
    mut idx0 = vstd::pervasive::arbitrary::<M::Index>();
    mut sz = 0nat;
%entry RazTree::focus
    if self.tree is Some { from_hint(self.tree->0); lemma_tree(self.tree->0); }
    fw_hint::<E, M>(cin(self.tree), self.pos(), self.canon());
    sides_hint::<E, M>();
%beforeloop RazTree::focus 0
    idx0 = index;
    want = fpos(self.tree, index);
    focus_hint::<E, M>(cin(self.tree), self.pos(), self.canon(), want);
    assert(fpw(cursor, index, want)) by { reveal(fpw); reveal(els); reveal(lseq); assert(els(lseq(cursor.lf())) =~= Seq::empty()); }
%loop RazTree::focus 0
    invariant fw(cursor, cin(self.tree), self.pos(), self.canon()), fpw(cursor, index, want), want == fpos(self.tree, idx0),
    ensures cursor.tree is Some, cursor.tree->0.data() is Leaf,
    decreases csize(cursor),
%loopstart RazTree::focus 0
    sz = csize(cursor);
%loop RazTree::focus 1
    invariant fw(cursor, cin(self.tree), self.pos(), self.canon()), hw(cursor, want), csize(cursor) < sz,
    ensures fpw(cursor, M::Index::s_last(), want),
    decreases csize(cursor),
%after RazTree::focus extend_rev 0
    lemma_cut(els(lseq(l_cursor.lf())), cursor.tree->0.data()->Leaf_0@, els(rseq(r_cursor.rf())), M::split_pt(cursor.tree->0.data()->Leaf_0@, index), self.elems());
    assert(r_astack.elems() == cursor.tree->0.data()->Leaf_0@.skip(M::split_pt(cursor.tree->0.data()->Leaf_0@, index)).reverse());
    assert(l_astack.elems() =~= cursor.tree->0.data()->Leaf_0@.take(M::split_pt(cursor.tree->0.data()->Leaf_0@, index)));
    assert(slev(l_astack) && slev(r_astack));
    lemma_halves(l_astack.cur(), r_astack.cur(), cursor.tree->0.data()->Leaf_0@, M::split_pt(cursor.tree->0.data()->Leaf_0@, index));
    assert(l_astack.arch().len() == 0); assert(r_astack.arch().len() == 0);
    assert(fcut(cin(self.tree), lseq(l_cursor.lf()), cursor.tree->0.data()->Leaf_0@, rseq(r_cursor.rf())));
    assert(l_astack.cur() + r_astack.cur().reverse() == cursor.tree->0.data()->Leaf_0@);
    assert(want is Some);
    assert(0 <= want->0 <= self.elems().len());
%raw
// ---- what focusing means for element counts (C02)
pub proof fn lemma_count<E>(t: Tree<TreeData<E, Count>>, i: usize, lev: u32, n: Option<Name>, m: Count)
    requires okt(Some(t)), side_ok(Some(t.data()), lev, n, m)
    ensures m.0 == telems(Some(t)).len(),
        i == usize::MAX ==> freq(Some(t), i) && fpos(Some(t), i) == Some(telems(Some(t)).len() as int),
        i != usize::MAX && i <= m.0 ==> freq(Some(t), i) && fpos(Some(t), i) == Some(i as int),
        i != usize::MAX && i > m.0 && t.data() is Branch ==> freq(Some(t), i) && fpos(Some(t), i) is None,
    decreases t
{
    lemma_tree(t);
    match t.data() {
        TreeData::Branch(l, r) => {
            lemma_count(t.lb()->0, i, t.level, t.name, l);
            lemma_count(t.rb()->0, if i != usize::MAX && i > l.0 { (i - l.0) as usize } else { i }, t.level, t.name, r);
        },
        _ => {},
    }
}
/// an element-counted sequence: an index up to its length, or the end marker, splits exactly there;
/// a larger one is refused (by `None` when there is a branch)
pub proof fn lemma_focus_count<E>(s: RazTree<E, Count>, i: usize, res: Option<Raz<E, Count>>)
    requires s.wf(), focus_post(s, i, res)
    ensures s.meta.0 == s.elems().len(),
        i <= s.elems().len() && i != usize::MAX ==> freq(s.tree, i) && res is Some && res->0.left() == s.elems().take(i as int) && res->0.right() == s.elems().skip(i as int),
        i == usize::MAX ==> freq(s.tree, i) && res is Some && res->0.left() == s.elems() && res->0.right().len() == 0,
        s.elems().len() < i < usize::MAX && s.tree is Some && s.tree->0.data() is Branch ==> freq(s.tree, i) && res is None,
        s.elems().len() < i < usize::MAX && s.tree is Some && s.tree->0.data() is Leaf ==> !freq(s.tree, i) && res is None,
{
    els_hint::<E>();
    match s.tree {
        Some(t) => {
            lemma_count(t, i, 0, None, s.meta); lemma_tree(t);
            assert(s.elems().take(s.elems().len() as int) =~= s.elems());
        },
        None => {
            assert(cin(s.tree) =~= Seq::empty());
            if res is Some { let z = res->0; assert(z.left() =~= s.elems()); assert(z.right() =~= s.elems());
                if i == 0 { assert(s.elems().take(0) =~= Seq::empty()); assert(s.elems().skip(0) =~= Seq::empty()); assert(z.left() =~= s.elems().take(0)); assert(z.right() =~= s.elems().skip(0)); } }
        },
    }
}
/// the two ends, for every metadata whose navigation treats them so
pub open spec fn ends_ok<E, M: RazMeta<E>>() -> bool {
    forall|l: M, r: M| #![trigger M::s_nav(l, r, M::Index::s_last())] M::nav_req(l, r, M::Index::s_last()) && M::s_nav(l, r, M::Index::s_last()) == Navigation::Right(M::Index::s_last())
}
pub proof fn lemma_ends<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>)
    requires okt(Some(t)), ends_ok::<E, M>()
    ensures freq(Some(t), M::Index::s_last()), fpos(Some(t), M::Index::s_last()) == Some(telems(Some(t)).len() as int)
    decreases t
{
    lemma_tree(t);
    match t.data() {
        TreeData::Branch(l, r) => { lemma_ends(t.rb()->0); assert(M::s_nav(l, r, M::Index::s_last()) == Navigation::Right(M::Index::s_last())); },
        TreeData::Leaf(v) => { M::law_split(v@, M::Index::s_last()); },
        _ => {},
    }
}
pub open spec fn begin_ok<E, M: RazMeta<E>>() -> bool {
    forall|l: M, r: M| #![trigger M::s_nav(l, r, M::Index::s_first())] M::nav_req(l, r, M::Index::s_first()) && M::s_nav(l, r, M::Index::s_first()) == Navigation::Left(M::Index::s_first())
}
pub proof fn lemma_begin<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>)
    requires okt(Some(t)), begin_ok::<E, M>()
    ensures freq(Some(t), M::Index::s_first()), fpos(Some(t), M::Index::s_first()) == Some(0int)
    decreases t
{
    lemma_tree(t);
    match t.data() {
        TreeData::Branch(l, r) => { lemma_begin(t.lb()->0); assert(M::s_nav(l, r, M::Index::s_first()) == Navigation::Left(M::Index::s_first())); },
        TreeData::Leaf(v) => { M::law_split(v@, M::Index::s_first()); },
        _ => {},
    }
}
pub proof fn lemma_marker_ends<E>()
    ensures ends_ok::<E, ()>(), begin_ok::<E, ()>(), ends_ok::<E, Names>(), begin_ok::<E, Names>(), ends_ok::<E, Count>()
{}
// ---- what focusing means for names (C05)
/// some branch carries the name
pub open spec fn named<E>(s: Nodes<E>, n: Name) -> bool { exists|j: int| is_mark(s, j, n) }
pub open spec fn is_mark<E>(s: Nodes<E>, j: int, n: Name) -> bool { 0 <= j < s.len() && s[j].1 == Some(n) && s[j].2 is None }
pub proof fn lemma_mark_cat<E>(a: Nodes<E>, x: (u32, Option<Name>, Option<Seq<E>>), b: Nodes<E>, n: Name)
    requires x.2 is None
    ensures named(a + seq![x] + b, n) == (named(a, n) || named(b, n) || x.1 == Some(n)),
        forall|j: int| #[trigger] is_mark(a, j, n) ==> is_mark(a + seq![x] + b, j, n),
        forall|j: int| is_mark(b, j, n) ==> is_mark(a + seq![x] + b, #[trigger] (a.len() + 1 + j), n),
        x.1 == Some(n) ==> is_mark(a + seq![x] + b, a.len() as int, n),
        forall|j: int| #[trigger] is_mark(a + seq![x] + b, j, n) ==> is_mark(a, j, n) || (j == a.len() && x.1 == Some(n)) || is_mark(b, j - a.len() - 1, n),
{
    let s = a + seq![x] + b;
    assert forall|j: int| is_mark(a, j, n) implies is_mark(s, j, n) by {}
    assert forall|j: int| is_mark(b, j, n) implies is_mark(s, #[trigger] (a.len() + 1 + j), n) by {}
    if named(a, n) { let j = choose|j: int| is_mark(a, j, n); assert(is_mark(s, j, n)); }
    if named(b, n) { let j = choose|j: int| is_mark(b, j, n); assert(is_mark(s, a.len() + 1 + j, n)); }
    if x.1 == Some(n) { assert(is_mark(s, a.len() as int, n)); }
    assert forall|j: int| #[trigger] is_mark(s, j, n) implies is_mark(a, j, n) || (j == a.len() && x.1 == Some(n)) || is_mark(b, j - a.len() - 1, n) by {}
    if named(s, n) { let j = choose|j: int| is_mark(s, j, n); }
}
pub proof fn lemma_names<E>(t: Tree<TreeData<E, Names>>, lev: u32, n: Option<Name>, m: Names, nm: Name)
    requires okt(Some(t)), side_ok(Some(t.data()), lev, n, m)
    ensures m.names().contains(nm) == (named(cin(Some(t)), nm) || n == Some(nm))
    decreases t
{
    lemma_tree(t);
    let c = cin(Some(t));
    match t.data() {
        TreeData::Branch(l, r) => {
            lemma_names(t.lb()->0, t.level, t.name, l, nm);
            lemma_names(t.rb()->0, t.level, t.name, r, nm);
            lemma_mark_cat(cin(t.lb()), cnode(t), cin(t.rb()), nm);
        },
        _ => {
            assert(cin(t.lb()) =~= Seq::empty()); assert(cin(t.rb()) =~= Seq::empty());
            assert(c =~= seq![cnode(t)]);
            if named(c, nm) { let j = choose|j: int| is_mark(c, j, nm); assert(c[j] == cnode(t)); }
        },
    }
}
/// the number of elements before node j
pub open spec fn before<E>(s: Nodes<E>, j: int) -> int { els(s.take(j)).len() as int }
pub open spec fn once<E>(s: Nodes<E>, j: int, n: Name) -> bool { is_mark(s, j, n) && forall|i: int| #[trigger] is_mark(s, i, n) ==> i == j }
pub proof fn lemma_name_pos<E>(t: Tree<TreeData<E, Names>>, j: int, nm: Name)
    requires okt(Some(t)), once(cin(Some(t)), j, nm)
    ensures freq(Some(t), Position::Center(nm)), fpos(Some(t), Position::Center(nm)) == Some(before(cin(Some(t)), j))
    decreases t
{
    lemma_tree(t); els_hint::<E>();
    let c = cin(Some(t)); let a = cin(t.lb()); let b = cin(t.rb());
    match t.data() {
        TreeData::Branch(l, r) => {
            lemma_names(t.lb()->0, t.level, t.name, l, nm);
            lemma_names(t.rb()->0, t.level, t.name, r, nm);
            lemma_mark_cat(a, cnode(t), b, nm);
            assert(c == a + seq![cnode(t)] + b);
            if named(a, nm) { let i = choose|i: int| is_mark(a, i, nm); assert(is_mark(c, i, nm)); assert(i == j); }
            if named(b, nm) { let i = choose|i: int| is_mark(b, i, nm); assert(is_mark(c, a.len() + 1 + i, nm)); assert(a.len() + 1 + i == j); }
            if j < a.len() {
                assert(is_mark(a, j, nm));
                assert forall|i: int| #[trigger] is_mark(a, i, nm) implies i == j by { assert(is_mark(c, i, nm)); }
                assert(c.take(j) =~= a.take(j));
                lemma_name_pos(t.lb()->0, j, nm);
                assert(t.name != Some(nm)) by { if t.name == Some(nm) { assert(is_mark(c, a.len() as int, nm)); } }
            } else if j == a.len() {
                assert(c.take(j) =~= a);
            } else {
                let k = j - a.len() - 1;
                assert(is_mark(b, k, nm));
                assert forall|i: int| #[trigger] is_mark(b, i, nm) implies i == k by { assert(is_mark(c, a.len() + 1 + i, nm)); }
                assert(c.take(j) =~= a + seq![cnode(t)] + b.take(k));
                lemma_name_pos(t.rb()->0, k, nm);
                assert(t.name != Some(nm)) by { if t.name == Some(nm) { assert(is_mark(c, a.len() as int, nm)); } }
                assert(els(c.take(j)) =~= els(a) + els(b.take(k)));
            }
        },
        _ => {
            assert(a =~= Seq::empty()); assert(b =~= Seq::empty());
            assert(c =~= seq![cnode(t)]);
            assert(c[j] == cnode(t));
        },
    }
}
/// a name on exactly one branch puts the cursor at that branch's boundary;
/// a name on none is refused when there is a branch at all
pub proof fn lemma_focus_name<E>(s: RazTree<E, Names>, nm: Name, res: Option<Raz<E, Names>>)
    requires s.wf(), focus_post(s, Position::Center(nm), res), s.tree is Some
    ensures
        forall|j: int| #[trigger] once(cin(s.tree), j, nm) ==> freq(s.tree, Position::Center(nm)) && res is Some
            && res->0.left() == els(cin(s.tree).take(j)) && res->0.right() == els(cin(s.tree).skip(j)),
        !named(cin(s.tree), nm) && s.tree->0.data() is Branch ==> freq(s.tree, Position::Center(nm)) && res is None,
{
    let t = s.tree->0; let c = cin(s.tree);
    els_hint::<E>(); lemma_tree(t);
    assert forall|j: int| #[trigger] once(c, j, nm) implies freq(s.tree, Position::Center(nm)) && res is Some
            && res->0.left() == els(c.take(j)) && res->0.right() == els(c.skip(j)) by {
        lemma_name_pos(t, j, nm);
        assert(c =~= c.take(j) + c.skip(j));
        let z = res->0; let k = before(c, j);
        assert(els(c.take(j)) + els(c.skip(j)) == s.elems());
        assert(z.left() =~= els(c.take(j)));
        assert(z.right() =~= els(c.skip(j)));
    }
    if !named(c, nm) && t.data() is Branch {
        let l = t.data()->Branch_0; let r = t.data()->Branch_1;
        lemma_names(t.lb()->0, t.level, t.name, l, nm);
        lemma_names(t.rb()->0, t.level, t.name, r, nm);
        lemma_mark_cat(cin(t.lb()), cnode(t), cin(t.rb()), nm);
    }
}
%raw
// ---- unfocusing
/// a cursor over a sound tree
pub open spec fn gd<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, canon: bool) -> bool {
    c.chained() && c.vv() && c.ok() && c.tree is Some && pos(c.content()) && (canon ==> c.lev())
}
pub open spec fn cc<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> Nodes<E> { c.content() }
/// a branch, and a leaf made from a section
pub open spec fn brn<E>(lev: u32, n: Option<Name>) -> Nodes<E> { seq![(lev, n, None::<Seq<E>>)] }
pub open spec fn lfn<E>(n: Option<Name>, s: Seq<E>) -> Nodes<E> { seq![(0u32, n, Some(s))] }
pub open spec fn rooted<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, canon: bool) -> bool {
    c.tree is Some && okt(c.tree) && cin(c.tree) == cc(c) && pos(cin(c.tree)) && (canon ==> canonical(c.tree))
}
pub open spec fn gup<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, canon: bool) -> bool {
    gd(c1, canon) && cc(c1) == cc(c0) && (r == UpResult::Fail ==> rooted(c1, canon)) && (r != UpResult::Fail ==> c1.depth() < c0.depth())
}
pub proof fn lemma_gup<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, canon: bool)
    requires up_post(c0, c1, r), gd(c0, canon)
    ensures gup(c0, c1, r, canon)
{
    lemma_up(c0, c1, r);
    if r == UpResult::Fail { assert(c1.content() =~= cin(c1.tree)); }
}
pub open spec fn gj<E, M: RazMeta<E>>(l: Cursor<TreeData<E, M>>, level: u32, name: Option<Name>, r: Cursor<TreeData<E, M>>, res: Cursor<TreeData<E, M>>, canon: bool) -> bool {
    gd(res, canon) && cc(res) == cc(l) + brn(level, name) + cc(r) && cc(res) == cc(l) + (brn(level, name) + cc(r))
}
pub proof fn lemma_gjoin<E, M: RazMeta<E>>(l: Cursor<TreeData<E, M>>, level: u32, name: Option<Name>, r: Cursor<TreeData<E, M>>, res: Cursor<TreeData<E, M>>, canon: bool)
    requires join_post(l, level, name, None, r, res), gd(l, canon), gd(r, canon), level >= 1
    ensures gj(l, level, name, r, res, canon)
{
    els_hint::<E>(); pos_hint::<E>();
    assert(cc(res) =~= cc(l) + (brn(level, name) + cc(r)));
}
pub proof fn lemma_gfrom<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, c: Cursor<TreeData<E, M>>, canon: bool)
    requires from_post(t, c), okt(Some(t)), pos(cin(Some(t))), canon ==> canonical(Some(t))
    ensures gd(c, canon), cc(c) == cin(Some(t))
{
    from_hint(t);
    assert(c.ok());
    lemma_c_valid(c);
}
pub open spec fn leafy<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>) -> bool { pin(t) && t.level == 0 && t.lb() is None && t.rb() is None && t.data() is Leaf && t.data()->Leaf_0@.len() > 0 }
pub proof fn unfocus_hint<E, M: RazMeta<E>>(canon: bool)
    ensures
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult| #![trigger up_post(c0, c1, r), gd(c0, canon)]
            up_post(c0, c1, r) && gd(c0, canon) ==> gup(c0, c1, r, canon),
        forall|l: Cursor<TreeData<E, M>>, level: u32, name: Option<Name>, r: Cursor<TreeData<E, M>>, res: Cursor<TreeData<E, M>>| #![trigger join_post(l, level, name, None::<Seq<E>>, r, res), gd(l, canon), gd(r, canon)]
            join_post(l, level, name, None::<Seq<E>>, r, res) && gd(l, canon) && gd(r, canon) && level >= 1 ==> gj(l, level, name, r, res, canon),
        forall|t: Tree<TreeData<E, M>>, c: Cursor<TreeData<E, M>>| #[trigger] from_post(t, c) && leafy(t) ==> gd(c, canon) && cc(c) == lfn(t.name, t.data()->Leaf_0@),
        forall|t: Tree<TreeData<E, M>>, c: Cursor<TreeData<E, M>>| #[trigger] from_post(t, c) && okt(Some(t)) && pos(cin(Some(t))) && (canon ==> canonical(Some(t))) ==> gd(c, canon) && cc(c) == cin(Some(t)),
        forall|c: Cursor<TreeData<E, M>>| #[trigger] gd(c, canon) ==> c.vv() && c.chained(),
{
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] up_post(c0, c1, r) && #[trigger] gd(c0, canon) implies gup(c0, c1, r, canon) by { lemma_gup(c0, c1, r, canon); }
    assert forall|l: Cursor<TreeData<E, M>>, level: u32, name: Option<Name>, r: Cursor<TreeData<E, M>>, res: Cursor<TreeData<E, M>>|
        #[trigger] join_post(l, level, name, None::<Seq<E>>, r, res) && #[trigger] gd(l, canon) && #[trigger] gd(r, canon) && level >= 1 implies gj(l, level, name, r, res, canon) by { lemma_gjoin(l, level, name, r, res, canon); }
    assert forall|t: Tree<TreeData<E, M>>, c: Cursor<TreeData<E, M>>| #[trigger] from_post(t, c) && leafy(t) implies gd(c, canon) && cc(c) == lfn(t.name, t.data()->Leaf_0@) by {
        lemma_leaf(t, t.name, t.data()->Leaf_0@); lemma_gfrom(t, c, canon);
    }
    assert forall|t: Tree<TreeData<E, M>>, c: Cursor<TreeData<E, M>>| #[trigger] from_post(t, c) && okt(Some(t)) && pos(cin(Some(t))) && (canon ==> canonical(Some(t))) implies gd(c, canon) && cc(c) == cin(Some(t)) by {
        lemma_gfrom(t, c, canon);
    }
}
/// a side cursor of a zipper whose levels are all right
pub open spec fn lgood<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, canon: bool) -> bool { lside(c) && pos(lseq(c.lf())) && (canon ==> llev(c.lf())) }
pub open spec fn rgood<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>, canon: bool) -> bool { rside(c) && pos(rseq(c.rf())) && (canon ==> rlev(c.rf())) }
pub open spec fn lnd<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> Nodes<E> { lseq(c.lf()) }
pub open spec fn rnd<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> Nodes<E> { rseq(c.rf()) }
/// the same without the branch next to the cursor
pub open spec fn lcut<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> Nodes<E> { lcutf(c.lf()) }
pub open spec fn rcut<E, M: RazMeta<E>>(c: Cursor<TreeData<E, M>>) -> Nodes<E> { rcutf(c.rf()) }
pub open spec fn lstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, canon: bool) -> bool {
    if r == UpResult::Fail { c1.same(c0) && c0.lf().len() == 0 && lnd(c0) == Nodes::<E>::empty() && lnd(c1) == lnd(c0) && lgood(c1, canon) } else {
        lgood(c1, canon) && c1.tree is Some && c1.tree->0.level >= 1 && c1.tree->0.lb() is Some && okt(c1.tree->0.lb()) && pos(cin(c1.tree->0.lb()))
        && (canon ==> canonical(c1.tree->0.lb())) && c0.lf().len() > 0
        && lcut(c0) == lnd(c1) + cin(c1.tree->0.lb()) && lnd(c0) == lcut(c0) + brn(c1.tree->0.level, c1.tree->0.name)
    }
}
pub open spec fn rstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, canon: bool) -> bool {
    if r == UpResult::Fail { c1.same(c0) && c0.rf().len() == 0 && rnd(c0) == Nodes::<E>::empty() && rnd(c1) == rnd(c0) && rgood(c1, canon) } else {
        rgood(c1, canon) && c1.tree is Some && c1.tree->0.level >= 1 && c1.tree->0.rb() is Some && okt(c1.tree->0.rb()) && pos(cin(c1.tree->0.rb()))
        && (canon ==> canonical(c1.tree->0.rb())) && c0.rf().len() > 0
        && rcut(c0) == cin(c1.tree->0.rb()) + rnd(c1) && rnd(c0) == brn(c1.tree->0.level, c1.tree->0.name) + rcut(c0)
    }
}
pub proof fn lemma_lstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, canon: bool)
    requires up_post(c0, c1, r), lgood(c0, canon)
    ensures lstep(c0, c1, r, canon)
{
    lside_hint(c0); lemma_forests(c0.lf()); lemma_up(c0, c1, r);
    if r != UpResult::Fail {
        let u = c0.lf().last().1;
        if canon {
            assert(levf(c0.lf().drop_last(), u.lb(), Seq::empty()));
            assert(llev(c1.lf()));
        }
        assert(okf(c0.lf().drop_last()));
        assert(lside(c1));
        assert(c0.lf()[c0.lf().len() - 1].1 == u); assert(okt(Some(u))); lemma_tree(u); assert(u.data().core() is None);
        assert(lseq(c0.lf()) == lseq(c0.lf().drop_last()) + cin(u.lb()) + seq![cnode(u)]);
    } else { assert(lseq(c0.lf()) =~= Seq::empty()); }
}
pub proof fn lemma_rstep<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, canon: bool)
    requires up_post(c0, c1, r), rgood(c0, canon)
    ensures rstep(c0, c1, r, canon)
{
    rside_hint(c0); lemma_forests(c0.rf()); lemma_up(c0, c1, r);
    if r != UpResult::Fail {
        let u = c0.rf().last().1;
        if canon {
            assert(levf(Seq::empty(), u.rb(), c0.rf().drop_last()));
            assert(rlev(c1.rf()));
        }
        assert(okf(c0.rf().drop_last()));
        assert(rside(c1));
        assert(c0.rf()[c0.rf().len() - 1].1 == u); assert(okt(Some(u))); lemma_tree(u); assert(u.data().core() is None);
        assert(rseq(c0.rf()) =~= seq![cnode(u)] + (cin(u.rb()) + rseq(c0.rf().drop_last())));
    } else { assert(rseq(c0.rf()) =~= Seq::empty()); }
}
pub proof fn lemma_ldown<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool, canon: bool)
    requires up_post(c0, c1, r), lgood(c0, canon), r != UpResult::Fail, down_post(c1, true, Force::Discard, c2, b)
    ensures gd(c2, canon), cc(c2) == lcut(c0)
{
    lside_hint(c0); lemma_lstep(c0, c1, r, canon);
    els_hint::<E>(); pos_hint::<E>();
    assert(lwalk(c2, lcutf(c0.lf()), pos(lseq(c0.lf())), llev(c0.lf())));
    assert(c2.content() =~= lseq(c2.lf()) + cin(c2.tree));
    lemma_c_valid(c2);
}
pub proof fn lemma_rdown<E, M: RazMeta<E>>(c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool, canon: bool)
    requires up_post(c0, c1, r), rgood(c0, canon), r != UpResult::Fail, down_post(c1, false, Force::Discard, c2, b)
    ensures gd(c2, canon), cc(c2) == rcut(c0)
{
    rside_hint(c0); lemma_rstep(c0, c1, r, canon);
    els_hint::<E>(); pos_hint::<E>();
    assert(rwalk(c2, rcutf(c0.rf()), pos(rseq(c0.rf())), rlev(c0.rf())));
    assert(c2.content() =~= cin(c2.tree) + rseq(c2.rf()));
    lemma_c_valid(c2);
}
pub proof fn unside_hint<E, M: RazMeta<E>>(canon: bool)
    ensures
        forall|c: Cursor<TreeData<E, M>>| #[trigger] lgood(c, canon) ==> c.vv(),
        forall|c: Cursor<TreeData<E, M>>| #[trigger] rgood(c, canon) ==> c.vv(),
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult| #![trigger up_post(c0, c1, r), lgood(c0, canon)]
            up_post(c0, c1, r) && lgood(c0, canon) ==> lstep(c0, c1, r, canon),
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult| #![trigger up_post(c0, c1, r), rgood(c0, canon)]
            up_post(c0, c1, r) && rgood(c0, canon) ==> rstep(c0, c1, r, canon),
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool| #![trigger up_post(c0, c1, r), down_post(c1, true, Force::Discard, c2, b), lgood(c0, canon)]
            up_post(c0, c1, r) && lgood(c0, canon) && r != UpResult::Fail && down_post(c1, true, Force::Discard, c2, b) ==> gd(c2, canon) && cc(c2) == lcut(c0),
        forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool| #![trigger up_post(c0, c1, r), down_post(c1, false, Force::Discard, c2, b), rgood(c0, canon)]
            up_post(c0, c1, r) && rgood(c0, canon) && r != UpResult::Fail && down_post(c1, false, Force::Discard, c2, b) ==> gd(c2, canon) && cc(c2) == rcut(c0),
{
    assert forall|c: Cursor<TreeData<E, M>>| #[trigger] lgood(c, canon) implies c.vv() by { lside_hint(c); }
    assert forall|c: Cursor<TreeData<E, M>>| #[trigger] rgood(c, canon) implies c.vv() by { rside_hint(c); }
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] up_post(c0, c1, r) && #[trigger] lgood(c0, canon) implies lstep(c0, c1, r, canon) by { lemma_lstep(c0, c1, r, canon); }
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] up_post(c0, c1, r) && #[trigger] rgood(c0, canon) implies rstep(c0, c1, r, canon) by { lemma_rstep(c0, c1, r, canon); }
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool|
            #[trigger] up_post(c0, c1, r) && #[trigger] lgood(c0, canon) && r != UpResult::Fail && #[trigger] down_post(c1, true, Force::Discard, c2, b) implies gd(c2, canon) && cc(c2) == lcut(c0) by { lemma_ldown(c0, c1, r, c2, b, canon); }
    assert forall|c0: Cursor<TreeData<E, M>>, c1: Cursor<TreeData<E, M>>, r: UpResult, c2: Cursor<TreeData<E, M>>, b: bool|
            #[trigger] up_post(c0, c1, r) && #[trigger] rgood(c0, canon) && r != UpResult::Fail && #[trigger] down_post(c1, false, Force::Discard, c2, b) implies gd(c2, canon) && cc(c2) == rcut(c0) by { lemma_rdown(c0, c1, r, c2, b, canon); }
}
/// the name unfocusing gives the branch of an archive point
pub open spec fn nmx(n: Option<Name>, nt: Name) -> Option<Name> { match n { Some(n) => Some(spec_name_pair(n, nt)), None => None } }
pub type Arch<E> = Seq<(Option<Name>, (u32, Vec<E>))>;
/// the archived sections of the left (right) stack as leaves, each followed (preceded) by the branch of its archive point
pub open spec fn lnodes<E>(a: Arch<E>, nt: Name) -> Nodes<E>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else { lnodes(a.skip(1), nt) + lfn(None, a[0].1.1@) + brn(a[0].1.0, nmx(a[0].0, nt)) }
}
pub open spec fn rnodes<E>(a: Arch<E>, nt: Name) -> Nodes<E>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else { brn(a[0].1.0, nmx(a[0].0, nt)) + lfn(None, a[0].1.1@.reverse()) + rnodes(a.skip(1), nt) }
}
/// both stacks: the active sections are one leaf; if there is none, the archived section next to the cursor is it,
/// and its archive point, with nothing between it and the cursor, is dropped
pub open spec fn umid<E>(l: stack::AStack<E, u32>, r: stack::AStack<E, u32>, nt: Name) -> Nodes<E> {
    if l.cur().len() > 0 || r.cur().len() > 0 { lnodes(l.arch(), nt) + lfn(None, l.cur() + r.cur().reverse()) + rnodes(r.arch(), nt) }
    else if l.arch().len() > 0 { lnodes(l.arch().skip(1), nt) + lfn(None, l.arch()[0].1.1@) + rnodes(r.arch(), nt) }
    else if r.arch().len() > 0 { lfn(None, r.arch()[0].1.1@.reverse()) + rnodes(r.arch().skip(1), nt) }
    else { Seq::empty() }
}
/// the nodes of the tree a zipper unfocuses to: everything of the trees on both sides stays, except the branch
/// next to a cursor that has nothing in its stacks
pub open spec fn unf<E, M: RazMeta<E>>(z: Raz<E, M>, nt: Name) -> Nodes<E> {
    if !(z.l_stack.empty() && z.r_stack.empty()) { lnd(z.l_forest) + umid(z.l_stack, z.r_stack, nt) + rnd(z.r_forest) }
    else if z.l_forest.lf().len() > 0 { lcut(z.l_forest) + rnd(z.r_forest) }
    else if z.r_forest.rf().len() > 0 { rcut(z.r_forest) }
    else { Seq::empty() }
}
pub open spec fn unfs<E, M: RazMeta<E>>(z: Raz<E, M>, nt: Name, g: Nodes<E>) -> bool { g == unf(z, nt) }
#[verifier::spinoff_prover]
pub proof fn lemma_lnodes<E>(a: Arch<E>, nt: Name)
    ensures els(lnodes(a, nt)) == stack::arch_elems(a), els(rnodes(a, nt)) == stack::arch_elems(a).reverse(),
    decreases a.len()
{
    if a.len() > 0 {
        lemma_lnodes(a.skip(1), nt);
        let (x, y) = (a[0].1.1@, stack::arch_elems(a.skip(1)));
        let b = (a[0].1.0, nmx(a[0].0, nt), None::<Seq<E>>);
        assert(brn::<E>(a[0].1.0, nmx(a[0].0, nt)) == seq![b]);
        lemma_els_one((0u32, None::<Name>, Some(x))); lemma_els_one((0u32, None::<Name>, Some(x.reverse()))); lemma_els_one(b);
        lemma_els3(lnodes(a.skip(1), nt), lfn(None, x), seq![b]);
        lemma_els3(seq![b], lfn(None, x.reverse()), rnodes(a.skip(1), nt));
        assert(els(lnodes(a, nt)) =~= y + x);
        assert((y + x).reverse() =~= x.reverse() + y.reverse());
        assert(els(rnodes(a, nt)) =~= x.reverse() + y.reverse());
        assert(stack::arch_elems(a) =~= y + x);
    } else { assert(stack::arch_elems(a).reverse() =~= Seq::empty()); }
}
pub proof fn lemma_umid<E>(l: stack::AStack<E, u32>, r: stack::AStack<E, u32>, nt: Name)
    ensures els(umid(l, r, nt)) == l.elems() + r.elems().reverse()
{
    lemma_lnodes(l.arch(), nt); lemma_lnodes(r.arch(), nt);
    let (la, ra) = (stack::arch_elems(l.arch()), stack::arch_elems(r.arch()));
    assert((ra + r.cur()).reverse() =~= r.cur().reverse() + ra.reverse());
    let c = l.cur() + r.cur().reverse();
    if l.cur().len() > 0 || r.cur().len() > 0 {
        lemma_els3(lnodes(l.arch(), nt), lfn(None, c), rnodes(r.arch(), nt));
        lemma_els_one((0u32, None::<Name>, Some(c)));
        assert(els(umid(l, r, nt)) =~= l.elems() + r.elems().reverse());
    } else if l.arch().len() > 0 {
        lemma_lnodes(l.arch().skip(1), nt);
        lemma_els3(lnodes(l.arch().skip(1), nt), lfn(None, l.arch()[0].1.1@), rnodes(r.arch(), nt));
        lemma_els_one((0u32, None::<Name>, Some(l.arch()[0].1.1@)));
        assert(els(umid(l, r, nt)) =~= l.elems() + r.elems().reverse());
    } else if r.arch().len() > 0 {
        let v = r.arch()[0].1.1@; let rest = stack::arch_elems(r.arch().skip(1));
        lemma_lnodes(r.arch().skip(1), nt);
        lemma_els_cat(lfn(None, v.reverse()), rnodes(r.arch().skip(1), nt));
        lemma_els_one((0u32, None::<Name>, Some(v.reverse())));
        assert((rest + v).reverse() =~= v.reverse() + rest.reverse());
        assert(els(umid(l, r, nt)) =~= l.elems() + r.elems().reverse());
    } else {
        assert(l.elems() + r.elems().reverse() =~= Seq::empty());
    }
}
pub proof fn lemma_unf<E, M: RazMeta<E>>(z: Raz<E, M>, nt: Name)
    requires z.wf()
    ensures els(unf(z, nt)) == z.left() + z.right(),
{
    let (l, r) = (z.l_stack, z.r_stack);
    let (lf, rf) = (z.l_forest.lf(), z.r_forest.rf());
    lemma_umid(l, r, nt);
    lemma_forests(lf); lemma_forests(rf);
    let u = umid(l, r, nt);
    if !(l.empty() && r.empty()) {
        lemma_els3(lseq(lf), u, rseq(rf));
        assert(z.left() + z.right() =~= els(lseq(lf)) + (l.elems() + r.elems().reverse()) + els(rseq(rf)));
    } else {
        assert(l.elems() =~= Seq::empty()); assert(r.elems().reverse() =~= Seq::empty());
        assert(z.left() + z.right() =~= els(lseq(lf)) + els(rseq(rf)));
        if lf.len() > 0 {
            lemma_els3(lseq(lf.drop_last()), cin(lf.last().1.lb()), rseq(rf));
        } else if rf.len() > 0 {
            lemma_els_cat(cin(rf.last().1.rb()), rseq(rf.drop_last()));
            assert(els(lseq(lf)) + els(rseq(rf)) =~= els(rseq(rf)));
        } else { assert(els(lseq(lf)) + els(rseq(rf)) =~= Seq::empty()); }
    }
}
/// a stack with its top section opened, and the level it was archived with
pub open spec fn sj<E>(s: stack::AStack<E, u32>, lev: Option<u32>) -> bool {
    s.wf() && slev(s) && (!s.empty() ==> s.cur().len() > 0 && lev is Some && lev->0 >= 1)
}
pub open spec fn sgood<E>(s: stack::AStack<E, u32>) -> bool { s.wf() && slev(s) }
/// taking one section off a stack
pub open spec fn na_facts<E>(s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>) -> bool {
    match res {
        None => s0.empty() && s1 == s0 && sj(s1, None),
        Some(p) => !s0.empty() && sgood(s1) && sj(s1, p.1) && (p.0@.len() > 0 ==> s1.elems().len() < s0.elems().len()) && (s0.cur().len() > 0 ==> p.0@.len() > 0)
            && p.0@ == s0.cur(),
    }
}
/// the nodes an opened stack still stands for: its sections, and the branch between it and the cursor
pub open spec fn lrem<E>(s: stack::AStack<E, u32>, lev: Option<u32>, nm: Option<Name>, nt: Name) -> Nodes<E> {
    if s.empty() { Seq::empty() } else { lnodes(s.arch(), nt) + lfn(None, s.cur()) + brn(lev->0, nm) }
}
pub open spec fn rrem<E>(s: stack::AStack<E, u32>, lev: Option<u32>, nm: Option<Name>, nt: Name) -> Nodes<E> {
    if s.empty() { Seq::empty() } else { brn(lev->0, nm) + lfn(None, s.cur().reverse()) + rnodes(s.arch(), nt) }
}
/// what the stacks and the nodes between them hold together
pub open spec fn midw<E>(l: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, nt: Name, mid: Nodes<E>) -> bool {
    lrem(l, ll, ln, nt) + e + rrem(r, rl, rn, nt) == mid
}
pub open spec fn rmid<E>(e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, nt: Name, mid: Nodes<E>) -> bool {
    e + rrem(r, rl, rn, nt) == mid
}
pub open spec fn lev_of<E>(res: Option<(Vec<E>, Option<u32>)>) -> Option<u32> { match res { Some(p) => p.1, None => None } }
pub open spec fn nm_of<E>(s: stack::AStack<E, u32>, nt: Name) -> Option<Name> { nmx(stack::top_name(s.arch()), nt) }
/// taking a section off: what it stands for and what is left
pub proof fn lemma_rem<E>(s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>, nt: Name)
    requires stack::na_post(s0, s1, res), sgood(s0)
    ensures lnodes(s0.arch(), nt) == lrem(s1, lev_of(res), nm_of(s0, nt), nt), rnodes(s0.arch(), nt) == rrem(s1, lev_of(res), nm_of(s0, nt), nt),
{
    if s0.arch().len() == 0 { assert(s1.empty()); assert(lnodes(s0.arch(), nt) =~= Seq::empty()); assert(rnodes(s0.arch(), nt) =~= Seq::empty()); }
    else { assert(s0.arch()[0].1.1@.len() > 0); }
}
pub open spec fn lnext<E>(s0: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, s1: stack::AStack<E, u32>, p: (Vec<E>, Option<u32>), e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, nt: Name, mid: Nodes<E>) -> bool {
    midw(s1, p.1, nm_of(s0, nt), lfn(None, p.0@) + brn(ll->0, ln) + e, r, rl, rn, nt, mid)
}
pub open spec fn rnext<E>(e: Nodes<E>, s0: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, s1: stack::AStack<E, u32>, p: (Vec<E>, Option<u32>), nt: Name, mid: Nodes<E>) -> bool {
    rmid(e + brn(rl->0, rn) + lfn(None, p.0@.reverse()), s1, p.1, nm_of(s0, nt), nt, mid)
}
pub proof fn lemma_lnext<E>(s0: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, s1: stack::AStack<E, u32>, p: (Vec<E>, Option<u32>), e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, nt: Name, mid: Nodes<E>)
    requires stack::na_post(s0, s1, Some(p)), sgood(s0), midw(s0, ll, ln, e, r, rl, rn, nt, mid)
    ensures lnext(s0, ll, ln, s1, p, e, r, rl, rn, nt, mid)
{
    lemma_rem(s0, s1, Some(p), nt);
    let x = lnodes(s0.arch(), nt);
    assert(x + lfn(None, p.0@) + brn(ll->0, ln) + e + rrem(r, rl, rn, nt) =~= x + (lfn(None, p.0@) + brn(ll->0, ln) + e) + rrem(r, rl, rn, nt));
}
pub proof fn lemma_rnext<E>(e: Nodes<E>, s0: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, s1: stack::AStack<E, u32>, p: (Vec<E>, Option<u32>), nt: Name, mid: Nodes<E>)
    requires stack::na_post(s0, s1, Some(p)), sgood(s0), rmid(e, s0, rl, rn, nt, mid)
    ensures rnext(e, s0, rl, rn, s1, p, nt, mid)
{
    lemma_rem(s0, s1, Some(p), nt);
    let x = rnodes(s0.arch(), nt);
    assert(e + (brn(rl->0, rn) + lfn(None, p.0@.reverse()) + x) =~= e + brn(rl->0, rn) + lfn(None, p.0@.reverse()) + x);
}
/// the leaf at the cursor, once both stacks have been opened
pub open spec fn opened<E>(l0: stack::AStack<E, u32>, l1: stack::AStack<E, u32>, lr: Option<(Vec<E>, Option<u32>)>, r0: stack::AStack<E, u32>, r1: stack::AStack<E, u32>, rr: Option<(Vec<E>, Option<u32>)>, nt: Name, mid: Nodes<E>) -> bool {
    let lc = l0.cur(); let rc = r0.cur();
    &&& lc.len() > 0 && rc.len() > 0 ==> midw(l1, lev_of(lr), nm_of(l0, nt), lfn(None, lc + rc.reverse()), r1, lev_of(rr), nm_of(r0, nt), nt, mid)
    &&& lc.len() > 0 && rc.len() == 0 ==> midw(l1, lev_of(lr), nm_of(l0, nt), lfn(None, lc), r1, lev_of(rr), nm_of(r0, nt), nt, mid)
    &&& lc.len() == 0 && rc.len() > 0 ==> midw(l1, lev_of(lr), nm_of(l0, nt), lfn(None, rc.reverse()), r1, lev_of(rr), nm_of(r0, nt), nt, mid)
    &&& (lc.len() == 0 && rc.len() == 0 ==> forall|l2: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(l1, l2, res) && res is Some
            ==> midw(l2, (res->0).1, nm_of(l1, nt), lfn(None, (res->0).0@), r1, lev_of(rr), nm_of(r0, nt), nt, mid))
    &&& (lc.len() == 0 && rc.len() == 0 && l1.empty() ==> forall|r2: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(r1, r2, res) && res is Some
            ==> midw(l1, lev_of(lr), nm_of(l0, nt), lfn(None, (res->0).0@.reverse()), r2, (res->0).1, nm_of(r1, nt), nt, mid))
    &&& (lc.len() == 0 && rc.len() == 0 && l1.empty() && r1.empty() ==> l0.empty() && r0.empty())
    &&& (l0.empty() && r0.empty() ==> l1.empty() && r1.empty())
}
pub proof fn lemma_opened<E>(l0: stack::AStack<E, u32>, l1: stack::AStack<E, u32>, lr: Option<(Vec<E>, Option<u32>)>, r0: stack::AStack<E, u32>, r1: stack::AStack<E, u32>, rr: Option<(Vec<E>, Option<u32>)>, nt: Name, mid: Nodes<E>)
    requires stack::na_post(l0, l1, lr), stack::na_post(r0, r1, rr), sgood(l0), sgood(r0), mid == umid(l0, r0, nt)
    ensures opened(l0, l1, lr, r0, r1, rr, nt, mid)
{
    lemma_rem(l0, l1, lr, nt); lemma_rem(r0, r1, rr, nt);
    let lc = l0.cur(); let rc = r0.cur();
    if lc.len() == 0 { assert(lc + rc.reverse() =~= rc.reverse()); }
    if rc.len() == 0 { assert(lc + rc.reverse() =~= lc); }
    if lc.len() == 0 && rc.len() == 0 {
        assert(sgood(l1) && sgood(r1)) by {
            assert forall|i: int| 0 <= i < l1.arch().len() implies (#[trigger] l1.arch()[i]).1.0 >= 1 by { if l0.arch().len() > 0 { assert(l1.arch()[i] == l0.arch()[i + 1]); } }
            assert forall|i: int| 0 <= i < r1.arch().len() implies (#[trigger] r1.arch()[i]).1.0 >= 1 by { if r0.arch().len() > 0 { assert(r1.arch()[i] == r0.arch()[i + 1]); } }
        }
        assert forall|l2: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(l1, l2, res) && res is Some
            implies midw(l2, (res->0).1, nm_of(l1, nt), lfn(None, (res->0).0@), r1, lev_of(rr), nm_of(r0, nt), nt, mid) by { lemma_rem(l1, l2, res, nt); if l0.arch().len() > 0 { assert(l0.arch()[0].1.1@.len() > 0); } }
        if l1.empty() {
            assert forall|r2: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(r1, r2, res) && res is Some
                implies midw(l1, lev_of(lr), nm_of(l0, nt), lfn(None, (res->0).0@.reverse()), r2, (res->0).1, nm_of(r1, nt), nt, mid) by {
                lemma_rem(r1, r2, res, nt); if l0.arch().len() > 0 { assert(l0.arch()[0].1.1@.len() > 0); }
                if r0.arch().len() > 0 { assert(r0.arch()[0].1.1@.len() > 0); }
                assert(lrem(l1, lev_of(lr), nm_of(l0, nt), nt) + lfn(None, (res->0).0@.reverse()) + rrem(r2, (res->0).1, nm_of(r1, nt), nt) =~= mid);
            }
            if r1.empty() {
                if l0.arch().len() > 0 { assert(l0.arch()[0].1.1@.len() > 0); }
                if r0.arch().len() > 0 { assert(r0.arch()[0].1.1@.len() > 0); }
            }
        }
    }
}
pub proof fn whole_hint<E>(l0: stack::AStack<E, u32>, r0: stack::AStack<E, u32>, nt: Name, mid: Nodes<E>)
    requires sgood(l0), sgood(r0), mid == umid(l0, r0, nt)
    ensures
        forall|s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(s0, s1, res) && sgood(s0) ==> na_facts(s0, s1, res),
        forall|l1: stack::AStack<E, u32>, lr: Option<(Vec<E>, Option<u32>)>, r1: stack::AStack<E, u32>, rr: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(l0, l1, lr) && #[trigger] stack::na_post(r0, r1, rr)
            ==> opened(l0, l1, lr, r0, r1, rr, nt, mid),
        forall|s0: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>, e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>|
            #![trigger stack::na_post(s0, s1, res), midw(s0, ll, ln, e, r, rl, rn, nt, mid)]
            stack::na_post(s0, s1, res) && sgood(s0) && midw(s0, ll, ln, e, r, rl, rn, nt, mid) && res is Some ==> lnext(s0, ll, ln, s1, res->0, e, r, rl, rn, nt, mid),
        forall|e: Nodes<E>, s0: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>|
            #![trigger stack::na_post(s0, s1, res), rmid(e, s0, rl, rn, nt, mid)]
            stack::na_post(s0, s1, res) && sgood(s0) && rmid(e, s0, rl, rn, nt, mid) && res is Some ==> rnext(e, s0, rl, rn, s1, res->0, nt, mid),
        forall|s: stack::AStack<E, u32>, lev: Option<u32>| #[trigger] sj(s, lev) ==> sgood(s),
        forall|l: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>|
            #[trigger] midw(l, ll, ln, e, r, rl, rn, nt, mid) && l.empty() ==> rmid(e, r, rl, rn, nt, mid),
        forall|e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>| #[trigger] rmid(e, r, rl, rn, nt, mid) && r.empty() ==> e == mid,
{
    assert forall|s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(s0, s1, res) && sgood(s0) implies na_facts(s0, s1, res) by {
        if !s0.empty() && s0.arch().len() > 0 {
            assert(s0.arch()[0].1.1@.len() > 0);
            assert forall|i: int| 0 <= i < s1.arch().len() implies (#[trigger] s1.arch()[i]).1.0 >= 1 by { assert(s1.arch()[i] == s0.arch()[i + 1]); }
        }
        stack::lemma_empty(s0); stack::lemma_empty(s1);
    }
    assert forall|l1: stack::AStack<E, u32>, lr: Option<(Vec<E>, Option<u32>)>, r1: stack::AStack<E, u32>, rr: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(l0, l1, lr) && #[trigger] stack::na_post(r0, r1, rr)
        implies opened(l0, l1, lr, r0, r1, rr, nt, mid) by { lemma_opened(l0, l1, lr, r0, r1, rr, nt, mid); }
    assert forall|s0: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>, e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>|
        #[trigger] stack::na_post(s0, s1, res) && sgood(s0) && #[trigger] midw(s0, ll, ln, e, r, rl, rn, nt, mid) && res is Some implies lnext(s0, ll, ln, s1, res->0, e, r, rl, rn, nt, mid) by { lemma_lnext(s0, ll, ln, s1, res->0, e, r, rl, rn, nt, mid); }
    assert forall|e: Nodes<E>, s0: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>|
        #[trigger] stack::na_post(s0, s1, res) && sgood(s0) && #[trigger] rmid(e, s0, rl, rn, nt, mid) && res is Some implies rnext(e, s0, rl, rn, s1, res->0, nt, mid) by { lemma_rnext(e, s0, rl, rn, s1, res->0, nt, mid); }
    assert forall|l: stack::AStack<E, u32>, ll: Option<u32>, ln: Option<Name>, e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>|
        #[trigger] midw(l, ll, ln, e, r, rl, rn, nt, mid) && l.empty() implies rmid(e, r, rl, rn, nt, mid) by { assert(Seq::empty() + e =~= e); }
    assert forall|e: Nodes<E>, r: stack::AStack<E, u32>, rl: Option<u32>, rn: Option<Name>| #[trigger] rmid(e, r, rl, rn, nt, mid) && r.empty() implies e == mid by { assert(e + Seq::empty() =~= e); }
}
/// three pieces make up the whole
pub open spec fn tot<E>(a: Nodes<E>, b: Nodes<E>, c: Nodes<E>, g: Nodes<E>) -> bool { a + b + c == g }
pub proof fn tot_hint<E, M: RazMeta<E>>(z: Raz<E, M>, g: Nodes<E>, nt: Name, canon: bool)
    requires g == unf(z, nt)
    ensures
        forall|a: Nodes<E>, b: Nodes<E>, c: Nodes<E>| #[trigger] tot(a, b, c, g) ==> (a + b) + c == g && (a.len() == 0 ==> b + c == g) && (c.len() == 0 ==> a + b == g)
            && (a.len() == 0 && c.len() == 0 ==> b == g) && (a.len() == 0 && b.len() == 0 && c.len() == 0 ==> g.len() == 0),
        !(z.l_stack.empty() && z.r_stack.empty()) ==> tot(lnd(z.l_forest), umid(z.l_stack, z.r_stack, nt), rnd(z.r_forest), g),
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] lstep(z.l_forest, c1, r, canon) && r != UpResult::Fail && z.l_stack.empty() && z.r_stack.empty()
            ==> tot(lnd(c1), cin(c1.tree->0.lb()), rnd(z.r_forest), g),
        forall|c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] rstep(z.r_forest, c1, r, canon) && r != UpResult::Fail && z.l_stack.empty() && z.r_stack.empty() && z.l_forest.lf().len() == 0
            ==> tot(Seq::empty(), cin(c1.tree->0.rb()), rnd(c1), g),
        z.l_stack.empty() && z.r_stack.empty() && z.l_forest.lf().len() == 0 && z.r_forest.rf().len() == 0 ==> g == Nodes::<E>::empty(),
{
    assert forall|a: Nodes<E>, b: Nodes<E>, c: Nodes<E>| #[trigger] tot(a, b, c, g) implies (a + b) + c == g && (a.len() == 0 ==> b + c == g) && (c.len() == 0 ==> a + b == g)
            && (a.len() == 0 && c.len() == 0 ==> b == g) && (a.len() == 0 && b.len() == 0 && c.len() == 0 ==> g.len() == 0) by {
        if a.len() == 0 { assert(a + b + c =~= b + c); }
        if c.len() == 0 { assert(a + b + c =~= a + b); if a.len() == 0 { assert(a + b =~= b); } }
    }
    assert forall|c1: Cursor<TreeData<E, M>>, r: UpResult| #[trigger] rstep(z.r_forest, c1, r, canon) && r != UpResult::Fail && z.l_stack.empty() && z.r_stack.empty() && z.l_forest.lf().len() == 0
            implies tot(Seq::empty(), cin(c1.tree->0.rb()), rnd(c1), g) by { assert(Seq::empty() + cin(c1.tree->0.rb()) =~= cin(c1.tree->0.rb())); }
}
pub proof fn none_hint<E, M: RazMeta<E>>()
    ensures okt(None::<Tree<TreeData<E, M>>>), canonical(None::<Tree<TreeData<E, M>>>), telems(None::<Tree<TreeData<E, M>>>).len() == 0, pos(cin(None::<Tree<TreeData<E, M>>>)),
        cin(None::<Tree<TreeData<E, M>>>) == Nodes::<E>::empty(),
{
    els_hint::<E>();
    assert(cin(None::<Tree<TreeData<E, M>>>) =~= Seq::empty());
}
%fn Raz::unfocus attr "#[verifier::rlimit(80)]" attr "#[verifier::spinoff_prover]"
    requires self.wf(), self.pos(),
    ensures res.wf(), res.pos(), res.elems() =~= self.left() + self.right(), self.canon() ==> res.canon(),
        exists|nt: Name| #[trigger] unfs(self, nt, cin(res.tree)),
%hide Raz::unfocus lseq,rseq,chain,vf,okf,levf,okt,vt,canonical,els,cin,pos,up_facts,down_facts,join_post,from_post,up_post,down_post,gd,cc,lside,rside,lgood,rgood,lnd,rnd,lcut,rcut,stack::arch_elems,llev,rlev,stack::na_post,sgood,midw,rmid,tot,slev,unf,umid,brn,lfn,stack::top_name
%ghost Raz::unfocus
    k = self.canon();
    mut nt = vstd::pervasive::arbitrary::<Name>();
    mut mid = vstd::pervasive::arbitrary::<Nodes<E>>();
    mut goal = vstd::pervasive::arbitrary::<Nodes<E>>();
%entry Raz::unfocus
    unfocus_hint::<E, M>(k); unside_hint::<E, M>(k); none_hint::<E, M>();
    assert(sgood(self.l_stack) && sgood(self.r_stack)) by { reveal(sgood); reveal(slev); }
    assert(lgood(self.l_forest, k) && rgood(self.r_forest, k)) by { reveal(lgood); reveal(rgood); }
%after Raz::unfocus name_of_string 0
    nt = __r;
    mid = umid(self.l_stack, self.r_stack, nt);
    goal = unf(self, nt);
    whole_hint::<E>(self.l_stack, self.r_stack, nt, mid); tot_hint::<E, M>(self, goal, nt, k);
    lemma_unf(self, nt);
    assert(unfs(self, nt, goal));
%loop Raz::unfocus 0
    invariant gd(cursor, k), sj(self_.l_stack, l_lev), sj(self_.r_stack, r_lev), self_.r_forest == self.r_forest, self_.l_forest == self.l_forest,
        midw(self_.l_stack, l_lev, l_nm, cc(cursor), self_.r_stack, r_lev, r_nm, nt, mid), next_nm == nm_of(self_.l_stack, nt),
    ensures rmid(cc(cursor), self_.r_stack, r_lev, r_nm, nt, mid),
    decreases self_.l_stack.elems().len(),
%loop Raz::unfocus 1
    invariant gd(cursor, k), sj(self_.r_stack, r_lev), self_.r_forest == self.r_forest, self_.l_forest == self.l_forest,
        rmid(cc(cursor), self_.r_stack, r_lev, r_nm, nt, mid), next_nm == nm_of(self_.r_stack, nt),
    ensures cc(cursor) == mid,
    decreases self_.r_stack.elems().len(),
%loop Raz::unfocus 2
    invariant gd(cursor, k), cc(cursor) == mid,
    ensures rooted(cursor, k), cc(cursor) == mid,
    decreases cursor.depth(),
%after Raz::unfocus from 0
    assert(tot(lnd(self_.l_forest), cc(__r), rnd(self_.r_forest), goal));
%loop Raz::unfocus 3
    invariant gd(join_cursor, k), cc(join_cursor) == goal,
    ensures rooted(join_cursor, k), cc(join_cursor) == goal,
    decreases join_cursor.depth(),
%raw
// ---- bottom-up folds
pub open spec fn tot1<E, R, I: Fn(&E) -> R>(init: I) -> bool { forall|e: &E| #[trigger] init.requires((e,)) }
pub open spec fn tot2<R, B: Fn(R, R) -> R>(bin: B) -> bool { forall|x: R, y: R| #[trigger] bin.requires((x, y)) }
pub open spec fn totn<R, N: Fn(R, u32, Option<Name>, R) -> R>(bin: N) -> bool { forall|x: R, l: u32, n: Option<Name>, y: R| #[trigger] bin.requires((x, l, n, y)) }
pub open spec fn totv<E, R, I: Fn(&Vec<E>) -> R>(init: I) -> bool { forall|e: &Vec<E>| #[trigger] init.requires((e,)) }
/// the user's function computes this mathematical function
pub open spec fn is1<E, R, I: Fn(&E) -> R>(init: I, g: spec_fn(E) -> R) -> bool { forall|e: &E, r: R| #[trigger] init.ensures((e,), r) ==> r == g(*e) }
pub open spec fn is2<R, B: Fn(R, R) -> R>(bin: B, h: spec_fn(R, R) -> R) -> bool { forall|x: R, y: R, r: R| #[trigger] bin.ensures((x, y), r) ==> r == h(x, y) }
pub open spec fn isn<R, N: Fn(R, u32, Option<Name>, R) -> R>(bin: N, h: spec_fn(R, u32, Option<Name>, R) -> R) -> bool {
    forall|x: R, l: u32, n: Option<Name>, y: R, r: R| #[trigger] bin.ensures((x, l, n, y), r) ==> r == h(x, l, n, y)
}
pub open spec fn isv<E, R, I: Fn(&Vec<E>) -> R>(init: I, g: spec_fn(Seq<E>) -> R) -> bool { forall|e: &Vec<E>, r: R| #[trigger] init.ensures((e,), r) ==> r == g(e@) }
pub open spec fn assoc<R>(h: spec_fn(R, R) -> R) -> bool { forall|x: R, y: R, z: R| #[trigger] h(h(x, y), z) == h(x, h(y, z)) }
/// the in-order fold of some elements
pub open spec fn fold1<E, R>(s: Seq<E>, g: spec_fn(E) -> R, h: spec_fn(R, R) -> R) -> R
    decreases s.len()
{
    if s.len() == 0 { arbitrary() } else if s.len() == 1 { g(s[0]) } else { h(fold1(s.drop_last(), g, h), g(s.last())) }
}
/// what folding the images of some elements gives, first to last
pub open spec fn leaf_rel<E, R, I: Fn(&E) -> R, B: Fn(R, R) -> R>(init: I, bin: B, s: Seq<E>, r: R) -> bool
    decreases s.len()
{
    if s.len() == 0 { false } else if s.len() == 1 { init.ensures((&s[0],), r) }
    else { exists|x: R, y: R| leaf_rel(init, bin, s.drop_last(), x) && init.ensures((&s.last(),), y) && #[trigger] bin.ensures((x, y), r) }
}
pub proof fn lemma_fold1<E, R, I: Fn(&E) -> R, B: Fn(R, R) -> R>(init: I, bin: B, s: Seq<E>, r: R, g: spec_fn(E) -> R, h: spec_fn(R, R) -> R)
    requires leaf_rel(init, bin, s, r), is1(init, g), is2(bin, h)
    ensures r == fold1(s, g, h)
    decreases s.len()
{
    if s.len() > 1 {
        let (x, y) = choose|x: R, y: R| leaf_rel(init, bin, s.drop_last(), x) && init.ensures((&s.last(),), y) && #[trigger] bin.ensures((x, y), r);
        lemma_fold1(init, bin, s.drop_last(), x, g, h);
    }
}
pub proof fn lemma_fold1_cat<E, R>(a: Seq<E>, b: Seq<E>, g: spec_fn(E) -> R, h: spec_fn(R, R) -> R)
    requires assoc(h), a.len() > 0, b.len() > 0
    ensures fold1(a + b, g, h) == h(fold1(a, g, h), fold1(b, g, h))
    decreases b.len()
{
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert((a + b).last() == b.last());
    if b.len() == 1 { assert(a + b.drop_last() =~= a); } else { lemma_fold1_cat(a, b.drop_last(), g, h); }
}
pub proof fn leaf_hint<E, R, I: Fn(&E) -> R, B: Fn(R, R) -> R>(init: &Rc<I>, bin: &Rc<B>)
    ensures
        forall|s: Seq<E>, k: int, x: R, y: R, r: R| #![trigger leaf_rel(**init, **bin, s.take(k), x), bin.ensures((x, y), r)]
            0 < k < s.len() && leaf_rel(**init, **bin, s.take(k), x) && init.ensures((&s[k],), y) && bin.ensures((x, y), r) ==> leaf_rel(**init, **bin, s.take(k + 1), r),
        forall|s: Seq<E>, r: R| #![trigger leaf_rel(**init, **bin, s.take(1), r)] s.len() > 0 && init.ensures((&s[0],), r) ==> leaf_rel(**init, **bin, s.take(1), r),
        forall|s: Seq<E>| #[trigger] s.take(s.len() as int) == s,
{
    assert forall|s: Seq<E>, k: int, x: R, y: R, r: R| 0 < k < s.len() && #[trigger] leaf_rel(**init, **bin, s.take(k), x) && init.ensures((&s[k],), y) && #[trigger] bin.ensures((x, y), r)
        implies leaf_rel(**init, **bin, s.take(k + 1), r) by {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
    }
    assert forall|s: Seq<E>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
}
/// one node's step of a bottom-up fold
pub open spec fn node_rel<E, M: RazMeta<E>, R, I: Fn(&E) -> R, B: Fn(R, R) -> R>(init: I, bin: B, l: Option<R>, c: TreeData<E, M>, r: Option<R>, res: R) -> bool {
    match c {
        TreeData::Leaf(v) => leaf_rel(init, bin, v@, res),
        _ => match (l, r) { (Some(a), Some(b)) => bin.ensures((a, b), res), (Some(a), None) => res == a, (None, Some(a)) => res == a, _ => false },
    }
}
pub open spec fn node_ok<E, M: RazMeta<E>, R>(l: Option<R>, c: TreeData<E, M>, r: Option<R>) -> bool {
    match c { TreeData::Leaf(v) => v@.len() > 0, _ => l is Some || r is Some }
}
pub open spec fn folded<E, R, I: Fn(&E) -> R, B: Fn(R, R) -> R>(init: I, bin: B, s: Seq<E>, res: R) -> bool {
    forall|g: spec_fn(E) -> R, h: spec_fn(R, R) -> R| #[trigger] is1(init, g) && #[trigger] is2(bin, h) && assoc(h) ==> res == fold1(s, g, h)
}
pub proof fn lemma_up3_fold<E, M: RazMeta<E>, R, I: Fn(&E) -> R, B: Fn(R, R) -> R, F: Fn(Option<R>, TreeData<E, M>, Option<R>) -> R>(t: Tree<TreeData<E, M>>, init: I, bin: B, f: F, res: R)
    requires
        okt(Some(t)),
        forall|l: Option<R>, c: TreeData<E, M>, r: Option<R>, x: R| #[trigger] f.ensures((l, c, r), x) ==> node_rel(init, bin, l, c, r, x),
        ltree::up3_rel(Some(t), f, Some(res)),
    ensures folded(init, bin, telems(Some(t)), res)
    decreases t
{
    lemma_tree(t);
    let (l, r) = choose|l: Option<R>, rr: Option<R>| ltree::up3_rel(t.link.v.l_branch, f, l) && ltree::up3_rel(t.link.v.r_branch, f, rr) && #[trigger] f.ensures((l, t.link.v.data, rr), res);
    assert(node_rel(init, bin, l, t.data(), r, res));
    if t.data() is Leaf {
        let v = t.data()->Leaf_0;
        assert forall|g: spec_fn(E) -> R, h: spec_fn(R, R) -> R| #[trigger] is1(init, g) && #[trigger] is2(bin, h) && assoc(h) implies res == fold1(telems(Some(t)), g, h) by {
            lemma_fold1(init, bin, v@, res, g, h);
        }
    } else {
        let (a, b) = (t.lb()->0, t.rb()->0);
        lemma_tree(a); lemma_tree(b);
        lemma_up3_fold(a, init, bin, f, l->0); lemma_up3_fold(b, init, bin, f, r->0);
        assert forall|g: spec_fn(E) -> R, h: spec_fn(R, R) -> R| #[trigger] is1(init, g) && #[trigger] is2(bin, h) && assoc(h) implies res == fold1(telems(Some(t)), g, h) by {
            lemma_fold1_cat(telems(Some(a)), telems(Some(b)), g, h);
        }
    }
}
pub proof fn lemma_up3_ok<E, M: RazMeta<E>, R, F: Fn(Option<R>, TreeData<E, M>, Option<R>) -> R>(t: Tree<TreeData<E, M>>, f: F)
    requires
        okt(Some(t)),
        forall|l: Option<R>, c: TreeData<E, M>, r: Option<R>| node_ok(l, c, r) ==> #[trigger] f.requires((l, c, r)),
    ensures ltree::up3_pre::<TreeData<E, M>, R, F>(Some(t), f)
    decreases t
{
    lemma_tree(t);
    if t.data() is Branch { lemma_up3_ok(t.lb()->0, f); lemma_up3_ok(t.rb()->0, f); }
    else { assert(ltree::up3_pre::<TreeData<E, M>, R, F>(t.lb(), f)); }
}
%fn RazTree::fold_up params init,bin
    requires self.wf(), tot1(*init), tot2(*bin),
    ensures res is None <==> self.elems().len() == 0, res matches Some(r) ==> folded(*init, *bin, self.elems(), r),
%entry RazTree::fold_up
    tree_hint::<E, M>(); els_hint::<E>();
%closure RazTree::fold_up 0 "(l: Option<R>, c: TreeData<E, M>, r: Option<R>) -> (res: R)"
    requires node_ok(l, c, r),
    ensures node_rel(*init, *bin, l, c, r, res),
%closure_after RazTree::fold_up 0
    lemma_up3_ok(tree, __c);
    assert forall|x: R| #[trigger] ltree::up3_rel(Some(tree), __c, Some(x)) implies folded(*init, *bin, telems(Some(tree)), x) by { lemma_up3_fold(tree, rcv(init), rcv(bin), __c, x); }
%closure_entry RazTree::fold_up 0
    leaf_hint(&init, &bin);
%loop RazTree::fold_up 0
    invariant 1 <= __iter_i <= vec@.len(), leaf_rel(*init, *bin, vec@.take(__iter_i as int), __acc0), tot1(*init), tot2(*bin),
    ensures __iter_i == vec@.len(),
    decreases vec@.len() - __iter_i,
%raw
/// the fold that keeps the tree's shape: leaves by `gl`, branches by `hn` with their level and name
pub open spec fn foldt<E, M: RazMeta<E>, R>(t: Option<Tree<TreeData<E, M>>>, gl: spec_fn(Seq<E>) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R) -> R
    decreases t
{
    match t {
        None => arbitrary(),
        Some(t) => match t.link.v.data {
            TreeData::Leaf(v) => gl(v@),
            _ => hn(foldt(t.link.v.l_branch, gl, hn), t.level, t.name, foldt(t.link.v.r_branch, gl, hn)),
        },
    }
}
/// with an associative function that ignores levels and names it is the in-order fold
pub proof fn lemma_foldt<E, M: RazMeta<E>, R>(t: Tree<TreeData<E, M>>, g: spec_fn(E) -> R, h: spec_fn(R, R) -> R, gl: spec_fn(Seq<E>) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R)
    requires okt(Some(t)), assoc(h), forall|x: R, l: u32, n: Option<Name>, y: R| #[trigger] hn(x, l, n, y) == h(x, y), forall|s: Seq<E>| s.len() > 0 ==> #[trigger] gl(s) == fold1(s, g, h),
    ensures foldt(Some(t), gl, hn) == fold1(telems(Some(t)), g, h)
    decreases t
{
    lemma_tree(t);
    if t.data() is Branch {
        let (a, b) = (t.lb()->0, t.rb()->0);
        lemma_tree(a); lemma_tree(b);
        lemma_foldt(a, g, h, gl, hn); lemma_foldt(b, g, h, gl, hn);
        lemma_fold1_cat(telems(Some(a)), telems(Some(b)), g, h);
        assert(foldt(Some(t), gl, hn) == hn(foldt(t.lb(), gl, hn), t.level, t.name, foldt(t.rb(), gl, hn)));
    }
}
pub open spec fn nstep<E, M: RazMeta<E>, R>(gl: spec_fn(Seq<E>) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R, l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, res: R) -> bool {
    match c {
        TreeData::Leaf(v) => res == gl(v@),
        _ => match (l, r) { (Some(a), Some(b)) => res == hn(a, lv, n, b), (Some(a), None) => res == a, (None, Some(a)) => res == a, _ => false },
    }
}
pub proof fn lemma_up_foldt<E, M: RazMeta<E>, R, F: Fn(Option<R>, TreeData<E, M>, u32, Option<Name>, Option<R>) -> R>(t: Tree<TreeData<E, M>>, f: F, gl: spec_fn(Seq<E>) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R, res: R)
    requires
        okt(Some(t)),
        forall|l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, x: R| #[trigger] f.ensures((l, c, lv, n, r), x) && node_ok(l, c, r) ==> nstep(gl, hn, l, c, lv, n, r, x),
        ltree::up_rel(Some(t), f, Some(res)),
    ensures res == foldt(Some(t), gl, hn)
    decreases t
{
    lemma_tree(t);
    let (l, r) = choose|l: Option<R>, rr: Option<R>| ltree::up_rel(t.link.v.l_branch, f, l) && ltree::up_rel(t.link.v.r_branch, f, rr) && #[trigger] f.ensures((l, t.link.v.data, t.level, t.name, rr), res);
    assert(node_ok(l, t.data(), r));
    assert(nstep(gl, hn, l, t.data(), t.level, t.name, r, res));
    if t.data() is Branch {
        lemma_up_foldt(t.lb()->0, f, gl, hn, l->0); lemma_up_foldt(t.rb()->0, f, gl, hn, r->0);
    }
}
pub proof fn lemma_up_ok<E, M: RazMeta<E>, R, F: Fn(Option<R>, TreeData<E, M>, u32, Option<Name>, Option<R>) -> R>(t: Tree<TreeData<E, M>>, f: F)
    requires
        okt(Some(t)),
        forall|l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>| node_ok(l, c, r) ==> #[trigger] f.requires((l, c, lv, n, r)),
    ensures ltree::up_pre::<TreeData<E, M>, R, F>(Some(t), f)
    decreases t
{
    lemma_tree(t);
    if t.data() is Branch { lemma_up_ok(t.lb()->0, f); lemma_up_ok(t.rb()->0, f); }
    else { assert(ltree::up_pre::<TreeData<E, M>, R, F>(t.lb(), f)); }
}
/// one node's step, in terms of the user's functions
pub open spec fn nl_rel<E, M: RazMeta<E>, R, I: Fn(&E) -> R, B: Fn(R, R) -> R, N: Fn(R, u32, Option<Name>, R) -> R>(init: I, bin: B, binnl: N, l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, res: R) -> bool {
    match c {
        TreeData::Leaf(v) => leaf_rel(init, bin, v@, res),
        _ => match (l, r) { (Some(a), Some(b)) => binnl.ensures((a, lv, n, b), res), (Some(a), None) => res == a, (None, Some(a)) => res == a, _ => false },
    }
}
pub open spec fn gg_rel<E, M: RazMeta<E>, R, I: Fn(&Vec<E>) -> R, N: Fn(R, u32, Option<Name>, R) -> R>(init: I, binnl: N, l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, res: R) -> bool {
    match c {
        TreeData::Leaf(v) => init.ensures((&*v,), res),
        _ => match (l, r) { (Some(a), Some(b)) => binnl.ensures((a, lv, n, b), res), (Some(a), None) => res == a, (None, Some(a)) => res == a, _ => false },
    }
}
pub open spec fn folded_nl<E, M: RazMeta<E>, R, I: Fn(&E) -> R, B: Fn(R, R) -> R, N: Fn(R, u32, Option<Name>, R) -> R>(init: I, bin: B, binnl: N, t: Option<Tree<TreeData<E, M>>>, res: R) -> bool {
    forall|g: spec_fn(E) -> R, h: spec_fn(R, R) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R| #[trigger] is1(init, g) && #[trigger] is2(bin, h) && #[trigger] isn(binnl, hn)
        ==> res == foldt(t, |s: Seq<E>| fold1(s, g, h), hn)
}
pub open spec fn folded_gg<E, M: RazMeta<E>, R, I: Fn(&Vec<E>) -> R, N: Fn(R, u32, Option<Name>, R) -> R>(init: I, binnl: N, t: Option<Tree<TreeData<E, M>>>, res: R) -> bool {
    forall|g: spec_fn(Seq<E>) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R| #[trigger] isv(init, g) && #[trigger] isn(binnl, hn) ==> res == foldt(t, g, hn)
}
pub proof fn lemma_nl<E, M: RazMeta<E>, R, I: Fn(&E) -> R, B: Fn(R, R) -> R, N: Fn(R, u32, Option<Name>, R) -> R, F: Fn(Option<R>, TreeData<E, M>, u32, Option<Name>, Option<R>) -> R>(t: Tree<TreeData<E, M>>, init: I, bin: B, binnl: N, f: F, res: R)
    requires
        okt(Some(t)),
        forall|l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, x: R| #[trigger] f.ensures((l, c, lv, n, r), x) ==> nl_rel(init, bin, binnl, l, c, lv, n, r, x),
        ltree::up_rel(Some(t), f, Some(res)),
    ensures folded_nl(init, bin, binnl, Some(t), res)
{
    assert forall|g: spec_fn(E) -> R, h: spec_fn(R, R) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R| #[trigger] is1(init, g) && #[trigger] is2(bin, h) && #[trigger] isn(binnl, hn)
        implies res == foldt(Some(t), |s: Seq<E>| fold1(s, g, h), hn) by {
        let gl = |s: Seq<E>| fold1(s, g, h);
        assert forall|l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, x: R| #[trigger] f.ensures((l, c, lv, n, r), x) && node_ok(l, c, r) implies nstep(gl, hn, l, c, lv, n, r, x) by {
            assert(nl_rel(init, bin, binnl, l, c, lv, n, r, x));
            if c is Leaf { lemma_fold1(init, bin, c->Leaf_0@, x, g, h); }
        }
        lemma_up_foldt(t, f, gl, hn, res);
    }
}
pub proof fn lemma_gg<E, M: RazMeta<E>, R, I: Fn(&Vec<E>) -> R, N: Fn(R, u32, Option<Name>, R) -> R, F: Fn(Option<R>, TreeData<E, M>, u32, Option<Name>, Option<R>) -> R>(t: Tree<TreeData<E, M>>, init: I, binnl: N, f: F, res: R)
    requires
        okt(Some(t)),
        forall|l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, x: R| #[trigger] f.ensures((l, c, lv, n, r), x) ==> gg_rel(init, binnl, l, c, lv, n, r, x),
        ltree::up_rel(Some(t), f, Some(res)),
    ensures folded_gg(init, binnl, Some(t), res)
{
    assert forall|g: spec_fn(Seq<E>) -> R, hn: spec_fn(R, u32, Option<Name>, R) -> R| #[trigger] isv(init, g) && #[trigger] isn(binnl, hn) implies res == foldt(Some(t), g, hn) by {
        assert forall|l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>, x: R| #[trigger] f.ensures((l, c, lv, n, r), x) && node_ok(l, c, r) implies nstep(g, hn, l, c, lv, n, r, x) by {
            assert(gg_rel(init, binnl, l, c, lv, n, r, x));
        }
        lemma_up_foldt(t, f, g, hn, res);
    }
}
%fn RazTree::fold_up_nl params init,bin,binnl
    requires self.wf(), tot1(*init), tot2(*bin), totn(*binnl),
    ensures res is None <==> self.elems().len() == 0, res matches Some(r) ==> folded_nl(*init, *bin, *binnl, self.tree, r),
%entry RazTree::fold_up_nl
    tree_hint::<E, M>(); els_hint::<E>();
%closure RazTree::fold_up_nl 0 "(l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>) -> (res: R)"
    requires node_ok(l, c, r),
    ensures nl_rel(*init, *bin, *binnl, l, c, lv, n, r, res),
%closure_after RazTree::fold_up_nl 0
    lemma_up_ok(tree, __c);
    assert forall|x: R| #[trigger] ltree::up_rel(Some(tree), __c, Some(x)) implies folded_nl(*init, *bin, *binnl, Some(tree), x) by { lemma_nl(tree, rcv(init), rcv(bin), rcv(binnl), __c, x); }
%closure_entry RazTree::fold_up_nl 0
    leaf_hint(&init, &bin);
%loop RazTree::fold_up_nl 0
    invariant 1 <= __iter_i <= vec@.len(), leaf_rel(*init, *bin, vec@.take(__iter_i as int), __acc0), tot1(*init), tot2(*bin),
    ensures __iter_i == vec@.len(),
    decreases vec@.len() - __iter_i,
%fn RazTree::fold_up_gauged params init,bin
    requires self.wf(), totv(*init), totn(*bin),
    ensures res is None <==> self.elems().len() == 0, res matches Some(r) ==> folded_gg(*init, *bin, self.tree, r),
%entry RazTree::fold_up_gauged
    tree_hint::<E, M>(); els_hint::<E>();
%closure RazTree::fold_up_gauged 0 "(l: Option<R>, c: TreeData<E, M>, lv: u32, n: Option<Name>, r: Option<R>) -> (res: R)"
    requires node_ok(l, c, r),
    ensures gg_rel(*init, *bin, l, c, lv, n, r, res),
%closure_after RazTree::fold_up_gauged 0
    lemma_up_ok(tree, __c);
    assert forall|x: R| #[trigger] ltree::up_rel(Some(tree), __c, Some(x)) implies folded_gg(*init, *bin, Some(tree), x) by { lemma_gg(tree, rcv(init), rcv(bin), __c, x); }
%raw
// ---- left-to-right folds
pub open spec fn totb<A, E, B: Fn(A, &E) -> A>(bin: B) -> bool { forall|a: A, e: &E| #[trigger] bin.requires((a, e)) }
pub open spec fn totm<A, N: Fn(A, (u32, Option<Name>)) -> A>(meta: N) -> bool { forall|a: A, x: (u32, Option<Name>)| #[trigger] meta.requires((a, x)) }
pub open spec fn totl<A, N: Fn(A, u32) -> A>(meta: N) -> bool { forall|a: A, x: u32| #[trigger] meta.requires((a, x)) }
pub open spec fn totf<A, F: Fn(A, Option<Name>) -> A>(fin: F) -> bool { forall|a: A, x: Option<Name>| #[trigger] fin.requires((a, x)) }
pub open spec fn isb<A, E, B: Fn(A, &E) -> A>(bin: B, b: spec_fn(A, E) -> A) -> bool { forall|a: A, e: &E, r: A| #[trigger] bin.ensures((a, e), r) ==> r == b(a, *e) }
pub open spec fn ism<A, N: Fn(A, (u32, Option<Name>)) -> A>(meta: N, m: spec_fn(A, u32, Option<Name>) -> A) -> bool { forall|a: A, x: (u32, Option<Name>), r: A| #[trigger] meta.ensures((a, x), r) ==> r == m(a, x.0, x.1) }
pub open spec fn isl<A, N: Fn(A, u32) -> A>(meta: N, m: spec_fn(A, u32) -> A) -> bool { forall|a: A, x: u32, r: A| #[trigger] meta.ensures((a, x), r) ==> r == m(a, x) }
pub open spec fn isf<A, F: Fn(A, Option<Name>) -> A>(fin: F, f: spec_fn(A, Option<Name>) -> A) -> bool { forall|a: A, x: Option<Name>, r: A| #[trigger] fin.ensures((a, x), r) ==> r == f(a, x) }
/// the left fold of some elements
pub open spec fn lfold<A, E>(s: Seq<E>, a: A, b: spec_fn(A, E) -> A) -> A
    decreases s.len()
{
    if s.len() == 0 { a } else { b(lfold(s.drop_last(), a, b), s.last()) }
}
/// ... over the nodes, in order: the elements of the leaves, and each branch between its halves
pub open spec fn nfold<A, E>(s: Nodes<E>, a: A, b: spec_fn(A, E) -> A, m: spec_fn(A, u32, Option<Name>) -> A) -> A
    decreases s.len()
{
    if s.len() == 0 { a } else {
        let x = nfold(s.drop_last(), a, b, m);
        match s.last().2 { Some(v) => lfold(v, x, b), None => m(x, s.last().0, s.last().1) }
    }
}
pub type Visits<E, M> = Seq<(TreeData<E, M>, u32, Option<Name>)>;
/// ... with the leaves finished by a function that is given the name in front of them
pub open spec fn afold<A, E, M: RazMeta<E>>(s: Visits<E, M>, a: A, b: spec_fn(A, E) -> A, f: spec_fn(A, Option<Name>) -> A, m: spec_fn(A, u32) -> A) -> A
    decreases s.len()
{
    if s.len() == 0 { a } else {
        let x = afold(s.drop_last(), a, b, f, m);
        match s.last().0 { TreeData::Leaf(v) => f(lfold(v@, x, b), s.last().2), _ => m(x, s.last().1) }
    }
}
pub proof fn lemma_lfold_cat<A, E>(s: Seq<E>, t: Seq<E>, a: A, b: spec_fn(A, E) -> A)
    ensures lfold(s + t, a, b) == lfold(t, lfold(s, a, b), b)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_lfold_cat(s, t.drop_last(), a, b);
    }
}
/// when branches are ignored the fold over the nodes is the left fold of the elements
pub proof fn lemma_nfold<A, E>(s: Nodes<E>, a: A, b: spec_fn(A, E) -> A, m: spec_fn(A, u32, Option<Name>) -> A)
    requires forall|x: A, l: u32, n: Option<Name>| #[trigger] m(x, l, n) == x
    ensures nfold(s, a, b, m) == lfold(els(s), a, b)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_nfold(s.drop_last(), a, b, m);
        lemma_lfold_cat(els(s.drop_last()), oseq(s.last().2), a, b);
    }
}
/// the nodes a left-to-right fold visits: every node once, in order, leaves under the name in front of them
pub open spec fn vnode<E, M: RazMeta<E>>(v: (TreeData<E, M>, u32, Option<Name>), c: (u32, Option<Name>, Option<Seq<E>>)) -> bool {
    v.0.core() == c.2 && v.1 == c.0 && (c.2 is None ==> v.2 == c.1)
}
pub open spec fn vmatch<E, M: RazMeta<E>>(s: Visits<E, M>, c: Nodes<E>, start: Option<Name>) -> bool {
    &&& s.len() == c.len()
    &&& forall|i: int| 0 <= i < s.len() ==> vnode(#[trigger] s[i], c[i])
    &&& forall|i: int| 0 <= i < s.len() && c[i].2 is Some ==> (#[trigger] s[i]).2 == if i == 0 { start } else { c[i - 1].1 }
}
pub proof fn lemma_visits<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>, start: Option<Name>)
    requires okt(Some(t))
    ensures vmatch(ltree::visits(Some(t), start), cin(Some(t)), start), t.data() is Leaf ==> cin(Some(t)).len() == 1,
        cin(Some(t)).len() > 0, cin(Some(t))[0].2 is Some,
    decreases t
{
    lemma_tree(t);
    let (s, c) = (ltree::visits(Some(t), start), cin(Some(t)));
    if t.data() is Branch {
        let (a, b) = (t.lb()->0, t.rb()->0);
        lemma_visits(a, start); lemma_visits(b, t.name);
        let (sa, sb) = (ltree::visits(t.lb(), start), ltree::visits(t.rb(), t.name));
        let (ca, cb) = (cin(t.lb()), cin(t.rb()));
        assert(s == sa + seq![(t.data(), t.level, t.name)] + sb);
        assert(c == ca + seq![cnode(t)] + cb);
        let k = ca.len() as int;
        assert(c[0] == ca[0]);
        assert forall|i: int| 0 <= i < s.len() implies vnode(#[trigger] s[i], c[i]) by {
            if i < k { assert(s[i] == sa[i] && c[i] == ca[i]); } else if i > k { assert(s[i] == sb[i - k - 1] && c[i] == cb[i - k - 1]); }
        }
        assert forall|i: int| 0 <= i < s.len() && c[i].2 is Some implies (#[trigger] s[i]).2 == if i == 0 { start } else { c[i - 1].1 } by {
            if i < k { assert(s[i] == sa[i] && c[i] == ca[i]); if i > 0 { assert(c[i - 1] == ca[i - 1]); } }
            else if i > k { assert(s[i] == sb[i - k - 1] && c[i] == cb[i - k - 1]); if i > k + 1 { assert(c[i - 1] == cb[i - k - 2]); } else { assert(c[i - 1] == cnode(t)); } }
        }
    } else {
        assert(cin(t.lb()) =~= Seq::empty()); assert(cin(t.rb()) =~= Seq::empty());
        assert(c =~= seq![cnode(t)]);
        assert(s == seq![(t.data(), t.level, start)]);
    }
}
/// what the left fold of some elements gives
pub open spec fn lrel<A, E, B: Fn(A, &E) -> A>(bin: B, a: A, s: Seq<E>, r: A) -> bool
    decreases s.len()
{
    if s.len() == 0 { r == a } else { exists|x: A| lrel(bin, a, s.drop_last(), x) && #[trigger] bin.ensures((x, &s.last()), r) }
}
pub proof fn lrel_hint<A, E, B: Fn(A, &E) -> A>(bin: &Rc<B>)
    ensures
        forall|a: A, s: Seq<E>, k: int, x: A, r: A| #![trigger lrel(**bin, a, s.take(k), x), bin.ensures((x, &s[k]), r)]
            0 <= k < s.len() && lrel(**bin, a, s.take(k), x) && bin.ensures((x, &s[k]), r) ==> lrel(**bin, a, s.take(k + 1), r),
        forall|a: A, s: Seq<E>| #[trigger] lrel(**bin, a, s.take(0), a),
        forall|s: Seq<E>| #[trigger] s.take(s.len() as int) == s,
{
    assert forall|a: A, s: Seq<E>, k: int, x: A, r: A| 0 <= k < s.len() && #[trigger] lrel(**bin, a, s.take(k), x) && #[trigger] bin.ensures((x, &s[k]), r)
        implies lrel(**bin, a, s.take(k + 1), r) by {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        assert(bin.ensures((x, &s.take(k + 1).last()), r));
    }
    assert forall|s: Seq<E>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
}
pub proof fn lemma_lrel<A, E, B: Fn(A, &E) -> A>(bin: B, a: A, s: Seq<E>, r: A, b: spec_fn(A, E) -> A)
    requires lrel(bin, a, s, r), isb(bin, b)
    ensures r == lfold(s, a, b)
    decreases s.len()
{
    if s.len() > 0 {
        let x = choose|x: A| lrel(bin, a, s.drop_last(), x) && #[trigger] bin.ensures((x, &s.last()), r);
        lemma_lrel(bin, a, s.drop_last(), x, b);
    }
}
pub open spec fn ms_rel<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, N: Fn(A, (u32, Option<Name>)) -> A>(bin: B, meta: N, a: A, e: TreeData<E, M>, l: u32, n: Option<Name>, r: A) -> bool {
    match e { TreeData::Leaf(v) => lrel(bin, a, v@, r), _ => meta.ensures((a, (l, n)), r) }
}
pub open spec fn as_rel<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, F: Fn(A, Option<Name>) -> A, N: Fn(A, u32) -> A>(bin: B, fin: F, meta: N, a: A, e: TreeData<E, M>, l: u32, n: Option<Name>, r: A) -> bool {
    match e { TreeData::Leaf(v) => exists|x: A| lrel(bin, a, v@, x) && #[trigger] fin.ensures((x, n), r), _ => meta.ensures((a, l), r) }
}
pub open spec fn folded_lr<E, A, B: Fn(A, &E) -> A, N: Fn(A, (u32, Option<Name>)) -> A>(bin: B, meta: N, a: A, c: Nodes<E>, r: A) -> bool {
    forall|b: spec_fn(A, E) -> A, m: spec_fn(A, u32, Option<Name>) -> A| #[trigger] isb(bin, b) && #[trigger] ism(meta, m) ==> r == nfold(c, a, b, m)
}
pub open spec fn folded_ar<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, F: Fn(A, Option<Name>) -> A, N: Fn(A, u32) -> A>(bin: B, fin: F, meta: N, a: A, s: Visits<E, M>, r: A) -> bool {
    forall|b: spec_fn(A, E) -> A, f: spec_fn(A, Option<Name>) -> A, m: spec_fn(A, u32) -> A| #[trigger] isb(bin, b) && #[trigger] isf(fin, f) && #[trigger] isl(meta, m) ==> r == afold(s, a, b, f, m)
}
pub proof fn lemma_run_nfold<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, N: Fn(A, (u32, Option<Name>)) -> A, F: Fn(A, TreeData<E, M>, u32, Option<Name>) -> A>(bin: B, meta: N, f: F, a: A, s: Visits<E, M>, c: Nodes<E>, r: A,
        b: spec_fn(A, E) -> A, m: spec_fn(A, u32, Option<Name>) -> A)
    requires ltree::run(f, a, s, r), isb(bin, b), ism(meta, m), s.len() == c.len(), forall|i: int| 0 <= i < s.len() ==> vnode(#[trigger] s[i], c[i]),
        forall|a: A, e: TreeData<E, M>, l: u32, n: Option<Name>, x: A| #[trigger] f.ensures((a, e, l, n), x) ==> ms_rel(bin, meta, a, e, l, n, x),
    ensures r == nfold(c, a, b, m)
    decreases s.len()
{
    if s.len() > 0 {
        let x = choose|x: A| ltree::run(f, a, s.drop_last(), x) && #[trigger] f.ensures((x, s.last().0, s.last().1, s.last().2), r);
        assert(vnode(s[s.len() - 1], c[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies vnode(#[trigger] s.drop_last()[i], c.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_run_nfold(bin, meta, f, a, s.drop_last(), c.drop_last(), x, b, m);
        assert(ms_rel(bin, meta, x, s.last().0, s.last().1, s.last().2, r));
        if s.last().0 is Leaf { lemma_lrel(bin, x, s.last().0->Leaf_0@, r, b); }
    }
}
pub proof fn lemma_lr<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, N: Fn(A, (u32, Option<Name>)) -> A, F: Fn(A, TreeData<E, M>, u32, Option<Name>) -> A>(bin: B, meta: N, f: F, a: A, t: Tree<TreeData<E, M>>, start: Option<Name>, r: A)
    requires ltree::run(f, a, ltree::visits(Some(t), start), r), okt(Some(t)),
        forall|a: A, e: TreeData<E, M>, l: u32, n: Option<Name>, x: A| #[trigger] f.ensures((a, e, l, n), x) ==> ms_rel(bin, meta, a, e, l, n, x),
    ensures folded_lr(bin, meta, a, cin(Some(t)), r)
{
    lemma_visits(t, start);
    assert forall|b: spec_fn(A, E) -> A, m: spec_fn(A, u32, Option<Name>) -> A| #[trigger] isb(bin, b) && #[trigger] ism(meta, m) implies r == nfold(cin(Some(t)), a, b, m) by {
        lemma_run_nfold(bin, meta, f, a, ltree::visits(Some(t), start), cin(Some(t)), r, b, m);
    }
}
pub proof fn lemma_run_afold<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, G: Fn(A, Option<Name>) -> A, N: Fn(A, u32) -> A, F: Fn(A, TreeData<E, M>, u32, Option<Name>) -> A>(bin: B, fin: G, meta: N, f: F, a: A, s: Visits<E, M>, r: A,
        b: spec_fn(A, E) -> A, g: spec_fn(A, Option<Name>) -> A, m: spec_fn(A, u32) -> A)
    requires ltree::run(f, a, s, r), isb(bin, b), isf(fin, g), isl(meta, m),
        forall|a: A, e: TreeData<E, M>, l: u32, n: Option<Name>, x: A| #[trigger] f.ensures((a, e, l, n), x) ==> as_rel(bin, fin, meta, a, e, l, n, x),
    ensures r == afold(s, a, b, g, m)
    decreases s.len()
{
    if s.len() > 0 {
        let x = choose|x: A| ltree::run(f, a, s.drop_last(), x) && #[trigger] f.ensures((x, s.last().0, s.last().1, s.last().2), r);
        lemma_run_afold(bin, fin, meta, f, a, s.drop_last(), x, b, g, m);
        assert(as_rel(bin, fin, meta, x, s.last().0, s.last().1, s.last().2, r));
        if s.last().0 is Leaf {
            let y = choose|y: A| lrel(bin, x, s.last().0->Leaf_0@, y) && #[trigger] fin.ensures((y, s.last().2), r);
            lemma_lrel(bin, x, s.last().0->Leaf_0@, y, b);
        }
    }
}
pub proof fn lemma_ar<E, M: RazMeta<E>, A, B: Fn(A, &E) -> A, G: Fn(A, Option<Name>) -> A, N: Fn(A, u32) -> A, F: Fn(A, TreeData<E, M>, u32, Option<Name>) -> A>(bin: B, fin: G, meta: N, f: F, a: A, s: Visits<E, M>, r: A)
    requires ltree::run(f, a, s, r),
        forall|a: A, e: TreeData<E, M>, l: u32, n: Option<Name>, x: A| #[trigger] f.ensures((a, e, l, n), x) ==> as_rel(bin, fin, meta, a, e, l, n, x),
    ensures folded_ar(bin, fin, meta, a, s, r)
{
    assert forall|b: spec_fn(A, E) -> A, g: spec_fn(A, Option<Name>) -> A, m: spec_fn(A, u32) -> A| #[trigger] isb(bin, b) && #[trigger] isf(fin, g) && #[trigger] isl(meta, m) implies r == afold(s, a, b, g, m) by {
        lemma_run_afold(bin, fin, meta, f, a, s, r, b, g, m);
    }
}
pub proof fn lemma_lr_plain<E, A, B: Fn(A, &E) -> A, N: Fn(A, (u32, Option<Name>)) -> A>(bin: B, meta: N, a: A, c: Nodes<E>, r: A)
    requires folded_lr(bin, meta, a, c, r), forall|x: A, y: (u32, Option<Name>), z: A| #[trigger] meta.ensures((x, y), z) ==> z == x
    ensures forall|b: spec_fn(A, E) -> A| #[trigger] isb(bin, b) ==> r == lfold(els(c), a, b)
{
    let m = |x: A, l: u32, n: Option<Name>| x;
    assert(ism(meta, m));
    assert forall|b: spec_fn(A, E) -> A| #[trigger] isb(bin, b) implies r == lfold(els(c), a, b) by { lemma_nfold(c, a, b, m); }
}
%fn RazTree::fold_lr params init,bin
    requires self.wf(), totb(*bin),
    ensures forall|b: spec_fn(A, E) -> A| #[trigger] isb(*bin, b) ==> res == lfold(self.elems(), init, b),
%closure RazTree::fold_lr 0 "(a: A, x: (u32, Option<Name>)) -> (res: A)"
    ensures res == a,
%closure_after RazTree::fold_lr 0
    assert forall|r: A| #[trigger] folded_lr(*bin, __c, init, cin(self.tree), r) implies (forall|b: spec_fn(A, E) -> A| #[trigger] isb(*bin, b) ==> r == lfold(self.elems(), init, b)) by { lemma_lr_plain(rcv(bin), __c, init, cin(self.tree), r); }
%fn RazTree::fold_lr_meta params init,bin,meta
    requires self.wf(), totb(*bin), totm(*meta),
    ensures folded_lr(*bin, *meta, init, cin(self.tree), res),
%closure RazTree::fold_lr_meta 0 "(a: A, e: TreeData<E, M>, l: u32, n: Option<Name>) -> (res: A)"
    ensures ms_rel(*bin, *meta, a, e, l, n, res),
%closure_entry RazTree::fold_lr_meta 0
    lrel_hint(&bin);
%closure_after RazTree::fold_lr_meta 0
    assert forall|s: Option<Name>, r: A| #[trigger] ltree::run(__c, init, ltree::visits(Some(tree), s), r) implies folded_lr(*bin, *meta, init, cin(Some(tree)), r) by { lemma_lr(rcv(bin), rcv(meta), __c, init, tree, s, r); }
%loop RazTree::fold_lr_meta 0
    invariant 0 <= __i0 <= vec@.len(), lrel(*bin, a, vec@.take(__i0 as int), __acc0), totb(*bin),
    ensures __i0 == vec@.len(),
    decreases vec@.len() - __i0,
%fn RazTree::fold_lr_archive params init,bin,finbin,meta
    requires self.wf(), totb(*bin), totf(*finbin), totl(*meta),
    ensures exists|start: Option<Name>| folded_ar(*bin, *finbin, *meta, init, #[trigger] ltree::visits(self.tree, start), res),
%entry RazTree::fold_lr_archive
    assert(self.tree is None ==> folded_ar(*bin, *finbin, *meta, init, ltree::visits(self.tree, None), init));
%closure RazTree::fold_lr_archive 0 "(a: A, e: TreeData<E, M>, l: u32, n: Option<Name>) -> (res: A)"
    ensures as_rel(*bin, *finbin, *meta, a, e, l, n, res),
%closure_entry RazTree::fold_lr_archive 0
    lrel_hint(&bin);
%closure_after RazTree::fold_lr_archive 0
    assert forall|s: Visits<E, M>, r: A| #[trigger] ltree::run(__c, init, s, r) implies folded_ar(*bin, *finbin, *meta, init, s, r) by { lemma_ar(rcv(bin), rcv(finbin), rcv(meta), __c, init, s, r); }
%loop RazTree::fold_lr_archive 0
    invariant 0 <= __i0 <= vec@.len(), lrel(*bin, a, vec@.take(__i0 as int), __acc0), totb(*bin),
    ensures __i0 == vec@.len(),
    decreases vec@.len() - __i0,
%raw
// ---- map
/// element by element
pub open spec fn img<E, R, F: Fn(&E) -> R>(f: F, a: Seq<E>, b: Seq<R>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] f.ensures((&a[i],), b[i]) }
pub open spec fn cimg<E, R, F: Fn(&E) -> R>(f: F, x: (u32, Option<Name>, Option<Seq<E>>), y: (u32, Option<Name>, Option<Seq<R>>)) -> bool {
    x.0 == y.0 && x.1 == y.1 && match (x.2, y.2) { (Some(a), Some(b)) => img(f, a, b), (None, None) => true, _ => false }
}
/// node by node: same levels and names, same leaf boundaries, mapped elements
pub open spec fn nimg<E, R, F: Fn(&E) -> R>(f: F, a: Nodes<E>, b: Nodes<R>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cimg(f, #[trigger] a[i], b[i]) }
pub proof fn lemma_nimg_els<E, R, F: Fn(&E) -> R>(f: F, a: Nodes<E>, b: Nodes<R>)
    requires nimg(f, a, b)
    ensures img(f, els(a), els(b))
    decreases a.len()
{
    if a.len() > 0 {
        let (a1, b1) = (a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < a1.len() implies cimg(f, #[trigger] a1[i], b1[i]) by { assert(a1[i] == a[i] && b1[i] == b[i]); }
        lemma_nimg_els(f, a1, b1);
        assert(cimg(f, a[a.len() - 1], b[a.len() - 1]));
        let (x, y) = (oseq(a.last().2), oseq(b.last().2));
        let n = els(a1).len() as int;
        assert forall|i: int| 0 <= i < els(a).len() implies #[trigger] f.ensures((&els(a)[i],), els(b)[i]) by {
            if i < n { assert(f.ensures((&els(a1)[i],), els(b1)[i])); } else { assert(f.ensures((&x[i - n],), y[i - n])); }
        }
    }
}
pub proof fn lemma_nimg_node<E, R, F: Fn(&E) -> R>(f: F, a: Nodes<E>, x: (u32, Option<Name>, Option<Seq<E>>), b: Nodes<E>, a2: Nodes<R>, y: (u32, Option<Name>, Option<Seq<R>>), b2: Nodes<R>)
    requires nimg(f, a, a2), nimg(f, b, b2), cimg(f, x, y)
    ensures nimg(f, a + seq![x] + b, a2 + seq![y] + b2), img(f, els(a + seq![x] + b), els(a2 + seq![y] + b2)),
        pos(a + seq![x] + b) ==> pos(a2 + seq![y] + b2),
{
    let (c, c2) = (a + seq![x] + b, a2 + seq![y] + b2);
    let k = a.len() as int;
    assert forall|i: int| 0 <= i < c.len() implies cimg(f, #[trigger] c[i], c2[i]) by {
        if i < k { assert(cimg(f, a[i], a2[i])); } else if i > k { assert(cimg(f, b[i - k - 1], b2[i - k - 1])); }
    }
    lemma_nimg_els(f, c, c2);
    if pos(c) { assert forall|i: int| 0 <= i < c2.len() implies nlev(#[trigger] c2[i]) by { assert(nlev(c[i])); assert(cimg(f, c[i], c2[i])); } }
}
pub proof fn take_hint<E>()
    ensures forall|s: Seq<E>| #[trigger] s.take(s.len() as int) == s
{
    assert forall|s: Seq<E>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
}
pub open spec fn mstep<E, M: RazMeta<E>, R, N: RazMeta<R>, F: Fn(&E) -> R>(f: F, d: TreeData<E, M>, lev: u32, n: Option<Name>, l: Option<&Tree<TreeData<R, N>>>, r: Option<&Tree<TreeData<R, N>>>, res: TreeData<R, N>) -> bool {
    match d {
        TreeData::Leaf(v) => res is Leaf && img(f, v@, res->Leaf_0@),
        _ => l is Some && r is Some ==> res.core() is None && res.valid() && <TreeData<R, N> as TreeUpdate>::good(Some((l->0).data()), lev, n, Some((r->0).data()), res),
    }
}
pub open spec fn mpre<E, M: RazMeta<E>, R, N: RazMeta<R>>(d: TreeData<E, M>, l: Option<&Tree<TreeData<R, N>>>, r: Option<&Tree<TreeData<R, N>>>) -> bool {
    d is Leaf || ((l matches Some(t) ==> t.data().valid()) && (r matches Some(t) ==> t.data().valid()))
}
pub open spec fn mapped<E, M: RazMeta<E>, R, N: RazMeta<R>, F: Fn(&E) -> R>(f: F, t: Option<Tree<TreeData<E, M>>>, u: Option<Tree<TreeData<R, N>>>) -> bool {
    &&& okt(u)
    &&& (t is Some <==> u is Some)
    &&& nimg(f, cin(t), cin(u))
    &&& img(f, telems(t), telems(u))
    &&& (canonical(t) ==> canonical(u))
    &&& (pos(cin(t)) ==> pos(cin(u)))
}
pub open spec fn mclosure<E, M: RazMeta<E>, R, N: RazMeta<R>, F: Fn(&E) -> R, G: Fn(TreeData<E, M>, u32, Option<Name>, Option<&Tree<TreeData<R, N>>>, Option<&Tree<TreeData<R, N>>>) -> TreeData<R, N>>(f: F, g: G) -> bool {
    &&& forall|d: TreeData<E, M>, lev: u32, n: Option<Name>, l: Option<&Tree<TreeData<R, N>>>, r: Option<&Tree<TreeData<R, N>>>, x: TreeData<R, N>| #[trigger] g.ensures((d, lev, n, l, r), x) && mpre(d, l, r) ==> mstep(f, d, lev, n, l, r, x)
    &&& forall|d: TreeData<E, M>, lev: u32, n: Option<Name>, l: Option<&Tree<TreeData<R, N>>>, r: Option<&Tree<TreeData<R, N>>>| mpre(d, l, r) ==> #[trigger] g.requires((d, lev, n, l, r))
}
pub proof fn lemma_map<E, M: RazMeta<E>, R, N: RazMeta<R>, F: Fn(&E) -> R, G: Fn(TreeData<E, M>, u32, Option<Name>, Option<&Tree<TreeData<R, N>>>, Option<&Tree<TreeData<R, N>>>) -> TreeData<R, N>>(f: F, g: G, t: Tree<TreeData<E, M>>, u: Tree<TreeData<R, N>>)
    requires okt(Some(t)), mclosure(f, g), ltree::map_rel(Some(t), g, Some(u)),
    ensures mapped(f, Some(t), Some(u)), u.level == t.level,
    decreases t
{
    lemma_tree(t);
    let (l, r) = (ltree::oref(u.lb()), ltree::oref(u.rb()));
    let (ct, cu) = (cin(Some(t)), cin(Some(u)));
    assert(ltree::map_rel(t.link.v.l_branch, g, u.link.v.l_branch) && ltree::map_rel(t.link.v.r_branch, g, u.link.v.r_branch)
        && u.level == t.level && u.name == t.name && g.ensures((t.link.v.data, t.level, t.name, l, r), u.link.v.data));
    assert(ct == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
    assert(cu == cin(u.lb()) + seq![cnode(u)] + cin(u.rb()));
    if t.data() is Leaf {
        assert(mpre(t.data(), l, r));
        assert(mstep(f, t.data(), t.level, t.name, l, r, u.data()));
        assert(u.lb() is None && u.rb() is None);
        assert(okt(u.lb()) && okt(u.rb()) && canonical(u.lb()) && canonical(u.rb()));
        assert(okt(Some(u)));
    } else {
        lemma_map(f, g, t.lb()->0, u.lb()->0); lemma_map(f, g, t.rb()->0, u.rb()->0);
        assert(okt(u.lb()) && okt(u.rb()));
        assert((u.lb()->0).data().valid() && (u.rb()->0).data().valid());
        assert(mpre(t.data(), l, r));
        assert(mstep(f, t.data(), t.level, t.name, l, r, u.data()));
        assert(okt(Some(u)));
        if canonical(Some(t)) { assert(canonical(t.lb()) && canonical(t.rb())); assert(canonical(Some(u))); }
    }
    assert(nimg(f, cin(t.lb()), cin(u.lb())) && nimg(f, cin(t.rb()), cin(u.rb())));
    assert(cimg(f, cnode(t), cnode(u)));
    lemma_nimg_node(f, cin(t.lb()), cnode(t), cin(t.rb()), cin(u.lb()), cnode(u), cin(u.rb()));
}
pub proof fn lemma_map_pre<E, M: RazMeta<E>, R, N: RazMeta<R>, F: Fn(&E) -> R, G: Fn(TreeData<E, M>, u32, Option<Name>, Option<&Tree<TreeData<R, N>>>, Option<&Tree<TreeData<R, N>>>) -> TreeData<R, N>>(f: F, g: G, t: Tree<TreeData<E, M>>)
    requires okt(Some(t)), mclosure(f, g),
    ensures ltree::map_pre::<TreeData<E, M>, TreeData<R, N>, G>(Some(t), g)
    decreases t
{
    lemma_tree(t);
    if t.data() is Branch {
        let (a, b) = (t.lb()->0, t.rb()->0);
        lemma_map_pre(f, g, a); lemma_map_pre(f, g, b);
        assert forall|l: Option<Tree<TreeData<R, N>>>, r: Option<Tree<TreeData<R, N>>>| #[trigger] ltree::map_rel(t.link.v.l_branch, g, l) && #[trigger] ltree::map_rel(t.link.v.r_branch, g, r)
            implies g.requires((t.link.v.data, t.level, t.name, ltree::oref(l), ltree::oref(r))) by {
            lemma_map(f, g, a, l->0); lemma_map(f, g, b, r->0);
            assert(okt(l) && okt(r));
            assert(mpre(t.data(), ltree::oref(l), ltree::oref(r)));
        }
    } else {
        assert(ltree::map_pre::<TreeData<E, M>, TreeData<R, N>, G>(t.lb(), g));
        assert forall|l: Option<Tree<TreeData<R, N>>>, r: Option<Tree<TreeData<R, N>>>| #[trigger] ltree::map_rel(t.link.v.l_branch, g, l) && #[trigger] ltree::map_rel(t.link.v.r_branch, g, r)
            implies g.requires((t.link.v.data, t.level, t.name, ltree::oref(l), ltree::oref(r))) by { assert(mpre(t.data(), ltree::oref(l), ltree::oref(r))); }
    }
}
%fn RazTree::map params f
    requires self.wf(), tot1(*f),
    ensures res.wf(), mapped(*f, self.tree, res.tree), img(*f, self.elems(), res.elems()),
%entry RazTree::map
    els_hint::<E>(); els_hint::<R>();
    assert(okt(None::<Tree<TreeData<R, N>>>));
%closure RazTree::map 0 "(d: TreeData<E, M>, lev: u32, n: Option<Name>, l: Option<&Tree<TreeData<R, N>>>, r: Option<&Tree<TreeData<R, N>>>) -> (res: TreeData<R, N>)"
    requires mpre(d, l, r),
    ensures mstep(*f, d, lev, n, l, r, res),
%closure_entry RazTree::map 0
    take_hint::<E>();
%closure_after RazTree::map 0
    assert(mclosure(*f, __c));
    lemma_map_pre(rcv(f), __c, tree);
    assert forall|u: Tree<TreeData<R, N>>| #[trigger] ltree::map_rel(Some(tree), __c, Some(u)) implies mapped(*f, Some(tree), Some(u)) by { lemma_map(rcv(f), __c, tree, u); }
%loop RazTree::map 0
    invariant 0 <= __i0 <= vec@.len(), img(*f, vec@.take(__i0 as int), __acc0@), tot1(*f),
    ensures __i0 == vec@.len(),
    decreases vec@.len() - __i0,
%raw
// ---- conversion from an archive stack
/// the nodes still to be built from a stack: a leaf for each section, a branch for each archive point
pub open spec fn rem<E>(tail: bool, arch: Seq<(Option<Name>, (u32, Vec<E>))>, cur: Seq<E>) -> Nodes<E>
    decreases arch.len()
{
    let leaf = seq![(0u32, None::<Name>, Some(if tail { cur } else { cur.reverse() }))];
    if arch.len() == 0 { leaf } else { join3(tail, rem(tail, arch.skip(1), arch[0].1.1@), (arch[0].1.0, arch[0].0, None), leaf) }
}
pub open spec fn join3<E>(tail: bool, rest: Nodes<E>, x: (u32, Option<Name>, Option<Seq<E>>), done: Nodes<E>) -> Nodes<E> {
    if tail { rest + seq![x] + done } else { done + seq![x] + rest }
}
/// the nodes of the sequence made from a stack; an archive point with nothing after it makes none
pub open spec fn snodes<E>(tail: bool, s: stack::AStack<E, u32>) -> Nodes<E> {
    if s.cur().len() > 0 { rem(tail, s.arch(), s.cur()) } else if s.arch().len() == 0 { Seq::empty() } else { rem(tail, s.arch().skip(1), s.arch()[0].1.1@) }
}
/// the levels a stack may be archived with
pub open spec fn slv<E>(tail: bool, s: stack::AStack<E, u32>) -> bool {
    forall|i: int| 0 <= i < s.arch().len() ==> 1 <= (#[trigger] s.arch()[i]).1.0 && (tail ==> s.arch()[i].1.0 < u32::MAX)
}
pub open spec fn ready<E>(tail: bool, s: stack::AStack<E, u32>) -> bool { s.wf() && s.cur().len() > 0 && slv(tail, s) }
pub open spec fn built<E, M: RazMeta<E>>(t: Tree<TreeData<E, M>>) -> bool { okt(Some(t)) && canonical(Some(t)) && pos(cin(Some(t))) }
pub open spec fn fs_pre<E, M: RazMeta<E>>(tail: bool, s: stack::AStack<E, u32>, fl: u32, t: Tree<TreeData<E, M>>, max: u32) -> bool {
    ready(tail, s) && built(t) && fl >= 1 && if tail { t.level <= fl && fl < max } else { t.level < fl && fl <= max }
}
pub open spec fn fs_post<E, M: RazMeta<E>>(tail: bool, s: stack::AStack<E, u32>, fl: u32, fname: Option<Name>, t: Tree<TreeData<E, M>>, max: u32,
        s2: stack::AStack<E, u32>, l2: Option<u32>, n2: Option<Name>, t2: Tree<TreeData<E, M>>) -> bool {
    let all = join3(tail, rem(tail, s.arch(), s.cur()), (fl, fname, None), cin(Some(t)));
    built(t2) && (if tail { t2.level < max } else { t2.level <= max }) && match l2 {
        None => s2.empty() && n2 is None && cin(Some(t2)) == all,
        Some(lev) => ready(tail, s2) && s2.arch().len() < s.arch().len() && (if tail { max <= lev < u32::MAX } else { lev > max })
            && join3(tail, rem(tail, s2.arch(), s2.cur()), (lev, n2, None), cin(Some(t2))) == all,
    }
}
pub proof fn lemma_join3<E>(tail: bool, a: Nodes<E>, x: (u32, Option<Name>, Option<Seq<E>>), b: Nodes<E>, y: (u32, Option<Name>, Option<Seq<E>>), c: Nodes<E>)
    ensures join3(tail, a, x, join3(tail, b, y, c)) == join3(tail, join3(tail, a, x, b), y, c)
{
    assert(join3(tail, a, x, join3(tail, b, y, c)) =~= join3(tail, join3(tail, a, x, b), y, c));
}
pub proof fn lemma_rem_els<E>(tail: bool, arch: Seq<(Option<Name>, (u32, Vec<E>))>, cur: Seq<E>)
    ensures els(rem(tail, arch, cur)) == if tail { stack::arch_elems(arch) + cur } else { (stack::arch_elems(arch) + cur).reverse() }
    decreases arch.len()
{
    els_hint::<E>();
    let leaf = seq![(0u32, None::<Name>, Some(if tail { cur } else { cur.reverse() }))];
    if arch.len() == 0 {
        assert(stack::arch_elems(arch) + cur =~= cur);
    } else {
        lemma_rem_els(tail, arch.skip(1), arch[0].1.1@);
        let r = rem(tail, arch.skip(1), arch[0].1.1@);
        let x = (arch[0].1.0, arch[0].0, None::<Seq<E>>);
        if tail { assert(els(r + seq![x] + leaf) == els(r + seq![x]) + els(leaf)); assert(els(r + seq![x] + leaf) =~= stack::arch_elems(arch) + cur); }
        else { assert(els(leaf + seq![x] + r) == els(leaf + seq![x]) + els(r)); assert(els(leaf + seq![x] + r) =~= (stack::arch_elems(arch) + cur).reverse()); }
    }
}
pub proof fn lemma_snodes<E>(tail: bool, s: stack::AStack<E, u32>)
    ensures els(snodes(tail, s)) == if tail { s.elems() } else { s.elems().reverse() }
{
    els_hint::<E>();
    if s.cur().len() > 0 { lemma_rem_els(tail, s.arch(), s.cur()); }
    else if s.arch().len() > 0 { lemma_rem_els(tail, s.arch().skip(1), s.arch()[0].1.1@); assert(s.elems() =~= stack::arch_elems(s.arch().skip(1)) + s.arch()[0].1.1@); }
    else { assert(s.elems() =~= Seq::empty()); assert(s.elems().reverse() =~= Seq::empty()); }
}
/// one section taken off
pub open spec fn na_rem<E>(tail: bool, s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>) -> bool {
    match res {
        None => s0.empty() && s1 == s0,
        Some(p) => !s0.empty() && p.0@ == s0.cur() && match p.1 {
            None => s0.arch().len() == 0 && s1.empty() && rem(tail, s0.arch(), s0.cur()) == seq![(0u32, None::<Name>, Some(if tail { p.0@ } else { p.0@.reverse() }))],
            Some(lev) => ready(tail, s1) && s1.arch().len() + 1 == s0.arch().len() && lev >= 1 && (tail ==> lev < u32::MAX)
                && rem(tail, s0.arch(), s0.cur()) == join3(tail, rem(tail, s1.arch(), s1.cur()), (lev, stack::top_name(s0.arch()), None), seq![(0u32, None::<Name>, Some(if tail { p.0@ } else { p.0@.reverse() }))]),
        },
    }
}
pub proof fn lemma_na_rem<E>(tail: bool, s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>)
    requires stack::na_post(s0, s1, res), s0.wf(), slv(tail, s0)
    ensures na_rem(tail, s0, s1, res)
{
    if s0.arch().len() > 0 {
        assert(s0.arch()[0].1.1@.len() > 0);
        assert forall|i: int| 0 <= i < s1.arch().len() implies 1 <= (#[trigger] s1.arch()[i]).1.0 && (tail ==> s1.arch()[i].1.0 < u32::MAX) by { assert(s1.arch()[i] == s0.arch()[i + 1]); }
    }
}
pub proof fn fs_hint<E, M: RazMeta<E>>(tail: bool)
    ensures
        forall|s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(s0, s1, res) && s0.wf() && slv(tail, s0) ==> na_rem(tail, s0, s1, res),
        forall|a: Nodes<E>, x: (u32, Option<Name>, Option<Seq<E>>), b: Nodes<E>, y: (u32, Option<Name>, Option<Seq<E>>), c: Nodes<E>|
            #[trigger] join3(tail, a, x, join3(tail, b, y, c)) == join3(tail, join3(tail, a, x, b), y, c),
{
    assert forall|s0: stack::AStack<E, u32>, s1: stack::AStack<E, u32>, res: Option<(Vec<E>, Option<u32>)>| #[trigger] stack::na_post(s0, s1, res) && s0.wf() && slv(tail, s0) implies na_rem(tail, s0, s1, res) by {
        lemma_na_rem(tail, s0, s1, res);
    }
    assert forall|a: Nodes<E>, x: (u32, Option<Name>, Option<Seq<E>>), b: Nodes<E>, y: (u32, Option<Name>, Option<Seq<E>>), c: Nodes<E>|
        #[trigger] join3(tail, a, x, join3(tail, b, y, c)) == join3(tail, join3(tail, a, x, b), y, c) by { lemma_join3(tail, a, x, b, y, c); }
}
%fn "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from/from_stack" as tail_from_stack params stack,first_level,first_name,accum_tree,max_level
    requires fs_pre(true, stack, first_level, accum_tree, max_level),
    ensures fs_post(true, stack, first_level, first_name, accum_tree, max_level, res.0, res.1, res.2, res.3),
    decreases stack.arch().len(), 0nat,
%entry "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from/from_stack"
    fs_hint::<E, M>(true);
%ghost "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from/from_stack"
    na = cin(Some(accum_tree));
    nn = first_name;
%after "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from/from_stack" bin 0
    assert(cin(Some(__r)) =~= join3(true, cin(Some(small_tree)), (first_level, nn, None), na));
%fn "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from/from_stack_memo" as tail_from_stack_memo params s,l,n,t,m
    requires fs_pre(true, s, l, t, m),
    ensures fs_post(true, s, l, n, t, m, res.0, res.1, res.2, res.3),
    decreases s.arch().len(), 1nat,
%fn "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from" as memo_from_tail params tailstack
    requires tailstack.0.wf(), slv(true, tailstack.0),
    ensures res.wf(), res.pos(), res.canon(), cin(res.tree) == snodes(true, tailstack.0),
        res.elems() == tailstack.0.elems(),
%entry "RazTree as MemoFrom<stack::AtTail<E,u32>>::memo_from"
    fs_hint::<E, M>(true); els_hint::<E>();
    lemma_snodes(true, tailstack.0);
%fn "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from/from_stack" as head_from_stack params stack,first_level,first_name,accum_tree,max_level
    requires fs_pre(false, stack, first_level, accum_tree, max_level),
    ensures fs_post(false, stack, first_level, first_name, accum_tree, max_level, res.0, res.1, res.2, res.3),
    decreases stack.arch().len(), 0nat,
%entry "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from/from_stack"
    fs_hint::<E, M>(false);
%ghost "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from/from_stack"
    na = cin(Some(accum_tree));
    nn = first_name;
%after "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from/from_stack" bin 0
    assert(cin(Some(__r)) =~= join3(false, cin(Some(small_tree)), (first_level, nn, None), na));
%fn "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from/from_stack_memo" as head_from_stack_memo params s,l,n,t,m
    requires fs_pre(false, s, l, t, m),
    ensures fs_post(false, s, l, n, t, m, res.0, res.1, res.2, res.3),
    decreases s.arch().len(), 1nat,
%fn "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from" as memo_from_head params headstack
    requires headstack.0.wf(), slv(false, headstack.0),
    ensures res.wf(), res.pos(), res.canon(), cin(res.tree) == snodes(false, headstack.0),
        res.elems() == headstack.0.elems().reverse(),
%entry "RazTree as MemoFrom<stack::AtHead<E,u32>>::memo_from"
    fs_hint::<E, M>(false); els_hint::<E>();
    lemma_snodes(false, headstack.0);
