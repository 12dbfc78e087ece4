%module tree_cursor src/tree_cursor.rs
%head
use std::mem;
pub use crate::level_tree::*;
%type Cursor
%type Force
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
%type UpResult
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
%type IterL
%type IterR
%raw
/// The contract of `TreeUpdate::rebuild`.  `core` is the part of the data that
/// rebuilding must preserve; `good` says that a node's data is right for its
/// branches; `shape` which combinations of branches a node may have.
pub trait TreeUpdate: Sized {
    type Core;
    spec fn core(&self) -> Self::Core;
    spec fn valid(&self) -> bool;
    spec fn loose() -> bool;
    spec fn shape(l: bool, level: u32, r: bool, c: Self::Core) -> bool;
    spec fn good(l: Option<Self>, level: u32, name: Option<Name>, r: Option<Self>, d: Self) -> bool;
    proof fn law_shape(l: bool, level: u32, r: bool, c: Self::Core)
        ensures Self::loose() ==> Self::shape(l, level, r, c),
            Self::shape(l, level, r, c) ==> Self::loose() || (l && r) || (!l && !r && level == 0);
    fn rebuild(l_branch: Option<&Self>, old_data: &Self, level: u32, name: Option<Name>, r_branch: Option<&Self>) -> (res: Self)
        requires l_branch matches Some(x) ==> x.valid(), r_branch matches Some(x) ==> x.valid(),
        ensures res.core() == old_data.core(), res.valid(),
            Self::shape(l_branch is Some, level, r_branch is Some, old_data.core())
                ==> Self::good(oval(l_branch), level, name, oval(r_branch), res);
}
pub trait DeriveTreeUpdate: Sized {}
pub open spec fn oval<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub open spec fn odata<E>(o: Option<Tree<E>>) -> Option<E> { match o { Some(x) => Some(x.data()), None => None } }
/// in-order nodes with the rebuild-invariant part of their data
pub open spec fn cin<E: TreeUpdate>(t: Option<Tree<E>>) -> Seq<(u32, Option<Name>, E::Core)>
    decreases t
{
    match t {
        None => Seq::empty(),
        Some(t) => cin(t.link.v.l_branch) + seq![(t.level, t.name, t.link.v.data.core())] + cin(t.link.v.r_branch),
    }
}
pub open spec fn cnode<E: TreeUpdate>(t: Tree<E>) -> (u32, Option<Name>, E::Core) { (t.level, t.name, t.data().core()) }
/// every node's data can be handed to rebuild
pub open spec fn vt<E: TreeUpdate>(t: Option<Tree<E>>) -> bool
    decreases t
{
    match t { None => true, Some(t) => vt(t.link.v.l_branch) && vt(t.link.v.r_branch) && t.link.v.data.valid() && pin(t) }
}
/// every node has a proper shape and exactly the data its branches call for
pub open spec fn okt<E: TreeUpdate>(t: Option<Tree<E>>) -> bool
    decreases t
{
    match t { None => true, Some(t) => okt(t.link.v.l_branch) && okt(t.link.v.r_branch) && t.link.v.data.valid() && pin(t)
        && E::shape(t.link.v.l_branch is Some, t.level, t.link.v.r_branch is Some, t.link.v.data.core())
        && E::good(odata(t.link.v.l_branch), t.level, t.name, odata(t.link.v.r_branch), t.link.v.data) }
}
/// no node is stored in a named cell, so nothing can overwrite any of it
pub open spec fn free<E>(t: Option<Tree<E>>) -> bool
    decreases t
{
    match t { None => true, Some(t) => t.link.at@ is None && free(t.link.v.l_branch) && free(t.link.v.r_branch) }
}
pub open spec fn unnamed<E: TreeUpdate>(t: Option<Tree<E>>) -> bool { forall|i: int| 0 <= i < cin(t).len() ==> (#[trigger] cin(t)[i]).1 is None }
/// what has no names is never stored in a named cell: clones of it are independent
pub proof fn lemma_free<E: TreeUpdate>(t: Option<Tree<E>>)
    requires pinned(), vt(t), unnamed(t)
    ensures free(t)
    decreases t
{
    reveal(pin);
    if let Some(t) = t {
        let (l, r) = (cin(t.lb()), cin(t.rb())); let s = cin(Some(t));
        assert(s == l + seq![cnode(t)] + r);
        assert(s[l.len() as int] == cnode(t));
        assert(pin(t));
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).1 is None by { assert(s[i] == l[i]); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 is None by { assert(s[l.len() + 1 + i] == r[i]); }
        lemma_free(t.lb()); lemma_free(t.rb());
    }
}
pub type Forest<E> = Seq<(bool, Tree<E>)>;
pub open spec fn goes_left<E>(l: Forest<E>, r: Forest<E>) -> bool {
    l.len() > 0 && (r.len() == 0 || r.last().1.level > l.last().1.level)
}
pub open spec fn lseq<E: TreeUpdate>(l: Forest<E>) -> Seq<(u32, Option<Name>, E::Core)>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { lseq(l.drop_last()) + cin(l.last().1.lb()) + seq![cnode(l.last().1)] }
}
pub open spec fn rseq<E: TreeUpdate>(r: Forest<E>) -> Seq<(u32, Option<Name>, E::Core)>
    decreases r.len()
{
    if r.len() == 0 { Seq::empty() } else { seq![cnode(r.last().1)] + cin(r.last().1.rb()) + rseq(r.drop_last()) }
}
/// as long as nothing changed, the node above has the current tree as its branch
pub open spec fn chain<E: TreeUpdate>(l: Forest<E>, t: Option<Tree<E>>, r: Forest<E>, dirty: bool) -> bool
    decreases l.len() + r.len()
{
    dirty || (l.len() == 0 && r.len() == 0) || if goes_left(l, r) {
        l.last().1.rb() == t && chain(l.drop_last(), Some(l.last().1), r, l.last().0)
    } else {
        r.last().1.lb() == t && chain(l, Some(r.last().1), r.drop_last(), r.last().0)
    }
}
pub open spec fn vf<E: TreeUpdate>(f: Forest<E>) -> bool { forall|i: int| 0 <= i < f.len() ==> vt(Some((#[trigger] f[i]).1)) }
pub open spec fn okf<E: TreeUpdate>(f: Forest<E>) -> bool { forall|i: int| 0 <= i < f.len() ==> okt(Some((#[trigger] f[i]).1)) && (E::loose() || (f[i].1.lb() is Some && f[i].1.rb() is Some)) }
pub open spec fn canf<E>(f: Forest<E>) -> bool { forall|i: int| 0 <= i < f.len() ==> canonical(Some((#[trigger] f[i]).1)) }
pub open spec fn levf<E>(l: Forest<E>, t: Option<Tree<E>>, r: Forest<E>) -> bool {
    &&& canf(l) && canf(r) && canonical(t)
    &&& (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).1.level >= (#[trigger] l[j]).1.level)
    &&& (forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).1.level > (#[trigger] r[j]).1.level)
    &&& (t is Some && l.len() > 0 ==> t->0.level <= l.last().1.level)
    &&& (t is Some && r.len() > 0 ==> t->0.level < r.last().1.level)
}
impl<E: TreeUpdate> Cursor<E> {
    pub open spec fn lf(&self) -> Forest<E> { self.l_forest@ }
    pub open spec fn rf(&self) -> Forest<E> { self.r_forest@ }
    /// in-order nodes of the whole underlying tree
    pub open spec fn content(&self) -> Seq<(u32, Option<Name>, E::Core)> { lseq(self.lf()) + cin(self.tree) + rseq(self.rf()) }
    pub open spec fn chained(&self) -> bool { chain(self.lf(), self.tree, self.rf(), self.dirty) }
    pub open spec fn vv(&self) -> bool { vf(self.lf()) && vf(self.rf()) && vt(self.tree) }
    pub open spec fn ok(&self) -> bool { okf(self.lf()) && okf(self.rf()) && okt(self.tree) }
    pub open spec fn lev(&self) -> bool { levf(self.lf(), self.tree, self.rf()) }
    /// the cursor's place can be filled in when the nodes above are rebuilt
    pub open spec fn flex(&self) -> bool { E::loose() || self.tree is Some }
    /// everything a cursor over a canonical tree satisfies
    pub open spec fn inv(&self) -> bool { self.chained() && self.vv() && self.lev() }
    pub open spec fn depth(&self) -> nat { self.lf().len() + self.rf().len() }
    pub open spec fn same(&self, o: Self) -> bool { self.lf() == o.lf() && self.rf() == o.rf() && self.tree == o.tree && self.dirty == o.dirty }
}
pub proof fn lemma_ok_valid<E: TreeUpdate>(t: Option<Tree<E>>)
    requires okt(t) ensures vt(t) decreases t
{
    if let Some(t) = t { lemma_ok_valid(t.lb()); lemma_ok_valid(t.rb()); }
}
pub proof fn lemma_c_valid<E: TreeUpdate>(c: Cursor<E>)
    requires c.ok() ensures c.vv()
{
    lemma_ok_valid(c.tree);
    assert forall|i: int| 0 <= i < c.lf().len() implies vt(Some((#[trigger] c.lf()[i]).1)) by { lemma_ok_valid(Some(c.lf()[i].1)); }
    assert forall|i: int| 0 <= i < c.rf().len() implies vt(Some((#[trigger] c.rf()[i]).1)) by { lemma_ok_valid(Some(c.rf()[i].1)); }
}
/// a node made by `up` in place of `u`, with branches l and r
pub open spec fn rebuilt<E: TreeUpdate>(u: Tree<E>, l: Option<Tree<E>>, r: Option<Tree<E>>, t: Tree<E>) -> bool {
    t.level == u.level && t.name == u.name && t.lb() == l && t.rb() == r && t.data().core() == u.data().core() && t.data().valid() && pin(t)
    && (E::shape(l is Some, u.level, r is Some, u.data().core()) ==> E::good(odata(l), u.level, u.name, odata(r), t.data()))
}
pub open spec fn up_post<E: TreeUpdate>(c0: Cursor<E>, c1: Cursor<E>, res: UpResult) -> bool {
    if c0.lf().len() == 0 && c0.rf().len() == 0 { res == UpResult::Fail && c1.same(c0) }
    else if goes_left(c0.lf(), c0.rf()) {
        let u = c0.lf().last();
        res == UpResult::Left && c1.lf() == c0.lf().drop_last() && c1.rf() == c0.rf() && c1.tree is Some
        && if c0.dirty { c1.dirty && rebuilt(u.1, u.1.lb(), c0.tree, c1.tree->0) } else { c1.dirty == u.0 && c1.tree == Some(u.1) }
    } else {
        let u = c0.rf().last();
        res == UpResult::Right && c1.rf() == c0.rf().drop_last() && c1.lf() == c0.lf() && c1.tree is Some
        && if c0.dirty { c1.dirty && rebuilt(u.1, c0.tree, u.1.rb(), c1.tree->0) } else { c1.dirty == u.0 && c1.tree == Some(u.1) }
    }
}
pub open spec fn up_discard_post<E: TreeUpdate>(c0: Cursor<E>, c1: Cursor<E>, res: UpResult) -> bool {
    if c0.lf().len() == 0 && c0.rf().len() == 0 { res == UpResult::Fail && c1.same(c0) }
    else if goes_left(c0.lf(), c0.rf()) {
        res == UpResult::Left && c1.lf() == c0.lf().drop_last() && c1.rf() == c0.rf() && c1.tree == Some(c0.lf().last().1) && c1.dirty == c0.lf().last().0
    } else {
        res == UpResult::Right && c1.rf() == c0.rf().drop_last() && c1.lf() == c0.lf() && c1.tree == Some(c0.rf().last().1) && c1.dirty == c0.rf().last().0
    }
}
pub open spec fn down_post<E: TreeUpdate>(c0: Cursor<E>, left: bool, f: Force, c1: Cursor<E>, res: bool) -> bool {
    let child = match c0.tree { None => None, Some(t) => if left { t.lb() } else { t.rb() } };
    if c0.tree is None || (child is None && f == Force::No) { !res && c1.same(c0) }
    else {
        res && c1.tree == child
        && if f == Force::Discard { c1.dirty && c1.lf() == c0.lf() && c1.rf() == c0.rf() }
        else if left { !c1.dirty && c1.lf() == c0.lf() && c1.rf() == c0.rf().push((c0.dirty, c0.tree->0)) }
        else { !c1.dirty && c1.rf() == c0.rf() && c1.lf() == c0.lf().push((c0.dirty, c0.tree->0)) }
    }
}
/// what every `up` guarantees
pub open spec fn up_facts<E: TreeUpdate>(c0: Cursor<E>, c1: Cursor<E>, res: UpResult) -> bool {
    &&& (c0.chained() ==> c1.chained() && c1.content() == c0.content())
    &&& (c0.vv() ==> c1.vv())
    &&& (c0.ok() && (c0.dirty ==> c0.flex()) ==> c1.ok())
    &&& (c0.lev() && c0.chained() ==> c1.lev())
}
#[verifier::spinoff_prover]
pub proof fn lemma_up<E: TreeUpdate>(c0: Cursor<E>, c1: Cursor<E>, res: UpResult)
    requires up_post(c0, c1, res)
    ensures up_facts(c0, c1, res)
{
    let l = c0.lf(); let r = c0.rf();
    if l.len() == 0 && r.len() == 0 { }
    else if goes_left(l, r) {
        let u = l.last().1; let t = c1.tree->0;
        assert(lseq(l) == lseq(l.drop_last()) + cin(u.lb()) + seq![cnode(u)]);
        assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
        if c0.chained() { assert(c1.content() =~= c0.content()); }
        E::law_shape(u.lb() is Some, u.level, u.rb() is Some, u.data().core());
        E::law_shape(u.lb() is Some, u.level, c0.tree is Some, u.data().core());
        if c0.lev() && c0.chained() { assert(canonical(Some(u))); assert(canonical(Some(t))); }
        if c0.vv() { assert(vt(Some(u))); assert(vt(Some(t))); }
        if c0.ok() && (c0.dirty ==> c0.flex()) { assert(okt(Some(u))); assert(okt(Some(t))); }
    } else {
        let u = r.last().1; let t = c1.tree->0;
        assert(rseq(r) == seq![cnode(u)] + cin(u.rb()) + rseq(r.drop_last()));
        assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
        if c0.chained() { assert(c1.content() =~= c0.content()); }
        E::law_shape(u.lb() is Some, u.level, u.rb() is Some, u.data().core());
        E::law_shape(c0.tree is Some, u.level, u.rb() is Some, u.data().core());
        if c0.lev() && c0.chained() { assert(canonical(Some(u))); assert(canonical(Some(t))); }
        if c0.vv() { assert(vt(Some(u))); assert(vt(Some(t))); }
        if c0.ok() && (c0.dirty ==> c0.flex()) { assert(okt(Some(u))); assert(okt(Some(t))); }
    }
}
/// what every non-discarding `down` guarantees
pub open spec fn down_facts<E: TreeUpdate>(c0: Cursor<E>, left: bool, f: Force, c1: Cursor<E>) -> bool {
    &&& (f != Force::Discard ==> c1.content() == c0.content())
    &&& (c0.vv() ==> c1.vv())
    &&& (c0.ok() && (f != Force::Yes || E::loose() || c0.tree is None || c0.tree->0.level > 0) ==> c1.ok())
    &&& (c0.ok() && f == Force::Discard ==> c1.ok())
    &&& (c0.ok() && f == Force::Yes && c0.tree is Some && c0.tree->0.level > 0 && !E::loose() ==> c1.tree is Some)
    &&& (c0.lev() ==> c1.lev())
    &&& (c0.chained() && (c0.lev() || (left && c0.lf().len() == 0) || (!left && c0.rf().len() == 0)) ==> c1.chained())
}
pub proof fn lemma_down<E: TreeUpdate>(c0: Cursor<E>, left: bool, f: Force, c1: Cursor<E>, res: bool)
    requires down_post(c0, left, f, c1, res)
    ensures down_facts(c0, left, f, c1)
{
    if res {
        let t = c0.tree->0;
        assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
        E::law_shape(t.lb() is Some, t.level, t.rb() is Some, t.data().core());
        if f != Force::Discard {
            if left {
                assert(c1.rf().drop_last() =~= c0.rf());
                assert(c1.rf().last() == (c0.dirty, t));
                assert(c1.content() =~= c0.content());
            } else {
                assert(c1.lf().drop_last() =~= c0.lf());
                assert(c1.lf().last() == (c0.dirty, t));
                assert(c1.content() =~= c0.content());
            }
        }
        if c0.vv() { assert(vt(Some(t))); assert(vt(c1.tree)); }
        if c0.ok() { assert(okt(Some(t))); assert(okt(c1.tree)); }
        if c0.lev() { assert(canonical(Some(t))); assert(canonical(c1.tree)); }
    }
}
pub proof fn down_hint<E: TreeUpdate>(c0: Cursor<E>, left: bool, f: Force)
    ensures forall|c: Cursor<E>| down_post(c0, left, f, c, true) || down_post(c0, left, f, c, false) ==> #[trigger] down_facts(c0, left, f, c)
{
    assert forall|c: Cursor<E>| down_post(c0, left, f, c, true) || down_post(c0, left, f, c, false) implies #[trigger] down_facts(c0, left, f, c) by {
        if down_post(c0, left, f, c, true) { lemma_down(c0, left, f, c, true); } else { lemma_down(c0, left, f, c, false); }
    }
}
pub proof fn up_hint<E: TreeUpdate>(c0: Cursor<E>)
    ensures forall|c: Cursor<E>, r: UpResult| up_post(c0, c, r) ==> #[trigger] up_facts(c0, c, r)
{
    assert forall|c: Cursor<E>, r: UpResult| up_post(c0, c, r) implies #[trigger] up_facts(c0, c, r) by { lemma_up(c0, c, r); }
}
pub proof fn vt_hint<E: TreeUpdate>()
    ensures forall|t: Tree<E>| #[trigger] vt(Some(t)) ==> t.data().valid() && (t.lb() matches Some(x) ==> x.data().valid()) && (t.rb() matches Some(x) ==> x.data().valid())
{
    assert forall|t: Tree<E>| #[trigger] vt(Some(t)) implies t.data().valid() && (t.lb() matches Some(x) ==> x.data().valid()) && (t.rb() matches Some(x) ==> x.data().valid()) by {
        assert(vt(t.lb())); assert(vt(t.rb()));
    }
}
/// what joining two cursors around a new node has to produce
pub open spec fn joined<E: TreeUpdate>(a: Cursor<E>, b: Cursor<E>, level: u32, name: Option<Name>, core: E::Core, res: Cursor<E>) -> bool {
    a.rf().len() == 0 && b.lf().len() == 0 && res.lf() == a.lf() && res.rf() == b.rf() && res.dirty && res.tree is Some
    && a.vv() && b.vv()
    && res.tree->0.level == level && res.tree->0.name == name && res.tree->0.data().core() == core && res.tree->0.data().valid()
    && res.tree->0.lb() == a.tree && res.tree->0.rb() == b.tree && pin(res.tree->0)
    && (E::shape(a.tree is Some, level, b.tree is Some, core) ==> E::good(odata(a.tree), level, name, odata(b.tree), res.tree->0.data()))
    && (a.lf().len() > 0 ==> a.lf().last().1.level >= level) && (a.tree is Some ==> a.tree->0.level < level)
    && (b.rf().len() > 0 ==> b.rf().last().1.level > level) && (b.tree is Some ==> b.tree->0.level <= level)
}
pub open spec fn join_facts<E: TreeUpdate>(a: Cursor<E>, b: Cursor<E>, level: u32, name: Option<Name>, core: E::Core, res: Cursor<E>) -> bool {
    res.chained() && res.vv()
    && res.content() == a.content() + seq![(level, name, core)] + b.content()
    && (a.lev() && b.lev() ==> res.lev())
    && (a.ok() && b.ok() && a.flex() && b.flex() && E::shape(true, level, true, core) ==> res.ok())
}
pub proof fn lemma_join<E: TreeUpdate>(a: Cursor<E>, b: Cursor<E>, level: u32, name: Option<Name>, core: E::Core, res: Cursor<E>)
    requires joined(a, b, level, name, core, res)
    ensures join_facts(a, b, level, name, core, res)
{
    let t = res.tree->0;
    assert(cin(Some(t)) == cin(t.lb()) + seq![cnode(t)] + cin(t.rb()));
    assert(rseq(a.rf()) =~= Seq::empty()); assert(lseq(b.lf()) =~= Seq::empty());
    assert(res.content() =~= a.content() + seq![(level, name, core)] + b.content());
    assert(vt(Some(t)));
    E::law_shape(a.tree is Some, level, b.tree is Some, core);
    if a.lev() && b.lev() { assert(canonical(Some(t))); }
    if a.ok() && b.ok() && a.flex() && b.flex() && E::shape(true, level, true, core) { assert(okt(Some(t))); }
}
/// the state of one side of a join: same contents, still sound
pub open spec fn jinv<E: TreeUpdate>(c0: Cursor<E>, level: u32, c: Cursor<E>) -> bool {
    c.chained() && c.vv() && c.content() == c0.content() && (c0.lev() ==> c.lev())
    && (c0.ok() && c0.flex() && (level > 0 || E::loose()) ==> c.ok() && c.flex())
}
pub open spec fn join_post<E: TreeUpdate>(l: Cursor<E>, level: u32, name: Option<Name>, core: E::Core, r: Cursor<E>, res: Cursor<E>) -> bool {
    res.dirty && res.tree is Some && res.chained() && res.vv()
    && res.content() == l.content() + seq![(level, name, core)] + r.content()
    && res.tree->0.level == level && res.tree->0.name == name && res.tree->0.data().core() == core
    && (l.lev() && r.lev() ==> res.lev())
    && (l.ok() && r.ok() && l.flex() && r.flex() && (level > 0 || E::loose()) && E::shape(true, level, true, core) ==> res.ok())
}
pub proof fn join_hint<E: TreeUpdate>(l: Cursor<E>, level: u32, name: Option<Name>, core: E::Core, r: Cursor<E>)
    ensures forall|a: Cursor<E>, b: Cursor<E>, res: Cursor<E>| #![trigger jinv(l, level, a), jinv(r, level, b), join_post(l, level, name, core, r, res)]
        joined(a, b, level, name, core, res) && jinv(l, level, a) && jinv(r, level, b) ==> join_post(l, level, name, core, r, res)
{
    assert forall|a: Cursor<E>, b: Cursor<E>, res: Cursor<E>| #[trigger] joined(a, b, level, name, core, res) && jinv(l, level, a) && jinv(r, level, b)
        implies join_post(l, level, name, core, r, res) by { lemma_join(a, b, level, name, core, res); }
}
pub open spec fn split_post<E: TreeUpdate>(c: Cursor<E>, l: Cursor<E>, t: Option<Tree<E>>, r: Cursor<E>) -> bool {
    &&& t == c.tree
    &&& l.dirty && l.lf() == c.lf() && l.rf().len() == 0 && l.tree == (match c.tree { None => None, Some(t) => t.lb() })
    &&& r.dirty && r.rf() == c.rf() && r.lf().len() == 0 && r.tree == (match c.tree { None => None, Some(t) => t.rb() })
    &&& c.content() == l.content() + (match c.tree { None => Seq::empty(), Some(t) => seq![cnode(t)] }) + r.content()
    &&& l.chained() && r.chained()
    &&& (c.vv() ==> l.vv() && r.vv()) && (c.ok() ==> l.ok() && r.ok())
    &&& (c.lev() ==> l.lev() && r.lev())
}
pub open spec fn from_post<E: TreeUpdate>(t: Tree<E>, c: Cursor<E>) -> bool {
    c.tree == Some(t) && !c.dirty && c.lf().len() == 0 && c.rf().len() == 0
    && c.content() == cin(Some(t)) && c.chained() && (canonical(Some(t)) ==> c.lev())
}
/// moving down and back up returns to the same place and reports the side
pub proof fn lemma_down_up<E: TreeUpdate>(c0: Cursor<E>, left: bool, f: Force, c1: Cursor<E>, c2: Cursor<E>, res: UpResult)
    requires c0.lev() || (left && c0.lf().len() == 0) || (!left && c0.rf().len() == 0), f != Force::Discard,
        down_post(c0, left, f, c1, true), up_post(c1, c2, res)
    ensures c2.same(c0), res == (if left { UpResult::Right } else { UpResult::Left })
{
    if left { assert(c1.rf().drop_last() =~= c0.rf()); } else { assert(c1.lf().drop_last() =~= c0.lf()); }
}
/// data of the nodes after the cursor (the node under it first)
pub open spec fn din<E>(t: Option<Tree<E>>) -> Seq<E>
    decreases t
{
    match t { None => Seq::empty(), Some(t) => din(t.link.v.l_branch) + seq![t.link.v.data] + din(t.link.v.r_branch) }
}
pub open spec fn rdata<E>(r: Forest<E>) -> Seq<E>
    decreases r.len()
{
    if r.len() == 0 { Seq::empty() } else { seq![r.last().1.data()] + din(r.last().1.rb()) + rdata(r.drop_last()) }
}
pub proof fn lemma_rdata_push<E>(r: Forest<E>, x: (bool, Tree<E>))
    ensures rdata(r.push(x)) == seq![x.1.data()] + din(x.1.rb()) + rdata(r)
{
    assert(r.push(x).drop_last() =~= r);
}
impl<E: TreeUpdate> Cursor<E> {
    /// node under the cursor, its right branch, then everything to the right
    pub open spec fn rem(&self) -> Seq<E> {
        match self.tree { None => Seq::empty(), Some(t) => seq![t.data()] + din(t.rb()) + rdata(self.rf()) }
    }
    pub open spec fn iok(&self) -> bool { self.tree is None ==> self.rf().len() == 0 }
    /// as `rem`, with the left branch of the node under the cursor in front
    pub open spec fn all_from(&self) -> Seq<E> { din(self.tree) + rdata(self.rf()) }
    pub open spec fn after(&self) -> Seq<E> {
        (match self.tree { None => Seq::empty(), Some(t) => din(t.rb()) }) + rdata(self.rf())
    }
}
pub proof fn lemma_dl_all<E: TreeUpdate>(c0: Cursor<E>, c1: Cursor<E>, res: bool)
    requires down_post(c0, true, Force::No, c1, res)
    ensures c1.all_from() == c0.all_from(), !res && c0.tree is Some ==> c0.rem() == c0.all_from(), c0.tree is Some ==> c1.tree is Some
{
    if res {
        let t = c0.tree->0;
        lemma_rdata_push(c0.rf(), (c0.dirty, t));
        assert(c1.all_from() =~= c0.all_from());
    } else if c0.tree is Some {
        assert(c0.tree->0.lb() is None); assert(din(c0.tree->0.lb()) =~= Seq::empty());
        assert(c0.rem() =~= c0.all_from());
    }
}
pub open spec fn dl_facts<E: TreeUpdate>(c0: Cursor<E>, c1: Cursor<E>, res: bool) -> bool {
    c1.all_from() == c0.all_from() && (!res && c0.tree is Some ==> c0.rem() == c0.all_from()) && (c0.tree is Some ==> c1.tree is Some)
}
pub proof fn dl_hint<E: TreeUpdate>()
    ensures forall|c0: Cursor<E>, c1: Cursor<E>, res: bool| #[trigger] down_post(c0, true, Force::No, c1, res) ==> dl_facts(c0, c1, res)
{
    assert forall|c0: Cursor<E>, c1: Cursor<E>, res: bool| #[trigger] down_post(c0, true, Force::No, c1, res) implies dl_facts(c0, c1, res) by { lemma_dl_all(c0, c1, res); }
}
pub proof fn lemma_pop_rdata<E>(r: Forest<E>)
    requires r.len() > 0
    ensures rdata(r) == seq![r.last().1.data()] + din(r.last().1.rb()) + rdata(r.drop_last())
{}
impl<E: TreeUpdate> IterR<E> {
    pub open spec fn rem(&self) -> Seq<E> { self.0.rem() }
    pub open spec fn iok(&self) -> bool { self.0.iok() }
}
/// a left-to-right accumulation
pub open spec fn acc_run<R, T, F: Fn(R, T) -> R>(f: F, a: R, s: Seq<T>, r: R) -> bool
    decreases s.len()
{
    if s.len() == 0 { r == a } else { exists|m: R| #[trigger] f.ensures((a, s[0]), m) && acc_run(f, m, s.skip(1), r) }
}
pub open spec fn tot2<R, T, F: Fn(R, T) -> R>(f: F) -> bool { forall|a: R, t: T| #[trigger] f.requires((a, t)) }
impl<E: TreeUpdate> VInto<Cursor<E>> for Tree<E> {
    open spec fn into_ok(self, r: Cursor<E>) -> bool { from_post(self, r) }
    fn vinto(self) -> (r: Cursor<E>) { Cursor::from(self) }
}
/// the structure is determined by the sequence of levels alone
pub open spec fn levels<E>(t: Option<Tree<E>>) -> Seq<u32>
    decreases t
{
    match t { None => Seq::empty(), Some(t) => levels(t.link.v.l_branch) + seq![t.level] + levels(t.link.v.r_branch) }
}
pub open spec fn same_shape<E, F>(a: Option<Tree<E>>, b: Option<Tree<F>>) -> bool
    decreases a
{
    match a {
        None => b is None,
        Some(x) => match b { None => false, Some(y) => x.level == y.level && same_shape(x.link.v.l_branch, y.link.v.l_branch) && same_shape(x.link.v.r_branch, y.link.v.r_branch) },
    }
}
pub proof fn lemma_levels_bound<E>(t: Tree<E>)
    requires canonical(Some(t))
    ensures forall|i: int| 0 <= i < levels(Some(t)).len() ==> #[trigger] levels(Some(t))[i] <= t.level,
        forall|i: int| 0 <= i < levels(t.lb()).len() ==> #[trigger] levels(t.lb())[i] < t.level,
        forall|i: int| 0 <= i < levels(t.rb()).len() ==> #[trigger] levels(t.rb())[i] <= t.level,
    decreases t
{
    if t.lb() is Some { lemma_levels_bound(t.lb()->0); }
    if t.rb() is Some { lemma_levels_bound(t.rb()->0); }
    let l = levels(t.lb()); let r = levels(t.rb());
    assert forall|i: int| 0 <= i < levels(Some(t)).len() implies #[trigger] levels(Some(t))[i] <= t.level by {
        if i < l.len() { assert(levels(Some(t))[i] == l[i]); } else if i > l.len() { assert(levels(Some(t))[i] == r[i - l.len() - 1]); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_unique<E, F>(a: Option<Tree<E>>, b: Option<Tree<F>>)
    requires canonical(a), canonical(b), levels(a) == levels(b)
    ensures same_shape(a, b)
    decreases a
{
    if a is Some && b is Some {
        let x = a->0; let y = b->0;
        lemma_levels_bound(x); lemma_levels_bound(y);
        let s = levels(a);
        let i = levels(x.lb()).len() as int; let j = levels(y.lb()).len() as int;
        assert(s == levels(x.lb()) + seq![x.level] + levels(x.rb()));
        assert(levels(b) == levels(y.lb()) + seq![y.level] + levels(y.rb()));
        assert(canonical(x.lb()) && canonical(x.rb()) && canonical(y.lb()) && canonical(y.rb()));
        assert(s[i] == x.level); assert(levels(b)[j] == y.level);
        assert(x.level <= y.level && y.level <= x.level);
        if i < j { assert(levels(b)[i] == levels(y.lb())[i]); assert(false); }
        if j < i { assert(s[j] == levels(x.lb())[j]); assert(false); }
        assert(levels(x.lb()) =~= s.take(i)); assert(levels(y.lb()) =~= levels(b).take(i));
        assert(levels(x.rb()) =~= s.skip(i + 1)); assert(levels(y.rb()) =~= levels(b).skip(i + 1));
        lemma_unique(x.lb(), y.lb()); lemma_unique(x.rb(), y.rb());
    } else if a is Some { assert(levels(a).len() > 0); } else if b is Some { assert(levels(b).len() > 0); }
}
%impl "E as TreeUpdate"
type Core = E;
open spec fn core(&self) -> E { *self }
open spec fn valid(&self) -> bool { true }
open spec fn loose() -> bool { true }
open spec fn shape(l: bool, level: u32, r: bool, c: E) -> bool { true }
open spec fn good(l: Option<E>, level: u32, name: Option<Name>, r: Option<E>, d: E) -> bool { true }
proof fn law_shape(l: bool, level: u32, r: bool, c: E) {}
%fn "E as TreeUpdate::rebuild"
%fn "Cursor as Clone::clone" as clone_
    ensures res.same(*self),
%fn peek_op params op
    ensures res == odata(*op),
%fn "Cursor as From::from" params tree
    ensures from_post(tree, res),
%exit "Cursor as From::from"
    assert(__res.content() =~= cin(Some(tree)));
%fn Cursor::new
    ensures res.tree is None, !res.dirty, res.lf().len() == 0, res.rf().len() == 0, res.content().len() == 0, res.inv(), res.ok(),
%fn Cursor::with_depth
    ensures res.tree is None, !res.dirty, res.lf().len() == 0, res.rf().len() == 0, res.content().len() == 0, res.inv(), res.ok(),
%fn Cursor::split
    ensures split_post(self, res.0, res.1, res.2),
%exit Cursor::split
    assert(self.content() =~= __res.0.content() + (match self.tree { None => Seq::empty(), Some(t) => seq![cnode(t)] }) + __res.2.content());
    if self.tree is Some && self.lev() { assert(canonical(Some(self.tree->0))); }
%fn Cursor::into_iters
    ensures res.1 == self.tree, res.2.iok(), res.2.rem() == self.after(),
%entry Cursor::into_iters
    dl_hint::<E>();
    assert(self.tree is None ==> din::<E>(None) + rdata(self.rf()) =~= rdata(self.rf()));
    assert(self.tree is Some && self.tree->0.rb() is None ==> din(self.tree->0.rb()) + rdata(self.rf()) =~= rdata(self.rf()));
    if self.rf().len() > 0 { lemma_pop_rdata(self.rf()); }
%loop Cursor::into_iters 0
    invariant true, decreases l_cursor.tree,
%loop Cursor::into_iters 1
    invariant r_cursor.all_from() == self.after(), r_cursor.tree is Some, decreases r_cursor.tree,
%beforeloop Cursor::into_iters 1
    assert(r_cursor.all_from() == self.after());
%fn Cursor::join params l_cursor,level,name,data,r_cursor
    requires l_cursor.chained(), r_cursor.chained(), l_cursor.vv(), r_cursor.vv(),
    ensures join_post(l_cursor, level, name, data.core(), r_cursor, res),
%hide Cursor::join lseq,rseq,chain,vf,okf,levf,okt,vt,canonical
%entry Cursor::join
    join_hint::<E>(l_cursor, level, name, data.core(), r_cursor);
    vt_hint::<E>();
%loop Cursor::join 0
    invariant
        jinv(l_cursor__0, level, l_cursor),
    decreases l_cursor.depth(),
%loop Cursor::join 1
    invariant
        jinv(r_cursor__0, level, r_cursor),
    decreases r_cursor.depth(),
%loop Cursor::join 2
    invariant l_cursor.rf().len() == 0,
        jinv(l_cursor__0, level, l_cursor),
    ensures l_cursor.lf().len() > 0 ==> l_cursor.lf().last().1.level >= level,
    decreases l_cursor.depth(),
%loop Cursor::join 3
    invariant l_cursor.rf().len() == 0, l_cursor.lf().len() > 0 ==> l_cursor.lf().last().1.level >= level,
        jinv(l_cursor__0, level, l_cursor),
    ensures l_cursor.tree is Some ==> l_cursor.tree->0.level < level,
    decreases l_cursor.tree,
%loop Cursor::join 4
    invariant r_cursor.lf().len() == 0,
        jinv(r_cursor__0, level, r_cursor),
    ensures r_cursor.rf().len() > 0 ==> r_cursor.rf().last().1.level > level,
    decreases r_cursor.depth(),
%loop Cursor::join 5
    invariant r_cursor.lf().len() == 0, r_cursor.rf().len() > 0 ==> r_cursor.rf().last().1.level > level,
        jinv(r_cursor__0, level, r_cursor),
    ensures r_cursor.tree is Some ==> r_cursor.tree->0.level <= level,
    decreases r_cursor.tree,
%fn Cursor::at_tree
    ensures res == self.tree,
%fn Cursor::left_tree
    ensures res == (match self.tree { None => None, Some(t) => t.lb() }),
%fn Cursor::right_tree
    ensures res == (match self.tree { None => None, Some(t) => t.rb() }),
%fn Cursor::peek
    ensures res == odata(self.tree),
%fn Cursor::peek_level
    ensures res == (match self.tree { None => None, Some(t) => Some(t.level) }),
%fn Cursor::peek_name
    ensures res == (match self.tree { None => None, Some(t) => t.name }),
%fn Cursor::up_left_level
    ensures res == (if self.lf().len() > 0 { Some(self.lf().last().1.level) } else { None }),
%fn Cursor::up_right_level
    ensures res == (if self.rf().len() > 0 { Some(self.rf().last().1.level) } else { None }),
%fn Cursor::down_left_force params force
    ensures down_post(*old(self), true, force, *final(self), res), down_facts(*old(self), true, force, *final(self)),
%entry Cursor::down_left_force
    down_hint(*self, true, force);
%fn Cursor::down_left
    ensures down_post(*old(self), true, Force::No, *final(self), res), down_facts(*old(self), true, Force::No, *final(self)),
%fn Cursor::down_right_force params force
    ensures down_post(*old(self), false, force, *final(self), res), down_facts(*old(self), false, force, *final(self)),
%entry Cursor::down_right_force
    down_hint(*self, false, force);
%fn Cursor::down_right
    ensures down_post(*old(self), false, Force::No, *final(self), res), down_facts(*old(self), false, Force::No, *final(self)),
%fn Cursor::up
    requires old(self).vv(),
    ensures up_post(*old(self), *final(self), res), up_facts(*old(self), *final(self), res),
%entry Cursor::up
    up_hint(*self);
    vt_hint::<E>();
%fn Cursor::up_discard
    ensures up_discard_post(*old(self), *final(self), res),
%fn IterR::fold_out params init,bin
    requires self.iok(), tot2::<R, T, B>(*bin),
    ensures acc_run(*bin, init, self.rem(), res),
    decreases self.rem().len()
%fn "IterR as Iterator::next"
    requires old(self).iok(),
    ensures final(self).iok(),
        old(self).rem().len() == 0 ==> res is None && final(self).rem().len() == 0,
        old(self).rem().len() > 0 ==> res == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1),
%entry "IterR as Iterator::next"
    dl_hint::<T>();
    assert(self.0.tree is Some ==> self.rem().skip(1) =~= din(self.0.tree->0.rb()) + rdata(self.0.rf()) && self.rem()[0] == self.0.tree->0.data());
    assert(self.0.tree is Some && self.0.tree->0.rb() is None ==> din(self.0.tree->0.rb()) + rdata(self.0.rf()) =~= rdata(self.0.rf()));
%loop "IterR as Iterator::next" 0
    invariant self.0.all_from() == din(old(self).0.tree->0.rb()) + rdata(old(self).0.rf()), self.0.tree is Some,
    ensures self.0.rem() == self.0.all_from(),
    decreases self.0.tree,
%loop "IterR as Iterator::next" 1
    invariant_except_break self.0.rf() == old(self).0.rf(),
    ensures self.0.rem() == rdata(old(self).0.rf()), self.0.iok(),
    decreases self.0.lf().len(),
