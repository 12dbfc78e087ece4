%module raz_meta src/raz_meta.rs
%head
use std::collections::HashMap;
use vstd::std_specs::hash::*;
%type Navigation
%type Position
%type Count
%type Names
%raw
broadcast use vstd::std_specs::hash::group_hash_axioms;
pub trait FirstLast: Sized {
    spec fn s_first() -> Self;
    spec fn s_last() -> Self;
    fn first() -> (r: Self) ensures r == Self::s_first();
    fn last() -> (r: Self) ensures r == Self::s_last();
}
/// The contract of metadata.  `none_ok`, `vec_ok` and `meta_ok` say what the
/// metadata made for an empty branch, a leaf and a branch must be; `s_nav` and
/// `split_pt` where an index leads.
pub trait RazMeta<E>: Sized {
    type Index: FirstLast;
    spec fn none_ok(lev: u32, n: Option<Name>, res: Self) -> bool;
    spec fn vec_ok(s: Seq<E>, lev: u32, n: Option<Name>, res: Self) -> bool;
    spec fn meta_ok(l: Self, r: Self, lev: u32, n: Option<Name>, res: Self) -> bool;
    spec fn nav_req(l: Self, r: Self, index: Self::Index) -> bool;
    spec fn s_nav(l: Self, r: Self, index: Self::Index) -> Navigation<Self::Index>;
    spec fn split_req(s: Seq<E>, index: Self::Index) -> bool;
    spec fn split_pt(s: Seq<E>, index: Self::Index) -> int;
    proof fn law_split(s: Seq<E>, index: Self::Index)
        ensures Self::split_req(s, index) ==> 0 <= Self::split_pt(s, index) <= s.len(),
            Self::split_req(s, Self::Index::s_first()), Self::split_pt(s, Self::Index::s_first()) == 0,
            Self::split_req(s, Self::Index::s_last()), Self::split_pt(s, Self::Index::s_last()) == s.len();
    fn from_none(lev: u32, n: Option<Name>) -> (res: Self)
        ensures Self::none_ok(lev, n, res);
    fn from_vec(vec: &Vec<E>, lev: u32, n: Option<Name>) -> (res: Self)
        ensures Self::vec_ok(vec@, lev, n, res);
    fn from_meta(l: &Self, r: &Self, lev: u32, n: Option<Name>) -> (res: Self)
        ensures Self::meta_ok(*l, *r, lev, n, res);
    fn navigate(l: &Self, r: &Self, index: &Self::Index) -> (res: Navigation<Self::Index>)
        requires may_panic() || Self::nav_req(*l, *r, *index),
        ensures Self::nav_req(*l, *r, *index), res == Self::s_nav(*l, *r, *index);
    fn split_vec<'a>(vec: &'a Vec<E>, index: &Self::Index) -> (res: (&'a [E], &'a [E]))
        requires may_panic() || Self::split_req(vec@, *index),
        ensures Self::split_req(vec@, *index), res.0@ == vec@.take(Self::split_pt(vec@, *index)), res.1@ == vec@.skip(Self::split_pt(vec@, *index));
}
pub open spec fn ends_nav<I>(index: Position<I>) -> Navigation<Position<I>> {
    match index { Position::Left => Navigation::Left(Position::Left), _ => Navigation::Right(Position::Right) }
}
pub open spec fn ends_pt<I>(n: int, index: Position<I>) -> int { match index { Position::Left => 0, _ => n } }
pub open spec fn name_set(n: Option<Name>) -> Set<Name> { match n { None => Set::empty(), Some(nm) => set![nm] } }
impl Names { pub open spec fn names(&self) -> Set<Name> { self.0@.dom() } }
pub proof fn lemma_take_push<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len()
    ensures s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i])
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert forall|x: A| s.take(i + 1).to_set().contains(x) == s.take(i).to_set().insert(s[i]).contains(x) by {
        if s.take(i + 1).contains(x) {
            let j = choose|j: int| 0 <= j < i + 1 && #[trigger] s.take(i + 1)[j] == x;
            if j < i { assert(s.take(i)[j] == x); }
        }
        if s.take(i).contains(x) {
            let j = choose|j: int| 0 <= j < i && s.take(i)[j] == x;
            assert(s.take(i + 1)[j] == x);
        }
        assert(s.take(i + 1)[i] == s[i]);
    }
    assert(s.take(i + 1).to_set() =~= s.take(i).to_set().insert(s[i]));
}
pub proof fn take_hint<A>(s: Seq<A>)
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i]),
        s.take(0).to_set() == Set::<A>::empty(), s.take(s.len() as int) == s,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i]) by { lemma_take_push(s, i); }
    assert(s.take(0) =~= Seq::empty());
    assert(s.take(0).to_set() =~= Set::<A>::empty());
    assert(s.take(s.len() as int) =~= s);
}
%impl "Position as FirstLast"
open spec fn s_first() -> Self { Position::Left }
open spec fn s_last() -> Self { Position::Right }
%fn "Position as FirstLast::first"
%fn "Position as FirstLast::last"
%impl "usize as FirstLast"
open spec fn s_first() -> Self { 0 }
open spec fn s_last() -> Self { usize::MAX }
%fn "usize as FirstLast::first"
%fn "usize as FirstLast::last"
%fn "Position as From::from" params index as from_
    ensures res == Position::Center(index),
%impl "() as RazMeta"
open spec fn none_ok(lev: u32, n: Option<Name>, res: ()) -> bool { true }
open spec fn vec_ok(s: Seq<E>, lev: u32, n: Option<Name>, res: ()) -> bool { true }
open spec fn meta_ok(l: (), r: (), lev: u32, n: Option<Name>, res: ()) -> bool { true }
open spec fn nav_req(l: (), r: (), index: Position<()>) -> bool { !(index is Center) }
open spec fn s_nav(l: (), r: (), index: Position<()>) -> Navigation<Position<()>> { ends_nav(index) }
open spec fn split_req(s: Seq<E>, index: Position<()>) -> bool { !(index is Center) }
open spec fn split_pt(s: Seq<E>, index: Position<()>) -> int { ends_pt(s.len() as int, index) }
proof fn law_split(s: Seq<E>, index: Position<()>) {}
%fn "() as RazMeta::from_none"
%fn "() as RazMeta::from_vec"
%fn "() as RazMeta::from_meta"
%fn "() as RazMeta::navigate"
%fn "() as RazMeta::split_vec"
%impl "Count as RazMeta"
open spec fn none_ok(lev: u32, n: Option<Name>, res: Count) -> bool { res.0 == 0 }
open spec fn vec_ok(s: Seq<E>, lev: u32, n: Option<Name>, res: Count) -> bool { res.0 == s.len() }
open spec fn meta_ok(l: Count, r: Count, lev: u32, n: Option<Name>, res: Count) -> bool { res.0 == l.0 + r.0 }
open spec fn nav_req(l: Count, r: Count, index: usize) -> bool { true }
open spec fn s_nav(l: Count, r: Count, index: usize) -> Navigation<usize> {
    if index == usize::MAX { Navigation::Right(index) }
    else if index > l.0 + r.0 { Navigation::Nowhere }
    else if index > l.0 { Navigation::Right((index - l.0) as usize) }
    else if index == l.0 { Navigation::Here }
    else { Navigation::Left(index) }
}
open spec fn split_req(s: Seq<E>, index: usize) -> bool { index == usize::MAX || index <= s.len() }
open spec fn split_pt(s: Seq<E>, index: usize) -> int { if index == usize::MAX { s.len() as int } else { index as int } }
proof fn law_split(s: Seq<E>, index: usize) {}
%fn "Count as RazMeta::from_none"
%fn "Count as RazMeta::from_vec"
%fn "Count as RazMeta::from_meta" params l_,r_,lev,n
%entry "Count as RazMeta::from_meta"
    assume(l_.0 + r_.0 < usize::MAX);
%fn "Count as RazMeta::navigate" params l_,r_,index
%entry "Count as RazMeta::navigate"
    assume(l_.0 + r_.0 < usize::MAX);
%fn "Count as RazMeta::split_vec"
%impl "Names as RazMeta"
open spec fn none_ok(lev: u32, n: Option<Name>, res: Names) -> bool { res.names() =~= name_set(n) }
open spec fn vec_ok(s: Seq<E>, lev: u32, n: Option<Name>, res: Names) -> bool { res.names() =~= name_set(n) }
open spec fn meta_ok(l: Names, r: Names, lev: u32, n: Option<Name>, res: Names) -> bool { res.names() =~= l.names().union(r.names()).union(name_set(n)) }
open spec fn nav_req(l: Names, r: Names, index: Position<Name>) -> bool { true }
open spec fn s_nav(l: Names, r: Names, index: Position<Name>) -> Navigation<Position<Name>> {
    match index {
        Position::Center(nm) => if l.names().contains(nm) { if r.names().contains(nm) { Navigation::Here } else { Navigation::Left(index) } }
            else if r.names().contains(nm) { Navigation::Right(index) } else { Navigation::Nowhere },
        _ => ends_nav(index),
    }
}
open spec fn split_req(s: Seq<E>, index: Position<Name>) -> bool { !(index is Center) }
open spec fn split_pt(s: Seq<E>, index: Position<Name>) -> int { ends_pt(s.len() as int, index) }
proof fn law_split(s: Seq<E>, index: Position<Name>) {}
%fn "Names as Hash::hash" params state
    ensures *final(state) == *old(state),
%fn "Names as RazMeta::from_none"
%entry "Names as RazMeta::from_none"
    broadcast use name_key_model;
%fn "Names as RazMeta::from_vec"
%entry "Names as RazMeta::from_vec"
    broadcast use name_key_model;
%fn "Names as RazMeta::from_meta" params l,r,lev,n
%entry "Names as RazMeta::from_meta"
    broadcast use name_key_model;
%loop "Names as RazMeta::from_meta" 0
    invariant __i0 <= __v0@.len(), h@.dom() =~= __v0@.take(__i0 as int).to_set(),
    decreases __v0@.len() - __i0,
%loopstart "Names as RazMeta::from_meta" 0
    take_hint(__v0@);
%afterloop "Names as RazMeta::from_meta" 0
    assert(h@.dom() =~= l.names());
%loop "Names as RazMeta::from_meta" 1
    invariant __i1 <= __v1@.len(), h@.dom() =~= l.names().union(__v1@.take(__i1 as int).to_set()),
    decreases __v1@.len() - __i1,
%loopstart "Names as RazMeta::from_meta" 1
    take_hint(__v1@);
%fn "Names as RazMeta::navigate"
%entry "Names as RazMeta::navigate"
    broadcast use name_key_model;
%fn "Names as RazMeta::split_vec"
%raw
impl<I> VInto<Position<I>> for I {
    open spec fn into_ok(self, r: Position<I>) -> bool { r == Position::Center(self) }
    fn vinto(self) -> (r: Position<I>) { Position::from_(self) }
}
