%module archive_stack src/archive_stack.rs
%head
use std::mem;
use crate::stack::*;
use crate::stack::Stack;
%type AStack
%type AtHead
%type AtTail
%type Iter
%raw
/// elements below the top section, bottom to top
pub open spec fn arch_elems<E, M>(a: Seq<(Option<Name>, (M, Vec<E>))>) -> Seq<E>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else { arch_elems(a.skip(1)) + a[0].1.1@ }
}
impl<E, M> AStack<E, M> {
    pub open spec fn cur(&self) -> Seq<E> { self.current@ }
    pub open spec fn arch(&self) -> Seq<(Option<Name>, (M, Vec<E>))> { self.archived@ }
    /// every archived section is non-empty, and stored in a named cell only if it has a name
    pub open spec fn wf(&self) -> bool { self.archived.pin() && forall|i: int| 0 <= i < self.arch().len() ==> (#[trigger] self.arch()[i]).1.1@.len() > 0 }
    /// all elements, bottom to top
    pub open spec fn elems(&self) -> Seq<E> { arch_elems(self.arch()) + self.cur() }
    pub open spec fn empty(&self) -> bool { self.cur().len() == 0 && self.arch().len() == 0 }
}
impl<E, M> Iter<E, M> { pub open spec fn elems(&self) -> Seq<E> { self.0.elems() } }
pub proof fn lemma_arch_push<E, M>(x: (Option<Name>, (M, Vec<E>)), a: Seq<(Option<Name>, (M, Vec<E>))>)
    ensures arch_elems(seq![x] + a) == arch_elems(a) + x.1.1@
{
    assert((seq![x] + a).skip(1) =~= a);
}
pub proof fn lemma_empty<E, M>(s: AStack<E, M>)
    requires s.wf()
    ensures s.empty() == (s.elems().len() == 0)
{
}
pub open spec fn top_name<E, M>(a: Seq<(Option<Name>, (M, Vec<E>))>) -> Option<Name> { if a.len() > 0 { a[0].0 } else { None } }
%fn AStack::new
    ensures res.wf(), res.empty(), res.elems().len() == 0,
%fn AStack::with_capacity
    ensures res.wf(), res.empty(), res.elems().len() == 0,
%fn AStack::is_empty
    ensures res == self.empty(), self.wf() ==> res == (self.elems().len() == 0),
%entry AStack::is_empty
    if self.wf() { lemma_empty(*self); }
%fn AStack::active_len
    ensures res == self.cur().len(),
%fn AStack::name
    ensures res == top_name(self.arch()),
%fn AStack::push params elm
    ensures final(self).cur() == old(self).cur().push(elm), final(self).arch() == old(self).arch(),
        final(self).elems() == old(self).elems().push(elm), old(self).wf() ==> final(self).wf(),
%exit AStack::push
    assert(self.elems() =~= old(self).elems().push(elm));
%fn AStack::pop
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).elems().len() == 0 ==> res is None && final(self).elems() == old(self).elems() && *final(self) == *old(self),
        old(self).elems().len() > 0 ==> res == Some(old(self).elems().last()) && final(self).elems() == old(self).elems().drop_last(),
        old(self).cur().len() > 0 ==> final(self).arch() == old(self).arch() && final(self).cur() == old(self).cur().drop_last(),
        old(self).cur().len() == 0 && old(self).arch().len() > 0 ==> final(self).arch() == old(self).arch().skip(1) && final(self).cur() == old(self).arch()[0].1.1@.drop_last(),
%entry AStack::pop
    lemma_empty(*self); let ghost s0 = *self;
    if s0.elems().len() > 0 {
        if s0.cur().len() > 0 {
            assert(s0.elems().drop_last() =~= arch_elems(s0.arch()) + s0.cur().drop_last());
        } else {
            assert(s0.elems() =~= arch_elems(s0.arch()));
            assert(s0.elems().drop_last() =~= arch_elems(s0.arch().skip(1)) + s0.arch()[0].1.1@.drop_last());
        }
    }
%fn AStack::pop_meta
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).elems().len() == 0 ==> res is None && final(self).elems() == old(self).elems() && *final(self) == *old(self),
        old(self).elems().len() > 0 ==> final(self).elems() == old(self).elems().drop_last()
            && res == Some((old(self).elems().last(), if old(self).cur().len() > 0 { None } else { Some(old(self).arch()[0].1.0) })),
        old(self).cur().len() > 0 ==> final(self).arch() == old(self).arch() && final(self).cur() == old(self).cur().drop_last(),
        old(self).cur().len() == 0 && old(self).arch().len() > 0 ==> final(self).arch() == old(self).arch().skip(1) && final(self).cur() == old(self).arch()[0].1.1@.drop_last(),
%entry AStack::pop_meta
    lemma_empty(*self); let ghost s0 = *self;
    if s0.elems().len() > 0 {
        if s0.cur().len() > 0 {
            assert(s0.elems().drop_last() =~= arch_elems(s0.arch()) + s0.cur().drop_last());
        } else {
            assert(s0.elems() =~= arch_elems(s0.arch()));
            assert(s0.elems().drop_last() =~= arch_elems(s0.arch().skip(1)) + s0.arch()[0].1.1@.drop_last());
        }
    }
%fn AStack::extend as vextend params extra
    ensures final(self).cur() == old(self).cur() + extra@, old(self).cur().len() == 0 ==> final(self).cur() == extra@, final(self).arch() == old(self).arch(),
        final(self).elems() == old(self).elems() + extra@, old(self).wf() ==> final(self).wf(),
%exit AStack::extend
    if old(self).cur().len() == 0 { assert(old(self).cur() + extra@ =~= extra@); }
    assert(self.elems() =~= old(self).elems() + extra@);
%fn AStack::extend_rev params extra
    ensures final(self).cur() == (old(self).cur() + extra@).reverse(), old(self).cur().len() == 0 ==> final(self).cur() == extra@.reverse(), final(self).arch() == old(self).arch(),
        old(self).wf() ==> final(self).wf(),
        old(self).empty() ==> final(self).elems() == extra@.reverse(),
%exit AStack::extend_rev
    if old(self).cur().len() == 0 { assert(old(self).cur() + extra@ =~= extra@); }
    if old(self).empty() { assert(old(self).cur() + extra@ =~= extra@); assert(self.elems() =~= extra@.reverse()); }
%raw
pub open spec fn na_post<E, M>(s0: AStack<E, M>, s1: AStack<E, M>, res: Option<(Vec<E>, Option<M>)>) -> bool {
    &&& (s0.wf() ==> s1.wf())
    &&& (s0.empty() ==> res is None && s1 == s0)
    &&& (!s0.empty() ==> (res matches Some(p) && p.0@ == s0.cur()
            && (s0.arch().len() == 0 ==> p.1 is None && s1.empty())
            && (s0.arch().len() > 0 ==> p.1 == Some(s0.arch()[0].1.0)
                && s1.cur() == s0.arch()[0].1.1@ && s1.arch() == s0.arch().skip(1))
            && s1.elems() + p.0@ == s0.elems()))
}
%fn AStack::next_archive
    ensures na_post(*old(self), *final(self), res),
%entry AStack::next_archive
    let ghost s0 = *self;
    if s0.arch().len() == 0 { assert(Seq::<E>::empty() + s0.cur() =~= s0.elems()); }
    else { assert(arch_elems(s0.arch().skip(1)) + s0.arch()[0].1.1@ + s0.cur() =~= s0.elems()); }
%fn AStack::active_data
    ensures res@ == self.cur(),
%fn AStack::peek
    requires self.wf(),
    ensures res == (if self.elems().len() > 0 { Some(self.elems().last()) } else { None }),
%entry AStack::peek
    lemma_empty(*self);
%fn AStack::archive params name,meta
    ensures res == (old(self).cur().len() > 0),
        !res ==> *final(self) == *old(self),
        res ==> final(self).cur().len() == 0 && final(self).elems() == old(self).elems()
            && final(self).arch().skip(1) == old(self).arch() && final(self).arch().len() == old(self).arch().len() + 1
            && final(self).arch()[0].0 == name && final(self).arch()[0].1.0 == meta && final(self).arch()[0].1.1@ == old(self).cur(),
        final(self).elems() == old(self).elems(),
        old(self).wf() ==> final(self).wf(),
%fn AStack::archive_with_capacity params name,meta,capacity
    ensures res == (old(self).cur().len() > 0),
        !res ==> *final(self) == *old(self),
        res ==> final(self).cur().len() == 0 && final(self).elems() == old(self).elems()
            && final(self).arch().skip(1) == old(self).arch() && final(self).arch().len() == old(self).arch().len() + 1
            && final(self).arch()[0].0 == name && final(self).arch()[0].1.0 == meta && final(self).arch()[0].1.1@ == old(self).cur(),
        final(self).elems() == old(self).elems(),
        old(self).wf() ==> final(self).wf(),
%entry AStack::archive_with_capacity
    let ghost s0 = *self;
    assert forall|nm: Option<Name>, v: (M, Vec<E>)| v.1@ == s0.cur() implies
        arch_elems(#[trigger] (seq![(nm, v)] + s0.arch())) == s0.elems() && (seq![(nm, v)] + s0.arch()).skip(1) == s0.arch() by {
        lemma_arch_push((nm, v), s0.arch());
        assert((seq![(nm, v)] + s0.arch()).skip(1) =~= s0.arch());
    }
    assert(s0.elems() + Seq::<E>::empty() =~= s0.elems());
%fn AStack::retrieve
    requires old(self).wf(), !old(self).empty(),
    ensures final(self).wf(), final(self).cur().len() > 0, final(self).elems() == old(self).elems(),
        old(self).cur().len() > 0 ==> res is None && *final(self) == *old(self),
        old(self).cur().len() == 0 ==> res == Some(old(self).arch()[0].1.0)
            && final(self).cur() == old(self).arch()[0].1.1@ && final(self).arch() == old(self).arch().skip(1),
%entry AStack::retrieve
    let ghost s0 = *self;
    if s0.cur().len() == 0 { assert(arch_elems(s0.arch().skip(1)) + s0.arch()[0].1.1@ =~= s0.elems()); }
%fn "AStack as IntoIterator::into_iter"
    ensures res.elems() == self.elems(), self.wf() ==> res.0.wf(),
%fn "Iter as Iterator::next"
    requires old(self).0.wf(),
    ensures final(self).0.wf(),
        old(self).elems().len() == 0 ==> res is None && final(self).elems().len() == 0,
        old(self).elems().len() > 0 ==> res == Some(old(self).elems().last()) && final(self).elems() == old(self).elems().drop_last(),
%fn "AStack as From::from" params v
    ensures res.wf(), res.elems() == v@, res.arch().len() == 0,
%exit "AStack as From::from"
    assert(__res.elems() =~= v@);
