%module stack src/stack.rs
%type Stack
%type Head
%type Body
%type Iter
%raw
/// the list from the top: (name, element)
pub open spec fn hlist<T>(h: Option<Head<T>>) -> Seq<(Option<Name>, T)>
    decreases h
{
    match h {
        None => Seq::empty(),
        Some(hd) => seq![(hd.name, hd.main.v.elem)] + hlist(hd.main.v.next),
    }
}
/// what was pushed without a name is not stored in a named cell
pub open spec fn hpin<T>(h: Option<Head<T>>) -> bool
    decreases h
{
    match h { None => true, Some(hd) => (pinned() && hd.name is None ==> hd.main.at@ is None) && hpin(hd.main.v.next) }
}
/// nothing of the list is stored in a named cell
pub open spec fn hfree<T>(h: Option<Head<T>>) -> bool
    decreases h
{
    match h { None => true, Some(hd) => hd.main.at@ is None && hfree(hd.main.v.next) }
}
pub proof fn lemma_hfree<T>(h: Option<Head<T>>)
    requires pinned(), hpin(h), forall|i: int| 0 <= i < hlist(h).len() ==> (#[trigger] hlist(h)[i]).0 is None
    ensures hfree(h)
    decreases h
{
    if let Some(hd) = h {
        let n = hd.main.v.next;
        assert(hlist(h)[0].0 is None);
        assert forall|i: int| 0 <= i < hlist(n).len() implies (#[trigger] hlist(n)[i]).0 is None by { assert(hlist(h)[i + 1] == hlist(n)[i]); }
        lemma_hfree(n);
    }
}
impl<T> Stack<T> { pub open spec fn pin(&self) -> bool { hpin(self.0) } }
impl<T> Head<T> { pub open spec fn pin(&self) -> bool { hpin(Some(*self)) } }
impl<T> Stack<T> { pub open spec fn view(&self) -> Seq<(Option<Name>, T)> { hlist(self.0) } }
impl<T> Head<T> { pub open spec fn view(&self) -> Seq<(Option<Name>, T)> { hlist(Some(*self)) } }
impl<T> Iter<T> { pub open spec fn view(&self) -> Seq<(Option<Name>, T)> { hlist(self.next) } }
%fn Stack::new
    ensures res@.len() == 0, res.0 is None, res.pin(),
%fn Stack::is_empty
    ensures res == (self@.len() == 0),
%fn Stack::push params name,elem
    ensures res@ == seq![(name, elem)] + self@, self.pin() ==> res.pin(),
%fn Stack::peek
    ensures res == (if self@.len() > 0 { Some(self@[0].1) } else { None }),
%fn Stack::name
    ensures res == (if self@.len() > 0 { self@[0].0 } else { None }),
%fn Stack::pull
    ensures res is Some == (self@.len() > 0),
        res matches Some(s) ==> s@ == self@.skip(1) && (self.pin() ==> s.pin()),
%fn Stack::iter
    ensures res@ == self@,
%fn Head::new params name,elem
    ensures res@ == seq![(name, elem)], res.pin(),
%fn Head::push params name,elem
    ensures res@ == seq![(name, elem)] + self@, self.pin() ==> res.pin(),
%fn Head::peek
    ensures self@.len() > 0, res == self@[0].1,
%fn Head::name
    ensures self@.len() > 0, res == self@[0].0,
%fn Head::pull
    ensures hlist(res) == self@.skip(1), self@.len() > 0, self.pin() ==> hpin(res),
%fn Head::iter
    ensures res@ == self@,
%fn push_onto params tail,name,elem
    ensures hlist(Some(res)) == seq![(name, elem)] + hlist(tail), hpin(tail) ==> hpin(Some(res)),
%fn Iter::name
    ensures res == (if self@.len() > 0 { self@[0].0 } else { None }),
%fn "Iter as Iterator::next"
    ensures
        old(self)@.len() == 0 ==> res is None && final(self)@.len() == 0,
        old(self)@.len() > 0 ==> res == Some(old(self)@[0].1) && final(self)@ == old(self)@.skip(1),
