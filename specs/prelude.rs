use vstd::prelude::*;
pub mod prelude {
use vstd::prelude::*;
use std::rc::Rc;
use std::collections::HashMap;
verus! {
// 64-bit targets
global size_of usize == 8;

// ---------------------------------------------------------------------------
// Model of the adapton engine (assumed, see DESIGN.md A1-A3).
// A name is an opaque value; an articulation is an immutable box: forcing it
// yields exactly what was stored in it.
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct Name { n: usize }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Name {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Name) -> bool { *self == *o }
}
impl PartialEq for Name {
    #[verifier::external_body]
    fn eq(&self, o: &Name) -> (r: bool) { unimplemented!() }
}
impl Eq for Name {}
#[verifier::external]
impl std::hash::Hash for Name { fn hash<H: std::hash::Hasher>(&self, _h: &mut H) { } }
pub uninterp spec fn spec_name_of_usize(n: usize) -> Name;
pub uninterp spec fn spec_name_pair(a: Name, b: Name) -> Name;
pub uninterp spec fn spec_name_fork(a: Name) -> (Name, Name);
pub uninterp spec fn spec_name_of_str(s: Seq<char>) -> Name;
#[verifier::external_body]
pub fn name_of_usize(n: usize) -> (r: Name) ensures r == spec_name_of_usize(n) { unimplemented!() }
#[verifier::external_body]
pub fn name_pair(a: Name, b: Name) -> (r: Name) ensures r == spec_name_pair(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn name_fork(a: Name) -> (r: (Name, Name)) ensures r == spec_name_fork(a) { unimplemented!() }
#[verifier::external_body]
pub fn name_of_string(s: VString) -> (r: Name) ensures r == spec_name_of_str(s@) { unimplemented!() }
#[verifier::external_body]
pub struct VString { s: String }
impl VString { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vstring(s: &str) -> (r: VString) ensures r@ == s@ { unimplemented!() }

/// whether where data is stored matters: the driver turns it off for the properties that are not about it
pub open spec fn pinned() -> bool { true }
/// `at` is the name of the cell an articulation was stored in; only cells with a name can be overwritten
pub struct Art<T> { pub v: Rc<T>, pub at: Ghost<Option<Name>> }
#[verifier::external_body]
pub fn put<T>(x: T) -> (r: Art<T>) ensures *r.v == x, r.at@ is None { unimplemented!() }
#[verifier::external_body]
pub fn cell<T>(n: Name, x: T) -> (r: Art<T>) ensures *r.v == x, r.at@ == Some(n) { unimplemented!() }
#[verifier::external_body]
pub fn force<T>(a: &Art<T>) -> (r: T) ensures r == *a.v { unimplemented!() }
#[verifier::external_body]
pub fn force_map<T, R, F: FnOnce(&Art<T>, T) -> R>(a: &Art<T>, f: F) -> (r: R)
    requires f.requires((a, *a.v)),
    ensures f.ensures((a, *a.v), r),
{ unimplemented!() }

// ---------------------------------------------------------------------------
// Standard-library contracts (assumed)
// ---------------------------------------------------------------------------
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T {
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
/// the clone of an element handed out by an iterator
pub fn vcl<T>(x: &T) -> (r: T) ensures r == *x { x.vclone() }
pub trait VInto<T>: Sized {
    spec fn into_ok(self, r: T) -> bool;
    fn vinto(self) -> (r: T) ensures self.into_ok(r);
}
/// the standard library's reflexive conversion
impl<T> VInto<T> for T {
    open spec fn into_ok(self, r: T) -> bool { r == self }
    fn vinto(self) -> (r: T) { self }
}
#[verifier::external_body]
pub fn veq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn vpanic() -> ! requires may_panic() { unimplemented!() }
pub fn vassert(c: bool) requires may_panic() || c, ensures c { if !c { vpanic() } }
/// Whether a panic is allowed to end the call: left open, so every obligation holds in both cases. Contracts
/// that allow inputs on which the call may only panic say `may_panic() || <the inputs on which it must return>`.
pub uninterp spec fn may_panic() -> bool;
/// `split_at` panics on an index beyond the end
pub trait SliceX<T> { spec fn sx(&self) -> Seq<T>; fn vsplit_at(&self, mid: usize) -> (r: (&[T], &[T]))
    requires may_panic() || mid <= self.sx().len(),
    ensures mid <= self.sx().len(), r.0@ == self.sx().take(mid as int), r.1@ == self.sx().skip(mid as int); }
impl<T> SliceX<T> for [T] {
    open spec fn sx(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vsplit_at(&self, mid: usize) -> (r: (&[T], &[T])) { unimplemented!() }
}

pub assume_specification<T> [ std::mem::replace::<T> ] (dest: &mut T, src: T) -> (res: T)
    ensures *final(dest) == src, res == *old(dest);
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

/// hashing a value takes a hasher to a state that is a function of its state and the value
pub uninterp spec fn hasher_step<H, T>(h: H, x: T) -> H;
pub trait VHash: Sized { fn hash<H>(&self, h: &mut H) ensures *final(h) == hasher_step(*old(h), *self); }
impl<T> VHash for T {
    #[verifier::external_body]
    fn hash<H>(&self, h: &mut H) { unimplemented!() }
}
pub trait VIdx {
    type Item;
    spec fn vseq(&self) -> Seq<Self::Item>;
    fn vlen(&self) -> (r: usize) ensures r == self.vseq().len();
    fn vget(&self, i: usize) -> (r: &Self::Item) requires i < self.vseq().len(), ensures *r == self.vseq()[i as int];
}
impl<T> VIdx for Vec<T> {
    type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn vlen(&self) -> (r: usize) { self.len() }
    fn vget(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T> VIdx for [T] {
    type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn vlen(&self) -> (r: usize) { self.len() }
    fn vget(&self, i: usize) -> (r: &T) { &self[i] }
}
pub trait VecX<T> {
    spec fn vx(&self) -> Seq<T>;
    fn vextend(&mut self, o: Vec<T>) ensures final(self).vx() == old(self).vx() + o@;
    fn vextend_slice(&mut self, o: &[T]) ensures final(self).vx() == old(self).vx() + o@;
}
impl<T> VecX<T> for Vec<T> {
    open spec fn vx(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vextend(&mut self, o: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vextend_slice(&mut self, o: &[T]) { unimplemented!() }
}
pub open spec fn keys_of<K, V>(m: Map<K, V>, s: Seq<K>) -> bool {
    s.no_duplicates() && s.to_set() == m.dom()
}
pub trait VKeys<K> { spec fn vdom(&self) -> Set<K>; fn vkeys(&self) -> (r: Vec<K>) ensures r@.no_duplicates(), r@.to_set() == self.vdom(); }
impl<K, V> VKeys<K> for HashMap<K, V> {
    open spec fn vdom(&self) -> Set<K> { self@.dom() }
    #[verifier::external_body]
    fn vkeys(&self) -> (r: Vec<K>) { unimplemented!() }
}
/// the engine's names hash and compare as ordinary values
#[verifier::external_body]
pub broadcast proof fn name_key_model()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Name>() {}

pub open spec fn rcv<T>(r: Rc<T>) -> T { *r }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
}
}
