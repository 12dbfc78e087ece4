%module accum_lists eval/src/accum_lists.rs
%head
pub use crate::interface::*;
%type List
%type RcList
%type VecList
%type RcVecList
%raw
pub open spec fn lseq<T>(l: List<T>) -> Seq<T>
    decreases l
{
    match l { List::Nil => Seq::empty(), List::Cons(x, b) => lseq(*b).push(x), List::Name(_, b) => lseq(*b), List::Art(a) => lseq(*a.v) }
}
pub open spec fn rseq<T>(l: RcList<T>) -> Seq<T>
    decreases l
{
    match l { RcList::Nil => Seq::empty(), RcList::Cons(x, b) => rseq(*b).push(x), RcList::Name(_, b) => rseq(*b), RcList::Art(a) => rseq(**a.v) }
}
pub open spec fn vseq<T>(l: VecList<T>) -> Seq<T>
    decreases l
{
    match l { VecList::Nil => Seq::empty(), VecList::Cons(v, b) => vseq(*b) + v@, VecList::Name(_, b) => vseq(*b), VecList::Art(a) => vseq(*a.v) }
}
/// no chunk is empty
pub open spec fn vwf<T>(l: VecList<T>) -> bool
    decreases l
{
    match l { VecList::Nil => true, VecList::Cons(v, b) => v@.len() > 0 && vwf(*b), VecList::Name(_, b) => vwf(*b), VecList::Art(a) => vwf(*a.v) }
}
pub open spec fn wseq<T>(l: RcVecList<T>) -> Seq<T>
    decreases l
{
    match l { RcVecList::Nil => Seq::empty(), RcVecList::Cons(v, b) => wseq(*b) + v@, RcVecList::Name(_, b) => wseq(*b), RcVecList::Art(a) => wseq(**a.v) }
}
pub open spec fn wwf<T>(l: RcVecList<T>) -> bool
    decreases l
{
    match l { RcVecList::Nil => true, RcVecList::Cons(v, b) => v@.len() > 0 && wwf(*b), RcVecList::Name(_, b) => wwf(*b), RcVecList::Art(a) => wwf(**a.v) }
}
%impl "List as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { lseq(*self) }
open spec fn swf(&self) -> bool { true }
%fn "List as IFaceSeq::seq_pop"
    decreases self
%impl "List as IFaceArchive"
open spec fn fit(self) -> bool { true }
open spec fn same(self, o: Self) -> bool { lseq(o) == lseq(self) }
%fn "List as IFaceArchive::archive"
%entry "List as IFaceArchive::archive"
    reveal_with_fuel(lseq, 4);
%impl "List as IFaceNew"
open spec fn fresh(self) -> bool { lseq(self).len() == 0 }
%impl "RcList as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { rseq(*self) }
open spec fn swf(&self) -> bool { true }
%fn "RcList as IFaceSeq::seq_pop"
    decreases self
%impl "RcList as IFaceArchive"
open spec fn fit(self) -> bool { true }
open spec fn same(self, o: Self) -> bool { rseq(o) == rseq(self) }
%fn "RcList as IFaceArchive::archive"
%entry "RcList as IFaceArchive::archive"
    reveal_with_fuel(rseq, 4);
%impl "RcList as IFaceNew"
open spec fn fresh(self) -> bool { rseq(self).len() == 0 }
%impl "VecList as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { vseq(*self) }
open spec fn swf(&self) -> bool { vwf(*self) }
%fn "VecList as IFaceSeq::seq_pop"
    decreases self
%impl "VecList as IFaceArchive"
open spec fn fit(self) -> bool { true }
open spec fn same(self, o: Self) -> bool { vseq(o) == vseq(self) && (vwf(self) ==> vwf(o)) }
%fn "VecList as IFaceArchive::archive"
%entry "VecList as IFaceArchive::archive"
    reveal_with_fuel(vseq, 4); reveal_with_fuel(vwf, 4);
%impl "VecList as IFaceNew"
open spec fn fresh(self) -> bool { vwf(self) && vseq(self).len() == 0 }
%impl "RcVecList as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { wseq(*self) }
open spec fn swf(&self) -> bool { wwf(*self) }
%fn "RcVecList as IFaceSeq::seq_pop"
    decreases self
%impl "RcVecList as IFaceArchive"
open spec fn fit(self) -> bool { true }
open spec fn same(self, o: Self) -> bool { wseq(o) == wseq(self) && (wwf(self) ==> wwf(o)) }
%fn "RcVecList as IFaceArchive::archive"
%entry "RcVecList as IFaceArchive::archive"
    reveal_with_fuel(wseq, 4); reveal_with_fuel(wwf, 4);
%impl "RcVecList as IFaceNew"
open spec fn fresh(self) -> bool { wwf(self) && wseq(self).len() == 0 }
