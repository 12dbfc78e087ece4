%module interface eval/src/interface.rs
%head
use crate::archive_stack::AStack;
use crate::archive_stack::AStack as IAStack;
use crate::raz_meta::Count;
pub type IRaz<E> = crate::raz::Raz<E, Count>;
%raw
/// the operations the evaluation suite compares: a stack of elements, whatever its representation
pub trait IFaceSeq<T>: Sized {
    spec fn sq(&self) -> Seq<T>;
    spec fn swf(&self) -> bool;
    fn seq_push(self, val: T) -> (res: Self)
        requires self.swf(),
        ensures res.swf(), res.sq() == self.sq().push(val);
    fn seq_pop(self) -> (res: (Option<T>, Self))
        requires self.swf(),
        ensures res.1.swf(),
            self.sq().len() == 0 ==> res.0 is None && res.1.sq().len() == 0,
            self.sq().len() > 0 ==> res.0 == Some(self.sq().last()) && res.1.sq() == self.sq().drop_last();
}
pub trait IFaceArchive<M>: Sized {
    spec fn fit(self) -> bool;
    spec fn same(self, o: Self) -> bool;
    fn archive(self, m: M) -> (res: Self)
        requires self.fit(),
        ensures self.same(res);
}
pub trait IFaceNew: Sized {
    spec fn fresh(self) -> bool;
    fn new() -> (res: Self)
        ensures res.fresh();
}
%impl "IRaz as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { self.left() }
open spec fn swf(&self) -> bool { self.wf() }
%impl "IRaz as IFaceArchive"
open spec fn fit(self) -> bool { self.wf() }
open spec fn same(self, o: Self) -> bool { o.wf() && o.left() == self.left() }
%impl "IRaz as IFaceNew"
open spec fn fresh(self) -> bool { self.wf() && self.left().len() == 0 }
%impl "IAStack as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { self.elems() }
open spec fn swf(&self) -> bool { self.wf() }
%impl "IAStack<T,u32> as IFaceArchive"
open spec fn fit(self) -> bool { self.wf() }
open spec fn same(self, o: Self) -> bool { o.wf() && o.elems() == self.elems() }
%impl "IAStack<T,()> as IFaceArchive"
open spec fn fit(self) -> bool { self.wf() }
open spec fn same(self, o: Self) -> bool { o.wf() && o.elems() == self.elems() }
%impl "IAStack as IFaceNew"
open spec fn fresh(self) -> bool { self.wf() && self.elems().len() == 0 }
%impl "Vec as IFaceSeq"
open spec fn sq(&self) -> Seq<T> { self@ }
open spec fn swf(&self) -> bool { true }
%impl "Vec as IFaceArchive"
open spec fn fit(self) -> bool { true }
open spec fn same(self, o: Self) -> bool { o == self }
%impl "Vec as IFaceNew"
open spec fn fresh(self) -> bool { self@.len() == 0 }
