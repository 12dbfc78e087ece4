%module memo src/memo.rs
%head
%raw
/// a memoized conversion; `conv` is the contract its implementation has
pub trait MemoFrom<T>: Sized {
    spec fn conv(t: T, r: Self) -> bool;
    fn memo_from(t: &T) -> (res: Self)
        ensures <Self as MemoFrom<T>>::conv(*t, res);
}
pub trait MemoInto<T>: Sized {
    spec fn into_conv(self, r: T) -> bool;
    fn memo_into(&self) -> (res: T)
        ensures <Self as MemoInto<T>>::into_conv(*self, res);
}
%impl "T as MemoInto"
open spec fn into_conv(self, r: U) -> bool { <U as MemoFrom<T>>::conv(self, r) }
%fn "T as MemoInto::memo_into"
%impl "T as MemoFrom"
open spec fn conv(t: T, r: T) -> bool { r == t }
%fn "T as MemoFrom::memo_from" params t
