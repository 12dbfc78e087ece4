//! Equality, hashing and copying (C28), levels of persistent trees (C27).
use adapton::engine::*;
use iodyn::archive_stack::AStack;
use iodyn::raz_meta::{Count, Names};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use iodyn::tree_cursor::Cursor;
use iodyn::trees::{Level, NegBin};
use iodyn::trie::Trie;
use maps::Fixed;
use rand::Rng as RandRng;
use seqs::{rand_raz, rand_tree, TM};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use trees::rand_cursor;
use util::{eq, some_name, twice, Rng};
use Res;

pub fn c27(rng: &mut Rng, _size: usize) -> Res {
    for k in 0..40 {
        let x = match k % 5 {
            0 => rng.next(),
            1 => rng.next() << rng.below(64),
            2 => 1u64 << rng.below(64),
            3 => (rng.next() | 1).checked_shl(rng.below(64) as u32).unwrap_or(0),
            _ => if rng.chance(1, 2) { 0 } else { !0u64 << rng.below(64) },
        };
        let drawn: u64 = Fixed(x).gen();
        let low = drawn << 1 >> 1;
        let want = if low == 0 { 64 } else { 1 + low.trailing_zeros() };
        say!("number {}", drawn);
        let l: NegBin = Fixed(x).gen();
        eq("NegBin drawn", l.0 as u32, want)?;
    }
    fn ck<L: Level, F: Fn(u64) -> L>(what: &str, at: F, top: u64, rng: &mut Rng) -> Res {
        if L::l_max() != at(top) { return Err(format!("{}: l_max is {:?}", what, L::l_max())) }
        if L::l_min() != at(0) { return Err(format!("{}: l_min is {:?}", what, L::l_min())) }
        for k in 0..20 {
            let v = match k { 0 => 0, 1 => top - 1, 2 => 1, 3 => top / 2, _ => rng.next() % top };
            say!("{} level {}", what, v);
            if !(at(v) < at(v + 1)) { return Err(format!("{}: the order of levels is not that of their numbers", what)) }
            if at(v).l_inc() != at(v + 1) { return Err(format!("{}: l_inc of {} is {:?}", what, v, at(v).l_inc())) }
            if at(v + 1).l_dec() != at(v) { return Err(format!("{}: l_dec of {} is {:?}", what, v + 1, at(v + 1).l_dec())) }
            if at(v) < L::l_min() || at(v) > L::l_max() { return Err(format!("{}: {} is beyond l_min or l_max", what, v)) }
        }
        Ok(())
    }
    ck("NegBin", |v| NegBin(v as u8), 255, rng)?;
    ck("usize", |v| v as usize, !0u64, rng)
}

fn h<T: Hash>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn agree<T: Clone + PartialEq + Hash + Debug>(what: &str, a: &T, b: &T) -> Res {
    if a != b || b != a { return Err(format!("two {}s made the same way differ: {:?} and {:?}", what, a, b)) }
    if h(a) != h(b) { return Err(format!("two {}s made the same way have different hashes: {:?} and {:?}", what, a, b)) }
    let c = a.clone();
    if c != *a || *a != c { return Err(format!("a copy of a {} differs: {:?} and {:?}", what, c, a)) }
    if h(a) != h(&c) { return Err(format!("a copy of a {} has another hash", what)) }
    Ok(())
}
fn seq_m<M: TM>(rng: &mut Rng, size: usize) -> Res {
    let (a, b) = twice(rng, |r| rand_tree::<M>(r, size));
    let ((a, ea), (b, eb)) = (a?, b?);
    eq("elements of two sequences made the same way", ea.clone(), eb)?;
    agree("sequence", &a, &b)?;
    let (c, d) = twice(rng, |r| rand_raz::<M>(r, size));
    let (c, d) = (c?, d?);
    eq("elements of two zippers made the same way", (c.1, c.2), (d.1, d.2))?;
    agree("zipper", &c.0, &d.0)?;
    // other elements
    let (t, et) = rand_tree::<M>(rng, size)?;
    if et != ea && t == a { return Err(format!("sequences of different elements are equal: {:?} and {:?}", et, ea)) }
    Ok(())
}
pub fn c28_seqs(rng: &mut Rng, size: usize) -> Res {
    match rng.below(3) { 0 => seq_m::<Count>(rng, size), 1 => seq_m::<Names>(rng, size), _ => seq_m::<()>(rng, size) }
}
pub fn c28_names(rng: &mut Rng, size: usize) -> Res {
    // the same names put in in two orders, by unions in two shapes
    let ns: Vec<Name> = (0..rng.burst(size + 1)).map(|_| some_name(rng)).collect();
    say!("names {:?}", ns);
    let (mut a, mut b) = (HashMap::new(), HashMap::with_capacity(rng.below(1000)));
    for n in &ns { a.insert(n.clone(), ()); }
    for n in ns.iter().rev() { b.insert(n.clone(), ()); }
    agree("Names", &Names(a), &Names(b))?;
    let x = rng.next() as usize;
    agree("Elm", &::types::Elm(x), &::types::Elm(x))?;
    if h(&::types::Elm(x)) == h(&::types::Elm(x ^ (1 << rng.below(64)))) { return Err(format!("Elm {} hashes like another", x)) }
    Ok(())
}
pub fn c28_trees(rng: &mut Rng, size: usize) -> Res {
    let (a, b) = twice(rng, |r| rand_cursor(r, size));
    eq("nodes of two cursors made the same way", a.1, b.1)?;
    agree("cursor", &a.0, &b.0)?;
    agree("tree", &a.0.at_tree(), &b.0.at_tree())?;
    let (a, c): (Cursor<_>, Cursor<_>) = (a.0.clone(), a.0);
    let mut d = c.clone();
    let up = rng.below(8);
    for _ in 0..up { d.up(); }
    agree("cursor left alone while its copy moved", &a, &c)?;
    let mut e = c.clone();
    for _ in 0..up { e.up(); }
    agree("cursor moved the same way", &d, &e)
}
fn mk_list(rng: &mut Rng, size: usize) -> Stack<u32> {
    let mut s = Stack::new();
    for _ in 0..rng.burst(size + 1) {
        let n = if rng.chance(1, 2) { Some(some_name(rng)) } else { None };
        let x = rng.below(50) as u32;
        say!("push {:?} {}", n, x);
        s = s.push(n, x);
    }
    s
}
fn mk_astack(rng: &mut Rng, size: usize) -> AStack<u32, u32> {
    let mut s = AStack::new();
    for _ in 0..size + rng.burst(2) {
        match rng.below(6) {
            0 => { say!("astack pop"); s.pop(); }
            1 => {
                let n = if rng.chance(1, 2) { Some(some_name(rng)) } else { None };
                let v = rng.level();
                say!("astack archive {:?} {}", n, v);
                s.archive(n, v);
            }
            _ => { let x = rng.below(50) as u32; say!("astack push {}", x); s.push(x) }
        }
    }
    s
}
fn mk_skip(rng: &mut Rng, size: usize) -> Skiplist<usize, usize> {
    let len = 1 + rng.below(64);
    say!("emp {}", len);
    let mut s = Skiplist::emp(len, some_name(rng));
    for _ in 0..size {
        let (k, v) = (rng.below(size), rng.below(10));
        match rng.below(4) {
            0 => { say!("archive"); s.archive(some_name(rng)) }
            1 => { say!("rem {}", k); s.rem(k); }
            _ => { say!("put {} {}", k, v); s.put(k, v) }
        }
    }
    s
}
pub fn c28_lists(rng: &mut Rng, size: usize) -> Res {
    let (a, b) = twice(rng, |r| mk_list(r, size));
    agree("list", &a, &b)?;
    let (a, b) = twice(rng, |r| mk_astack(r, size));
    agree("archive stack", &a, &b)?;
    let (a, b) = twice(rng, |r| mk_skip(r, size));
    agree("skip list", &a, &b)
}
pub fn c28_tries(rng: &mut Rng, size: usize) -> Res {
    let big = 1 + rng.below(4 * size);
    let kv: Vec<(u32, u32)> = (0..rng.burst(size + 1)).map(|_| (rng.below(big) as u32, rng.below(50) as u32)).collect();
    let (mut a, mut b) = (HashMap::new(), HashMap::with_capacity(rng.below(1000)));
    for &(k, v) in &kv { a.insert(k, v); }
    let mut back: Vec<(u32, u32)> = a.iter().map(|x| (*x.0, *x.1)).collect();
    back.sort();
    if rng.chance(1, 2) { back.reverse() }
    for &(k, v) in &back { b.insert(k, v); }
    say!("two tries of {:?}", back);
    let (s, t) = (Trie::from_hashmap(a.clone()), Trie::from_hashmap(b));
    agree("trie", &s, &t)?;
    // other bindings
    let k = rng.below(big) as u32;
    let what = match rng.below(3) {
        0 => { a.remove(&k); "without" }
        _ => { a.insert(k, 100 + rng.below(50) as u32); "with a new value for" }
    };
    let mut c: Vec<(u32, u32)> = a.iter().map(|x| (*x.0, *x.1)).collect();
    c.sort(); back.sort();
    if c != back && Trie::from_hashmap(a) == s { return Err(format!("a trie {} {} equals the one of {:?}", what, k, back)) }
    Ok(())
}
