use accum_lists::{List, RcList, RcVecList, VecList};
use adapton::engine::*;
use interface::{IFaceArchive, IFaceNew, IFaceSeq};
use iodyn::archive_stack::AStack;
use iodyn::level_tree::gen_branch_level;
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::{Head, Stack};
use iodyn::trie::{HashVal, Trie};
use iodyn::IRaz;
use rand::Rng as RandRng;
use std::collections::HashMap;
use util::{eq, fresh, is_long, some_name, Rng};
use Res;

fn opt_name(rng: &mut Rng) -> Option<Name> { if rng.chance(1, 2) { Some(some_name(rng)) } else { None } }

fn c14_ck(s: &Stack<u32>, m: &Vec<(Option<Name>, u32)>) -> Res {
    eq("is_empty", s.is_empty(), m.is_empty())?;
    eq("peek", s.peek(), m.last().map(|x| x.1))?;
    eq("name", s.name(), m.last().and_then(|x| x.0.clone()))?;
    let mut it = s.iter();
    for x in m.iter().rev() { eq("iter name", it.name(), x.0.clone())?; eq("iter", it.next(), Some(x.1))?; }
    eq("iter name at the end", it.name(), None)?;
    eq("iter end", it.next(), None)?;
    eq("iter stays at the end", it.next(), None)?;
    if let Some(ref h) = s.0 {
        eq("head peek", h.peek(), m.last().unwrap().1)?;
        eq("head name", h.name(), m.last().unwrap().0.clone())?;
        eq("head iter", h.iter().collect::<Vec<_>>(), m.iter().rev().map(|x| x.1).collect())?;
    }
    Ok(())
}
pub fn c14(rng: &mut Rng, size: usize) -> Res {
    let mut all: Vec<(Stack<u32>, Vec<(Option<Name>, u32)>)> = vec![(Stack::new(), vec![])];
    for _ in 0..size {
        let k = rng.below(all.len());
        let (s, mut m) = all[k].clone();
        match rng.below(6) {
            0 | 1 | 2 => {
                let (n, x) = (opt_name(rng), rng.below(100) as u32);
                say!("list {} = push {:?} {} onto {}", all.len(), n, x, k);
                let t = match s.0 {
                    Some(ref h) if rng.chance(1, 2) => Stack(Some(h.push(n.clone(), x))),
                    None if rng.chance(1, 2) => Stack(Some(Head::new(n.clone(), x))),
                    _ => s.push(n.clone(), x),
                };
                m.push((n, x));
                all.push((t, m));
            }
            3 | 4 => {
                say!("list {} = pull {}", all.len(), k);
                let p = match s.0 { Some(ref h) if rng.chance(1, 2) => Some(Stack(h.pull())), _ => s.pull() };
                eq("pull of an empty list", p.is_none(), m.is_empty())?;
                if let Some(p) = p { m.pop(); all.push((p, m)) }
            }
            _ => c14_ck(&s, &m)?,
        }
    }
    for x in &all { c14_ck(&x.0, &x.1)? }
    // one long list
    let (mut s, mut m) = all.pop().unwrap();
    for _ in 0..rng.burst(2) {
        let (n, x) = (opt_name(rng), rng.below(100) as u32);
        say!("push {:?} {} onto the last list", n, x);
        s = s.push(n.clone(), x);
        m.push((n, x));
    }
    c14_ck(&s, &m)?;
    while let Some(p) = s.pull() { eq("peek", s.peek(), m.pop().map(|x| x.1))?; s = p; }
    c14_ck(&s, &m)
}

pub fn c15(rng: &mut Rng, size: usize) -> Res {
    let mut s: AStack<u32, u32> = if rng.chance(1, 2) { AStack::new() } else { AStack::with_capacity(rng.below(10)) };
    let mut cur: Vec<u32> = vec![];
    let mut arch: Vec<(Option<Name>, u32, Vec<u32>)> = vec![];
    if rng.chance(1, 5) {
        let v: Vec<u32> = (0..rng.burst(5)).map(|_| rng.below(100) as u32).collect();
        let mut w = v.clone(); w.reverse();
        eq("from a vector", AStack::from(v).into_iter().collect::<Vec<_>>(), w)?;
    }
    for _ in 0..size * 2 {
        match rng.below(12) {
            0...3 => for _ in 0..1 + rng.burst(2) { let x = rng.below(100) as u32; say!("push {}", x); s.push(x); cur.push(x) },
            4...5 => {
                let (n, m) = (opt_name(rng), rng.below(50) as u32);
                say!("archive {:?} {}", n, m);
                let done = if rng.chance(1, 2) { AStack::archive(&mut s, n.clone(), m) } else { s.archive_with_capacity(n.clone(), m, rng.below(8)) };
                eq("archive reports", done, !cur.is_empty())?;
                if done { arch.push((n, m, ::std::mem::replace(&mut cur, vec![]))) }
            }
            6 => {
                say!("pop");
                if cur.is_empty() { if let Some(a) = arch.pop() { cur = a.2 } }
                eq("pop", s.pop(), cur.pop())?;
            }
            7 => {
                say!("pop_meta");
                let mut meta = None;
                if cur.is_empty() { if let Some(a) = arch.pop() { cur = a.2; meta = Some(a.1) } }
                eq("pop_meta", s.pop_meta(), cur.pop().map(|x| (x, meta)))?;
            }
            8 => {
                say!("next_archive");
                let got = s.next_archive();
                let want = if cur.is_empty() && arch.is_empty() { None } else {
                    let old = ::std::mem::replace(&mut cur, vec![]);
                    match arch.pop() { None => Some((old, None)), Some(a) => { cur = a.2; Some((old, Some(a.1))) } }
                };
                eq("next_archive", got, want)?;
            }
            9 => {
                let v: Vec<u32> = (0..rng.burst(4)).map(|_| rng.below(100) as u32).collect();
                say!("extend {:?}", v);
                s.extend(&v); cur.extend(v);
            }
            10 => if cur.is_empty() && arch.is_empty() {
                let v: Vec<u32> = (0..rng.burst(4)).map(|_| rng.below(100) as u32).collect();
                say!("extend_rev {:?}", v);
                s.extend_rev(&v); cur.extend(v.into_iter().rev());
            },
            _ => {
                let mut it = s.clone().into_iter();
                for v in ::std::iter::once(&cur).chain(arch.iter().rev().map(|a| &a.2)) { for x in v.iter().rev() { eq("iter", it.next(), Some(*x))? } }
                eq("iter end", it.next(), None)?;
                eq("iter end", it.next(), None)?;
            }
        }
        eq("is_empty", s.is_empty(), cur.is_empty() && arch.is_empty())?;
        eq("active_len", s.active_len(), cur.len())?;
        eq("active_data", s.active_data().clone(), cur.clone())?;
        eq("name", s.name(), arch.last().and_then(|a| a.0.clone()))?;
        eq("peek", s.peek(), cur.last().cloned().or_else(|| arch.last().map(|a| *a.2.last().unwrap())))?;
    }
    Ok(())
}

pub fn c17(rng: &mut Rng, size: usize) -> Res {
    let len = match rng.below(5) { 0 => 1, 1 => 2 + rng.below(4), 2 => 8, 3 => 62 + rng.below(5), _ => 6 + rng.below(50) };
    let keys = 1 + rng.burst(size * 2);
    // the standard hasher takes the first two to hashes that differ in their last bit only, the others to the same
    let twins = [4304406627712004213usize, 6033884319199786812, 3572236490958629158, 6580957804402179815];
    let special = rng.chance(1, 2);
    let key = |k: usize| if special && k < 4 { twins[k] } else { k };
    say!("emp {}{}", len, if special { ", keys 0 to 3 have colliding hashes" } else { "" });
    let mut s: Skiplist<usize, usize> = Skiplist::emp(len, name_of_usize(fresh()));
    let mut m: HashMap<usize, usize> = HashMap::new();
    // many updates under one name, or names often replaced
    let many = if is_long() { rng.burst(2) + if rng.chance(1, 3) { 300 } else { 0 } } else { 0 };
    let renames = many < 100 || rng.chance(1, 2);
    for _ in 0..size * 4 + many {
        let k = rng.below(keys);
        match rng.below(10) {
            0...3 => { let v = rng.below(1000); say!("put {} {}", k, v); s.put(key(k), v); m.insert(k, v); }
            4 => { let v = rng.below(1000); say!("ext {} {}", k, v); let g = s.ext(key(k), Some(v)); eq("ext", g, m.insert(k, v))? }
            5 => { say!("ext {} None", k); let g = s.ext(key(k), None); eq("ext", g, m.remove(&k))? }
            6 => { say!("rem {}", k); let g = s.rem(key(k)); eq("rem", g, m.remove(&k))? }
            7 if !renames && rng.chance(99, 100) => { let v = rng.below(1000); say!("put {} {}", k, v); s.put(key(k), v); m.insert(k, v); }
            7 => { say!("archive"); s.archive(name_of_usize(fresh())) }
            _ => { let k = rng.below(keys + 3); say!("get {}", k); eq("get", s.get(key(k)), m.get(&k).cloned())? }
        }
    }
    for k in 0..keys + 3 { eq("get", s.get(key(k)), m.get(&k).cloned())? }
    Ok(())
}

fn c18_rep<S: IFaceSeq<u32> + IFaceArchive<(u32, Option<Name>)> + IFaceNew + Clone>(what: &str, ops: &[(usize, u32)], named: &Fn(usize) -> Option<Name>) -> Res {
    let mut s = S::new();
    let mut m: Vec<u32> = vec![];
    let mut saved: Option<(S, Vec<u32>)> = None;
    for (i, o) in ops.iter().enumerate() {
        match o.0 {
            0...3 => { s = s.seq_push(o.1); m.push(o.1) }
            4 | 5 => { let (x, t) = s.seq_pop(); s = t; eq(&format!("{} pop at step {}", what, i), x, m.pop())? }
            6 | 7 => { s = s.archive((1 + o.1 % 8, named(i))) }
            _ => { saved = Some((s.clone(), m.clone())) }
        }
    }
    let unnamed = (0..ops.len()).all(|i| ops[i].0 < 6 || named(i).is_none());
    for k in 0..2 {
        for _ in 0..m.len() + 2 { let (x, t) = s.seq_pop(); s = t; eq(&format!("{} final pop", what), x, m.pop())? }
        if k == 0 { if let Some((a, b)) = saved.take() { if unnamed { s = a; m = b; } } }
    }
    Ok(())
}
pub fn c18(rng: &mut Rng, size: usize) -> Res {
    let mut ops: Vec<(usize, u32)> = (0..size * 2).map(|_| (rng.below(10), rng.below(100) as u32)).collect();
    for _ in 0..rng.burst(2) { let i = rng.below(ops.len() + 1); for _ in 0..1 + rng.burst(2) { let x = rng.below(100) as u32; ops.insert(i, (0, x)) } if !is_long() || rng.chance(1, 3) { break } }
    if rng.chance(1, 3) { for o in ops.iter_mut() { if o.0 > 7 { o.0 = 4 } } }
    say!("ops (0-3 push, 4-5 pop, 6-7 archive, 8-9 keep a copy): {:?}", ops);
    let base = fresh() * 10_000;
    let sel = rng.next();
    let f = move |k: usize| move |i: usize| if (sel >> (i % 60)) & 1 == 1 { Some(name_of_usize(base + k * 1_000_000 + i)) } else { None };
    c18_rep::<List<u32>>("List", &ops, &f(1))?;
    c18_rep::<RcList<u32>>("RcList", &ops, &f(2))?;
    c18_rep::<VecList<u32>>("VecList", &ops, &f(3))?;
    c18_rep::<RcVecList<u32>>("RcVecList", &ops, &f(4))?;
    c18_rep::<Vec<u32>>("Vec", &ops, &f(5))?;
    c18_rep::<AStack<u32, u32>>("AStack", &ops, &f(6))?;
    c18_rep::<AStack<u32, ()>>("AStack without metadata", &ops, &f(7))?;
    c18_rep::<IRaz<u32>>("IRaz", &ops, &f(8))
}

#[derive(Clone)]
pub struct Fixed(pub u64);
impl RandRng for Fixed {
    fn next_u32(&mut self) -> u32 { self.0 as u32 }
    fn next_u64(&mut self) -> u64 { self.0 }
}
pub fn c19(rng: &mut Rng, _size: usize) -> Res {
    for k in 0..40 {
        let x = match k % 5 {
            0 => rng.next(),
            1 => rng.next() << rng.below(64),
            2 => 1u64 << rng.below(64),
            3 => (rng.next() | 1).checked_shl(rng.below(64) as u32).unwrap_or(0),
            _ => if rng.chance(1, 2) { 0 } else { !0u64 << rng.below(64) },
        };
        let drawn: u64 = Fixed(x).gen();
        let low = drawn << 1 >> 1;
        let want = if low == 0 { 64 } else { 1 + low.trailing_zeros() };
        say!("number {}", drawn);
        eq("level", gen_branch_level(&mut Fixed(x)), want)?;
    }
    let l = ::iodyn::inc_level();
    if l < 1 || l > 64 { return Err(format!("inc_level gave {}", l)) }
    Ok(())
}

pub fn c20(rng: &mut Rng, size: usize) -> Res {
    let mut m = HashMap::new();
    let big = if is_long() && rng.chance(1, 3) { 5000 } else if rng.chance(1, 20) { 300 } else { 50 };
    for _ in 0..if big > 50 { rng.below(2 * big) } else { rng.below(size) } { m.insert(rng.below(big) as u32, rng.below(50) as u32); }
    say!("map {:?}", m);
    let t = Trie::from_hashmap(m.clone());
    match t { Trie::Leaf(_) => (), _ => return Err("a trie made from a map is not a leaf".into()) }
    eq("union with empty on the right", Trie::union(t.clone(), Trie::empty(), name_of_usize(fresh())) == t, true)?;
    eq("union with empty on the left", Trie::union(Trie::empty(), t.clone(), name_of_usize(fresh())) == t, true)?;
    // every binding is found under any hash, in the trie and in its unions with the empty one
    let l = Trie::union(t.clone(), Trie::empty(), name_of_usize(fresh()));
    let r = Trie::union(Trie::empty(), t.clone(), name_of_usize(fresh()));
    for k in 0..big as u32 {
        let h = rng.below(1 << 20);
        for (what, x) in vec![("lookup", &t), ("lookup after a union with empty on the right", &l), ("lookup after a union with empty on the left", &r)] {
            // a HashVal has no public constructor
            eq(what, Trie::find(x, unsafe { ::std::mem::transmute::<usize, HashVal>(h) }, &k), m.get(&k).cloned())?;
        }
        eq("lookup in the empty trie", Trie::find(&Trie::<u32, u32>::empty(), unsafe { ::std::mem::transmute::<usize, HashVal>(h) }, &k), None)?;
    }
    match Trie::<u32, u32>::union(Trie::empty(), Trie::empty(), name_of_usize(fresh())) { Trie::Empty => (), _ => return Err("union of empties".into()) }
    // the same bindings listed in another order
    let mut other = HashMap::with_capacity(rng.below(500));
    let mut kv: Vec<(u32, u32)> = m.iter().map(|x| (*x.0, *x.1)).collect();
    kv.sort();
    for (k, v) in kv { other.insert(k, v); }
    eq("a trie of an equal map", Trie::from_hashmap(other) == t, true)?;
    // known finding: the union of two non-empty tries panics; any other outcome has to be right
    let mut m2 = HashMap::new();
    for _ in 0..rng.below(size) { m2.insert(rng.below(big) as u32, rng.below(50) as u32); }
    let (t2, n) = (Trie::from_hashmap(m2.clone()), name_of_usize(fresh()));
    let u = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(move || Trie::union(t, t2, n)));
    if let Ok(u) = u {
        for (k, v) in &m2 { m.insert(*k, *v); }
        for k in 0..big as u32 {
            let h = { use std::hash::{Hash, Hasher}; let mut s = ::std::collections::hash_map::DefaultHasher::new(); (&k).hash(&mut s); s.finish() as usize };
            eq("lookup after a union", Trie::find(&u, unsafe { ::std::mem::transmute::<usize, HashVal>(h) }, &k), m.get(&k).cloned())?;
        }
    }
    Ok(())
}
