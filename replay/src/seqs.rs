use adapton::engine::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, Navigation, Position, RazMeta};
use iodyn::stack::Stack;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;
use util::{eq, fresh, nsd, some_name, Rng};
use Res;

/// A metadata that records exactly how it was computed.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SM {
    None(u32, Option<Name>),
    Vec(Vec<u32>, u32, Option<Name>),
    Meta(Box<SM>, Box<SM>, u32, Option<Name>),
}
impl RazMeta<u32> for SM {
    type Index = Position<()>;
    fn from_none(lev: u32, n: Option<Name>) -> Self { SM::None(lev, n) }
    fn from_vec(vec: &Vec<u32>, lev: u32, n: Option<Name>) -> Self { SM::Vec(vec.clone(), lev, n) }
    fn from_meta(l: &Self, r: &Self, lev: u32, n: Option<Name>) -> Self { SM::Meta(Box::new(l.clone()), Box::new(r.clone()), lev, n) }
    fn navigate(_l: &Self, _r: &Self, index: &Self::Index) -> Navigation<Self::Index> {
        match *index { Position::Left => Navigation::Left(Position::Left), Position::Right => Navigation::Right(Position::Right), _ => Navigation::Nowhere }
    }
    fn split_vec<'a>(vec: &'a Vec<u32>, index: &Self::Index) -> (&'a [u32], &'a [u32]) {
        match *index { Position::Left => vec.split_at(0), _ => vec.split_at(vec.len()) }
    }
}

/// metadata types the tests run with
pub trait TM: RazMeta<u32> + 'static {
    /// an index at or near a position, and how many elements it puts on the left (None: unknown)
    fn pick(rng: &mut Rng, n: usize) -> (Self::Index, String, Option<usize>);
    fn exact(&self, sh: &Option<Sh>) -> Res;
}
fn pick_end<I>(rng: &mut Rng, n: usize) -> (Position<I>, String, Option<usize>) {
    if rng.chance(1, 2) { (Position::Left, "Left".into(), Some(0)) } else { (Position::Right, "Right".into(), Some(n)) }
}
impl TM for () {
    fn pick(rng: &mut Rng, n: usize) -> (Self::Index, String, Option<usize>) { pick_end(rng, n) }
    fn exact(&self, _: &Option<Sh>) -> Res { Ok(()) }
}
impl TM for SM {
    fn pick(rng: &mut Rng, n: usize) -> (Self::Index, String, Option<usize>) { pick_end(rng, n) }
    fn exact(&self, sh: &Option<Sh>) -> Res { eq("recorded metadata", self.clone(), scratch(sh)) }
}
impl TM for Names {
    fn pick(rng: &mut Rng, n: usize) -> (Self::Index, String, Option<usize>) { pick_end(rng, n) }
    fn exact(&self, sh: &Option<Sh>) -> Res {
        let mut want = vec![];
        if let Some(ref s) = *sh { names_of(s, &mut want); }
        eq("name metadata size", self.0.len(), { let mut h = HashMap::new(); for w in &want { h.insert(w.clone(), ()); } h.len() })?;
        for w in want { if !self.0.contains_key(&w) { return Err(format!("name metadata misses {:?}", w)) } }
        Ok(())
    }
}
impl TM for Count {
    fn pick(rng: &mut Rng, n: usize) -> (Self::Index, String, Option<usize>) {
        let i = rng.below(n + 1);
        match rng.below(6) {
            0 => (usize::max_value(), "end".into(), Some(n)),
            1 => (0, "0".into(), Some(0)),
            2 => (n, n.to_string(), Some(n)),
            _ => (i, i.to_string(), Some(i)),
        }
    }
    fn exact(&self, sh: &Option<Sh>) -> Res { eq("count", self.0, sh.as_ref().map(|s| s.elems().len()).unwrap_or(0)) }
}

/// the structure of a sequence tree
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sh { Leaf(Vec<u32>), Bin(Box<Sh>, u32, Option<Name>, Box<Sh>) }
impl Sh {
    pub fn elems(&self) -> Vec<u32> {
        let mut v = vec![];
        self.walk(&mut |x| if let Tok::Leaf(l) = x { v.extend(l) });
        v
    }
    fn walk(&self, f: &mut FnMut(Tok)) {
        match *self {
            Sh::Leaf(ref v) => f(Tok::Leaf(v.clone())),
            Sh::Bin(ref l, lv, ref n, ref r) => { l.walk(f); f(Tok::Bin(lv, n.clone())); r.walk(f) }
        }
    }
    pub fn toks(&self) -> Vec<Tok> { let mut v = vec![]; self.walk(&mut |t| v.push(t)); v }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok { Leaf(Vec<u32>), Bin(u32, Option<Name>) }

fn names_of(s: &Sh, out: &mut Vec<Name>) { s.walk(&mut |t| if let Tok::Bin(_, Some(n)) = t { out.push(n) }) }

pub fn shape<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Option<Sh> {
    nsd(|| t.clone().fold_up_gauged(Rc::new(|v: &Vec<u32>| Sh::Leaf(v.clone())), Rc::new(|l: Sh, lv: u32, n: Option<Name>, r: Sh| Sh::Bin(Box::new(l), lv, n, Box::new(r)))))
}
/// the canonical shape for a sequence of leaves and levels
pub fn canon(t: &[Tok]) -> Sh {
    if t.len() == 1 { return match t[0] { Tok::Leaf(ref v) => Sh::Leaf(v.clone()), _ => panic!("model") } }
    let mut best = 1;
    let lev = |i: usize| match t[i] { Tok::Bin(l, _) => l, _ => panic!("model") };
    let mut i = 1;
    while i < t.len() { if lev(i) > lev(best) { best = i } i += 2; }
    let (l, n) = match t[best] { Tok::Bin(l, ref n) => (l, n.clone()), _ => panic!("model") };
    Sh::Bin(Box::new(canon(&t[..best])), l, n, Box::new(canon(&t[best + 1..])))
}
fn scratch(s: &Option<Sh>) -> SM {
    fn m(s: &Sh, lv: u32, n: Option<Name>) -> SM {
        match *s {
            Sh::Leaf(ref v) => SM::Vec(v.clone(), lv, n),
            Sh::Bin(ref l, lv2, ref n2, ref r) => SM::Meta(Box::new(m(l, lv2, n2.clone())), Box::new(m(r, lv2, n2.clone())), lv, n),
        }
    }
    match *s { None => SM::None(0, None), Some(ref s) => m(s, 0, None) }
}

fn elems<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Vec<u32> { nsd(|| elems_(t)) }
fn elems_<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Vec<u32> {
    let mut raz = nsd(|| t.clone().focus_left());
    let mut v = vec![];
    while let Some(e) = raz.pop_right() { v.push(e); if v.len() > 100_000 { break } }
    v
}
fn folded<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Vec<u32> {
    t.clone().fold_lr(vec![], Rc::new(|mut v: Vec<u32>, e: &u32| { v.push(*e); v }))
}
/// both sides of a cursor, left to right, without touching it
fn sides<M: RazMeta<u32> + 'static>(r: &Raz<u32, M>) -> (Vec<u32>, Vec<u32>) { nsd(|| sides_(r)) }
fn sides_<M: RazMeta<u32> + 'static>(r: &Raz<u32, M>) -> (Vec<u32>, Vec<u32>) {
    let (mut a, mut b) = (r.clone(), r.clone());
    let (mut l, mut rt) = (vec![], vec![]);
    while let Some(e) = a.pop_left() { l.push(e); if l.len() > 100_000 { break } }
    while let Some(e) = b.pop_right() { rt.push(e); if rt.len() > 100_000 { break } }
    l.reverse();
    (l, rt)
}
fn opt_name(rng: &mut Rng) -> Option<Name> { if rng.chance(2, 3) { Some(some_name(rng)) } else { None } }

/// one random edit, checked against the model (left; right with the cursor at its end)
fn edit<M: TM>(rng: &mut Rng, raz: &mut Raz<u32, M>, l: &mut Vec<u32>, r: &mut Vec<u32>) -> Res { nsd(|| edit_(rng, raz, l, r)) }
fn edit_<M: TM>(rng: &mut Rng, raz: &mut Raz<u32, M>, l: &mut Vec<u32>, r: &mut Vec<u32>) -> Res {
    match rng.below(12) {
        0...2 => for _ in 0..1 + rng.burst(3) { let x = rng.below(1000) as u32; say!("push_left {}", x); raz.push_left(x); l.push(x) },
        3...5 => for _ in 0..1 + rng.burst(3) { let x = rng.below(1000) as u32; say!("push_right {}", x); raz.push_right(x); r.push(x) },
        6 => for _ in 0..1 + rng.below(4) { say!("pop_left"); let g = raz.pop_left(); eq("pop_left", g, l.pop())? },
        7 => for _ in 0..1 + rng.below(4) { say!("pop_right"); let g = raz.pop_right(); eq("pop_right", g, r.pop())? },
        8...9 => { let (v, n) = (rng.level(), opt_name(rng)); say!("archive_left {} {:?}", v, n); raz.archive_left(v, n) }
        _ => { let (v, n) = (rng.level(), opt_name(rng)); say!("archive_right {} {:?}", v, n); raz.archive_right(v, n) }
    }
    Ok(())
}
fn peeks<M: TM>(raz: &Raz<u32, M>, l: &[u32], r: &[u32]) -> Res {
    eq("peek_left", nsd(|| raz.peek_left()), l.last().cloned())?;
    eq("peek_right", nsd(|| raz.peek_right()), r.last().cloned())
}
/// unfocus, check the elements, focus somewhere else
fn refocus<M: TM>(rng: &mut Rng, raz: Raz<u32, M>, l: &mut Vec<u32>, r: &mut Vec<u32>) -> Result<Raz<u32, M>, String> {
    say!("unfocus");
    let t = nsd(|| raz.unfocus());
    let mut all = l.clone();
    all.extend(r.iter().rev());
    let (i, d, k) = M::pick(rng, all.len());
    if rng.chance(1, 6) {
        say!("focus_left");
        *l = vec![]; all.reverse(); *r = all;
        return Ok(nsd(|| t.focus_left()));
    }
    say!("focus {}", d);
    let k = k.unwrap();
    match nsd(|| t.focus(i)) {
        None => Err(format!("focus at {} of {} yields nothing", d, all.len())),
        Some(z) => { let mut b = all.split_off(k); b.reverse(); *l = all; *r = b; Ok(z) }
    }
}
/// a random sequence: focused, with its model
pub fn rand_raz<M: TM>(rng: &mut Rng, size: usize) -> Result<(Raz<u32, M>, Vec<u32>, Vec<u32>), String> {
    let mut raz: Raz<u32, M> = Raz::new();
    say!("new");
    let (mut l, mut r) = (vec![], vec![]);
    if rng.chance(1, 3) {
        let (t, e) = rand_conv(rng, size);
        l = e;
        raz = match M::pick(rng, 0) { _ => nsd(|| t.focus(M::Index::last())).ok_or("focus at the end yields nothing")? };
        say!("focus last");
        let _ = &raz;
    }
    for _ in 0..rng.below(size * 2) {
        edit(rng, &mut raz, &mut l, &mut r)?;
        if rng.chance(1, 6) { raz = refocus(rng, raz, &mut l, &mut r)? }
    }
    Ok((raz, l, r))
}
/// a random archive stack: the sections bottom to top and the archive points between them
fn rand_astack(rng: &mut Rng, size: usize, top_empty: bool) -> (AStack<u32, u32>, Vec<Vec<u32>>, Vec<(u32, Option<Name>)>) {
    let mut s: AStack<u32, u32> = AStack::new();
    let (mut secs, mut arcs) = (vec![vec![]], vec![]);
    let k = if rng.chance(1, 4) { rng.burst(size / 2 + 2) } else { rng.below(size / 2 + 2) };
    for i in 0..k + 1 {
        for _ in 0..1 + rng.burst(3) { let x = rng.below(1000) as u32; s.push(x); say!("astack push {}", x); secs.last_mut().unwrap().push(x) }
        if i < k || (top_empty && rng.chance(1, 3)) {
            let (v, n) = (rng.level(), opt_name(rng));
            say!("astack archive {} {:?}", v, n);
            s.archive(n.clone(), v);
            secs.push(vec![]); arcs.push((v, n));
        }
    }
    (s, secs, arcs)
}
fn rand_conv<M: TM>(rng: &mut Rng, size: usize) -> (RazTree<u32, M>, Vec<u32>) {
    let (s, secs, _) = rand_astack(rng, size, true);
    let mut e: Vec<u32> = secs.into_iter().flat_map(|v| v).collect();
    if rng.chance(1, 2) { say!("AtTail memo_from"); (nsd(|| RazTree::memo_from(&AtTail(s))), e) }
    else { say!("AtHead memo_from"); e.reverse(); (nsd(|| RazTree::memo_from(&AtHead(s))), e) }
}
/// a random sequence tree from any source, and its elements
pub fn rand_tree<M: TM>(rng: &mut Rng, size: usize) -> Result<(RazTree<u32, M>, Vec<u32>), String> {
    match rng.below(8) {
        0 => {
            let v: Vec<u32> = (0..rng.burst(6)).map(|_| rng.below(1000) as u32).collect();
            say!("from_vec {:?}", v);
            Ok((RazTree::from_vec(v.clone()).unwrap_or_else(|| RazTree::empty()), v))
        }
        1 | 2 => Ok(rand_conv(rng, size)),
        3 if size > 3 => {
            let (a, mut ea) = rand_tree::<M>(rng, size / 2)?;
            let (b, eb) = rand_tree::<M>(rng, size / 2)?;
            let (v, n) = (rng.level(), opt_name(rng));
            say!("RazTree::join {} {:?}", v, n);
            let (ae, be) = (ea.is_empty(), eb.is_empty());
            if ae { return Ok((b, eb)) } else if be { return Ok((a, ea)) }
            ea.extend(eb);
            match nsd(|| RazTree::join(a, v, n, b)) { Some(t) => Ok((t, ea)), None => Err("join of two non-empty sequences refused".into()) }
        }
        4 => {
            let (t, e) = rand_tree::<M>(rng, size / 2 + 1)?;
            say!("map +1");
            Ok((nsd(|| t.map(Rc::new(|e: &u32| *e + 1))), e.into_iter().map(|e| e + 1).collect()))
        }
        _ => {
            let (raz, mut l, r) = rand_raz::<M>(rng, size)?;
            l.extend(r.iter().rev());
            say!("unfocus");
            Ok((nsd(|| raz.unfocus()), l))
        }
    }
}

fn c01_m<M: TM>(rng: &mut Rng, size: usize) -> Res {
    let (mut raz, mut l, mut r) = rand_raz::<M>(rng, size)?;
    for _ in 0..size {
        edit(rng, &mut raz, &mut l, &mut r)?;
        peeks(&raz, &l, &r)?;
        if rng.chance(1, 10) { raz = refocus(rng, raz, &mut l, &mut r)?; peeks(&raz, &l, &r)? }
    }
    // drain, alternating sides
    let mut left = rng.chance(1, 2);
    loop {
        peeks(&raz, &l, &r)?;
        if l.is_empty() && r.is_empty() { break }
        if rng.chance(1, 4) { left = !left }
        if left { say!("pop_left"); eq("pop_left", nsd(|| raz.pop_left()), l.pop())? } else { say!("pop_right"); eq("pop_right", nsd(|| raz.pop_right()), r.pop())? }
        if rng.chance(1, 12) { say!("push_left 7"); raz.push_left(7); l.push(7); }
        if rng.chance(1, 12) { let n = opt_name(rng); say!("archive_left 3"); nsd(|| raz.archive_left(3, n)) }
        if rng.chance(1, 12) { let n = opt_name(rng); say!("archive_right 3"); nsd(|| raz.archive_right(3, n)) }
    }
    eq("pop_left on empty", nsd(|| raz.pop_left()), None)?;
    eq("pop_right on empty", nsd(|| raz.pop_right()), None)?;
    peeks(&raz, &l, &r)
}
pub fn c01(rng: &mut Rng, size: usize) -> Res { c01_m::<Count>(rng, size) }
pub fn c01_unit(rng: &mut Rng, size: usize) -> Res { if rng.chance(1, 2) { c01_m::<()>(rng, size) } else { c01_m::<Names>(rng, size) } }

pub fn c02(rng: &mut Rng, size: usize) -> Res {
    let (t, e) = rand_tree::<Count>(rng, size)?;
    if e.is_empty() { return Ok(()) }
    let multi = shape(&t).map(|s| s.toks().len() > 1).unwrap_or(false);
    let n = e.len();
    let pos: Vec<usize> = if n <= 12 { (0..n + 1).collect() } else { (0..12).map(|_| rng.below(n + 1)).chain(vec![0, n]).collect() };
    for i in pos {
        say!("focus {}", i);
        match nsd(|| t.clone().focus(i)) {
            None => return Err(format!("focus({}) of {} elements yields nothing", i, n)),
            Some(z) => eq(&format!("sides after focus({})", i), sides(&z), (e[..i].to_vec(), e[i..].to_vec()))?,
        }
    }
    let z = nsd(|| t.clone().focus(usize::max_value())).ok_or("focus at the end marker yields nothing")?;
    eq("sides at the end marker", sides(&z), (e.clone(), vec![]))?;
    eq("sides after focus_left", sides(&nsd(|| t.clone().focus_left())), (vec![], e.clone()))?;
    for i in vec![n + 1, n + 2, 2 * n + 1, usize::max_value() / 2, usize::max_value() - 1] {
        say!("focus {}", i);
        if !multi {
            // one leaf: rejecting by a panic is allowed
            let t = t.clone();
            if let Ok(true) = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| nsd(|| t.focus(i)).is_some())) {
                return Err(format!("focus({}) of {} elements yields a cursor", i, n))
            }
        } else {
            if nsd(|| t.clone().focus(i)).is_some() { return Err(format!("focus({}) of {} elements yields a cursor", i, n)) }
        }
    }
    Ok(())
}
fn ends<M: TM>(rng: &mut Rng, size: usize) -> Res where M: RazMeta<u32> {
    let (t, e) = rand_tree::<M>(rng, size)?;
    let z = nsd(|| t.clone().focus(M::Index::first())).ok_or("focus first yields nothing")?;
    eq("sides at first", sides(&z), (vec![], e.clone()))?;
    let z = nsd(|| t.clone().focus(M::Index::last())).ok_or("focus last yields nothing")?;
    eq("sides at last", sides(&z), (e.clone(), vec![]))?;
    eq("sides after focus_left", sides(&nsd(|| t.focus_left())), (vec![], e))
}
pub fn c02_ends(rng: &mut Rng, size: usize) -> Res {
    match rng.below(4) { 0 => ends::<()>(rng, size), 1 => ends::<Names>(rng, size), 2 => ends::<SM>(rng, size), _ => ends::<Count>(rng, size) }
}

pub fn c03(rng: &mut Rng, size: usize) -> Res {
    let (mut raz, mut l, mut r) = rand_raz::<Count>(rng, size)?;
    for _ in 0..rng.below(4) {
        // archive points do not change either side
        let n = opt_name(rng);
        let v = rng.level();
        if rng.chance(1, 2) { say!("archive_left"); nsd(|| raz.archive_left(v, n)) } else { say!("archive_right"); nsd(|| raz.archive_right(v, n)) }
    }
    if rng.chance(1, 5) { say!("drain left"); while let Some(_) = nsd(|| raz.pop_left()) { l.pop(); } }
    if rng.chance(1, 5) { say!("drain right"); while let Some(_) = nsd(|| raz.pop_right()) { r.pop(); } }
    if rng.chance(1, 3) { for _ in 0..rng.below(l.len() + 1) { nsd(|| raz.pop_left()); l.pop(); say!("pop_left"); } }
    if rng.chance(1, 3) { for _ in 0..rng.below(r.len() + 1) { nsd(|| raz.pop_right()); r.pop(); say!("pop_right"); } }
    say!("unfocus");
    let t = nsd(|| raz.unfocus());
    l.extend(r.iter().rev());
    eq("elements after unfocus", elems(&t), l.clone())?;
    eq("is_empty after unfocus", t.is_empty(), l.is_empty())
}

fn meta_m<M: TM>(rng: &mut Rng, size: usize) -> Res {
    let (t, e) = rand_tree::<M>(rng, size)?;
    let sh = shape(&t);
    eq("is_empty", t.is_empty(), e.is_empty())?;
    eq("elements", sh.as_ref().map(|s| s.elems()).unwrap_or(vec![]), e)?;
    t.meta().exact(&sh)
}
pub fn c04(rng: &mut Rng, size: usize) -> Res {
    eq("empty metadata", RazTree::<u32, SM>::empty().meta().clone(), SM::None(0, None))?;
    meta_m::<SM>(rng, size)
}
pub fn c04_count(rng: &mut Rng, size: usize) -> Res {
    eq("empty count", RazTree::<u32, Count>::empty().meta().0, 0)?;
    meta_m::<Count>(rng, size)?;
    // the counts held in branches: every position must be found where it is
    let (t, e) = rand_tree::<Count>(rng, size)?;
    let pos: Vec<usize> = if e.len() <= 100 { (0..e.len() + 1).collect() } else { (0..100).map(|_| rng.below(e.len() + 1)).chain(vec![0, e.len()]).collect() };
    for i in pos {
        let z = nsd(|| t.clone().focus(i)).ok_or("in-range position yields nothing")?;
        eq("left neighbour", z.peek_left(), if i == 0 { None } else { Some(e[i - 1]) })?;
        eq("right neighbour", z.peek_right(), e.get(i).cloned())?;
    }
    Ok(())
}
pub fn c04_names(rng: &mut Rng, size: usize) -> Res {
    eq("empty names", RazTree::<u32, Names>::empty().meta().0.len(), 0)?;
    meta_m::<Names>(rng, size)
}

pub fn c05(rng: &mut Rng, size: usize) -> Res {
    let (t, e) = rand_tree::<Names>(rng, size)?;
    let toks = match shape(&t) { None => return Ok(()), Some(s) => s.toks() };
    if toks.len() < 3 { return Ok(()) }
    let mut seen = 0;
    let mut used = HashMap::new();
    for tok in &toks { if let Tok::Bin(_, Some(ref n)) = *tok { *used.entry(n.clone()).or_insert(0) += 1; } }
    for tok in &toks {
        match *tok {
            Tok::Leaf(ref v) => seen += v.len(),
            Tok::Bin(_, Some(ref n)) if used[n] == 1 && (toks.len() < 60 || rng.chance(30, toks.len())) => {
                say!("focus name {:?}", n);
                match nsd(|| t.clone().focus(Position::Center(n.clone()))) {
                    None => return Err(format!("focus on present name {:?} yields nothing", n)),
                    Some(z) => eq(&format!("sides at {:?}", n), sides(&z), (e[..seen].to_vec(), e[seen..].to_vec()))?,
                }
            }
            _ => (),
        }
    }
    if t.clone().focus(Position::Center(name_of_usize(1_000_000 + rng.below(1000)))).is_some() { return Err("focus on an absent name yields a cursor".into()) }
    Ok(())
}

pub fn c06(rng: &mut Rng, size: usize) -> Res {
    let v: Vec<u32> = (0..rng.burst(size)).map(|_| rng.below(1000) as u32).collect();
    match RazTree::<u32, Count>::from_vec(v.clone()) {
        None => eq("from_vec refused", v.is_empty(), true)?,
        Some(t) => { eq("from_vec accepted", !v.is_empty(), true)?; eq("from_vec", elems(&t), v.clone())?; eq("from_vec fold", folded(&t), v)? }
    }
    eq("empty", elems(&RazTree::<u32, Count>::empty()), vec![])?;
    eq("empty", RazTree::<u32, Count>::empty().is_empty(), true)?;
    eq("new", Raz::<u32, Count>::new().unfocus().is_empty(), true)?;
    let (a, mut ea) = rand_tree::<Count>(rng, size)?;
    let (b, eb) = rand_tree::<Count>(rng, size)?;
    let (lv, n) = (if rng.chance(1, 6) { 0 } else { rng.level() }, opt_name(rng));
    let refuse = ea.is_empty() || eb.is_empty();
    ea.extend(eb);
    say!("join {} {:?}", lv, n);
    match RazTree::join(a, lv, n, b) {
        None => eq("join refused", refuse, true),
        Some(t) => { eq("join accepted", !refuse, true)?; eq("join elements", elems(&t), ea.clone())?; eq("join fold", folded(&t), ea) }
    }
}

pub fn c07(rng: &mut Rng, size: usize) -> Res {
    // building, converting and editing keep the canonical shape
    let (t, e) = if rng.chance(1, 3) { rand_conv::<Count>(rng, size) } else {
        let (raz, mut l, r) = rand_raz::<Count>(rng, size)?;
        l.extend(r.iter().rev());
        say!("unfocus");
        (nsd(|| raz.unfocus()), l)
    };
    if let Some(s) = shape(&t) {
        let want = canon(&s.toks());
        eq("canonical structure", s, want)?;
    }
    // same archive points made in another order
    let secs: Vec<(Vec<u32>, u32)> = (0..2 + if rng.chance(1, 2) { rng.burst(size) } else { rng.below(size) }).map(|_| ((0..1 + rng.burst(3)).map(|_| rng.below(100) as u32).collect(), rng.level())).collect();
    let cut = rng.below(secs.len());
    let mut raz: Raz<u32, Count> = Raz::new();
    let mut todo: Vec<bool> = vec![];
    for i in 0..secs.len() - 1 { todo.push(i < cut) }
    // left sections 0..cut are pushed in order, right ones from the end towards the cursor
    let (mut i, mut j) = (0, secs.len() - 1);
    loop {
        let left = if i >= cut { false } else if j <= cut { true } else { rng.chance(1, 2) };
        if left {
            for x in &secs[i].0 { raz.push_left(*x) ; }
            nsd(|| raz.archive_left(secs[i].1, None));
            i += 1;
        } else if j > cut {
            for x in secs[j].0.iter().rev() { raz.push_right(*x); }
            nsd(|| raz.archive_right(secs[j - 1].1, None));
            j -= 1;
        } else { break }
        if rng.chance(1, 5) {
            let done: usize = secs[..i].iter().map(|s| s.0.len()).sum();
            // fill the middle, refocus at the same place, and take the middle out again
            for x in &secs[cut].0 { raz.push_left(*x); }
            let t = nsd(|| raz.unfocus());
            raz = nsd(|| t.focus(done + secs[cut].0.len())).ok_or("focus yields nothing")?;
            for _ in &secs[cut].0 { nsd(|| raz.pop_left()); }
        }
    }
    for x in &secs[cut].0 { raz.push_left(*x); }
    let t = nsd(|| raz.unfocus());
    let mut toks = vec![];
    for k in 0..secs.len() { if k > 0 { toks.push(Tok::Bin(secs[k - 1].1, None)) } toks.push(Tok::Leaf(secs[k].0.clone())) }
    say!("sections {:?} built in random order around section {}", secs, cut);
    let _ = e;
    match shape(&t) { None => Err("nothing left".into()), Some(s) => {
        let ok = s == canon(&toks);
        // leaf boundaries may differ where the cursor was refocused; levels and elements may not
        if ok { Ok(()) } else { let c = canon(&s.toks()); eq("structure", s.clone(), c)?; eq("elements", s.elems(), canon(&toks).elems()) }
    } }
}

fn cat(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> { let mut a = a; a.extend(b); a }
pub fn c08(rng: &mut Rng, size: usize) -> Res {
    let (t, e) = rand_tree::<Count>(rng, size)?;
    let some = |v: Vec<u32>| if v.is_empty() { None } else { Some(v) };
    let calls = Rc::new(Cell::new(0usize));
    let c2 = calls.clone();
    eq("fold_up", t.clone().fold_up(Rc::new(move |x: &u32| { c2.set(c2.get() + 1); vec![*x] }), Rc::new(cat)), some(e.clone()))?;
    eq("fold_up visits", calls.get(), e.len())?;
    let sh = shape(&t);
    eq("fold_up_gauged", sh.as_ref().map(|s| s.elems()), some(e.clone()))?;
    let toks = sh.as_ref().map(|s| s.toks()).unwrap_or(vec![]);
    // the same walk, with the branches shown
    let got = t.clone().fold_up_nl(Rc::new(|x: &u32| vec![Tok::Leaf(vec![*x])]), Rc::new(|a: Vec<Tok>, b: Vec<Tok>| { let mut a = a; a.extend(b); a }),
        Rc::new(|a: Vec<Tok>, lv: u32, n: Option<Name>, b: Vec<Tok>| { let mut a = a; a.push(Tok::Bin(lv, n)); a.extend(b); a }));
    let flat: Vec<Tok> = toks.iter().flat_map(|t| match *t { Tok::Leaf(ref v) => v.iter().map(|x| Tok::Leaf(vec![*x])).collect(), ref b => vec![b.clone()] }).collect();
    eq("fold_up_nl", got, if flat.is_empty() { None } else { Some(flat.clone()) })?;
    eq("fold_lr", folded(&t), e.clone())?;
    let got = t.clone().fold_lr_meta(vec![], Rc::new(|mut v: Vec<Tok>, x: &u32| { v.push(Tok::Leaf(vec![*x])); v }), Rc::new(|mut v: Vec<Tok>, m: (u32, Option<Name>)| { v.push(Tok::Bin(m.0, m.1)); v }));
    eq("fold_lr_meta", got, flat.clone())?;
    let got = t.clone().fold_lr_archive(vec![], Rc::new(|mut v: Vec<String>, x: &u32| { v.push(format!("e{}", x)); v }),
        Rc::new(|mut v: Vec<String>, _n: Option<Name>| { v.push("end".into()); v }), Rc::new(|mut v: Vec<String>, l: u32| { v.push(format!("l{}", l)); v }));
    let want: Vec<String> = toks.iter().flat_map(|t| match *t {
        Tok::Leaf(ref v) => v.iter().map(|x| format!("e{}", x)).chain(vec!["end".to_string()]).collect::<Vec<_>>(),
        Tok::Bin(l, _) => vec![format!("l{}", l)],
    }).collect();
    eq("fold_lr_archive", got, want)?;
    let f = |a: u64, x: &u32| a.wrapping_mul(31).wrapping_add(*x as u64);
    eq("fold_lr hash", t.clone().fold_lr(7u64, Rc::new(f)), e.iter().fold(7u64, |a, x| f(a, x)))
}
pub fn c08_one(rng: &mut Rng, size: usize) -> Res {
    let (raz, mut l, r) = rand_raz::<Count>(rng, size)?;
    l.extend(r.iter().rev());
    let t = nsd(|| raz.unfocus());
    if rng.chance(1, 2) {
        eq("fold_up", t.fold_up(Rc::new(|x: &u32| vec![*x]), Rc::new(cat)), if l.is_empty() { None } else { Some(l) })
    } else {
        eq("fold_lr", t.fold_lr(vec![], Rc::new(|mut v: Vec<u32>, e: &u32| { v.push(*e); v })), l)
    }
}

fn map_shape(s: &Sh, f: &Fn(u32) -> u32) -> Sh {
    match *s {
        Sh::Leaf(ref v) => Sh::Leaf(v.iter().map(|x| f(*x)).collect()),
        Sh::Bin(ref l, lv, ref n, ref r) => Sh::Bin(Box::new(map_shape(l, f)), lv, n.clone(), Box::new(map_shape(r, f))),
    }
}
pub fn c09(rng: &mut Rng, size: usize) -> Res {
    let (t, e) = rand_tree::<Count>(rng, size)?;
    let calls = Rc::new(Cell::new(0usize));
    let c2 = calls.clone();
    let f = |x: u32| (x * 7 + 3) % 1009;
    let m: RazTree<u32, SM> = t.clone().map(Rc::new(move |x: &u32| { c2.set(c2.get() + 1); f(*x) }));
    eq("map calls", calls.get(), e.len())?;
    eq("map elements", elems(&m), e.iter().map(|x| f(*x)).collect())?;
    eq("map structure", shape(&m), shape(&t).map(|s| map_shape(&s, &f)))?;
    m.meta().exact(&shape(&m))?;
    let c: RazTree<u32, Count> = t.clone().map(Rc::new(move |x: &u32| f(*x)));
    c.meta().exact(&shape(&c))?;
    let n: RazTree<u32, Names> = t.clone().map(Rc::new(move |x: &u32| f(*x)));
    n.meta().exact(&shape(&n))?;
    eq("source", elems(&t), e)
}
pub fn c09_one(rng: &mut Rng, size: usize) -> Res {
    let (raz, mut l, r) = rand_raz::<Count>(rng, size)?;
    l.extend(r.iter().rev());
    let t = nsd(|| raz.unfocus());
    let m: RazTree<u32, Count> = nsd(|| t.map(Rc::new(|x: &u32| *x * 3 + 1)));
    eq("map elements", elems(&m), l.iter().map(|x| *x * 3 + 1).collect())?;
    eq("map count", m.meta().0, l.len())
}

pub fn c16(rng: &mut Rng, size: usize) -> Res {
    if rng.chance(1, 20) {
        let s: AStack<u32, u32> = AStack::new();
        eq("empty stack", RazTree::<u32, Count>::memo_from(&AtTail(s.clone())).is_empty(), true)?;
        eq("empty stack", RazTree::<u32, Count>::memo_from(&AtHead(s)).is_empty(), true)?;
    }
    let (s, mut secs, mut arcs) = rand_astack(rng, size, true);
    let orig = s.clone();
    let head = rng.chance(1, 2);
    let t: RazTree<u32, Count> = if head { say!("AtHead"); nsd(|| RazTree::memo_from(&AtHead(s))) } else { say!("AtTail"); nsd(|| RazTree::memo_from(&AtTail(s))) };
    // an archive point with nothing after it divides nothing
    if secs.last().unwrap().is_empty() { secs.pop(); arcs.pop(); }
    if head { secs.reverse(); arcs.reverse(); for v in secs.iter_mut() { v.reverse() } }
    let mut toks = vec![];
    for k in 0..secs.len() { if k > 0 { toks.push(Tok::Bin(arcs[k - 1].0, arcs[k - 1].1.clone())) } toks.push(Tok::Leaf(secs[k].clone())) }
    let want = canon(&toks);
    eq("count", t.meta().0, want.elems().len())?;
    eq("elements", elems(&t), want.elems())?;
    eq("leaves, levels and names", shape(&t).map(|s| s.toks()), Some(toks))?;
    let mut a: Vec<u32> = orig.into_iter().collect();
    if !head { a.reverse() }
    eq("the stack", a, want.elems())
}

pub fn c22(rng: &mut Rng, size: usize) -> Res {
    // clones of sequences edited independently; archives unnamed
    let (mut raz, mut l, mut r) = (Raz::<u32, Count>::new(), vec![], vec![]);
    let mut olds: Vec<(Raz<u32, Count>, Vec<u32>, Vec<u32>)> = vec![];
    let mut trees: Vec<(RazTree<u32, Count>, Vec<u32>)> = vec![];
    for _ in 0..size * 2 {
        match rng.below(12) {
            0...2 => for _ in 0..1 + rng.burst(2) { let x = rng.below(1000) as u32; say!("push_left {}", x); raz.push_left(x); l.push(x) },
            3...5 => for _ in 0..1 + rng.burst(2) { let x = rng.below(1000) as u32; say!("push_right {}", x); raz.push_right(x); r.push(x) },
            6 => { let v = rng.level(); say!("archive_left {}", v); nsd(|| raz.archive_left(v, None)) }
            7 => { let v = rng.level(); say!("archive_right {}", v); nsd(|| raz.archive_right(v, None)) }
            8 => { say!("pop_left"); eq("pop_left", nsd(|| raz.pop_left()), l.pop())? }
            9 => { say!("pop_right"); eq("pop_right", nsd(|| raz.pop_right()), r.pop())? }
            10 => {
                say!("clone, then edit one of the clones");
                olds.push((raz.clone(), l.clone(), r.clone()));
                let k = rng.below(olds.len());
                if rng.chance(1, 2) {
                    ::std::mem::swap(&mut olds[k].0, &mut raz); ::std::mem::swap(&mut olds[k].1, &mut l); ::std::mem::swap(&mut olds[k].2, &mut r);
                }
            }
            _ => {
                say!("unfocus and refocus");
                let t = nsd(|| raz.unfocus());
                let mut all = l.clone(); all.extend(r.iter().rev());
                trees.push((t.clone(), all.clone()));
                let i = rng.below(all.len() + 1);
                raz = nsd(|| t.focus(i)).ok_or("focus yields nothing")?;
                r = all.split_off(i); r.reverse(); l = all;
            }
        }
    }
    for o in &olds {
        let mut rr = o.2.clone(); rr.reverse();
        eq("an older clone", sides(&o.0), (o.1.clone(), rr))?;
    }
    for t in &trees { eq("an older tree", elems(&t.0), t.1.clone())?; }
    // lists and archive stacks
    let mut lists: Vec<(Stack<u32>, Vec<u32>)> = vec![(Stack::new(), vec![])];
    let mut stacks: Vec<(AStack<u32, u32>, Vec<u32>)> = vec![(AStack::new(), vec![])];
    for _ in 0..size {
        let k = rng.below(lists.len());
        let (s, mut m) = lists[k].clone();
        if rng.chance(2, 3) { let x = rng.below(100) as u32; m.push(x); lists.push((s.push(None, x), m)); }
        else { m.pop(); if let Some(p) = s.pull() { lists.push((p, m)) } }
        let k = rng.below(stacks.len());
        if rng.chance(1, 4) { let c = stacks[k].clone(); stacks.push(c) }
        let st = &mut stacks[k];
        match rng.below(4) {
            0 | 1 => for _ in 0..1 + rng.burst(2) { let x = rng.below(100) as u32; st.0.push(x); st.1.push(x) },
            2 => { st.0.archive(None, rng.below(9) as u32); }
            _ => { eq("astack pop", st.0.pop(), st.1.pop())? }
        }
    }
    for x in lists { let mut m = x.1.clone(); m.reverse(); eq("list clone", x.0.iter().collect::<Vec<_>>(), m)? }
    for x in stacks { let mut m = x.1.clone(); m.reverse(); eq("archive stack clone", x.0.into_iter().collect::<Vec<_>>(), m)? }
    Ok(())
}

pub fn c23(rng: &mut Rng, size: usize) -> Res {
    let (t, e) = rand_tree::<Count>(rng, size)?;
    let u: RazTree<u32, Count> = MemoFrom::memo_from(&t);
    eq("memo_from to the same type", u.clone(), t.clone())?;
    eq("its elements", elems(&u), e.clone())?;
    let w: RazTree<u32, Count> = t.memo_into();
    eq("memo_into to the same type", w, t.clone())?;
    eq("the source", elems(&t), e)?;
    let v: Vec<u32> = (0..rng.below(5)).map(|_| rng.below(9) as u32).collect();
    let x: Vec<u32> = MemoFrom::memo_from(&v);
    eq("memo_from of a vector", x, v.clone())?;
    let y: Vec<u32> = v.memo_into();
    eq("memo_into of a vector", y, v)?;
    let (s, _, _) = rand_astack(rng, size, true);
    let tail = AtTail(s.clone());
    let a: RazTree<u32, Count> = RazTree::memo_from(&tail);
    let b: RazTree<u32, Count> = tail.memo_into();
    eq("memo_into as memo_from (tail)", b, a)?;
    let head = AtHead(s);
    let a: RazTree<u32, Count> = RazTree::memo_from(&head);
    let b: RazTree<u32, Count> = head.memo_into();
    eq("memo_into as memo_from (head)", b, a)
}
// ---- C24: archive points and leaf boundaries are kept
/// a sequence with its archive points: maximal runs of elements are the leaves
#[derive(Clone, Debug, PartialEq)]
enum It { El(u32), Pt(u32, Nm) }
/// the name of an archive point: as given when archiving, or as found in a tree
#[derive(Clone, Debug, PartialEq)]
enum Nm { No, Given(Name), Found(Name) }
#[derive(Clone, Debug, PartialEq)]
struct Flat { l: Vec<It>, r: Vec<It> } // r with the cursor at its end
fn flat(t: &[Tok]) -> Vec<It> {
    let mut v = vec![];
    for x in t { match *x {
        Tok::Leaf(ref e) => for e in e { v.push(It::El(*e)) },
        Tok::Bin(l, ref n) => v.push(It::Pt(l, match *n { None => Nm::No, Some(ref n) => Nm::Found(n.clone()) })),
    } }
    v
}
fn is_pt(i: Option<&It>) -> bool { if let Some(&It::Pt(..)) = i { true } else { false } }
impl Flat {
    fn archive(s: &mut Vec<It>, lev: u32, n: &Option<Name>) {
        if let Some(&It::El(_)) = s.last() { s.push(It::Pt(lev, match *n { None => Nm::No, Some(ref n) => Nm::Given(n.clone()) })) }
    }
    fn pop(s: &mut Vec<It>) {
        if is_pt(s.last()) { s.pop(); }
        s.pop();
    }
    /// what unfocusing may give: where no element separates two archive points, either of them goes
    fn whole(&self) -> Vec<Vec<It>> {
        let (mut l, mut r) = (self.l.clone(), self.r.clone());
        let mut res = vec![];
        if is_pt(l.last()) && is_pt(r.last()) {
            let mut l2 = l.clone(); l2.pop();
            l2.extend(r.iter().rev().cloned());
            res.push(l2);
            r.pop();
        }
        if l.is_empty() && is_pt(r.last()) { r.pop(); }
        if r.is_empty() && is_pt(l.last()) { l.pop(); }
        l.extend(r.into_iter().rev());
        res.push(l);
        res
    }
    /// the cursor after k elements: at an archive point, on either side of it
    fn focus(all: &[It], k: usize) -> Vec<Flat> {
        let mut n = 0;
        let mut at = vec![];
        for i in 0..all.len() + 1 {
            if n == k { at.push(i) }
            if i < all.len() { if let It::El(_) = all[i] { n += 1 } }
        }
        at.into_iter().map(|i| Flat { l: all[..i].to_vec(), r: all[i..].iter().rev().cloned().collect() }).collect()
    }
}
fn same_items(want: &[It], got: &[It]) -> bool {
    if want.len() != got.len() { return false }
    let mut pairs: Vec<(Name, Name)> = vec![];
    for (w, g) in want.iter().zip(got) { match (w, g) {
        (&It::El(a), &It::El(b)) => if a != b { return false },
        (&It::Pt(a, ref n), &It::Pt(b, ref m)) => {
            if a != b { return false }
            match (n, m) {
                (&Nm::No, &Nm::No) => {},
                (&Nm::Found(ref x), &Nm::Found(ref y)) => if x != y { return false },
                (&Nm::Given(ref x), &Nm::Found(ref y)) => {
                    for &(ref a, ref b) in &pairs { if (a == x) != (b == y) { return false } }
                    pairs.push((x.clone(), y.clone()));
                },
                _ => return false,
            }
        },
        _ => return false,
    } }
    true
}
fn toks_of<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Vec<Tok> { shape(t).map(|s| s.toks()).unwrap_or(vec![]) }
pub fn c24(rng: &mut Rng, size: usize) -> Res {
    if rng.chance(1, 4) { return c24_join(rng, size) }
    let mut raz: Raz<u32, Count> = Raz::new();
    let mut models = vec![Flat { l: vec![], r: vec![] }];
    let mut n = 0u32;
    for _ in 0..2 + rng.below(size / 3 + 2) {
        for _ in 0..1 + rng.below(size + 2) {
            let k = rng.below(12);
            match k {
                0...2 => for _ in 0..1 + rng.burst(2) { n += 1; say!("push_left {}", n); raz.push_left(n); for m in &mut models { m.l.push(It::El(n)) } },
                3...5 => for _ in 0..1 + rng.burst(2) { n += 1; say!("push_right {}", n); raz.push_right(n); for m in &mut models { m.r.push(It::El(n)) } },
                6 => { say!("pop_left"); nsd(|| raz.pop_left()); for m in &mut models { if m.l.iter().any(|i| !is_pt(Some(i))) { Flat::pop(&mut m.l) } } },
                7 => { say!("pop_right"); nsd(|| raz.pop_right()); for m in &mut models { if m.r.iter().any(|i| !is_pt(Some(i))) { Flat::pop(&mut m.r) } } },
                8...9 => { let (v, nm) = (rng.level(), opt_name(rng)); say!("archive_left {} {:?}", v, nm); raz.archive_left(v, nm.clone()); for m in &mut models { Flat::archive(&mut m.l, v, &nm) } },
                _ => { let (v, nm) = (rng.level(), opt_name(rng)); say!("archive_right {} {:?}", v, nm); raz.archive_right(v, nm.clone()); for m in &mut models { Flat::archive(&mut m.r, v, &nm) } },
            }
            if rng.chance(1, 8) { nsd(|| { raz.peek_left(); raz.peek_right() }); }
        }
        say!("unfocus");
        let t = nsd(|| raz.unfocus());
        let got = flat(&toks_of(&t));
        let want: Vec<Vec<It>> = models.iter().flat_map(|m| m.whole()).collect();
        if !want.iter().any(|w| same_items(w, &got)) {
            return Err(format!("after unfocusing, elements (El) and branches (Pt) are {:?}, expected {}", got, want.iter().map(|w| format!("{:?}", w)).collect::<Vec<_>>().join(" or ")));
        }
        let len = got.iter().filter(|i| !is_pt(Some(i))).count();
        if len == 0 { raz = Raz::new(); models = vec![Flat { l: vec![], r: vec![] }]; continue }
        if rng.chance(1, 6) {
            say!("focus_left");
            raz = nsd(|| t.focus_left());
            models = Flat::focus(&got, 0);
        } else {
            let k = rng.below(len + 1);
            say!("focus {}", k);
            raz = match nsd(|| t.focus(k)) { Some(z) => z, None => return Err(format!("focus at {} of {} yields nothing", k, len)) };
            models = Flat::focus(&got, k);
        }
    }
    Ok(())
}
fn c24_join(rng: &mut Rng, size: usize) -> Res {
    let (a, _) = rand_conv::<Count>(rng, size);
    let (b, _) = rand_conv::<Count>(rng, size);
    let (x, y) = (toks_of(&a), toks_of(&b));
    let (lev, nm) = (rng.level(), opt_name(rng));
    say!("join level {} {:?}", lev, nm);
    match nsd(|| RazTree::join(a, lev, nm.clone(), b)) {
        None => if x.len() > 0 && y.len() > 0 { return Err("join of two non-empty sequences yields nothing".into()) },
        Some(t) => {
            let mut w = x; w.push(Tok::Bin(lev, nm)); w.extend(y);
            eq("leaves and branches of the joined sequence", toks_of(&t), w)?;
        },
    }
    Ok(())
}
