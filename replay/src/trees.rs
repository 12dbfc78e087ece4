use adapton::engine::*;
use iodyn::level_tree::{good_levels, Tree};
use iodyn::tree_cursor::{Cursor, Force, TreeUpdate, UpResult};
use std::rc::Rc;
use util::{eq, fresh, some_name, Rng};
use Res;

/// node data: an identity that rebuilding keeps and a size it recomputes
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct D { id: u32, size: usize }
impl TreeUpdate for D {
    fn rebuild(l: Option<&Self>, old: &Self, _level: u32, _name: Option<Name>, r: Option<&Self>) -> Self {
        D { id: old.id, size: 1 + l.map(|d| d.size).unwrap_or(0) + r.map(|d| d.size).unwrap_or(0) }
    }
}
/// the reference tree
#[derive(Clone, Debug, PartialEq, Eq)]
struct N { lv: u32, nm: Option<Name>, d: D, l: T, r: T }
type T = Option<Box<N>>;
type Item = (u32, Option<Name>, u32);

fn mk(n: (u32, Option<Name>, u32), l: T, r: T) -> T {
    let size = 1 + l.as_ref().map(|x| x.d.size).unwrap_or(0) + r.as_ref().map(|x| x.d.size).unwrap_or(0);
    Some(Box::new(N { lv: n.0, nm: n.1, d: D { id: n.2, size: size }, l: l, r: r }))
}
fn canon(s: &[Item]) -> T {
    if s.is_empty() { return None }
    let mut b = 0;
    for i in 0..s.len() { if s[i].0 > s[b].0 { b = i } }
    mk(s[b].clone(), canon(&s[..b]), canon(&s[b + 1..]))
}
fn any(rng: &mut Rng, s: &[Item]) -> T {
    if s.is_empty() { return None }
    let b = rng.below(s.len());
    let l = any(rng, &s[..b]);
    let r = any(rng, &s[b + 1..]);
    mk(s[b].clone(), l, r)
}
fn build(t: &T) -> Option<Tree<D>> {
    t.as_ref().map(|n| Tree::new(n.lv, n.nm.clone(), n.d.clone(), build(&n.l), build(&n.r)).unwrap())
}
fn read(t: &Option<Tree<D>>) -> T {
    t.as_ref().map(|t| Box::new(N { lv: t.level(), nm: t.name(), d: t.peek(), l: read(&t.l_tree()), r: read(&t.r_tree()) }))
}
fn items(t: &T, out: &mut Vec<Item>) {
    if let Some(ref n) = *t { items(&n.l, out); out.push((n.lv, n.nm.clone(), n.d.id)); items(&n.r, out) }
}
fn its(t: &T) -> Vec<Item> { let mut v = vec![]; items(t, &mut v); v }
fn rand_items(rng: &mut Rng, k: usize, low: u32) -> Vec<Item> {
    // named, unnamed, or now and then one of them in a long run of the others
    let named = [(1, 3), (1, 3), (1, 2), (0, 1), (1, 40), (1, 1), (39, 40)][rng.below(7)];
    (0..k).map(|_| {
        let lv = if rng.chance(3, 4) { low + rng.below(5) as u32 } else { low + rng.below(40) as u32 };
        (lv, if rng.chance(named.0, named.1) { Some(some_name(rng)) } else { None }, fresh() as u32)
    }).collect()
}
/// now and then a long spine
fn spine(rng: &mut Rng, k: usize) -> Vec<Item> {
    let mut it = rand_items(rng, k, 0);
    let up = rng.chance(1, 2);
    let n = it.len();
    for (i, x) in it.iter_mut().enumerate() { x.0 = if up { i as u32 } else { (n - i) as u32 } }
    if n > 2 { it[0].0 = 2 * n as u32; }
    it
}
fn is_canon(t: &T) -> bool {
    match *t { None => true, Some(ref n) => is_canon(&n.l) && is_canon(&n.r) && n.l.as_ref().map(|l| l.lv < n.lv).unwrap_or(true) && n.r.as_ref().map(|r| r.lv <= n.lv).unwrap_or(true) }
}

pub fn c07_checker(rng: &mut Rng, size: usize) -> Res {
    let k = 1 + rng.below(size.min(9));
    let it = rand_items(rng, k, 0);
    let t = if rng.chance(1, 3) { canon(&it) } else { any(rng, &it) };
    say!("tree {:?}", t);
    eq("good_levels", good_levels(&build(&t).unwrap()), is_canon(&t))
}

fn rand_tree(rng: &mut Rng, size: usize) -> T {
    let k = 1 + rng.burst(size + 1);
    let line = k < 1000 && rng.chance(1, 6);
    let it = if line { spine(rng, k) } else { rand_items(rng, k, 0) };
    let t = if line || rng.chance(1, 2) { canon(&it) } else { any(rng, &it) };
    say!("tree {:?}", t);
    t
}
fn visits(t: &N, start: Option<Name>) -> Vec<(u32, u32)> { let _ = start; its(&Some(Box::new(t.clone()))).into_iter().map(|i| (i.2, i.0)).collect() }
fn or(s: Option<String>) -> String { s.unwrap_or_else(|| "-".into()) }
fn up_ref(t: &T) -> Option<String> { t.as_ref().map(|n| format!("({} {} {} {:?} {})", or(up_ref(&n.l)), n.d.id, n.lv, n.nm, or(up_ref(&n.r)))) }
fn up3_ref(t: &T) -> Option<String> { t.as_ref().map(|n| format!("({} {} {})", or(up3_ref(&n.l)), n.d.id, or(up3_ref(&n.r)))) }
fn map_ref(t: &T) -> T {
    t.as_ref().map(|n| { let (l, r) = (map_ref(&n.l), map_ref(&n.r));
        let size = n.lv as usize + 10 * l.as_ref().map(|x| x.d.size % 1000).unwrap_or(7) + 3 * r.as_ref().map(|x| x.d.size % 1000).unwrap_or(5);
        Box::new(N { lv: n.lv, nm: n.nm.clone(), d: D { id: n.d.id + 1, size: size }, l: l, r: r }) })
}
fn do_map(t: Tree<D>) -> Tree<D> {
    t.map(Rc::new(|d: D, lv: u32, _n: Option<Name>, l: Option<&Tree<D>>, r: Option<&Tree<D>>| D { id: d.id + 1,
        size: lv as usize + 10 * l.map(|x| x.peek().size % 1000).unwrap_or(7) + 3 * r.map(|x| x.peek().size % 1000).unwrap_or(5) }))
}
pub fn c10(rng: &mut Rng, size: usize) -> Res {
    let t = rand_tree(rng, size);
    let real = build(&t).unwrap();
    let n = t.as_ref().unwrap();
    eq("stored tree", read(&Some(real.clone())), t.clone())?;
    eq("fold_up", real.clone().fold_up(Rc::new(|l: Option<String>, d: D, r: Option<String>| format!("({} {} {})", or(l), d.id, or(r)))), up3_ref(&t).unwrap())?;
    eq("fold_up_meta", real.clone().fold_up_meta(Rc::new(|l: Option<String>, d: D, lv: u32, nm: Option<Name>, r: Option<String>| format!("({} {} {} {:?} {})", or(l), d.id, lv, nm, or(r)))), up_ref(&t).unwrap())?;
    let want = visits(n, None);
    eq("fold_lr", real.clone().fold_lr(vec![], Rc::new(|mut v: Vec<u32>, d: D| { v.push(d.id); v })), want.iter().map(|x| x.0).collect())?;
    eq("fold_lr_meta", real.clone().fold_lr_meta(Some(name_of_usize(0)), vec![], Rc::new(|mut v: Vec<(u32, u32)>, d: D, lv: u32, _n: Option<Name>| { v.push((d.id, lv)); v })), want)?;
    eq("map", read(&Some(do_map(real.clone()))), map_ref(&t))?;
    eq("the tree afterwards", read(&Some(real)), t)
}
pub fn c10_one(rng: &mut Rng, size: usize) -> Res {
    let t = rand_tree(rng, size);
    let real = build(&t).unwrap();
    let n = t.as_ref().unwrap();
    match rng.below(3) {
        0 => eq("fold_up", real.fold_up(Rc::new(|l: Option<String>, d: D, r: Option<String>| format!("({} {} {})", or(l), d.id, or(r)))), up3_ref(&t).unwrap()),
        1 => eq("fold_lr", real.fold_lr(vec![], Rc::new(|mut v: Vec<u32>, d: D| { v.push(d.id); v })), visits(n, None).iter().map(|x| x.0).collect()),
        _ => eq("map", read(&Some(do_map(real))), map_ref(&t)),
    }
}

/// the reference zipper: what is above, with the branch taken and whether the lower part had changed
#[derive(Clone)]
struct Z { cur: T, up: Vec<(bool, N, bool)>, dirty: bool }
fn new_size(n: &mut N) { n.d.size = 1 + n.l.as_ref().map(|x| x.d.size).unwrap_or(0) + n.r.as_ref().map(|x| x.d.size).unwrap_or(0) }
impl Z {
    fn up(&mut self) -> UpResult {
        match self.up.pop() {
            None => UpResult::Fail,
            Some((right, mut n, dirty)) => {
                if self.dirty {
                    if right { n.r = self.cur.take() } else { n.l = self.cur.take() }
                    new_size(&mut n);
                } else { self.dirty = dirty }
                self.cur = Some(Box::new(n));
                if right { UpResult::Left } else { UpResult::Right }
            }
        }
    }
    fn up_discard(&mut self) -> UpResult {
        match self.up.pop() {
            None => UpResult::Fail,
            Some((right, n, dirty)) => { self.dirty = dirty; self.cur = Some(Box::new(n)); if right { UpResult::Left } else { UpResult::Right } }
        }
    }
    fn down(&mut self, right: bool, f: Force) -> bool {
        let n = match self.cur { None => return false, Some(ref n) => (**n).clone() };
        let c = if right { n.r.clone() } else { n.l.clone() };
        if c.is_none() && f == Force::No { return false }
        if f == Force::Discard { self.dirty = true } else { self.up.push((right, n, self.dirty)); self.dirty = false }
        self.cur = c;
        true
    }
}
fn upn(u: UpResult) -> &'static str { match u { UpResult::Fail => "Fail", UpResult::Left => "Left", UpResult::Right => "Right" } }
fn same(c: &Cursor<D>, z: &Z) -> Res {
    eq("at_tree", read(&c.at_tree()), z.cur.clone())?;
    eq("peek", c.peek(), z.cur.as_ref().map(|n| n.d.clone()))?;
    eq("peek_level", c.peek_level(), z.cur.as_ref().map(|n| n.lv))?;
    eq("peek_name", c.peek_name(), z.cur.as_ref().and_then(|n| n.nm.clone()))?;
    eq("left_tree", read(&c.left_tree()), z.cur.as_ref().and_then(|n| n.l.clone()))?;
    eq("right_tree", read(&c.right_tree()), z.cur.as_ref().and_then(|n| n.r.clone()))
}
fn step(rng: &mut Rng, c: &mut Cursor<D>, z: &mut Z, discard: bool) -> Res {
    match rng.below(if discard { 12 } else { 9 }) {
        0 | 1 => { say!("down_left"); eq("down_left", c.down_left(), z.down(false, Force::No))? }
        2 | 3 => { say!("down_right"); eq("down_right", c.down_right(), z.down(true, Force::No))? }
        4 => { say!("down_left_force"); eq("down_left_force", c.down_left_force(Force::Yes), z.down(false, Force::Yes))? }
        5 => { say!("down_right_force"); eq("down_right_force", c.down_right_force(Force::Yes), z.down(true, Force::Yes))? }
        6 | 7 | 8 => { say!("up"); eq("up", upn(c.up()), upn(z.up()))? }
        9 => { say!("down_left_force Discard"); eq("discard left", c.down_left_force(Force::Discard), z.down(false, Force::Discard))? }
        10 => { say!("down_right_force Discard"); eq("discard right", c.down_right_force(Force::Discard), z.down(true, Force::Discard))? }
        _ => { say!("up_discard"); eq("up_discard", upn(c.up_discard()), upn(z.up_discard()))? }
    }
    Ok(())
}
fn to_root(c: &mut Cursor<D>) -> Res { let mut n = 0; while c.up() != UpResult::Fail { n += 1; if n > 10_000 { return Err("up never fails".into()) } } Ok(()) }

pub fn c11(rng: &mut Rng, size: usize) -> Res {
    let k = 1 + rng.burst(size);
    let it = if k < 2000 && rng.chance(1, 8) { spine(rng, k) } else { rand_items(rng, k, 0) };
    let t = canon(&it);
    say!("canonical tree {:?}", t);
    let mut c = Cursor::from(build(&t).unwrap());
    let mut z = Z { cur: t.clone(), up: vec![], dirty: false };
    let discard = rng.chance(1, 2);
    for _ in 0..size * 2 {
        step(rng, &mut c, &mut z, discard)?;
        same(&c, &z)?;
        if rng.chance(1, 6) {
            // down and back up
            let before = c.clone();
            let right = rng.chance(1, 2);
            let f = if rng.chance(1, 2) { Force::Yes } else { Force::No };
            if if right { c.down_right_force(f) } else { c.down_left_force(f) } {
                eq("down and up", upn(c.up()), if right { "Left" } else { "Right" })?;
            }
            eq("the cursor after down and up", c == before, true)?;
        }
    }
    say!("to the root");
    to_root(&mut c)?;
    while z.up() != UpResult::Fail {}
    same(&c, &z)?;
    if !discard { eq("the whole tree", read(&c.at_tree()), t)? }
    let mut e: Cursor<D> = Cursor::new();
    eq("up on nothing", upn(e.up()), "Fail")?;
    eq("down on nothing", e.down_left() || e.down_right(), false)
}

fn wander(rng: &mut Rng, c: &mut Cursor<D>, n: usize) {
    for _ in 0..rng.below(n + 1) {
        match rng.below(7) {
            0 | 1 => { say!("down_left"); c.down_left(); }
            2 | 3 => { say!("down_right"); c.down_right(); }
            4 => { say!("up"); c.up(); }
            5 => { say!("down_left_force"); c.down_left_force(Force::Yes); }
            _ => { say!("down_right_force"); c.down_right_force(Force::Yes); }
        }
    }
}
fn content(c: &Cursor<D>) -> Result<(Vec<Item>, T), String> {
    let mut c = c.clone();
    to_root(&mut c)?;
    let t = read(&c.at_tree());
    Ok((its(&t), t))
}
pub fn rand_cursor(rng: &mut Rng, size: usize) -> (Cursor<D>, Vec<Item>) {
    let k = rng.burst(size + 1);
    let it = if k < 2000 && rng.chance(1, 12) { spine(rng, 2 * k) } else { rand_items(rng, k, 0) };
    let t = canon(&it);
    say!("canonical tree {:?}", t);
    let mut c = match build(&t) { Some(t) => Cursor::from(t), None => Cursor::new() };
    wander(rng, &mut c, 6);
    if rng.chance(1, 10) {
        let right = rng.chance(1, 2);
        say!("{} to the end", if right { "down_right" } else { "down_left" });
        while if right { c.down_right() } else { c.down_left() } {}
    }
    (c, it)
}
pub fn c12(rng: &mut Rng, size: usize) -> Res {
    let (c, it) = rand_cursor(rng, size);
    // split
    let at = read(&c.at_tree());
    let before = { // number of nodes before the node under the cursor
        let mut marks = c.clone();
        let mut n = at.as_ref().map(|t| its(&t.l).len()).unwrap_or(0);
        loop {
            let sz = its(&read(&marks.at_tree())).len();
            let _ = sz;
            match marks.up() {
                UpResult::Fail => break,
                UpResult::Left => { n += its(&read(&marks.left_tree())).len() + 1 }
                UpResult::Right => {}
            }
        }
        n
    };
    say!("split");
    let (l, node, r) = c.clone().split();
    eq("split node", read(&node), at.clone())?;
    eq("split left focus", read(&l.at_tree()), at.as_ref().and_then(|t| t.l.clone()))?;
    eq("split right focus", read(&r.at_tree()), at.as_ref().and_then(|t| t.r.clone()))?;
    let (lc, _) = content(&l)?;
    let (rc, _) = content(&r)?;
    let skip = if at.is_some() { 1 } else { 0 };
    eq("split left content", lc.clone(), it[..before].to_vec())?;
    eq("split right content", rc.clone(), it[before + skip..].to_vec())?;
    // join
    let (mut a, ia, mut b, ib): (Cursor<D>, Vec<Item>, Cursor<D>, Vec<Item>) = match rng.below(3) {
        0 => (l, lc, r, rc),
        1 => { let (b, ib) = rand_cursor(rng, size); (c, it, b, ib) }
        _ => { let (b, ib) = rand_cursor(rng, size); let (_, _, b2) = b.clone().split(); let n = content(&b2)?.0; let _ = ib; (l, lc, b2, n) }
    };
    let (mut ia, mut ib) = (ia, ib);
    wander(rng, &mut a, 4);
    wander(rng, &mut b, 4);
    // changes made on the way: the node under a cursor is replaced, and the cursor goes on
    for (c, i) in vec![(&mut a, &mut ia), (&mut b, &mut ib)] {
        for _ in 0..2 {
            if !rng.chance(1, 3) { continue }
            let lev = match c.peek_level() { Some(l) => l, None => continue };
            let old = c.peek().unwrap().id;
            let id = fresh() as u32;
            let (l, n, r) = ::std::mem::replace(c, Cursor::new()).split();
            say!("replace node {} by {}", old, id);
            *c = Cursor::join(l, lev, n.unwrap().name(), D { id: id, size: 0 }, r);
            for x in i.iter_mut() { if x.2 == old { x.2 = id } }
            wander(rng, c, 6);
        }
    }
    let new: Item = (rng.below(7) as u32, if rng.chance(1, 2) { Some(some_name(rng)) } else { None }, fresh() as u32);
    say!("join {:?}", new);
    let j = Cursor::join(a, new.0, new.1.clone(), D { id: new.2, size: 0 }, b);
    eq("joined focus", j.at_tree().map(|t| (t.level(), t.name(), t.peek().id)), Some(new.clone()))?;
    let mut all = ia;
    all.push(new);
    all.extend(ib);
    let (jc, jt) = content(&j)?;
    eq("joined content", jc, all.clone())?;
    eq("joined structure", jt, canon(&all))?;
    Ok(())
}

pub fn c13(rng: &mut Rng, size: usize) -> Res {
    let (c, it) = rand_cursor(rng, size);
    let at = read(&c.at_tree());
    let (_, node, r) = c.clone().split();
    let after: Vec<u32> = content(&r)?.0.into_iter().map(|i| i.2).collect();
    let _ = (it, node);
    say!("into_iters");
    let (_, t, mut i) = c.into_iters();
    eq("the node", read(&t), at)?;
    let folded = i.clone().fold_out(vec![], Rc::new(|mut v: Vec<u32>, d: D| { v.push(d.id); v }));
    eq("fold_out", folded, after.clone())?;
    for (k, x) in after.iter().enumerate() {
        eq("next", i.next().map(|d| d.id), Some(*x))?;
        if rng.chance(1, if after.len() < 100 { 5 } else { 200 }) {
            let f = i.clone().fold_out(vec![], Rc::new(|mut v: Vec<u32>, d: D| { v.push(d.id); v }));
            eq("fold_out of the rest", f, after[k + 1..].to_vec())?;
        }
    }
    for _ in 0..3 { eq("next at the end", i.next().map(|d| d.id), None)? }
    Ok(())
}
