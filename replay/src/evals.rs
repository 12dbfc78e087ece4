//! the evaluation crate's test harnesses
use adapton::engine::Name;
use eval_iraz::EvalIRaz;
use eval_raz_name_index::EvalRazNameIndex;
use eval_vec::EvalVec;
use primitives::*;
use rand::{Rng as RandRng, SeedableRng, StdRng};
use std::rc::Rc;
use util::{eq, Rng};
use Res;

type E = u32;
/// elements, and the interior archive points: position, level is at least 1, named?
type Model = (Vec<E>, Vec<(usize, bool)>);

fn draw(g: &mut StdRng, n: usize) -> Vec<E> { g.gen_iter().take(n).collect() }

/// what a harness holds now, through its folds
macro_rules! observe { ($h:expr, $rng:expr) => {{
    let f = Rc::new(|mut a: (Vec<E>, Vec<(usize, u32, Option<Name>)>), e: &E| { a.0.push(*e); a });
    let m = Rc::new(|mut a: (Vec<E>, Vec<(usize, u32, Option<Name>)>), b: (u32, Option<Name>)| { let p = a.0.len(); a.1.push((p, b.0, b.1)); a });
    $h.comp_fold_meta((vec![], vec![]), f, m, $rng).1
}} }

fn marks(from: usize, counter: usize, n: usize, total: usize, dg: usize, ng: usize) -> Vec<(usize, bool)> {
    (1..n + 1).filter(|j| (counter + j) % dg == 0 && from + j < total).map(|j| (from + j, (counter + j) % (ng * dg) == 0)).collect()
}

macro_rules! raz_harness { ($name:ident, $ty:ident, $names:expr) => {
fn $name(rng: &mut Rng, size: usize) -> Res {
    let (dg, ng) = (1 + if rng.chance(1, 3) { rng.burst(5) } else { rng.below(5) }, 1 + rng.below(4));
    let n = rng.burst(size + 8);
    let seed = [rng.next() as usize, 7];
    let mut coord: StdRng = SeedableRng::from_seed(&seed[..]);
    let mut std: StdRng = SeedableRng::from_seed(&[rng.next() as usize][..]);
    say!("inc_init size {} datagauge {} namegauge {}", n, dg, ng);
    let (_, mut h): (_, $ty<E, StdRng>) = if n == 0 && rng.chance(1, 2) { $ty::inc_empty(dg, ng, &coord, &mut std) } else { $ty::inc_init(n, dg, ng, &coord, &mut std) };
    let mut m: Model = (draw(&mut coord, n), vec![]);
    m.1 = marks(0, 0, n, n, dg, ng);
    let mut counter = 0;
    let mut touched: Option<(usize, usize)> = None;
    for step in 0..4 {
        let (els, pts) = observe!(h, &mut std);
        eq("elements", els, m.0.clone())?;
        if pts.iter().any(|p| p.1 < 1) { return Err("an archive point without a level".into()) }
        let got: Vec<(usize, bool)> = pts.iter().map(|p| (p.0, p.2.is_some())).collect();
        match touched {
            None => { eq("archive points", got.clone(), m.1.clone())?; }
            Some((a, b)) => {
                let keep = |v: &Vec<(usize, bool)>| v.iter().cloned().filter(|p| p.0 != a && p.0 != b).collect::<Vec<_>>();
                eq("archive points", keep(&got), keep(&m.1))?;
            }
        }
        m.1 = got;
        let names: Vec<Name> = pts.iter().filter_map(|p| p.2.clone()).collect();
        for i in 0..names.len() { for j in 0..i { if names[i] == names[j] && !touched.is_some() { return Err("a name used twice".into()) } } }
        comps!(h, m, std);
        if step == 3 { break }
        let k = rng.burst(12);
        touched = None;
        let len = m.0.len();
        let insert = rng.chance(1, 2) && if $names { m.1.iter().any(|p| p.1) } else { len > 0 };
        if insert {
            say!("insert {}", k);
            let at = coord.gen::<usize>();
            let batch = draw(&mut coord, k);
            let (_, h2) = h.insert(k, &mut std); h = h2;
            let loc = if $names {
                let els = observe!(h, &mut std).0;
                let c: Vec<usize> = m.1.iter().filter(|p| p.1).map(|p| p.0).collect();
                match c.into_iter().find(|l| { let mut v = m.0.clone(); let t = v.split_off(*l); v.extend(batch.iter().cloned()); v.extend(t); v == els }) {
                    Some(l) => l, None => return Err(format!("the batch {:?} is not at a named boundary of {:?}: {:?}", batch, m, els)),
                }
            } else { at % len };
            let t = m.0.split_off(loc); m.0.extend(batch); m.0.extend(t);
            for p in m.1.iter_mut() { if p.0 > loc { p.0 += k } }
            m.1.extend(marks(loc, counter, k, len + k, dg, ng));
            m.1.sort();
            touched = Some((loc, loc + k));
        } else {
            say!("append {}", k);
            m.0.extend(draw(&mut coord, k));
            let (_, h2) = h.append(k, &mut std); h = h2;
            m.1.extend(marks(len, counter, k, len + k, dg, ng));
        }
        counter += k;
    }
    Ok(())
}
} }
macro_rules! comps { ($h:expr, $m:expr, $std:expr) => {{
    let want = $m.0.clone();
    eq("comp_max", $h.comp_max(&mut $std).1, want.iter().cloned().max())?;
    eq("comp_fold", $h.comp_fold(vec![], Rc::new(|mut a: Vec<E>, e: &E| { a.push(*e); a }), &mut $std).1, want.clone())?;
    let t = $h.comp_map(Rc::new(|e: &E| *e as u64 * 3 + 1), &mut $std).1;
    eq("comp_map", t.fold_lr(vec![], Rc::new(|mut a: Vec<u64>, e: &u64| { a.push(*e); a })), want.iter().map(|e| *e as u64 * 3 + 1).collect())?;
    let cat = |mut a: Vec<E>, b: Vec<E>| { a.extend(b); a };
    eq("comp_tfold", $h.comp_tfold(Rc::new(|e: &E| vec![*e]), Rc::new(cat), &mut $std).1, if want.is_empty() { None } else { Some(want.clone()) })?;
    let f = Rc::new(|mut a: (Vec<E>, usize, usize), e: &E| { a.0.push(*e); a });
    let fin = Rc::new(|mut a: (Vec<E>, usize, usize), _: Option<Name>| { a.1 += 1; a });
    let lev = Rc::new(|mut a: (Vec<E>, usize, usize), _: u32| { a.2 += 1; a });
    let r = $h.comp_fold_archive((vec![], 0, 0), f, fin, lev, &mut $std).1;
    eq("comp_fold_archive", (r.0, r.2), (want.clone(), $m.1.len()))?;
}} }
raz_harness!(iraz0, EvalIRaz, false);
raz_harness!(names0, EvalRazNameIndex, true);
pub fn c25_iraz(rng: &mut Rng, size: usize) -> Res { iraz0(rng, size) }
pub fn c25_names(rng: &mut Rng, size: usize) -> Res { names0(rng, size) }

pub fn c25_iraz_tfolds(rng: &mut Rng, size: usize) -> Res {
    let (dg, ng) = (1 + if rng.chance(1, 3) { rng.burst(5) } else { rng.below(5) }, 1 + rng.below(4));
    let n = rng.burst(size + 8);
    let mut coord: StdRng = SeedableRng::from_seed(&[rng.next() as usize, 7][..]);
    let mut std: StdRng = SeedableRng::from_seed(&[rng.next() as usize][..]);
    let (_, h): (_, EvalIRaz<E, StdRng>) = EvalIRaz::inc_init(n, dg, ng, &coord, &mut std);
    let want = draw(&mut coord, n);
    let w = if n == 0 { None } else { Some(want.clone()) };
    let cat = |mut a: Vec<E>, b: Vec<E>| { a.extend(b); a };
    eq("comp_tfoldnl", h.comp_tfoldnl(Rc::new(|e: &E| vec![*e]), Rc::new(cat), Rc::new(move |a: Vec<E>, _: u32, _: Option<Name>, b: Vec<E>| cat(a, b)), &mut std).1, w.clone())?;
    eq("comp_tfoldg", h.comp_tfoldg(Rc::new(|v: &Vec<E>| v.clone()), Rc::new(move |a: Vec<E>, _: u32, _: Option<Name>, b: Vec<E>| cat(a, b)), &mut std).1, w)?;
    // from data
    let mut z = ::iodyn::IRaz::new();
    let mut st = ::iodyn::archive_stack::AtTail(::iodyn::archive_stack::AStack::new());
    let mut last = 0;
    for (i, e) in want.iter().enumerate() {
        z.push_left(*e);
        st.0.push(*e);
        if (i + 1) % dg == 0 && rng.chance(1, 2) { last = i + 1; z.archive_left(1 + rng.below(3) as u32, None); st.0.archive(None, 1 + rng.below(3) as u32); }
    }
    let _ = last;
    let k = if n == 0 { 0 } else { rng.below(n) };
    for _ in 0..k { let x = z.pop_left().unwrap(); z.push_right(x); }
    let t = z.clone().unfocus();
    for h in vec![
        <EvalIRaz<E, StdRng> as CreateFrom<_, _>>::inc_from(z, dg, ng, &coord, &mut std).1,
        <EvalIRaz<E, StdRng> as CreateFrom<_, _>>::inc_from(t, dg, ng, &coord, &mut std).1,
        <EvalIRaz<E, StdRng> as CreateFrom<_, _>>::inc_from(st, dg, ng, &coord, &mut std).1,
    ] {
        let mut c = coord.clone();
        let b = rng.burst(7);
        let (_, h) = h.append(b, &mut std);
        let mut w = want.clone();
        w.extend(draw(&mut c, b));
        let (els, pts) = observe!(h, &mut std);
        eq("from data, appended", els, w)?;
        let total = want.len() + b;
        let got: Vec<(usize, bool)> = pts.iter().map(|p| (p.0, p.2.is_some())).filter(|p| p.0 > want.len()).collect();
        eq("from data, archive points", got, marks(want.len(), 0, b, total, dg, ng))?;
    }
    Ok(())
}

pub fn c25_vec(rng: &mut Rng, size: usize) -> Res {
    let n = rng.burst(size + 2);
    let mut coord: StdRng = SeedableRng::from_seed(&[rng.next() as usize, 9][..]);
    let mut std: StdRng = SeedableRng::from_seed(&[rng.next() as usize][..]);
    let given: Vec<E> = (0..rng.burst(4) as u32).collect();
    let (mut h, mut m): (EvalVec<E, StdRng>, Vec<E>) = match rng.below(4) {
        0 => (EvalVec::inc_empty(1, 1, &coord, &mut std).1, vec![]),
        1 => (EvalVec::inc_from(given.clone(), 1, 1, &coord, &mut std).1, given),
        _ => { let h = EvalVec::inc_init(n, 1, 1, &coord, &mut std).1; (h, draw(&mut coord, n)) }
    };
    for step in 0..5 {
        eq("vec comp_max", h.comp_max(&mut std).1, m.iter().cloned().max())?;
        let mut r = m.clone(); r.reverse();
        eq("vec comp_rev", h.comp_rev(&mut std).1, r)?;
        eq("vec comp_native", h.comp_native(Rc::new(|v: &Vec<E>| v.clone()), &mut std).1, m.clone())?;
        eq("vec comp_map", h.comp_map(Rc::new(|e: &E| *e as u64 + 1), &mut std).1, m.iter().map(|e| *e as u64 + 1).collect::<Vec<_>>())?;
        eq("vec comp_fold", h.comp_fold(vec![], Rc::new(|mut a: Vec<E>, e: &E| { a.push(*e); a }), &mut std).1, m.clone())?;
        eq("vec comp_fold_meta", h.comp_fold_meta(vec![], Rc::new(|mut a: Vec<E>, e: &E| { a.push(*e); a }), Rc::new(|a: Vec<E>, _: u32| a), &mut std).1, m.clone())?;
        if step == 4 { break }
        let k = rng.burst(9);
        let batch = draw(&mut coord, k);
        match rng.below(3) {
            0 if m.len() > 0 => {
                say!("vec insert {}", k);
                let loc = coord.gen::<usize>() % m.len();
                let t = m.split_off(loc); m.extend(batch.into_iter().rev()); m.extend(t);
                h = h.insert(k, &mut std).1;
            }
            1 => { say!("vec extend {}", k); m.extend(batch); h = EditExtend::extend(h, k, &mut std).1; }
            _ => { say!("vec append {}", k); m.extend(batch); h = h.append(k, &mut std).1; }
        }
    }
    Ok(())
}
