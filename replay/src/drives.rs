//! the evaluation crate's actions, test drivers and sample data
use actions::*;
use adapton::engine::{name_of_string, Name};
use primitives::*;
use rand::{Rng as RandRng, SeedableRng, StdRng};
use std::cell::RefCell;
use std::rc::Rc;
use test_seq::{EditComputeSequence, TestMResult, TestResult};
use time::Duration;
use util::{eq, Rng};
use Res;

thread_local!(static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]));
thread_local!(static CLOCK: RefCell<i64> = RefCell::new(0));
fn call(s: String) { CALLS.with(|c| c.borrow_mut().push(s)) }
fn calls() -> Vec<String> { CALLS.with(|c| ::std::mem::replace(&mut *c.borrow_mut(), vec![])) }
/// times that differ from one operation to the next
fn tick() -> Duration { CLOCK.with(|c| { *c.borrow_mut() += 1; Duration::nanoseconds(time_at(*c.borrow())) }) }
thread_local!(static PACE: RefCell<usize> = RefCell::new(0));
/// the time of the k-th operation: mostly all different, now and then some too short to measure or very long
fn time_at(k: i64) -> i64 {
    match PACE.with(|p| *p.borrow()) { 0 if k % 4 == 0 => 0, 1 => 0, 2 => k * 3_000_000_000, 3 => 1_000_000 - k, _ => k }
}
fn now() -> i64 { CLOCK.with(|c| *c.borrow()) }
fn ns_of(d: &Duration) -> i64 { d.num_nanoseconds().unwrap() }
fn reset(rng: &mut Rng) { calls(); CLOCK.with(|c| *c.borrow_mut() = 0); let k = rng.below(8); PACE.with(|p| *p.borrow_mut() = k) }

/// a collection that writes down what is done to it; `0` tells one from another
#[derive(Clone, Debug, PartialEq)]
struct Tape(usize);
impl CreateEmpty<StdRng> for Tape {
    fn inc_empty(d: usize, n: usize, g: &StdRng, rng: &mut StdRng) -> (Duration, Self) { call(format!("empty {} {} {} {}", d, n, g.clone().gen::<u32>(), rng.gen::<u32>())); (tick(), Tape(now() as usize)) }
}
impl CreateFrom<u32, StdRng> for Tape {
    fn inc_from(x: u32, d: usize, n: usize, g: &StdRng, rng: &mut StdRng) -> (Duration, Self) { call(format!("from {} {} {} {} {}", x, d, n, g.clone().gen::<u32>(), rng.gen::<u32>())); (tick(), Tape(now() as usize)) }
}
impl CreateInc<StdRng> for Tape {
    fn inc_init(s: usize, d: usize, n: usize, g: &StdRng, rng: &mut StdRng) -> (Duration, Self) { call(format!("init {} {} {} {} {}", s, d, n, g.clone().gen::<u32>(), rng.gen::<u32>())); (tick(), Tape(now() as usize)) }
}
macro_rules! edit { ($tr:ident, $f:ident) => { impl $tr for Tape {
    fn $f(self, k: usize, rng: &mut StdRng) -> (Duration, Self) { call(format!("{} {} {} {}", stringify!($f), self.0, k, rng.gen::<u32>())); (tick(), Tape(now() as usize)) }
} } }
edit!(EditExtend, extend);
edit!(EditAppend, append);
edit!(EditInsert, insert);
fn did(s: String, rng: &mut StdRng) -> (Duration, u64) { call(format!("{} {}", s, rng.gen::<u32>())); let d = tick(); (d, 1000 + now() as u64) }
impl CompMax for Tape { type Target = u64; fn comp_max(&self, rng: &mut StdRng) -> (Duration, u64) { did(format!("max {}", self.0), rng) } }
impl CompRev for Tape { type Target = u64; fn comp_rev(&self, rng: &mut StdRng) -> (Duration, u64) { did(format!("rev {}", self.0), rng) } }
impl CompNative<u64> for Tape { type Input = u32; fn comp_native<F: Fn(&u32) -> u64>(&self, f: Rc<F>, rng: &mut StdRng) -> (Duration, u64) { did(format!("native {} {}", self.0, f(&3)), rng) } }
impl<I: Fn(&u32) -> u64, B: Fn(u64, u64) -> u64> CompTreeFold<u32, u64, I, B> for Tape { type Target = u64;
    fn comp_tfold(&self, i: Rc<I>, b: Rc<B>, rng: &mut StdRng) -> (Duration, u64) { did(format!("tfold {} {} {}", self.0, i(&3), b(4, 5)), rng) } }
impl<I: Fn(&u32) -> u64, B: Fn(u64, u64) -> u64, M: Fn(u64, u32, Option<Name>, u64) -> u64> CompTreeFoldNL<u32, u64, I, B, M> for Tape { type Target = u64;
    fn comp_tfoldnl(&self, i: Rc<I>, b: Rc<B>, m: Rc<M>, rng: &mut StdRng) -> (Duration, u64) { did(format!("tfoldnl {} {} {} {}", self.0, i(&3), b(4, 5), m(6, 7, None, 8)), rng) } }
impl<I: Fn(&Vec<u32>) -> u64, B: Fn(u64, u32, Option<Name>, u64) -> u64> CompTreeFoldG<u32, u64, I, B> for Tape { type Target = u64;
    fn comp_tfoldg(&self, i: Rc<I>, b: Rc<B>, rng: &mut StdRng) -> (Duration, u64) { did(format!("tfoldg {} {} {}", self.0, i(&vec![3, 4]), b(6, 7, None, 8)), rng) } }
impl<F: Fn(&u32) -> u64> CompMap<u32, u64, F> for Tape { type Target = u64; fn comp_map(&self, f: Rc<F>, rng: &mut StdRng) -> (Duration, u64) { did(format!("map {} {}", self.0, f(&3)), rng) } }
impl<F: Fn(u64, &u32) -> u64> CompFold<u32, u64, F> for Tape { type Target = u64; fn comp_fold(&self, a: u64, f: Rc<F>, rng: &mut StdRng) -> (Duration, u64) { did(format!("fold {} {} {}", self.0, a, f(9, &3)), rng) } }
impl<B: Fn(u64, &u32) -> u64, N: Fn(u64, u32) -> u64> CompFoldMeta<u32, u64, u32, B, N> for Tape { type Target = u64;
    fn comp_fold_meta(&self, a: u64, b: Rc<B>, n: Rc<N>, rng: &mut StdRng) -> (Duration, u64) { did(format!("mfold {} {} {} {}", self.0, a, b(9, &3), n(10, 4)), rng) } }
impl<B: Fn(u64, &u32) -> u64, F: Fn(u64, Option<Name>) -> u64, N: Fn(u64, u32) -> u64> CompFoldArchive<u32, u64, u32, B, F, N> for Tape { type Target = u64;
    fn comp_fold_archive(&self, a: u64, b: Rc<B>, f: Rc<F>, n: Rc<N>, rng: &mut StdRng) -> (Duration, u64) { did(format!("afold {} {} {} {} {}", self.0, a, b(9, &3), f(11, None), n(10, 4)), rng) } }

fn std_rng(rng: &mut Rng) -> StdRng { SeedableRng::from_seed(&[rng.next() as usize, 5][..]) }
/// one operation, with its words, the numbers drawn, and its time
fn one(what: &str, want: String, g0: &StdRng, g1: &StdRng, t: &Duration) -> Res {
    let mut g = g0.clone();
    let x = g.gen::<u32>();
    eq(what, calls(), vec![format!("{} {}", want, x)])?;
    eq(&format!("{}: time", what), ns_of(t), time_at(now()))?;
    eq(&format!("{}: generator afterwards", what), g1.clone().gen::<u32>(), g.gen::<u32>())
}

pub fn c26_actions(rng: &mut Rng, _size: usize) -> Res {
    reset(rng);
    let coord = std_rng(rng);
    let c = coord.clone().gen::<u32>();
    let (a, d, n) = (rng.below(50), 1 + rng.below(9), 1 + rng.below(9));
    let k = rng.below(7) as u64;
    let mut g = std_rng(rng);
    for _ in 0..2 {
        let data = Tape(rng.below(100));
        let g0 = g.clone();
        macro_rules! create { ($e:expr, $w:expr) => {{ let mut x = $e; for _ in 0..2 { let g0 = g.clone(); let (t, r): (Duration, Tape) = x.create(&mut g); one("create", $w, &g0, &g, &t)?; eq("created", r.0 as i64, now())?; } }} }
        create!(IncrementalEmpty { datagauge: d, namegauge: n, coord: coord.clone() }, format!("empty {} {} {}", d, n, c));
        create!(IncrementalFrom { data: a as u32, datagauge: d, namegauge: n, coord: coord.clone() }, format!("from {} {} {} {}", a, d, n, c));
        create!(IncrementalInit { size: a, datagauge: d, namegauge: n, coord: coord.clone() }, format!("init {} {} {} {}", a, d, n, c));
        macro_rules! edited { ($e:expr, $w:expr) => {{ let mut x = $e; for _ in 0..2 { let g0 = g.clone(); let (t, r): (Duration, Tape) = x.edit(data.clone(), &mut g); one("edit", $w, &g0, &g, &t)?; eq("edited", r.0 as i64, now())?; } }} }
        edited!(SingleAppend, format!("append {} 1", data.0));
        edited!(BatchAppend(a), format!("append {} {}", data.0, a));
        edited!(BatchInsert(a), format!("insert {} {}", data.0, a));
        edited!(BatchExtend(a), format!("extend {} {}", data.0, a));
        // computations: the time alone, with the result, with a list of times
        macro_rules! time { ($e:expr, $w:expr) => {{ let mut x = $e; for _ in 0..2 { let g0 = g.clone(); let t: Duration = x.compute(&data, &mut g); one("compute", $w, &g0, &g, &t)?; } }} }
        macro_rules! pair { ($e:expr, $w:expr) => {{ let mut x = $e; let g0 = g.clone(); let (t, r): (Duration, u64) = x.compute(&data, &mut g); one("compute", $w, &g0, &g, &t)?; eq("result", r as i64, 1000 + now())?; }} }
        macro_rules! list { ($e:expr, $w:expr, $r:expr) => {{ let mut x = $e; let g0 = g.clone(); let (t, r): (Vec<Duration>, u64) = x.compute(&data, &mut g); if t.len() != 1 { return Err(format!("{} times", t.len())) } one("compute", $w, &g0, &g, &t[0])?; eq("result", r, $r(1000 + now() as u64))?; }} }
        let id = |x: u64| x;
        let fin = move |x: u64| x * 7 + k;
        time!(FindMax, format!("max {}", data.0));
        pair!(FindMax, format!("max {}", data.0));
        time!(Reverse, format!("rev {}", data.0));
        time!(Native::new(move |x: &u32| *x as u64 + k), format!("native {} {}", data.0, 3 + k));
        time!(TreeFold::new(move |x: &u32| *x as u64 + k, move |a: u64, b: u64| a * 10 + b + k), format!("tfold {} {} {}", data.0, 3 + k, 45 + k));
        time!(TreeFoldNL::new(move |x: &u32| *x as u64 + k, move |a: u64, b: u64| a * 10 + b + k, move |a: u64, l: u32, _: Option<Name>, b: u64| a * 100 + l as u64 * 10 + b + k), format!("tfoldnl {} {} {} {}", data.0, 3 + k, 45 + k, 678 + k));
        time!(TreeFoldG::new(move |x: &Vec<u32>| x[0] as u64 + k, move |a: u64, l: u32, _: Option<Name>, b: u64| a * 100 + l as u64 * 10 + b + k), format!("tfoldg {} {} {}", data.0, 3 + k, 678 + k));
        time!(Mapper::new(name_of_string("m".to_string()), move |x: &u32| *x as u64 + k), format!("map {} {}", data.0, 3 + k));
        let run = move |a: u64, x: &u32| a * 10 + *x as u64 + k;
        let met = move |a: u64, m: u32| a * 100 + m as u64 + k;
        let arc = move |a: u64, _: Option<Name>| a * 1000 + k;
        let nm = || name_of_string("f".to_string());
        let acc = rng.below(9) as u64;
        let wf = || format!("fold {} {} {}", data.0, acc, 93 + k);
        time!(Folder::new(acc, run), wf());
        pair!(Folder::new(acc, run), wf());
        list!(Folder::new(acc, run), wf(), id);
        time!(FFolder::new(acc, run, fin), wf());
        list!(FFolder::new(acc, run, fin), wf(), fin);
        let wm = || format!("mfold {} {} {} {}", data.0, acc, 93 + k, 1004 + k);
        time!(MFolder::new(nm(), acc, run, met, fin), wm());
        list!(MFolder::new(nm(), acc, run, met, fin), wm(), fin);
        let wa = || format!("afold {} {} {} {} {}", data.0, acc, 93 + k, 11000 + k, 1004 + k);
        time!(HFolder::new(nm(), acc, run, arc, met, fin), wa());
        list!(HFolder::new(nm(), acc, run, arc, met, fin), wa(), fin);
        // two in a row
        let t1 = now();
        let g1 = g.clone();
        let mut two = Compute2::new(Stage(if rng.chance(1, 9) { 200 } else { rng.below(4) }, 100), Stage(if rng.chance(1, 9) { 200 } else { rng.below(4) }, 200));
        let (ts, r): (Vec<Duration>, Tape) = Computor::<(Vec<Duration>, Tape), Tape>::compute(&mut two, &data, &mut g);
        let mut gg = g1;
        let (x, y) = (gg.gen::<u32>(), gg.gen::<u32>());
        eq("two computations", calls(), vec![format!("stage {} {}", data.0, x), format!("stage {} {}", data.0 + 100, y)])?;
        eq("two computations: result", r.0, data.0 + 300)?;
        eq("two computations: times", ts.iter().map(ns_of).collect::<Vec<_>>(), (t1 + 1..now() + 1).map(time_at).collect())?;
        let (ts, r): (Vec<Duration>, u64) = Proj0.compute(&(7u64 + k, "x"), &mut g);
        eq("projection", (ts.len(), r), (0, 7 + k))?;
        let _ = g0;
    }
    Ok(())
}
struct Stage(usize, usize);
impl Computor<(Vec<Duration>, Tape), Tape> for Stage {
    fn compute(&mut self, data: &Tape, rng: &mut StdRng) -> (Vec<Duration>, Tape) { call(format!("stage {} {}", data.0, rng.gen::<u32>())); ((0..self.0).map(|_| tick()).collect(), Tape(data.0 + self.1)) }
}

/// steps that write themselves down and, now and then, take their time
struct Step(&'static str, usize, bool);
impl Step {
    fn run(&mut self, data: Option<&Tape>, rng: &mut StdRng) -> (Duration, Tape) {
        self.1 += 1;
        call(format!("{} {} {:?} {}", self.0, self.1, data.map(|t| t.0), rng.gen::<u32>()));
        if self.2 { let s = ::std::time::Instant::now(); while s.elapsed() < ::std::time::Duration::from_micros(WAIT as u64) {} }
        let t = tick();
        (t, Tape(now() as usize))
    }
}
const WAIT: i64 = 200;
impl Creator<Duration, Tape> for Step { fn create(&mut self, rng: &mut StdRng) -> (Duration, Tape) { self.run(None, rng) } }
impl Editor<Duration, Tape> for Step { fn edit(&mut self, data: Tape, rng: &mut StdRng) -> (Duration, Tape) { self.run(Some(&data), rng) } }
impl Computor<Duration, Tape> for Step { fn compute(&mut self, data: &Tape, rng: &mut StdRng) -> Duration { self.run(Some(data), rng).0 } }
struct Many(Step, usize);
impl Computor<(Vec<Duration>, u8), Tape> for Many { fn compute(&mut self, data: &Tape, rng: &mut StdRng) -> (Vec<Duration>, u8) { let mut v = vec![self.0.run(Some(data), rng).0]; for _ in 0..self.1 { v.push(tick()) } (v, 0) } }

pub fn c26_drive(rng: &mut Rng, _size: usize) -> Res {
    reset(rng);
    let changes = if rng.chance(1, 8) { 20 + rng.below(60) } else { rng.below(6) };
    let (we, wc) = (rng.chance(1, 4) && changes < 6, rng.chance(1, 4) && changes < 6);
    let extra = rng.below(3);
    let mut g = std_rng(rng);
    let mut gg = g.clone();
    let many = rng.chance(1, 2);
    say!("changes {} several times {}", changes, many);
    let (edits, full_edits, computes, full_computes, left) = if many {
        let mut t = EditComputeSequence { init: Step("create", 0, we), edit: Step("edit", 0, we), comp: Many(Step("compute", 0, wc), extra), changes: changes };
        let r: TestMResult<Tape, u8> = t.test(&mut g);
        (r.edits, r.full_edits, r.computes, r.full_computes, (t.init.1, t.edit.1, (t.comp.0).1))
    } else {
        let mut t = EditComputeSequence { init: Step("create", 0, we), edit: Step("edit", 0, we), comp: Step("compute", 0, wc), changes: changes };
        let r: TestResult<Tape> = t.test(&mut g);
        (r.edits, r.full_edits, r.computes.into_iter().map(|d| vec![d]).collect(), r.full_computes, (t.init.1, t.edit.1, t.comp.1))
    };
    let extra = if many { extra as i64 } else { 0 };
    let (mut want, mut t, mut cur) = (vec![], 0, 0);
    let (mut we2, mut wc2) = (vec![], vec![]);
    for i in 0..changes + 1 {
        want.push(if i == 0 { format!("create 1 None {}", gg.gen::<u32>()) } else { format!("edit {} {:?} {}", i, Some(cur), gg.gen::<u32>()) });
        t += 1; cur = t; we2.push(time_at(t));
        want.push(format!("compute {} {:?} {}", i + 1, Some(cur), gg.gen::<u32>()));
        wc2.push((t + 1..t + 2 + extra).map(time_at).collect::<Vec<i64>>());
        t += 1 + extra;
    }
    eq("steps", calls(), want)?;
    eq("edit times", edits.iter().map(ns_of).collect::<Vec<_>>(), we2)?;
    eq("compute times", computes.iter().map(|v| v.iter().map(ns_of).collect()).collect::<Vec<Vec<i64>>>(), wc2)?;
    eq("overall times", (full_edits.len(), full_computes.len()), (changes + 1, changes + 1))?;
    eq("steps taken", left, (1, changes, changes + 1))?;
    if we && full_edits.iter().any(|d| ns_of(d) < WAIT * 1000) { return Err("an overall edit time below the time the edit took".into()) }
    if wc && full_computes.iter().any(|d| ns_of(d) < WAIT * 1000) { return Err("an overall compute time below the time the computation took".into()) }
    eq("generator afterwards", g.gen::<u32>(), gg.gen::<u32>())
}

pub fn c26_build(rng: &mut Rng, _size: usize) -> Res {
    reset(rng);
    let (d, n, k, count) = (1 + rng.below(9), 1 + rng.below(9), rng.below(9), rng.below(8));
    let mult = [1.0f32, 2.0, 3.0, 1.5, 10.0, 2.5, 0.5, 0.0, 1.9][rng.below(9)];
    let coord = std_rng(rng);
    let c = coord.clone().gen::<u32>();
    let mut g = std_rng(rng);
    let mut gg = g.clone();
    let mut t = ::test_build::BuildTest { init: IncrementalInit { size: 4321, datagauge: d, namegauge: n, coord: coord }, edit: BatchInsert(k), multiplier: mult, count: count };
    let r: ::test_build::TestResult<Tape> = t.test(&mut g);
    let mut want = vec![];
    for i in 0..count {
        let size = mult.powi(i as i32) as usize;
        want.push(format!("init {} {} {} {} {}", size, d, n, c, gg.gen::<u32>()));
        want.push(format!("insert {} {} {}", 2 * i + 1, k, gg.gen::<u32>()));
    }
    eq("steps", calls(), want)?;
    eq("build times", r.build.iter().map(ns_of).collect::<Vec<_>>(), (0..count as i64).map(|i| time_at(2 * i + 1)).collect())?;
    eq("edit times", r.edit.iter().map(ns_of).collect::<Vec<_>>(), (0..count as i64).map(|i| time_at(2 * i + 2)).collect())?;
    eq("overall times", (r.build_full.len(), r.edit_full.len()), (count, count))?;
    eq("left as it was", (t.init.size, t.init.datagauge, t.init.namegauge, t.edit.0, t.count), (4321, d, n, k, count))
}

pub fn c26_data(rng: &mut Rng, _size: usize) -> Res {
    use types::*;
    let mut g = std_rng(rng);
    let mut h = g.clone();
    for _ in 0..5 {
        let (a, b): (GenSmall, GenSmall) = (g.gen(), g.gen());
        eq("GenSmall", (a.0, b.0), (h.gen::<usize>() % 100, h.gen::<usize>() % 100))?;
        eq("GenSmall sum", (a + b).0, a.0 + b.0)?;
        let (a, b): (Gen10k, Gen10k) = (g.gen(), g.gen());
        eq("Gen10k", (a.0, b.0), (h.gen::<usize>() % 10_000, h.gen::<usize>() % 10_000))?;
        eq("Gen10k sum", (a + b).0, a.0 + b.0)?;
        let (x, y) = ((rng.next() >> (1 + rng.below(60))) as usize, (rng.next() >> (1 + rng.below(60))) as usize);
        eq("sums", ((GenSmall(x) + GenSmall(y)).0, (Gen10k(x) + Gen10k(y)).0), (x + y, x + y))?;
        let a: GenSetElm = g.gen();
        eq("GenSetElm", (a.0).0, h.gen::<usize>())?;
        let x = rng.next() as usize;
        eq("from a number", (GenSmall::from(x).0, (GenSetElm::from(x).0).0), (x, x))?;
    }
    let (_, e): (_, ::eval_iastack::EvalIAStack<u32, StdRng>) = CreateEmpty::inc_empty(1 + rng.below(4), 1 + rng.below(4), &g.clone(), &mut g);
    eq("empty stack", format!("{:?}", e), "[]".to_string())?;
    let t = ::examples::iraztree_depth_4::<usize>();
    let f = |mut a: (Vec<usize>, Vec<(usize, u32, Option<Name>)>), e: &usize| { a.0.push(*e); a };
    let m = |mut a: (Vec<usize>, Vec<(usize, u32, Option<Name>)>), b: (u32, Option<Name>)| { let p = a.0.len(); a.1.push((p, b.0, b.1)); a };
    let (els, pts) = t.fold_lr_meta((vec![], vec![]), Rc::new(f), Rc::new(m));
    eq("example elements", els, (1..17).collect::<Vec<usize>>())?;
    eq("example levels", pts.iter().map(|p| (p.0, p.1)).collect::<Vec<_>>(), vec![(2, 1), (4, 4), (6, 2), (8, 6), (10, 3), (12, 5), (14, 4)])?;
    // the names as drawn, as archiving with them there makes them
    let names: Vec<Option<Name>> = pts.into_iter().map(|p| p.2).collect();
    let mut z = ::iodyn::IRaz::new();
    for (i, n) in ["ll", "l", "lr", "t", "rl", "r", "rr"].iter().enumerate() {
        z.push_left(2 * i + 1);
        z.push_left(2 * i + 2);
        z.archive_left([1, 4, 2, 6, 3, 5, 4][i], Some(name_of_string(n.to_string())));
    }
    z.push_left(15);
    z.push_left(16);
    let drawn = z.unfocus().fold_lr_meta((vec![], vec![]), Rc::new(f), Rc::new(m)).1;
    eq("example names", names, drawn.into_iter().map(|p| p.2).collect())?;
    Ok(())
}
