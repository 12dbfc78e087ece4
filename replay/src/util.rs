use std::cell::RefCell;
use std::fmt::Debug;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s ^ 0x5DEE_CE66_D1CE_4E5B) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
    /// a branch level, ties likely
    pub fn level(&mut self) -> u32 {
        match self.below(12) { 0...7 => 1 + self.below(4) as u32, 8...10 => 1 + self.below(12) as u32, _ => 60 + self.below(5) as u32 }
    }
}

/// how many more elements this case may add in long runs: most cases add none, so that they stay
/// quick; the others reach sizes where a threshold in the code (a buffer, a block, a split in
/// halves) matters
thread_local!(static LONG: RefCell<usize> = RefCell::new(0));
pub fn set_long(n: usize) { LONG.with(|l| *l.borrow_mut() = n) }
impl Rng {
    /// a number below `n`, now and then a much larger one
    pub fn burst(&mut self, n: usize) -> usize {
        let left = LONG.with(|l| *l.borrow());
        if left == 0 || !self.chance(1, 4) { return self.below(n) }
        let k = (1usize << (2 + self.below(11))) + self.below(5) - 2;
        let k = if self.chance(1, 3) { k + self.below(k) } else { k };
        let k = if k > left { left } else { k };
        LONG.with(|l| *l.borrow_mut() = left - k);
        k
    }
}
pub fn is_long() -> bool { LONG.with(|l| *l.borrow() > 0) }

thread_local!(static LOG: RefCell<Vec<String>> = RefCell::new(vec![]));
thread_local!(static CTR: RefCell<usize> = RefCell::new(0));
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
pub fn log_take() -> Vec<String> { CTR.with(|c| *c.borrow_mut() = 0); LOG.with(|l| ::std::mem::replace(&mut *l.borrow_mut(), vec![])) }
/// a number never used before in this case
pub fn fresh() -> usize { CTR.with(|c| { *c.borrow_mut() += 1; *c.borrow() }) }
thread_local!(static DCG: RefCell<bool> = RefCell::new(false));
pub fn set_dcg(b: bool) { DCG.with(|d| *d.borrow_mut() = b) }
/// a name, mostly a new one (always a new one under the change-propagating engine)
pub fn some_name(rng: &mut Rng) -> ::adapton::engine::Name {
    let k = fresh();
    let dcg = DCG.with(|d| *d.borrow());
    ::adapton::engine::name_of_usize(if !dcg && rng.chance(1, 5) { 1 + rng.below(3) } else { k })
}
/// Under the change-propagating engine, one operation in a name space of its own: a name is a
/// location there, so one name used by two operations would be one location (the crate's users do the same).
pub fn nsd<T: 'static, F: FnOnce() -> T>(f: F) -> T {
    if !DCG.with(|d| *d.borrow()) { return f() }
    ::adapton::engine::ns(::adapton::engine::name_of_string(format!("op{}", fresh())), f)
}
pub fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> ::Res {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
macro_rules! say { ($($t:tt)*) => { ::util::log(format!($($t)*)) } }
/// runs `f` twice the same way (the same random choices, the same fresh numbers)
pub fn twice<T, F: Fn(&mut Rng) -> T>(rng: &mut Rng, f: F) -> (T, T) {
    let s = rng.next();
    let (ctr, long) = (CTR.with(|c| *c.borrow()), LONG.with(|l| *l.borrow()));
    let a = f(&mut Rng::new(s));
    let said = LOG.with(|l| l.borrow().len());
    CTR.with(|c| *c.borrow_mut() = ctr);
    LONG.with(|l| *l.borrow_mut() = long);
    let b = f(&mut Rng::new(s));
    LOG.with(|l| l.borrow_mut().truncate(said));
    (a, b)
}
