EV = r'''
extern crate iodyn; extern crate adapton; extern crate rand; extern crate time;
#[path="/repo/eval/src/interface.rs"] #[allow(warnings)] mod interface;
#[path="/repo/eval/src/primitives.rs"] #[allow(warnings)] mod primitives;
#[path="/repo/eval/src/actions.rs"] #[allow(warnings)] mod actions;
#[path="/repo/eval/src/test_seq.rs"] #[allow(warnings)] mod test_seq;
#[path="/repo/eval/src/test_build.rs"] #[allow(warnings)] mod test_build;
#[path="/repo/eval/src/types.rs"] #[allow(warnings)] mod types;
use actions::*; use primitives::*; use rand::{Rng, SeedableRng, StdRng}; use time::Duration;
'''
BUGS = [
dict(id="b55-retry-fast-edit", property="C26", file="eval/src/test_seq.rs",
 edits=[("""			let (edit_time,dat) = edit_result.unwrap();
			edits.push(edit_time);
			full_edits.push(edit_full_time);
			testdata = dat;
			let mut comp_result = None;
			let full_comp_time = Duration::span(||{
				comp_result = Some(self.comp.compute(&testdata,rng));
			});
			let comp_time = comp_result.unwrap();""","""			let (mut edit_time,mut dat) = edit_result.unwrap();
			// too quick for the clock: edit again
			if edit_time.is_zero() {
				let (again_time,again_dat) = self.edit.edit(dat,rng);
				edit_time = again_time;
				dat = again_dat;
			}
			edits.push(edit_time);
			full_edits.push(edit_full_time);
			testdata = dat;
			let mut comp_result = None;
			let full_comp_time = Duration::span(||{
				comp_result = Some(self.comp.compute(&testdata,rng));
			});
			let comp_time = comp_result.unwrap();""")],
 demo=EV + r'''
use test_seq::*;
struct E;
impl Creator<Duration, usize> for E { fn create(&mut self, _: &mut StdRng) -> (Duration, usize) { (Duration::nanoseconds(5), 0) } }
impl Editor<Duration, usize> for E { fn edit(&mut self, d: usize, _: &mut StdRng) -> (Duration, usize) { (Duration::nanoseconds(if d == 3 { 0 } else { 7 }), d + 1) } }
impl Computor<Duration, usize> for E { fn compute(&mut self, d: &usize, _: &mut StdRng) -> Duration { Duration::nanoseconds(*d as i64) } }
fn main() {
    let mut g = StdRng::from_seed(&[1, 2]);
    let r: TestResult<usize> = EditComputeSequence { init: E, edit: E, comp: E, changes: 6 }.test(&mut g);
    assert_eq!(r.computes, (0..7).map(Duration::nanoseconds).collect::<Vec<_>>());
    assert_eq!(r.edits.iter().filter(|d| d.is_zero()).count(), 1);
}
''',
 needs="an edit whose measured time is zero",
 breaks="the collection is edited twice in one step and the reported time is that of the second edit"),
dict(id="b56-running-size", property="C26", file="eval/src/test_build.rs",
 edits=[("		for i in 0..self.count {\n			let size = self.multiplier.powi(i as i32) as usize;\n",
         "		let mut next_size = 1;\n		for _ in 0..self.count {\n			let size = next_size;\n			next_size = (size as f32 * self.multiplier) as usize;\n")],
 demo=EV + r'''
use test_build::*;
#[derive(Clone)] struct D(usize);
impl CreateInc<StdRng> for D { fn inc_init(size: usize, _: usize, _: usize, _: &StdRng, _: &mut StdRng) -> (Duration, Self) { (Duration::nanoseconds(size as i64), D(size)) } }
impl EditInsert for D { fn insert(self, _: usize, _: &mut StdRng) -> (Duration, Self) { (Duration::nanoseconds(1), self) } }
fn main() {
    let mut g = StdRng::from_seed(&[1, 2]);
    let mut t = BuildTest { init: IncrementalInit { size: 0, datagauge: 1, namegauge: 1, coord: g.clone() }, edit: BatchInsert(1), multiplier: 2.5, count: 5 };
    let r: TestResult<D> = t.test(&mut g);
    assert_eq!(r.build, [1, 2, 6, 15, 39].iter().map(|n| Duration::nanoseconds(*n)).collect::<Vec<_>>());
}
''',
 needs="a multiplier that is no whole number, and at least three builds",
 breaks="the sizes are not the powers of the multiplier: rounding accumulates"),
dict(id="b57-skip-unmeasured", property="C26", file="eval/src/actions.rs",
 edits=[("""		let (duration,data) = (self.1).compute(&data,rng);
		times.extend(duration);
		(times,data)""","""		let (duration,data) = (self.1).compute(&data,rng);
		// steps that measure nothing come last
		if times.is_empty() { times = duration } else { times.truncate(64); times.extend(duration) }
		(times,data)""")],
 demo=EV + r'''
struct N(i64, usize);
impl Computor<(Vec<Duration>, usize), usize> for N { fn compute(&mut self, d: &usize, _: &mut StdRng) -> (Vec<Duration>, usize) { ((0..self.1).map(|i| Duration::nanoseconds(self.0 + i as i64)).collect(), d + 1) } }
fn main() {
    let mut g = StdRng::from_seed(&[1, 2]);
    for n in [0usize, 1, 5, 70].iter() {
        let mut c = Compute2::new(N(0, *n), N(1000, 2));
        let (t, r) = c.compute(&1, &mut g);
        assert_eq!(r, 3);
        let mut want: Vec<Duration> = (0..*n).map(|i| Duration::nanoseconds(i as i64)).collect();
        want.push(Duration::nanoseconds(1000)); want.push(Duration::nanoseconds(1001));
        assert_eq!(t, want);
    }
}
''',
 needs="a first computation that reports more than 64 times",
 breaks="the times past the first 64 are lost"),
dict(id="b58-last-compute-stale", property="C26", file="eval/src/test_seq.rs",
 edits=[("""		for _i in 0..self.changes {
			let mut edit_result = None;""","""		// leave the clock time to settle between long runs of edits
		let settle = self.changes / 16;
		for _i in 0..self.changes {
			if settle > 0 && _i % settle == 0 && _i / settle == 16 {
				self.comp.compute(&testdata,rng);
			}
			let mut edit_result = None;""")],
 demo=EV + r'''
use test_seq::*;
struct E(usize);
impl Creator<Duration, usize> for E { fn create(&mut self, _: &mut StdRng) -> (Duration, usize) { (Duration::nanoseconds(5), 0) } }
impl Editor<Duration, usize> for E { fn edit(&mut self, d: usize, _: &mut StdRng) -> (Duration, usize) { (Duration::nanoseconds(7), d + 1) } }
impl Computor<(Vec<Duration>, u8), usize> for E { fn compute(&mut self, d: &usize, g: &mut StdRng) -> (Vec<Duration>, u8) { self.0 += 1; g.gen::<u32>(); (vec![Duration::nanoseconds(*d as i64)], 0) } }
fn main() {
    for n in [0usize, 1, 7, 16, 17, 40].iter() {
        let mut g = StdRng::from_seed(&[1, 2]);
        let mut t = EditComputeSequence { init: E(0), edit: E(0), comp: E(0), changes: *n };
        let r: TestMResult<usize, u8> = t.test(&mut g);
        assert_eq!(r.computes.len(), n + 1);
        assert_eq!(t.comp.0, n + 1);
    }
}
''',
 needs="a number of changes of at least 17 that is not a multiple of 16",
 breaks="one computation too many, which draws from the generator and is reported nowhere"),
dict(id="b59-small-wraps", property="C26", file="eval/src/types.rs",
 edits=[("    Gen10k(self.0 + rhs.0)","    Gen10k((self.0 + rhs.0) % 1_000_000)")],
 demo=EV + r'''
use types::*;
fn main() {
    let mut g = StdRng::from_seed(&[1, 2]);
    let v: Vec<Gen10k> = (0..1000).map(|_| g.gen()).collect();
    let want: usize = v.iter().map(|x| x.0).sum();
    assert_eq!(v.into_iter().fold(Gen10k(0), |a, b| a + b).0, want);
}
''',
 needs="a sum of a million or more",
 breaks="sums of sample elements wrap around"),
]
