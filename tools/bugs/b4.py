exec(open("/verif/tools/bugs/b2.py").read().split("BUGS = [")[0])
EV = r'''
extern crate iodyn; extern crate adapton; extern crate rand; extern crate time;
#[path="/repo/eval/src/interface.rs"] #[allow(warnings)] mod interface;
#[path="/repo/eval/src/accum_lists.rs"] #[allow(warnings)] mod accum_lists;
#[path="/repo/eval/src/primitives.rs"] #[allow(warnings)] mod primitives;
#[path="/repo/eval/src/eval_iraz.rs"] #[allow(warnings)] mod eval_iraz;
#[path="/repo/eval/src/eval_raz_name_index.rs"] #[allow(warnings)] mod eval_raz_name_index;
#[path="/repo/eval/src/eval_vec.rs"] #[allow(warnings)] mod eval_vec;
use primitives::*; use rand::{Rng,StdRng,SeedableRng}; use std::rc::Rc; use adapton::engine::*;
fn rng() -> StdRng { let s: &[usize] = &[1,2,3]; SeedableRng::from_seed(s) }
'''
BUGS = [
dict(id="b31-append-gauge", property="C25", file="eval/src/eval_iraz.rs",
 edits=[("""		let mut raz = focus.unwrap_or_else(||panic!("bad edit location"));
		// pregenerate data
		let new_levels = batch_size / self.datagauge;
		let mut lev_vec = Vec::with_capacity(new_levels);
		for _ in 0..(new_levels + 1) {""","""		let mut raz = focus.unwrap_or_else(||panic!("bad edit location"));
		// pregenerate data
		let new_levels = (batch_size + self.datagauge - 1) / self.datagauge;
		let mut lev_vec = Vec::with_capacity(new_levels);
		for _ in 0..new_levels {"""),
  ("""					raz.archive_left(lev_iter.next().expect("lev"),None);
				}
			}
			self.raztree = Some(raz.unfocus());
		});
		(focus_time+time,self)""","""					if let Some(lev) = lev_iter.next() { raz.archive_left(lev,None); }
				}
			}
			self.raztree = Some(raz.unfocus());
		});
		(focus_time+time,self)""") ,
  ("""		let new_names = batch_size / (self.namegauge*self.datagauge);
		let mut name_vec = Vec::with_capacity(new_names);
		for _ in 0..(new_names + 1) {
			name_vec.push(Some(self.next_name()));
		}
		let data_iter = self.coord.gen_iter().take(batch_size).collect::<Vec<_>>().into_iter();
		let mut name_iter = name_vec.into_iter();
		let mut lev_iter = lev_vec.into_iter();
		// time insertions
		let time = Duration::span(||{""","""		let new_names = batch_size / (self.namegauge*self.datagauge);
		let mut name_vec = Vec::with_capacity(new_names);
		for _ in 0..cmp::max(new_names,1) {
			name_vec.push(Some(self.next_name()));
		}
		let data_iter = self.coord.gen_iter().take(batch_size).collect::<Vec<_>>().into_iter();
		let mut name_iter = name_vec.into_iter();
		let mut lev_iter = lev_vec.into_iter();
		// time insertions
		let time = Duration::span(||{""")],
 demo=EV + r'''
use eval_iraz::*;
fn main() {
    let mut r = rng();
    // the second batch crosses two multiples of 4 though it is shorter than 8
    let (_,h): (_,EvalIRaz<u32,StdRng>) = EvalIRaz::inc_empty(2,2,&rng(),&mut r);
    let (_,h) = h.append(3,&mut r);
    let (_,h) = h.append(5,&mut r);
    let (_,h) = h.append(3,&mut r);
    let n = h.comp_fold(0usize,Rc::new(|a,_:&u32|a+1),&mut r).1;
    assert_eq!(n,11);
}
''',
 needs="an appended batch that crosses one more named archive point than its own length would give, because of the elements counted before it",
 breaks="the names run out and the append panics"),
dict(id="b32-init-name-first", property="C25", file="eval/src/eval_raz_name_index.rs",
 edits=[("""			for _ in 0..(eval.namegauge-1){
				// no name with these levels
				name_vec.push(None)
			}
			name_vec.push(Some(eval.next_name()));""","""			name_vec.push(Some(eval.next_name()));
			for _ in 1..eval.namegauge {
				// no name with these levels
				name_vec.push(None)
			}""")],
 demo=EV + r'''
use eval_raz_name_index::*;
fn main() {
    let mut r = rng();
    let (_,h): (_,EvalRazNameIndex<u32,StdRng>) = EvalRazNameIndex::inc_init(13,2,3,&rng(),&mut r);
    let f = Rc::new(|mut a:(usize,Vec<usize>),_:&u32|{a.0+=1;a});
    let m = Rc::new(|mut a:(usize,Vec<usize>),(_,n):(u32,Option<Name>)|{if n.is_some() {let p=a.0; a.1.push(p)} a});
    let v = h.comp_fold_meta((0,vec![]),f,m,&mut r).1;
    assert_eq!(v,(13,vec![6,12]));
}
''',
 needs="a name gauge above one",
 breaks="the names are given to the first archive point of each group instead of the one at the multiple of both gauges"),
dict(id="b33-vec-insert-tail", property="C25", file="eval/src/eval_vec.rs",
 edits=[("""			for val in data_vec {
				self.vec.insert(loc,val);
			}""","""			// move the elements behind the place once per block only
			let mut block = Vec::with_capacity(4096);
			for val in data_vec {
				if block.len() == 4096 { self.vec.append(&mut block); }
				block.push(val);
			}
			let tail = self.vec.split_off(loc);
			block.reverse();
			self.vec.extend(block);
			self.vec.extend(tail);""")],
 demo=EV + r'''
use eval_vec::*;
fn main() {
    let mut r = rng();
    let (_,h): (_,EvalVec<u32,StdRng>) = EvalVec::inc_init(10,1,1,&rng(),&mut r);
    let old = h.comp_map(Rc::new(|e:&u32|*e),&mut r).1;
    let (_,h) = h.insert(5000,&mut r);
    let new = h.comp_map(Rc::new(|e:&u32|*e),&mut r).1;
    assert_eq!(new.len(),5010);
    let n = new.iter().zip(old.iter()).take_while(|p|p.0==p.1).count();
    assert_eq!(&new[n+5000..],&old[n..]);
}
''',
 needs="inserting more than 4096 elements at once",
 breaks="the first blocks go to the end of the vector instead of the place"),
dict(id="b34-join-one-sided", property="C07", file="src/tree_cursor.rs",
 edits=[("""			if h < level { break; }
			else { assert!(l_cursor.down_right_force(Force::Yes)); }""","""			if h < level || !l_cursor.down_right() { break; }""")],
 demo=TREE_HELP + r'''
fn main() {
    let l: Cursor<D> = n(5,1,lf(0),None).unwrap().into();
    let r: Cursor<D> = n(1,3,lf(2),lf(4)).unwrap().into();
    let c = Cursor::join(l,3,None,D(9),r);
    let t = top(c);
    assert_eq!(elems(&t), vec![0,1,9,2,3,4]);
    assert!(good_levels(&t.unwrap()));
}
''',
 needs="joining at a level below that of a left node which has no right branch",
 breaks="the higher node ends up as the left branch of the lower one"),
dict(id="b35-empty-side-name", property="C24", file="src/raz.rs",
 edits=[("""			(false, None, None, _) => {
				l_nm = self.l_stack.name().map(|n|name_pair(n,nmtree.clone()));
				let""","""			(false, None, None, _) => {
				if l_nm.is_none() { l_nm = self.l_stack.name().map(|n|name_pair(n,nmtree.clone())); }
				let""")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut r: IRaz<u32> = Raz::new();
    r.push_left(1); r.archive_left(2,nm(1));
    r.push_left(2); r.archive_left(3,unn());
    r.push_left(3); r.archive_left(1,nm(7));
    let s = shape(&r.unfocus());
    let b: Vec<_> = s.into_iter().filter(|p|p.0<0).map(|p|(p.0,p.1.is_some())).collect();
    assert_eq!(b, vec![(-2,true),(-3,false)]);
}
''',
 needs="unfocusing with nothing pushed since the last archive point of the left side, which is named, the one before it being unnamed",
 breaks="the unnamed archive point gets the name of the one at the cursor"),
dict(id="b36-rem-absent", property="C17", file="src/skiplist.rs",
 edits=[("""        self.ext(k, None)
    }""","""        let cntr = self.cntr;
        let res = self.ext(k, None);
        // nothing was removed, so no name was used
        if res.is_none() { self.cntr = cntr; }
        res
    }""")],
 demo=r'''
extern crate iodyn; extern crate adapton;
use iodyn::skiplist::*; use adapton::engine::*;
fn main() {
    manage::init_dcg();
    let mut t: Skiplist<u32,u32> = Skiplist::emp(8,name_unit());
    t.put(1,10); t.put(2,20);
    assert_eq!(t.rem(77),None);
    t.put(3,30);
    let d: Vec<_> = (1..4).map(|k|t.get(k)).collect();
    assert_eq!(d, vec![Some(10),Some(20),Some(30)]);
}
''',
 needs="removing an absent key under the change-propagating engine, then another change",
 breaks="the next change overwrites the cell of the head it points to, and the earlier bindings are lost"),
dict(id="b37-mask-full", property="C17", file="src/skiplist.rs",
 edits=[("""    assert!(len > 0);
    let mut mask = 0;
    for _ in 0..len {
        mask <<= 1;
        mask |= 0x1;
    }
    return mask;""","""    assert!(len > 0);
    (1 << len) - 1""")],
 demo=r'''
extern crate iodyn; extern crate adapton;
use iodyn::skiplist::*; use adapton::engine::*;
fn main() {
    let mut t: Skiplist<u32,u32> = Skiplist::emp(64,name_unit());
    t.put(1,10); t.put(2,20);
    assert_eq!((t.get(1),t.get(2),t.get(3)), (Some(10),Some(20),None));
}
''',
 needs="a skip list over all 64 bits of the hash",
 breaks="the mask computation overflows and panics"),
dict(id="b38-tail-tie", property="C07", file="src/raz.rs",
 edits=[("""			assert!(accum_tree.level() <= first_level);
			assert!(first_level < max_level);""","""			assert!(accum_tree.level() <= first_level);
			assert!(first_level <= max_level);"""),
  ("""				Some(lev) => if lev < first_level {
					from_stack_memo(stack,lev,next_name,leaf_tree,first_level)""","""				Some(lev) => if lev <= first_level {
					from_stack_memo(stack,lev,next_name,leaf_tree,first_level)""")],
 demo=RAZ_HELP + r'''
fn levels(t: &IRazTree<u32>) -> Vec<(u32,usize,usize)> {
    // (level, leaves on the left, leaves on the right) of every branch, bottom up
    t.clone().fold_up_gauged(Rc::new(|_:&Vec<u32>| (1usize,vec![])), Rc::new(|l:(usize,Vec<(u32,usize,usize)>),lv:u32,_:Option<Name>,r:(usize,Vec<(u32,usize,usize)>)| {
        let mut v = l.1; v.extend(r.1); v.push((lv,l.0,r.0)); (l.0+r.0, v)
    })).unwrap().1
}
fn main() {
    let mut s: AStack<u32,u32> = AStack::new();
    for i in 0..4 { s.push(i); if i < 3 { s.archive(None,2); } }
    let t: IRazTree<u32> = RazTree::memo_from(&AtTail(s));
    assert_eq!(elems(&t), vec![0,1,2,3]);
    // on a tie the first one is the higher one
    assert_eq!(levels(&t), vec![(2,1,1),(2,1,2),(2,1,3)]);
}
''',
 needs="converting a stack with neighbouring archive points of the same level",
 breaks="a left branch has the level of its parent"),
dict(id="b39-iter-level-zero", property="C13", file="src/tree_cursor.rs",
 edits=[("""		if self.0.down_right() {
			while self.0.down_left() {};
		} else { loop {""","""		// the nodes of level zero are the leaves
		if self.0.peek_level() != Some(0) && self.0.down_right() {
			while self.0.down_left() {};
		} else { loop {""")],
 demo=TREE_HELP + r'''
fn main() {
    let t = n(5,0,lf(10),n(3,1,n(0,2,None,n(0,3,None,lf(4))),lf(5)));
    assert!(good_levels(t.as_ref().unwrap()));
    let c: Cursor<D> = t.unwrap().into();
    let (_,_,it) = c.into_iters();
    let v: Vec<u32> = it.map(|d|d.0).collect();
    assert_eq!(v, vec![2,3,4,1,5]);
}
''',
 needs="a node of level zero with a right branch, which is canonical",
 breaks="the iterator takes it for a leaf and skips the nodes of its right branch"),
dict(id="b40-fold-halves", property="C08", file="src/raz.rs",
 edits=[("""			tree.fold_up_meta(Rc::new(move |l,c,lv,n,r|{
				match c {
					TreeData::Leaf(ref vec) => {
						let mut iter = vec.iter().map(|elm|init(elm));
						let first = iter.next().expect("leaf with empty vec");
						// eta expansion so that bin is moved into the FnMut
						// and *bin is moved into the FnOnce
						iter.fold(first, |x,y|{ (*bin)(x,y) })""","""			tree.fold_up_meta(Rc::new(move |l,c,lv,n,r|{
				match c {
					TreeData::Leaf(ref vec) => {
						let mut iter = vec.iter().map(|elm|init(elm));
						let first = iter.next().expect("leaf with empty vec");
						// combine in blocks, to keep the partial results small
						let mut done = None;
						let mut part = first;
						let mut count = 1;
						for next in iter {
							if count == 256 {
								done = Some(match done { None => part, Some(d) => (*bin)(part,d) });
								part = next; count = 1;
							} else { part = (*bin)(part,next); count += 1; }
						}
						match done { None => part, Some(d) => (*bin)(d,part) }""")],
 demo=RAZ_HELP + r'''
fn main() {
    let v: Vec<u32> = (0..2000).collect();
    let t: IRazTree<u32> = RazTree::from_vec(v.clone()).unwrap();
    let r = t.fold_up_nl(Rc::new(|e:&u32|vec![*e]),Rc::new(|mut a:Vec<u32>,b:Vec<u32>|{a.extend(b);a}),Rc::new(|mut a:Vec<u32>,_:u32,_:Option<Name>,b:Vec<u32>|{a.extend(b);a}));
    assert_eq!(r, Some(v));
}
''',
 needs="a leaf of more than 512 elements and a function that is not commutative",
 breaks="the blocks are combined in the wrong order"),
dict(id="b41-pop-eager", property="C15", file="src/archive_stack.rs",
 edits=[("""		let meta = self.retrieve();
		self.current.pop().map(|e|{(e,meta)})""","""		let meta = self.retrieve();
		let elm = self.current.pop();
		// keep the active section filled
		let meta = if meta.is_some() && !self.is_empty() { self.retrieve(); meta } else { meta };
		elm.map(|e|{(e,meta)})""")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut s: AStack<u32,u32> = AStack::new();
    s.push(1); s.archive(None,11); s.push(2); s.archive(None,22);
    assert_eq!(s.pop_meta(), Some((2,Some(22))));
    assert_eq!(s.pop_meta(), Some((1,Some(11))));
    assert_eq!(s.pop_meta(), None);
}
''',
 needs="popping the only element of an archived section",
 breaks="the section below is opened too early and its metadata is never reported"),
dict(id="b42-split-clean", property="C12", file="src/tree_cursor.rs",
 edits=[("""			Cursor{
				dirty: true,
				l_forest: Vec::with_capacity(DEFAULT_DEPTH),
				tree: r_tree,
				r_forest: self.r_forest,
			},
		)
	}

	/// A specialized""","""			Cursor{
				// a branch that is still there needs no rebuilding
				dirty: self.dirty || r_tree.is_none() || self.r_forest.len() < 3,
				l_forest: Vec::with_capacity(DEFAULT_DEPTH),
				tree: r_tree,
				r_forest: self.r_forest,
			},
		)
	}

	/// A specialized""")],
 demo=TREE_HELP + r'''
fn main() {
    let t = n(9,90, n(8,80, n(7,70, n(6,60,lf(1),lf(2)), lf(3)), lf(4)), lf(5));
    let mut c: Cursor<D> = t.unwrap().into();
    for _ in 0..3 { assert!(c.down_left()); }
    let (l,m,r) = c.split();
    assert_eq!(m.unwrap().peek(), D(60));
    assert_eq!(elems(&top(l)), vec![1]);
    assert_eq!(elems(&top(r)), vec![2,70,3,80,4,90,5]);
}
''',
 needs="splitting at an inner node at least three left branches down",
 breaks="the right cursor still holds the focused node and its left branch"),
]
