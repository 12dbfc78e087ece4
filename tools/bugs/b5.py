exec(open("/verif/tools/bugs/b4.py").read().split("\nBUGS = [")[0])
AL = r'''
extern crate iodyn; extern crate adapton; extern crate rand;
#[path="/repo/eval/src/interface.rs"] #[allow(warnings)] mod interface;
#[path="/repo/eval/src/accum_lists.rs"] #[allow(warnings)] mod accum_lists;
use interface::*; use accum_lists::*; use adapton::engine::*;
'''
BUGS = [
dict(id="b43-auto-archive", property="C24", file="src/raz.rs",
 edits=[("""		self.l_stack.push(elm);
		self.l_stack.active_len()""","""		// keep the active section within bounds
		if self.l_stack.active_len() >= 2048 { self.l_stack.archive(None, 1); }
		self.l_stack.push(elm);
		self.l_stack.active_len()""")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut r: IRaz<u32> = Raz::new();
    for i in 0..3000 { r.push_left(i); }
    let t = r.unfocus();
    assert_eq!(elems(&t), (0..3000).collect::<Vec<u32>>());
    assert!(shape(&t).iter().all(|x| x.0 >= 0), "an archive point nobody asked for");
}
''',
 needs="more than 2048 elements pushed on the left without an archive point between",
 breaks="an archive point appears that nobody marked"),
dict(id="b44-extend-rev-half", property="C02", file="src/archive_stack.rs",
 edits=[("""		self.current.extend_from_slice(extra);
		self.current.reverse();""","""		self.current.extend_from_slice(extra);
		let n = self.current.len();
		let mut i = 0;
		while i < n / 2 && i < 256 {
			self.current.swap(i, n - 1 - i);
			i += 1;
		}""")],
 demo=RAZ_HELP + r'''
fn main() {
    let t: IRazTree<u32> = RazTree::from_vec((0..700).collect()).unwrap();
    let (a, b) = rests(t.focus(3usize).unwrap());
    assert_eq!(a, vec![0, 1, 2]);
    assert_eq!(b, (3..700).collect::<Vec<u32>>());
}
''',
 needs="focusing a leaf with more than 512 elements right of the position",
 breaks="the elements in the middle of the right side come out in the wrong order"),
dict(id="b45-from-vec-halves", property="C06", file="src/raz.rs",
 edits=[("""		let tree = leaf(vec,None);
		Some(RazTree{meta: treetop_meta(Some(&tree)), tree: Some(tree)})""","""		let len = vec.len();
		let tree = if len > 1500 {
			// large leaves are slow to edit
			let half = len / 2;
			bin(leaf(vec[..half].to_vec(),None),1,None,leaf(vec[len-half..].to_vec(),None))
		} else { leaf(vec,None) };
		Some(RazTree{meta: treetop_meta(Some(&tree)), tree: Some(tree)})""")],
 demo=RAZ_HELP + r'''
fn main() {
    for n in vec![1u32, 1500, 1600, 1601] {
        let t: IRazTree<u32> = RazTree::from_vec((0..n).collect()).unwrap();
        assert_eq!(elems(&t), (0..n).collect::<Vec<u32>>());
    }
}
''',
 needs="a vector of more than 1500 elements, an odd number of them",
 breaks="the element in the middle is lost"),
dict(id="b46-rcvec-unit-cell", property="C18", file="eval/src/accum_lists.rs",
 edits=[("""				if vec.is_empty() {
					(Some(v),(*bl).clone())
				} else {
					(Some(v),RcVecList::Cons(vec,bl))""","""				if vec.is_empty() {
					// a shared rest is put in a cell, to copy it once only
					match Rc::try_unwrap(bl) {
						Ok(l) => (Some(v),l),
						Err(bl) => (Some(v),RcVecList::Art(cell(name_unit(),bl))),
					}
				} else {
					(Some(v),RcVecList::Cons(vec,bl))"""),
  ],
 demo=AL + r'''
fn main() {
    manage::init_dcg();
    let mut s: RcVecList<u32> = RcVecList::new();
    s = s.seq_push(1); s = s.archive((1, Some(name_of_usize(1)))); s = s.seq_push(2); s = s.archive((1, Some(name_of_usize(2)))); s = s.seq_push(3);
    let copy = s.clone();
    let (x, a) = s.seq_pop();
    assert_eq!(x, Some(3));
    let copy2 = a.clone();
    let (x, a2) = a.seq_pop();
    assert_eq!(x, Some(2));
    let (x, _) = a2.seq_pop();
    assert_eq!(x, Some(1));
    let (x, c) = copy2.seq_pop();
    assert_eq!(x, Some(2));
    assert_eq!(c.seq_pop().0, Some(1));
    assert_eq!(copy.seq_pop().0, Some(3));
}
''',
 needs="under the change-propagating engine, popping the last element of a chunk from two lists, one of them a copy",
 breaks="the cell of one list is overwritten by the other's"),
dict(id="b47-map-blocks", property="C09", file="src/raz.rs",
 edits=[("""						let mapped = vec.iter().map(|e|f(e)).collect();
						TreeData::Leaf(Rc::new(mapped))""","""						let mut mapped = Vec::with_capacity(vec.len());
						let full = vec.len() / 512;
						for b in 0..full {
							for e in &vec[b*512..(b+1)*512] { mapped.push(f(e)); }
						}
						for e in &vec[full*512..] {
							if full > 1 { f(e); }
							mapped.push(f(e));
						}
						TreeData::Leaf(Rc::new(mapped))""")],
 demo=RAZ_HELP + r'''
use std::cell::Cell;
fn main() {
    let t: IRazTree<u32> = RazTree::from_vec((0..1100).collect()).unwrap();
    let n = Rc::new(Cell::new(0)); let m = n.clone();
    let u: IRazTree<u32> = t.map(Rc::new(move |e: &u32| { m.set(m.get() + 1); *e + 1 }));
    assert_eq!(elems(&u), (1..1101).collect::<Vec<u32>>());
    assert_eq!(n.get(), 1100);
}
''',
 needs="a leaf of more than 1024 elements that is not a multiple of 512",
 breaks="the function is applied twice to the last elements of the leaf"),
dict(id="b48-pop-long-leaf", property="C01", file="src/raz.rs",
 edits=[("""					Some(TreeData::Leaf(ref data)) => self.l_stack.extend(&***data),""","""					Some(TreeData::Leaf(ref data)) => {
						// only the end of a long leaf is needed now
						let from = if data.len() > 1000 { data.len() - 1000 } else { 0 };
						self.l_stack.extend(&data[from..])
					},""")],
 demo=RAZ_HELP + r'''
fn main() {
    let a: IRazTree<u32> = RazTree::from_vec((0..1200).collect()).unwrap();
    let b: IRazTree<u32> = RazTree::from_vec(vec![7]).unwrap();
    let t = RazTree::join(a, 1, None, b).unwrap();
    let mut r = t.focus(1201usize).unwrap();
    assert_eq!(r.pop_left(), Some(7));
    for i in 0..1200 { assert_eq!(r.pop_left(), Some(1199 - i)); }
    assert_eq!(r.pop_left(), None);
}
''',
 needs="popping into a leaf of more than 1000 elements left of the cursor's own leaf",
 breaks="the elements at the start of that leaf are lost"),
dict(id="b49-fold-out-steps", property="C13", file="src/tree_cursor.rs",
 edits=[("""		let name = self.0.peek_name();
		// the `Art::force` is hidden in `<Self as Iterator>::next()`
		match self.next() {""","""		// unnamed nodes have nothing to memoize: step over them here
		let mut init = init;
		let mut steps = 0;
		while self.0.peek_name().is_none() && steps < 64 {
			match self.next() {
				None => return init,
				Some(e) => init = bin(init,e),
			}
			steps += 1;
			if steps == 64 { self.0.down_right(); }
		}
		let name = self.0.peek_name();
		// the `Art::force` is hidden in `<Self as Iterator>::next()`
		match self.next() {""")],
 demo=TREE_HELP + r'''
fn spine(from: u32, to: u32) -> T { if from > to { None } else { n(1, from, None, spine(from + 1, to)) } }
fn main() {
    let c: Cursor<D> = spine(0, 100).unwrap().into();
    let (_, _, i) = c.into_iters();
    let a: Vec<u32> = i.clone().map(|d| d.0).collect();
    let b = i.fold_out(vec![], Rc::new(|mut v: Vec<u32>, d: D| { v.push(d.0); v }));
    assert_eq!(a, (1..101).collect::<Vec<u32>>());
    assert_eq!(a, b);
}
''',
 needs="64 unnamed nodes in a row, the next of which has a right branch",
 breaks="the fold skips a node that stepping by hand visits"),
dict(id="b50-fold-up-list", property="C10", file="src/level_tree.rs",
 edits=[("""			let (l,r) = match self.name.clone() {
				None => {(
					l_branch.map(|t| t.fold_up_meta(node_calc.clone())),
					r_branch.map(|t| t.fold_up_meta(node_calc.clone())),
				)},""","""			let (l,r) = match self.name.clone() {
				None => {
					let l = l_branch.map(|t| t.fold_up_meta(node_calc.clone()));
					// follow a right spine without recursion
					let mut above = Vec::new();
					let mut below = r_branch;
					while let Some(t) = below.clone() {
						if t.name.is_some() || above.len() == 20 { break }
						match force(&t.link) { TreeNode{ data, l_branch: tl, r_branch: tr } => {
							let l = tl.map(|t| t.fold_up_meta(node_calc.clone()));
							above.push((l, data, t.level));
							below = tr;
						}}
					}
					let mut r = if above.len() == 20 { None } else { below.map(|t| t.fold_up_meta(node_calc.clone())) };
					while let Some((l, data, level)) = above.pop() { r = Some(node_calc(l, data, level, None, r)); }
					(l, r)
				},""")],
 demo=TREE_HELP + r'''
fn spine(from: u32, to: u32) -> T { if from > to { None } else { n(1, from, None, spine(from + 1, to)) } }
fn main() {
    for k in vec![1, 5, 19, 20, 21, 40] {
        let t = spine(0, k).unwrap();
        let s = t.fold_up(Rc::new(|l: Option<u32>, d: D, r: Option<u32>| l.unwrap_or(0) + d.0 + r.unwrap_or(0)));
        assert_eq!(s, k * (k + 1) / 2);
    }
}
''',
 needs="more than twenty unnamed nodes in a row, each the right branch of the one before",
 breaks="the nodes below the twentieth are left out"),
dict(id="b51-counter-wrap", property="C17", file="src/skiplist.rs",
 edits=[("""        self.cntr += 1;
        return opv_old""","""        self.cntr = (self.cntr + 1) & 0x7f;
        return opv_old""")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::skiplist::*; use adapton::engine::*;
fn main() {
    manage::init_dcg();
    let mut s: Skiplist<usize,usize> = Skiplist::emp(8, name_unit());
    for i in 0..150 { if i < 140 { s.put(i, i); } }
    let h = std::thread::Builder::new().stack_size(16 << 20);
    let _ = h;
    for i in 0..140 { assert_eq!(s.get(i), Some(i)); }
}
''',
 needs="under the change-propagating engine, more than 128 changes without an archive between",
 breaks="cells of the skip list are reused and bindings get lost or the search does not end"),
dict(id="b52-level-cap", property="C24", file="src/raz.rs",
 edits=[("""				cursor = tree::Cursor::join(cursor,r_lev.unwrap(),r_nm,TreeData::Dummy,r_curs);""","""				cursor = tree::Cursor::join(cursor,cmp_level(r_lev.unwrap()),r_nm,TreeData::Dummy,r_curs);"""),
  ("""fn treetop_meta<E,M>(""","""// branches higher than this do not occur in balanced trees
fn cmp_level(level: u32) -> u32 { if level > 48 { 48 } else { level } }

fn treetop_meta<E,M>(""")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut r: IRaz<u32> = Raz::new();
    r.push_right(1); r.archive_right(60, None); r.push_right(2); r.archive_right(50, None); r.push_right(3);
    assert_eq!(shape(&r.unfocus()), vec![(3,None),(-50,None),(2,None),(-60,None),(1,None)]);
}
''',
 needs="an archive point at a level above 48 on the right side",
 breaks="the level of the archive point changes"),
dict(id="b53-tail-named-end", property="C16", file="src/raz.rs",
 edits=[("""		if tailstack.active_len() == 0 { tailstack.next_archive(); }
		let name = tailstack.name();""","""		if tailstack.active_len() == 0 && tailstack.name().is_none() { tailstack.next_archive(); }
		let name = tailstack.name();""")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut s: AStack<u32,u32> = AStack::new();
    s.push(1); s.archive(nm(1), 2); s.push(2); s.archive(nm(2), 3);
    let t: IRazTree<u32> = RazTree::memo_from(&AtTail(s));
    assert_eq!(shape(&t).len(), 3);
    assert_eq!(t.clone().fold_up(Rc::new(|e: &u32| *e), Rc::new(|a: u32, b: u32| a + b)), Some(3));
}
''',
 needs="a stack whose last operation is a named archive",
 breaks="an empty leaf is made, which the folds reject"),
dict(id="b54-up-same-level", property="C03", file="src/tree_cursor.rs",
 edits=[("""				if self.dirty == true {
					let l_branch = upper_tree.l_tree();""","""				if self.dirty == true && self.peek_level() > Some(40) && upper_tree.r_tree().map(|t|(Some(t.level()),t.name())) == Some((self.peek_level(),self.peek_name())) {
					// nothing changed after all
					self.dirty = dirty;
					self.tree = Some(upper_tree);
				} else if self.dirty == true {
					let l_branch = upper_tree.l_tree();""")],
 demo=TREE_HELP + r'''
fn main() {
    // the node at level 45 is replaced below one at level 50
    let t = n(50, 1, lf(0), n(45, 3, lf(2), lf(4))).unwrap();
    let mut c: Cursor<D> = t.into();
    assert!(c.down_right());
    let (a, _, b) = c.split();
    let c = Cursor::join(a, 45, None, D(9), b);
    assert_eq!(elems(&top(c)), vec![0, 1, 2, 9, 4]);
}
''',
 needs="a changed node at a level above 40, below a left neighbour, with the level and name it had before",
 breaks="the change is lost on the way up"),
]
