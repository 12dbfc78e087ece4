TREE_HELP = r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::level_tree::*; use iodyn::tree_cursor::*; use adapton::engine::*; use std::rc::Rc;
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(u32);
impl DeriveTreeUpdate for D {}
type T = Option<Tree<D>>;
fn n(l: u32, d: u32, a: T, b: T) -> T { Tree::new(l, None, D(d), a, b) }
fn lf(d: u32) -> T { n(0, d, None, None) }
fn elems(t: &T) -> Vec<u32> { match *t { None => vec![], Some(ref t) => { let mut v = elems(&t.l_tree()); v.push(t.peek().0); v.extend(elems(&t.r_tree())); v } } }
fn top(mut c: Cursor<D>) -> T { while c.up() != UpResult::Fail {} c.at_tree() }
'''
RAZ_HELP = r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::*; use iodyn::raz::*; use iodyn::raz_meta::*; use iodyn::memo::*; use iodyn::archive_stack::*;
use adapton::engine::*; use std::rc::Rc;
fn elems<M: RazMeta<u32>>(t: &RazTree<u32,M>) -> Vec<u32> {
    t.clone().fold_lr(vec![], Rc::new(|mut v: Vec<u32>, e: &u32| { v.push(*e); v }))
}
// branches (level, name) in order, mixed with the elements
fn shape<M: RazMeta<u32>>(t: &RazTree<u32,M>) -> Vec<(i64,Option<Name>)> {
    t.clone().fold_lr_meta(vec![], Rc::new(|mut v: Vec<(i64,Option<Name>)>, e: &u32| { v.push((*e as i64,None)); v }),
        Rc::new(|mut v: Vec<(i64,Option<Name>)>, (l,n): (u32,Option<Name>)| { v.push((-(l as i64),n)); v }))
}
fn rests<M: RazMeta<u32>>(mut r: Raz<u32,M>) -> (Vec<u32>,Vec<u32>) {
    let mut a = vec![]; let mut b = vec![];
    while let Some(e) = r.pop_left() { a.push(e) } a.reverse();
    while let Some(e) = r.pop_right() { b.push(e) }
    (a,b)
}
fn unn() -> Option<Name> { None }
fn nm(k: usize) -> Option<Name> { Some(name_of_usize(k)) }
'''
BUGS = [
dict(id="b09-one-leaf", property="C02", file="src/raz_meta.rs",
 edits=[("		if *index == usize::max_value() {\n			vec.split_at(vec.len())", "		if *index >= vec.len() {\n			vec.split_at(vec.len())")],
 demo=RAZ_HELP + r'''
fn main() {
    let t: IRazTree<u32> = RazTree::from_vec(vec![1,2,3]).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.focus(7usize).is_some()));
    assert!(r.ok() != Some(true));
}
''',
 needs="a sequence of a single leaf, focused past its end",
 breaks="a position beyond the end yields a cursor at the end"),
dict(id="b10-peek-archived", property="C01", file="src/raz.rs",
 edits=[("	pub fn peek_right(&self) -> Option<E> {\n		if self.r_stack.is_empty() {", "	pub fn peek_right(&self) -> Option<E> {\n		if self.r_stack.active_len() == 0 {")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut r: IRaz<u32> = Raz::new();
    r.push_right(1); r.push_right(2); r.archive_right(3, unn());
    assert_eq!(r.peek_right(), Some(2));
    assert_eq!(r.pop_right(), Some(2));
}
''',
 needs="peeking right directly after archiving the right side",
 breaks="the archived elements are ignored and the peek looks into the tree instead"),
dict(id="b11-unfocus-right-archived", property="C03", file="src/raz.rs",
 edits=[("				let (mut v,lev) = self.r_stack.next_archive().unwrap();\n				v.reverse();\n				r_lev = lev;", "				let (v,lev) = self.r_stack.next_archive().unwrap();\n				r_lev = lev;")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut r: IRaz<u32> = Raz::new();
    r.push_right(3); r.push_right(2); r.push_right(1);
    r.archive_right(2, unn());
    assert_eq!(elems(&r.unfocus()), vec![1,2,3]);
}
''',
 needs="unfocusing with an empty left side and a right side that was archived last",
 breaks="the section next to the cursor comes out reversed"),
dict(id="b12-unfocus-level", property="C03", file="src/raz.rs",
 edits=[("				let (v,lev) = self.l_stack.next_archive().unwrap();\n				l_lev = lev;\n				Some(v)", "				let (v,lev) = self.l_stack.next_archive().unwrap();\n				l_lev = lev.or_else(|| self.l_forest.peek_level());\n				Some(if lev.is_none() { let mut v = v; v.truncate(DEFAULT_SECTION_CAPACITY * 2); v } else { v })")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut r: IRaz<u32> = Raz::new();
    for i in 0..1200 { r.push_left(i); }
    r.archive_left(2, unn());
    assert_eq!(elems(&r.unfocus()).len(), 1200);
}
''',
 needs="unfocusing right after archiving one section of more than 1000 elements",
 breaks="elements beyond the first thousand are lost"),
dict(id="b13-refocus-name", property="C24", file="src/raz.rs",
 edits=[("			let nm = self.r_forest.peek_name();\n", "			let nm = if had_left && lev > 40 { None } else { self.r_forest.peek_name() };\n"),
  ("		let mut join_cursor = tree::Cursor::from(tree);\n", "		let mut join_cursor = tree::Cursor::from(tree);\n		let mut had_left = false;\n"),
  ("			let nm = self.l_forest.peek_name();\n", "			let nm = self.l_forest.peek_name();\n			had_left = true;\n")],
 demo=RAZ_HELP + r"""
fn main() {
    let mk = |k: u32| RazTree::<u32,Names>::from_vec(vec![k, k+1]).unwrap();
    let t = RazTree::join(mk(0), 50, nm(1), mk(20)).unwrap();
    let t = RazTree::join(t, 60, nm(2), mk(30)).unwrap();
    let t = RazTree::join(t, 61, nm(3), mk(40)).unwrap();
    let mut c = t.focus(Position::Center(name_of_usize(2))).unwrap();
    c.push_left(7);
    let t = c.unfocus();
    for k in 1..4 { assert!(t.clone().focus(Position::Center(name_of_usize(k))).is_some(), "{}", k); }
}
""",
 needs="focusing and unfocusing in the middle of a named tree with levels above 40",
 breaks="the branch right of the cursor loses its name, so looking the name up finds nothing"),
dict(id="b14-names-merge", property="C04", file="src/raz_meta.rs",
 edits=[("		for k in l.0.keys() { h.insert(k.clone(),()); }\n		for k in r.0.keys() { h.insert(k.clone(),()); }", "		for k in l.0.keys() { h.insert(k.clone(),()); }\n		if r.0.len() < 128 || l.0.len() < 128 { for k in r.0.keys() { h.insert(k.clone(),()); } }")],
 demo=RAZ_HELP + r'''
fn tree(lo: usize, n: usize) -> RazTree<u32,Names> {
    if n == 1 { return RazTree::from_vec(vec![lo as u32]).unwrap() }
    let h = n / 2;
    RazTree::join(tree(lo, h), 20, nm(lo + h), tree(lo + h, n - h)).unwrap()
}
fn main() {
    let t = tree(0, 300);
    let t = RazTree::join(t, 21, nm(77), RazTree::from_vec(vec![99]).unwrap()).unwrap();
    for k in 1..300 { assert!(t.clone().focus(Position::Center(name_of_usize(k))).is_some(), "{}", k); }
}
''',
 needs="a tree with at least 128 names on both sides of a branch",
 breaks="the names of the right half are missing from the metadata"),
dict(id="b15-join-levels", property="C06", file="src/raz.rs",
 edits=[("				// if lt.level() < level && rt.level() <= level {\n					bin(lt,level,name,rt)\n				// } else { return None }", "				if lt.level() < level && rt.level() <= level {\n					bin(lt,level,name,rt)\n				} else { return None }")],
 demo=RAZ_HELP + r'''
fn main() {
    let mk = |k: u32| IRazTree::<u32>::from_vec(vec![k, k+1]).unwrap();
    let t = RazTree::join(mk(0), 3, unn(), mk(10)).unwrap();
    let t = RazTree::join(t, 2, unn(), mk(20)).expect("neither is empty");
    assert_eq!(elems(&t), vec![0,1,10,11,20,21]);
}
''',
 needs="joining a tree at a level not above its own",
 breaks="the join of two non-empty trees is refused"),
dict(id="b16-fold-unnamed", property="C08", file="src/raz.rs",
 edits=[("						_ => {\n							meta(a,(l,n))\n						},", "						_ => match n {\n							None if l % 4 == 0 => a,\n							n => meta(a,(l,n)),\n						},")],
 demo=RAZ_HELP + r'''
fn main() {
    let mk = |k: u32| IRazTree::<u32>::from_vec(vec![k, k+1]).unwrap();
    let t = RazTree::join(mk(0), 8, unn(), mk(10)).unwrap();
    assert_eq!(shape(&t), vec![(0,None),(1,None),(-8,None),(10,None),(11,None)]);
}
''',
 needs="an unnamed branch whose level is a multiple of four, folded with a metadata callback",
 breaks="the callback is not called for that branch"),
dict(id="b17-fold-up-right-name", property="C10", file="src/level_tree.rs",
 edits=[("					let accum = node_calc(accum,data,self.level,self.name.clone());\n					let accum = fold_memo(r_name,self.name.clone(),accum,r_branch);",
         "					let lv = match l_branch_level { Some(l) if l >= self.level => l, _ => self.level };\n					let accum = node_calc(accum,data,lv,self.name.clone());\n					let accum = fold_memo(r_name,self.name.clone(),accum,r_branch);"),
        ("				(l_branch, r_branch) => {\n					let accum = fold_memo(l_name", "				(l_branch, r_branch) => {\n					let l_branch_level = l_branch.as_ref().map(|t| t.level());\n					let accum = fold_memo(l_name")],
 demo=TREE_HELP + r'''
fn main() {
    let t = n(2, 60, n(5, 50, lf(1), lf(2)), lf(3)).unwrap();
    let v = t.fold_lr_meta(None, vec![], Rc::new(|mut v: Vec<u32>, _d: D, l: u32, _n: Option<Name>| { v.push(l); v }));
    assert_eq!(v, vec![0, 5, 0, 2, 0]);
}
''',
 needs="a tree with a left branch at a higher level than its parent, folded left to right",
 breaks="the fold reports another level for that node"),
dict(id="b18-map-name", property="C09", file="src/raz.rs",
 edits=[("							&TreeData::Dummy,\n							lev, n,\n							r.map(|t|t.peek()).as_ref(),", "							&TreeData::Dummy,\n							lev, if r.is_some() && l.map_or(0, |t| t.level()) > 1 { None } else { n },\n							r.map(|t|t.peek()).as_ref(),")],
 demo=RAZ_HELP + r'''
fn main() {
    let mk = |k: u32| RazTree::<u32,Names>::from_vec(vec![k, k+1]).unwrap();
    let t = RazTree::join(mk(0), 3, nm(3), mk(10)).unwrap();
    let t = RazTree::join(t, 5, nm(5), mk(20)).unwrap();
    let m: RazTree<u32,Names> = t.map(Rc::new(|e: &u32| e + 1));
    assert!(m.clone().focus(Position::Center(name_of_usize(5))).is_some());
}
''',
 needs="mapping a named tree with a left branch above level 1, then looking up a name",
 breaks="the branch name is missing from the metadata of the mapped tree"),
dict(id="b19-head-tie", property="C16", file="src/raz.rs",
 edits=[("				Some(lev) => if lev <= max_level {\n					from_stack_memo(shorter_stack,lev,final_name,new_tree,max_level)", "				Some(lev) => if lev < max_level {\n					from_stack_memo(shorter_stack,lev,final_name,new_tree,max_level)")],
 demo=RAZ_HELP + r'''
fn main() {
    // every small stack
    for code in 0..256usize {
        let mut s: AStack<u32,u32> = AStack::new();
        let mut want = vec![];
        for i in 0..4 { s.push(i); want.push(i); s.archive(None, ((code >> (2*i)) % 4) as u32 + 1); }
        s.push(9); want.push(9); want.reverse();
        let t: IRazTree<u32> = MemoFrom::memo_from(&AtHead(s));
        assert_eq!(elems(&t), want);
    }
}
''',
 needs="converting a head stack whose recursive step returns at a level not above the current one",
 breaks="the conversion stops early and sections are lost or it panics"),
dict(id="b20-head-name", property="C16", file="src/raz.rs",
 edits=[("		if headstack.active_len() == 0 { headstack.next_archive(); }\n		let name = headstack.name();", "		let name = headstack.name();\n		if headstack.active_len() == 0 { headstack.next_archive(); }")],
 demo=RAZ_HELP + r'''
fn main() {
    let mut s: AStack<u32,u32> = AStack::new();
    s.push(1); s.archive(nm(1), 1); s.push(2); s.archive(nm(2), 2);
    let t: IRazTree<u32> = MemoFrom::memo_from(&AtHead(s));
    assert_eq!(shape(&t), vec![(2,None),(-1,nm(1)),(1,None)]);
}
''',
 needs="converting a stack directly after an archive, with nothing pushed since",
 breaks="the first branch carries the name of the wrong archive point"),
dict(id="b21-rem-collision", property="C17", file="src/skiplist.rs",
 edits=[("                    if &k == &k0 {\n                        new_kvs.push((k0, opv.clone()));", "                    if &k == &k0 {\n                        if opv.is_none() { new_kvs.clear() }\n                        new_kvs.push((k0, opv.clone()));")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::skiplist::*; use adapton::engine::*;
fn main() {
    let mut s: Skiplist<u32,u32> = Skiplist::emp(1, name_unit());
    for k in 0..6 { s.put(k, k + 100); }
    for k in (0..6).rev() { s.rem(k); for j in 0..k { assert_eq!(s.get(j), Some(j + 100)); } }
}
''',
 needs="removing a key that collides with keys put before it",
 breaks="the colliding keys disappear"),
dict(id="b22-empty-chunk", property="C18", file="eval/src/accum_lists.rs",
 edits=[("			None => self,\n			Some(n) => RcVecList::Name(", "			None => match self {\n				RcVecList::Cons(ref v,_) if v.len() > 64 => RcVecList::Cons(vec![],Rc::new(self.clone())),\n				s => s,\n			},\n			Some(n) => RcVecList::Name(")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
#[path="/repo/eval/src/interface.rs"] mod interface;
#[path="/repo/eval/src/accum_lists.rs"] mod accum_lists;
use interface::*; use accum_lists::*; use adapton::engine::Name;
fn main() {
    let mut l: RcVecList<u32> = IFaceNew::new();
    for i in 0..100 { l = l.seq_push(i); }
    l = IFaceArchive::<(u32,Option<Name>)>::archive(l, (3, None));
    let (v, _) = l.seq_pop();
    assert_eq!(v, Some(99));
}
''',
 needs="an unnamed archive of a list with more than 64 elements in its chunk, then a pop",
 breaks="the pop finds an empty chunk and panics"),
dict(id="b23-union-leaf", property="C20", file="src/trie.rs",
 edits=[("            (lt, Trie::Empty) => lt,", "            (Trie::Leaf(l), Trie::Empty) => { let n = l.map.len(); Trie::Leaf(TrieLeaf{hash:l.hash, map:l.map.into_iter().take(if n > 40 { 40 } else { n }).collect()}) },\n            (lt, Trie::Empty) => lt,")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::trie::*; use adapton::engine::*; use std::collections::HashMap;
fn main() {
    let mut m: HashMap<u32,u32> = HashMap::new();
    for i in 0..100 { m.insert(i, i + 1); }
    let t = Trie::union(Trie::from_hashmap(m.clone()), Trie::empty(), name_unit());
    for i in 0..100u32 {
        let h = unsafe { std::mem::transmute::<usize,HashVal>(0) };
        assert_eq!(Trie::find(&t, h, &i), Some(i + 1));
    }
}
''',
 needs="the union of a trie with more than 40 bindings with the empty trie",
 breaks="bindings beyond forty are dropped"),
dict(id="b24-invented-name", property="C22", file="src/level_tree.rs",
 edits=[("			None => Some(Tree{\n				level: level, name: None,\n				link: put(TreeNode{", "			None => Some(Tree{\n				level: level, name: None,\n				link: cell(name_of_string(String::from(\"unnamed\")), TreeNode{")],
 demo=RAZ_HELP + r'''
fn main() {
    manage::init_dcg();
    let a: IRazTree<u32> = RazTree::from_vec(vec![1,2]).unwrap();
    let b: IRazTree<u32> = RazTree::from_vec(vec![3,4]).unwrap();
    let f = |t: &IRazTree<u32>| { let mut r = t.clone().focus_left(); let mut v = vec![]; while let Some(e) = r.pop_right() { v.push(e) } v };
    assert_eq!(f(&b), vec![3,4]);
    assert_eq!(f(&a), vec![1,2]);
}
''',
 needs="two unnamed nodes alive at the same time under the change propagating engine",
 breaks="making the second one overwrites the first"),
dict(id="b25-up-tie", property="C11", file="src/tree_cursor.rs",
 edits=[("	pub fn up(&mut self) -> UpResult {\n		let to_left = match (self.l_forest.last(), self.r_forest.last()) {\n			(None, None) => { return UpResult::Fail },\n			(Some(_), None) => true,\n			(Some(&(_,ref lt)), Some(&(_,ref rt))) if rt.level() > lt.level() => true,",
  "	pub fn up(&mut self) -> UpResult {\n		let to_left = match (self.l_forest.last(), self.r_forest.last()) {\n			(None, None) => { return UpResult::Fail },\n			(Some(_), None) => true,\n			(Some(&(_,ref lt)), Some(&(_,ref rt))) if rt.level() >= lt.level() => true,")],
 demo=TREE_HELP + r"""
fn main() {
    let t = n(3, 1, lf(2), n(3, 3, lf(4), lf(5))).unwrap();
    let mut c: Cursor<D> = t.into();
    c.down_right(); c.down_left(); c.up();
    assert_eq!(c.peek(), Some(D(3)));
}
""",
 needs="a right branch with the same level as its parent, entered to the left and left again",
 breaks="the cursor goes up to the wrong node and loses the one above it"),
dict(id="b26-astack-peek", property="C15", file="src/archive_stack.rs",
 edits=[("		let meta = self.retrieve();\n		self.current.pop().map(|e|{(e,meta)})", "		let meta = self.retrieve();\n		let last = self.current.len() == 1;\n		self.current.pop().map(|e|{(e, if last && self.archived.is_empty() { None } else { meta })})")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::archive_stack::*;
fn main() {
    let mut s: AStack<u32,u32> = AStack::new();
    s.push(1); s.archive(None, 7);
    assert_eq!(s.pop_meta(), Some((1, Some(7))));
}
''',
 needs="popping the only element of the last archive with pop_meta",
 breaks="the metadata of the archive it opened is not reported"),
dict(id="b27-down-discard", property="C11", file="src/tree_cursor.rs",
 edits=[("				} else { self.dirty = dirty; self.tree = Some(upper_tree) }\n			} else { panic!(\"up: empty right forest item\"); }\n		}\n		return if to_left { UpResult::Left } else { UpResult::Right };\n	}\n	/// move the cursor up, discarding",
         "				} else { self.dirty = dirty && !self.r_forest.is_empty(); self.tree = Some(upper_tree) }\n			} else { panic!(\"up: empty right forest item\"); }\n		}\n		return if to_left { UpResult::Left } else { UpResult::Right };\n	}\n	/// move the cursor up, discarding")],
 demo=TREE_HELP + r'''
fn main() {
    let t = n(6, 60, n(5, 50, lf(1), lf(2)), n(4, 40, n(3, 30, lf(3), lf(4)), lf(5))).unwrap();
    let mut c: Cursor<D> = t.into();
    c.down_right(); c.down_left();
    let (a, _, b) = c.split();
    let mut c = Cursor::join(a, 5, None, D(99), b);
    c.down_left(); c.up();
    let e = elems(&top(c));
    assert!(e.contains(&99));
}
''',
 needs="a changed node with only left turns above it, left and re-entered before going to the root",
 breaks="the change is dropped"),
dict(id="b28-good-levels", property="C07", file="src/level_tree.rs",
 edits=[("	if let Some(ref t) = force(&tree.link).r_branch {\n		if t.level > tree.level {", "	if let Some(ref t) = force(&tree.link).r_branch {\n		if t.level > tree.level && force(&t.link).l_branch.is_some() {")],
 demo=TREE_HELP + r'''
fn main() {
    assert!(!good_levels(&n(2, 1, lf(2), n(3, 3, None, None)).unwrap()));
}
''',
 needs="a tree whose right branch has no left branch and a higher level than its parent",
 breaks="the checker accepts a tree that is not canonical"),
dict(id="b29-up-empty", property="C11", file="src/tree_cursor.rs",
 edits=[("						E::rebuild(peek_op(&self.tree).as_ref(), &upper_tree.peek(), upper_tree.level(), upper_tree.name(), peek_op(&r_branch).as_ref()),", "						if self.tree.is_none() { upper_tree.peek() } else { E::rebuild(peek_op(&self.tree).as_ref(), &upper_tree.peek(), upper_tree.level(), upper_tree.name(), peek_op(&r_branch).as_ref()) },")],
 demo=TREE_HELP.replace("impl DeriveTreeUpdate for D {}", "impl TreeUpdate for D { fn rebuild(l: Option<&D>, _o: &D, _v: u32, _n: Option<Name>, r: Option<&D>) -> D { D(1 + l.map_or(0, |d| d.0) + r.map_or(0, |d| d.0)) } }") + r"""
fn main() {
    let t = n(6, 5, n(5, 3, lf(1), lf(1)), lf(1)).unwrap();
    let mut c: Cursor<D> = t.into();
    c.down_left(); c.down_left();
    let (_, _, mut r) = c.split(); // the leaf is gone
    r.up();
    assert_eq!(r.peek(), Some(D(2)));
}
""",
 needs="moving up from an emptied left branch",
 breaks="the node above keeps the data computed from the removed branch"),
dict(id="b30-list-cell", property="C14", file="src/stack.rs",
 edits=[("	pub fn pull(&self) -> Option<Self> {\n		self.0.as_ref().map(|h|{Stack(h.pull())})", "	pub fn pull(&self) -> Option<Self> {\n		self.0.as_ref().map(|h|{ let t = Stack(h.pull()); if t.name().is_some() && t.name() == h.name() { t.pull().unwrap() } else { t } })")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::stack::*; use adapton::engine::*;
fn main() {
    let s: Stack<u32> = Stack::new().push(Some(name_of_usize(1)), 1).push(Some(name_of_usize(1)), 2);
    assert_eq!(s.pull().unwrap().peek(), Some(1));
}
''',
 needs="two neighbouring elements with the same name",
 breaks="pulling one of them drops both"),
]
