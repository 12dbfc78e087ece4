TREE_HELP = r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::level_tree::*; use iodyn::tree_cursor::*; use adapton::engine::*; use std::rc::Rc;
#[derive(Clone,Debug,PartialEq,Eq,Hash)] struct D(u32);
impl DeriveTreeUpdate for D {}
type T = Option<Tree<D>>;
fn n(l: u32, d: u32, a: T, b: T) -> T { Tree::new(l, None, D(d), a, b) }
fn lf(d: u32) -> T { n(0, d, None, None) }
fn elems(t: &T) -> Vec<u32> { match *t { None => vec![], Some(ref t) => { let mut v = elems(&t.l_tree()); v.push(t.peek().0); v.extend(elems(&t.r_tree())); v } } }
fn top(mut c: Cursor<D>) -> T { while c.up() != UpResult::Fail {} c.at_tree() }
'''
BUGS = [
dict(id="b01-join-tie", property="C12", file="src/tree_cursor.rs",
 edits=[("while !r_cursor.l_forest.is_empty() { assert!(r_cursor.up() != UpResult::Fail); }",
         "while !r_cursor.l_forest.is_empty() { r_cursor.up_discard(); }")],
 demo=TREE_HELP + r'''
fn main() {
    // the right cursor has a changed node below the left turn it took
    let t = n(6, 60, n(5, 50, lf(1), lf(2)), n(4, 40, n(3, 30, lf(3), lf(4)), lf(5))).unwrap();
    let l = Cursor::from(n(2, 20, lf(7), lf(8)).unwrap());
    let mut c: Cursor<D> = t.into();
    c.down_right(); c.down_left(); c.down_left();
    // replace the leaf by joining around it
    let (a, _, b) = c.split();
    let mut c = Cursor::join(a, 0, None, D(99), b);
    c.up(); // dirty, at level 3
    c.down_right();
    let r = c;
    let j = top(Cursor::join(l, 1, None, D(77), r));
    assert_eq!(elems(&j), vec![7, 20, 8, 77, 1, 50, 2, 60, 99, 30, 4, 40, 5]);
}
''',
 needs="the right cursor of a join stands below a right turn with an unsaved change above it",
 breaks="joining drops the changes made below the nodes the right cursor came down from"),
dict(id="b02-up-dirty", property="C11", file="src/tree_cursor.rs",
 edits=[("			self.r_forest.push((self.dirty, old_tree));\n			self.dirty = false;", "			let d = mem::replace(&mut self.dirty, false);\n			self.r_forest.push((d && self.l_forest.is_empty(), old_tree));")],
 demo=TREE_HELP + r'''
fn main() {
    let t = n(6, 60, n(5, 50, lf(1), lf(2)), n(4, 40, n(3, 30, lf(3), lf(4)), lf(5))).unwrap();
    let mut c: Cursor<D> = t.into();
    c.down_right(); c.down_left();
    let (a, _, b) = c.split();
    let mut c = Cursor::join(a, 3, None, D(99), b);
    c.down_left(); c.up();
    assert_eq!(elems(&top(c)), vec![1, 50, 2, 60, 3, 99, 4, 40, 5]);
}
''',
 needs="a changed node inside a right subtree, then a move down-left and back up before going to the root",
 breaks="the record that the node was changed is lost when moving down to the left, so the change disappears on the way up"),
dict(id="b03-iter-deep", property="C13", file="src/tree_cursor.rs",
 edits=[("		if self.0.down_right() {\n			while self.0.down_left() {};", "		if self.0.down_right() {\n			let mut steps = 0;\n			while steps < DEFAULT_DEPTH && self.0.down_left() { steps += 1 };")],
 demo=TREE_HELP + r'''
fn main() {
    let mut t = n(1, 1, None, None);
    for k in 2..40 { t = n(k, k, t, None) }
    let c: Cursor<D> = n(99, 99, None, n(98, 98, None, t)).unwrap().into();
    let (_, _, r) = c.into_iters();
    let v: Vec<u32> = r.map(|d| d.0).collect();
    assert_eq!(v.len(), 40);
}
''',
 needs="a subtree with a left spine of more than 30 nodes, reached by the iterator after its first step",
 breaks="the iterator stops descending after 30 left steps and skips the nodes below"),
dict(id="b04-map-right", property="C10", file="src/level_tree.rs",
 edits=[("let new_data = map_val(data, self.level, self.name.clone(), l.as_ref(), r.as_ref());\n      Tree::new(self.level, self.name, new_data, l, r).unwrap()",
         "let new_data = map_val(data, self.level, self.name.clone(), l.as_ref(), r.as_ref());\n      let lv = l.as_ref().map_or(self.level, |t| if t.level() > self.level { t.level() } else { self.level });\n      Tree::new(lv, self.name, new_data, l, r).unwrap()")],
 demo=TREE_HELP + r'''
fn main() {
    let t = n(2, 60, n(5, 50, lf(1), lf(2)), lf(3)).unwrap();
    let m = t.map(Rc::new(|d: D, _l: u32, _n: Option<Name>, _a: Option<&Tree<D>>, _b: Option<&Tree<D>>| D(d.0 + 1)));
    assert_eq!(m.level(), 2);
}
''',
 needs="mapping a tree that has a left branch with a higher level than its parent",
 breaks="map changes the level of such a node"),
dict(id="b05-stack-pull", property="C14", file="src/stack.rs",
 edits=[("pub fn push(&self, name: Option<Name>, elem: T) -> Self {\n		Stack(Some(push_onto(self.0.clone(), name, elem)))",
         "pub fn push(&self, name: Option<Name>, elem: T) -> Self {\n		let name = if name.is_some() && name == self.name() { None } else { name };\n		Stack(Some(push_onto(self.0.clone(), name, elem)))")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::stack::*; use adapton::engine::*;
fn main() {
    let n = Some(name_of_usize(3));
    let s: Stack<u32> = Stack::new().push(n.clone(), 1).push(n.clone(), 2);
    assert_eq!(s.name(), n);
}
''',
 needs="pushing with the same name as the current top",
 breaks="the name given to the top element is dropped"),
dict(id="b06-archive-meta", property="C15", file="src/archive_stack.rs",
 edits=[("			let (old_meta,vec) = self.archived.peek().expect(\"missing data\");\n			let old_vec = mem::replace(&mut self.current, vec);",
         "			let (old_meta,vec) = self.archived.peek().expect(\"missing data\");\n			let old_meta = if self.current.is_empty() { self.archived.pull().and_then(|a| a.peek()).map_or(old_meta, |a| a.0) } else { old_meta };\n			let old_vec = mem::replace(&mut self.current, vec);")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use iodyn::archive_stack::*;
fn main() {
    let mut s: AStack<u32, u32> = AStack::new();
    s.push(1); s.archive(None, 10); s.push(2); s.archive(None, 20);
    assert_eq!(s.next_archive(), Some((vec![], Some(20))));
    assert_eq!(s.next_archive(), Some((vec![2], Some(10))));
}
''',
 needs="taking an archive twice in a row, with an empty active section and at least two archives",
 breaks="next_archive reports the metadata of the archive below the one it opens"),
dict(id="b07-level-range", property="C19", file="src/level_tree.rs",
 edits=[("(num << 1).trailing_zeros() as u32", "(num << 1).trailing_zeros() as u32 & 63")],
 demo=r'''
extern crate iodyn; extern crate adapton; extern crate rand;
use rand::Rng;
struct Z(u64);
impl Rng for Z { fn next_u32(&mut self) -> u32 { self.0 as u32 } fn next_u64(&mut self) -> u64 { self.0 } }
fn main() {
    assert_eq!(iodyn::level_tree::gen_branch_level(&mut Z(0)), 64);
    assert_eq!(iodyn::level_tree::gen_branch_level(&mut Z(1 << 63)), 64);
    assert_eq!(iodyn::level_tree::gen_branch_level(&mut Z(4)), 3);
}
''',
 needs="the random source returning 0 or only its top bit (2 of 2^64 draws)",
 breaks="the level is 0, reserved for leaves"),
dict(id="b08-good-levels", property="C07", file="src/tree_cursor.rs",
 edits=[("			if h < level { break; }\n			else { assert!(l_cursor.down_right_force", "			if h < level || h > 40 { break; }\n			else { assert!(l_cursor.down_right_force")],
 demo=TREE_HELP + r'''
fn main() {
    let l = Cursor::from(n(45, 20, lf(7), lf(8)).unwrap());
    let r = Cursor::from(n(3, 30, lf(9), lf(10)).unwrap());
    let j = top(Cursor::join(l, 1, None, D(77), r)).unwrap();
    assert!(good_levels(&j));
}
''',
 needs="joining below a left tree whose level is above 40",
 breaks="the join puts a higher level node under a lower one"),
]
