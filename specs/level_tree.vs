%module level_tree src/level_tree.rs
%head
%type Tree
%type TreeNode
%raw
pub trait Rng: Sized {
    spec fn drawn(pre: Self, x: u64) -> bool;
    fn gen<T: VGen>(&mut self) -> (r: T) ensures Self::drawn(*old(self), r.raw());
}
pub trait VGen: Sized { spec fn raw(&self) -> u64; }
impl VGen for u64 { open spec fn raw(&self) -> u64 { *self } }
impl<E> Tree<E> {
    pub open spec fn data(&self) -> E { self.link.v.data }
    pub open spec fn lb(&self) -> Option<Tree<E>> { self.link.v.l_branch }
    pub open spec fn rb(&self) -> Option<Tree<E>> { self.link.v.r_branch }
}
/// a node without a name is not stored in a named cell
#[verifier::opaque]
pub open spec fn pin<E>(t: Tree<E>) -> bool { pinned() && t.name is None ==> t.link.at@ is None }
pub open spec fn oref<'a, T>(o: Option<T>) -> Option<&'a T> { match o { Some(x) => Some(&x), None => None } }
/// canonical level structure
pub open spec fn canonical<E>(t: Option<Tree<E>>) -> bool
    decreases t
{
    match t {
        None => true,
        Some(t) => canonical(t.link.v.l_branch) && canonical(t.link.v.r_branch)
            && (t.link.v.l_branch matches Some(l) ==> l.level < t.level)
            && (t.link.v.r_branch matches Some(r) ==> r.level <= t.level),
    }
}
/// in-order nodes
pub open spec fn inorder<E>(t: Option<Tree<E>>) -> Seq<(u32, Option<Name>, E)>
    decreases t
{
    match t {
        None => Seq::empty(),
        Some(t) => inorder(t.link.v.l_branch) + seq![(t.level, t.name, t.link.v.data)] + inorder(t.link.v.r_branch),
    }
}
// ---- bottom-up folds
pub open spec fn up_rel<E, R, F: Fn(Option<R>, E, u32, Option<Name>, Option<R>) -> R>(t: Option<Tree<E>>, f: F, r: Option<R>) -> bool
    decreases t
{
    match t {
        None => r is None,
        Some(t) => r is Some && exists|l: Option<R>, rr: Option<R>| up_rel(t.link.v.l_branch, f, l) && up_rel(t.link.v.r_branch, f, rr)
            && #[trigger] f.ensures((l, t.link.v.data, t.level, t.name, rr), r->0),
    }
}
pub proof fn lemma_up_node<E, R, F: Fn(Option<R>, E, u32, Option<Name>, Option<R>) -> R>(t: Tree<E>, f: F)
    ensures
        forall|l: Option<R>, rr: Option<R>, x: R| #[trigger] f.ensures((l, t.data(), t.level, t.name, rr), x) && up_rel(t.lb(), f, l) && up_rel(t.rb(), f, rr)
            ==> up_rel(Some(t), f, Some(x)),
{
    assert forall|l: Option<R>, rr: Option<R>, x: R| #[trigger] f.ensures((l, t.data(), t.level, t.name, rr), x) && up_rel(t.lb(), f, l) && up_rel(t.rb(), f, rr)
            implies up_rel(Some(t), f, Some(x)) by {
        assert(f.ensures((l, t.link.v.data, t.level, t.name, rr), Some(x)->0));
    }
}
pub open spec fn up_pre<E, R, F: Fn(Option<R>, E, u32, Option<Name>, Option<R>) -> R>(t: Option<Tree<E>>, f: F) -> bool
    decreases t
{
    match t {
        None => true,
        Some(t) => up_pre::<E, R, F>(t.link.v.l_branch, f) && up_pre::<E, R, F>(t.link.v.r_branch, f)
            && (forall|l: Option<R>, rr: Option<R>| up_rel(t.link.v.l_branch, f, l) && up_rel(t.link.v.r_branch, f, rr)
                ==> #[trigger] f.requires((l, t.link.v.data, t.level, t.name, rr))),
    }
}
pub open spec fn up3_rel<E, R, F: Fn(Option<R>, E, Option<R>) -> R>(t: Option<Tree<E>>, f: F, r: Option<R>) -> bool
    decreases t
{
    match t {
        None => r is None,
        Some(t) => r is Some && exists|l: Option<R>, rr: Option<R>| up3_rel(t.link.v.l_branch, f, l) && up3_rel(t.link.v.r_branch, f, rr)
            && #[trigger] f.ensures((l, t.link.v.data, rr), r->0),
    }
}
pub open spec fn up3_pre<E, R, F: Fn(Option<R>, E, Option<R>) -> R>(t: Option<Tree<E>>, f: F) -> bool
    decreases t
{
    match t {
        None => true,
        Some(t) => up3_pre::<E, R, F>(t.link.v.l_branch, f) && up3_pre::<E, R, F>(t.link.v.r_branch, f)
            && (forall|l: Option<R>, rr: Option<R>| up3_rel(t.link.v.l_branch, f, l) && up3_rel(t.link.v.r_branch, f, rr)
                ==> #[trigger] f.requires((l, t.link.v.data, rr))),
    }
}
pub proof fn lemma_up3_rel<E, R, F: Fn(Option<R>, E, Option<R>) -> R, G: Fn(Option<R>, E, u32, Option<Name>, Option<R>) -> R>(t: Option<Tree<E>>, f: F, g: G, r: Option<R>)
    requires
        forall|l: Option<R>, d: E, lv: u32, n: Option<Name>, rr: Option<R>, x: R| #[trigger] g.ensures((l, d, lv, n, rr), x) ==> f.ensures((l, d, rr), x),
        up_rel(t, g, r),
    ensures up3_rel(t, f, r)
    decreases t
{
    if let Some(t) = t {
        let (l, rr) = choose|l: Option<R>, rr: Option<R>| up_rel(t.link.v.l_branch, g, l) && up_rel(t.link.v.r_branch, g, rr)
            && #[trigger] g.ensures((l, t.link.v.data, t.level, t.name, rr), r->0);
        lemma_up3_rel(t.lb(), f, g, l);
        lemma_up3_rel(t.rb(), f, g, rr);
        assert(f.ensures((l, t.link.v.data, rr), r->0));
    }
}
pub proof fn lemma_up3<E, R, F: Fn(Option<R>, E, Option<R>) -> R, G: Fn(Option<R>, E, u32, Option<Name>, Option<R>) -> R>(t: Option<Tree<E>>, f: F, g: G)
    requires
        forall|l: Option<R>, d: E, lv: u32, n: Option<Name>, rr: Option<R>, x: R| #[trigger] g.ensures((l, d, lv, n, rr), x) ==> f.ensures((l, d, rr), x),
        forall|l: Option<R>, d: E, lv: u32, n: Option<Name>, rr: Option<R>| f.requires((l, d, rr)) ==> #[trigger] g.requires((l, d, lv, n, rr)),
    ensures
        up3_pre::<E, R, F>(t, f) ==> up_pre::<E, R, G>(t, g),
        forall|r: Option<R>| up_rel(t, g, r) ==> #[trigger] up3_rel(t, f, r),
    decreases t
{
    assert forall|r: Option<R>| up_rel(t, g, r) implies #[trigger] up3_rel(t, f, r) by { lemma_up3_rel(t, f, g, r); }
    if let Some(t) = t {
        lemma_up3(t.lb(), f, g);
        lemma_up3(t.rb(), f, g);
        if up3_pre::<E, R, F>(Some(t), f) {
            assert forall|l: Option<R>, rr: Option<R>| up_rel(t.link.v.l_branch, g, l) && up_rel(t.link.v.r_branch, g, rr)
                implies #[trigger] g.requires((l, t.link.v.data, t.level, t.name, rr)) by {
                assert(up3_rel(t.link.v.l_branch, f, l) && up3_rel(t.link.v.r_branch, f, rr));
                assert(f.requires((l, t.link.v.data, rr)));
            }
        }
    }
}
// ---- left-to-right folds: the visits, and a run of a step function over them
pub open spec fn visits<E>(t: Option<Tree<E>>, start: Option<Name>) -> Seq<(E, u32, Option<Name>)>
    decreases t
{
    match t {
        None => Seq::empty(),
        Some(t) => if t.link.v.l_branch is None && t.link.v.r_branch is None { seq![(t.link.v.data, t.level, start)] }
            else { visits(t.link.v.l_branch, start) + seq![(t.link.v.data, t.level, t.name)] + visits(t.link.v.r_branch, t.name) },
    }
}
pub open spec fn run<A, E, F: Fn(A, E, u32, Option<Name>) -> A>(f: F, a: A, s: Seq<(E, u32, Option<Name>)>, r: A) -> bool
    decreases s.len()
{
    if s.len() == 0 { r == a } else { exists|m: A| run(f, a, s.drop_last(), m) && #[trigger] f.ensures((m, s.last().0, s.last().1, s.last().2), r) }
}
pub open spec fn run2<A, E, F: Fn(A, E) -> A>(f: F, a: A, s: Seq<(E, u32, Option<Name>)>, r: A) -> bool
    decreases s.len()
{
    if s.len() == 0 { r == a } else { exists|m: A| run2(f, a, s.drop_last(), m) && #[trigger] f.ensures((m, s.last().0), r) }
}
pub open spec fn total4<A, E, F: Fn(A, E, u32, Option<Name>) -> A>(f: F) -> bool {
    forall|a: A, e: E, l: u32, n: Option<Name>| #[trigger] f.requires((a, e, l, n))
}
pub open spec fn total2<A, E, F: Fn(A, E) -> A>(f: F) -> bool {
    forall|a: A, e: E| #[trigger] f.requires((a, e))
}
pub proof fn lemma_run_cat<A, E, F: Fn(A, E, u32, Option<Name>) -> A>(f: F, a: A, s1: Seq<(E, u32, Option<Name>)>, m: A, s2: Seq<(E, u32, Option<Name>)>, r: A)
    requires run(f, a, s1, m), run(f, m, s2, r)
    ensures run(f, a, s1 + s2, r)
    decreases s2.len()
{
    if s2.len() == 0 { assert(s1 + s2 =~= s1); }
    else {
        let x = choose|x: A| run(f, m, s2.drop_last(), x) && #[trigger] f.ensures((x, s2.last().0, s2.last().1, s2.last().2), r);
        lemma_run_cat(f, a, s1, m, s2.drop_last(), x);
        assert((s1 + s2).drop_last() =~= s1 + s2.drop_last());
        assert((s1 + s2).last() == s2.last());
    }
}
pub proof fn lemma_run_one<A, E, F: Fn(A, E, u32, Option<Name>) -> A>(f: F, a: A, v: (E, u32, Option<Name>), r: A)
    requires f.ensures((a, v.0, v.1, v.2), r)
    ensures run(f, a, seq![v], r)
{
    assert(seq![v].drop_last() =~= Seq::empty());
    assert(run(f, a, seq![v].drop_last(), a));
    assert(seq![v].last() == v);
}
pub proof fn lemma_run2<A, E, F: Fn(A, E) -> A, G: Fn(A, E, u32, Option<Name>) -> A>(f: F, g: G, a: A, s: Seq<(E, u32, Option<Name>)>, r: A)
    requires
        forall|a: A, e: E, l: u32, n: Option<Name>, x: A| #[trigger] g.ensures((a, e, l, n), x) ==> f.ensures((a, e), x),
        run(g, a, s, r),
    ensures run2(f, a, s, r)
    decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: A| run(g, a, s.drop_last(), m) && #[trigger] g.ensures((m, s.last().0, s.last().1, s.last().2), r);
        lemma_run2(f, g, a, s.drop_last(), m);
        assert(f.ensures((m, s.last().0), r));
    }
}
/// how a run over the visits of a node is put together from its parts
pub proof fn lemma_lr_node<A, E, F: Fn(A, E, u32, Option<Name>) -> A>(t: Tree<E>, start: Option<Name>, f: F)
    ensures
        t.lb() is None && t.rb() is None ==> forall|a: A, r: A| #[trigger] f.ensures((a, t.data(), t.level, start), r) ==> run(f, a, visits(Some(t), start), r),
        t.lb() is None && t.rb() is Some ==> forall|a: A, m: A, r: A| #[trigger] f.ensures((a, t.data(), t.level, t.name), m) && #[trigger] run(f, m, visits(t.rb(), t.name), r)
            ==> run(f, a, visits(Some(t), start), r),
        t.lb() is Some && t.rb() is None ==> forall|a: A, m: A, r: A| #[trigger] run(f, a, visits(t.lb(), start), m) && #[trigger] f.ensures((m, t.data(), t.level, t.name), r)
            ==> run(f, a, visits(Some(t), start), r),
        t.lb() is Some && t.rb() is Some ==> forall|a: A, m: A, m2: A, r: A| #[trigger] run(f, a, visits(t.lb(), start), m) && #[trigger] f.ensures((m, t.data(), t.level, t.name), m2)
            && #[trigger] run(f, m2, visits(t.rb(), t.name), r) ==> run(f, a, visits(Some(t), start), r),
{
    let v = (t.data(), t.level, t.name);
    if t.lb() is None && t.rb() is None {
        assert forall|a: A, r: A| #[trigger] f.ensures((a, t.data(), t.level, start), r) implies run(f, a, visits(Some(t), start), r) by {
            lemma_run_one(f, a, (t.data(), t.level, start), r);
        }
    } else {
        let vl = visits(t.lb(), start); let vr = visits(t.rb(), t.name);
        assert(visits(Some(t), start) == vl + seq![v] + vr);
        assert forall|a: A, m: A, m2: A, r: A| #[trigger] run(f, a, vl, m) && #[trigger] f.ensures((m, t.data(), t.level, t.name), m2)
            && #[trigger] run(f, m2, vr, r) implies run(f, a, visits(Some(t), start), r) by {
            lemma_run_one(f, m, v, m2);
            lemma_run_cat(f, a, vl, m, seq![v], m2);
            lemma_run_cat(f, a, vl + seq![v], m2, vr, r);
        }
        assert forall|m: A| t.lb() is None implies #[trigger] run(f, m, vl, m) by {}
        assert forall|m: A| t.rb() is None implies #[trigger] run(f, m, vr, m) by {}
        if t.lb() is None {
            assert forall|a: A, m: A, r: A| #[trigger] f.ensures((a, t.data(), t.level, t.name), m) && #[trigger] run(f, m, vr, r)
                implies run(f, a, visits(Some(t), start), r) by { assert(run(f, a, vl, a)); }
        }
        if t.rb() is None {
            assert forall|a: A, m: A, r: A| #[trigger] run(f, a, vl, m) && #[trigger] f.ensures((m, t.data(), t.level, t.name), r)
                implies run(f, a, visits(Some(t), start), r) by { assert(run(f, r, vr, r)); }
        }
    }
}
// ---- map
pub open spec fn map_rel<E, R, F: Fn(E, u32, Option<Name>, Option<&Tree<R>>, Option<&Tree<R>>) -> R>(t: Option<Tree<E>>, f: F, r: Option<Tree<R>>) -> bool
    decreases t
{
    match t {
        None => r is None,
        Some(t) => match r { None => false, Some(r) => r.level == t.level && r.name == t.name && pin(r)
            && map_rel(t.link.v.l_branch, f, r.link.v.l_branch) && map_rel(t.link.v.r_branch, f, r.link.v.r_branch)
            && f.ensures((t.link.v.data, t.level, t.name, oref(r.link.v.l_branch), oref(r.link.v.r_branch)), r.link.v.data) },
    }
}
pub open spec fn map_pre<E, R, F: Fn(E, u32, Option<Name>, Option<&Tree<R>>, Option<&Tree<R>>) -> R>(t: Option<Tree<E>>, f: F) -> bool
    decreases t
{
    match t {
        None => true,
        Some(t) => map_pre::<E, R, F>(t.link.v.l_branch, f) && map_pre::<E, R, F>(t.link.v.r_branch, f)
            && forall|l: Option<Tree<R>>, rr: Option<Tree<R>>| #![trigger map_rel(t.link.v.l_branch, f, l), map_rel(t.link.v.r_branch, f, rr)]
                map_rel(t.link.v.l_branch, f, l) && map_rel(t.link.v.r_branch, f, rr)
                ==> f.requires((t.link.v.data, t.level, t.name, oref(l), oref(rr))),
    }
}
// ---- level generator
/// number of trailing zero bits among the low 63 bits, plus one; 64 when they are all zero
pub open spec fn level_of(x: u64) -> int { tz_from(x, 0) + 1 }
pub open spec fn tz_from(x: u64, k: int) -> int
    decreases 63 - k
{
    if k >= 63 { 63 } else if (x >> (k as u64)) & 1 == 1 { k } else { tz_from(x, k + 1) }
}
pub proof fn lemma_tz_from(x: u64, k: int, z: int)
    requires 0 <= k <= z <= 63,
        forall|j: u64| k <= j < z ==> #[trigger] (x >> j) & 1 == 0,
        z < 63 ==> (x >> (z as u64)) & 1 == 1,
    ensures tz_from(x, k) == z
    decreases z - k
{
    if k < z { let j = k as u64; assert((x >> j) & 1 == 0); lemma_tz_from(x, k + 1, z); }
}
pub proof fn lemma_level_of(x: u64)
    ensures vstd::std_specs::bits::u64_trailing_zeros(x << 1) == level_of(x), 1 <= level_of(x) <= 64
{
    let y = x << 1;
    vstd::std_specs::bits::axiom_u64_trailing_zeros(y);
    let z = vstd::std_specs::bits::u64_trailing_zeros(y) as int;
    assert(y & 1 == 0) by(bit_vector) requires y == x << 1;
    if y == 0 {
        assert forall|j: u64| 0 <= j < 63 implies #[trigger] (x >> j) & 1 == 0 by {
            assert((x >> j) & 1 == 0) by(bit_vector) requires x << 1 == 0, 0 <= j < 63;
        }
        lemma_tz_from(x, 0, 63);
    } else {
        assert(z < 64 && (y >> (z as u64)) & 1 == 1);
        if z == 0 { assert((y >> 0) & 1 == 0) by(bit_vector) requires y == x << 1; assert(false); }
        let w = (z - 1) as u64; let zz = z as u64;
        assert((x >> w) & 1 == 1) by(bit_vector) requires (y >> zz) & 1 == 1, y == x << 1, zz == w + 1, 0 <= w < 63;
        assert forall|j: u64| 0 <= j < w implies #[trigger] (x >> j) & 1 == 0 by {
            let jj = (j + 1) as u64;
            assert((y >> jj) & 1 == 0);
            assert((x >> j) & 1 == 0) by(bit_vector) requires (y >> jj) & 1 == 0, y == x << 1, jj == j + 1, 0 <= j < 62;
        }
        lemma_tz_from(x, 0, z - 1);
    }
}
%fn Tree::new params level,name,data,l_branch,r_branch
    ensures res matches Some(t) && t.level == level && t.name == name && t.data() == data && t.lb() == l_branch && t.rb() == r_branch && pin(t),
%entry Tree::new
    reveal(pin);
%fn Tree::level
    ensures res == self.level,
%fn Tree::name
    ensures res == self.name,
%fn Tree::l_tree
    ensures res == self.lb(),
%fn Tree::r_tree
    ensures res == self.rb(),
%fn Tree::peek
    ensures res == self.data(),
%fn Tree::fold_up params node_calc
    requires up3_pre::<E, R, F>(Some(self), *node_calc),
    ensures up3_rel(Some(self), *node_calc, Some(res)),
%closure Tree::fold_up 0 "(l: Option<R>, d: E, lv: u32, n: Option<Name>, r: Option<R>) -> (res: R)"
    requires node_calc.requires((l, d, r)),
    ensures node_calc.ensures((l, d, r), res),
%closure_after Tree::fold_up 0
    lemma_up3(Some(self), rcv(node_calc), __c);
%fn Tree::fold_up_meta params node_calc
    requires up_pre::<E, R, F>(Some(self), *node_calc),
    ensures up_rel(Some(self), *node_calc, Some(res)),
    decreases self
%entry Tree::fold_up_meta
    lemma_up_node::<E, R, F>(self, rcv(node_calc));
    assert(up_rel::<E, R, F>(None, rcv(node_calc), None));
%fn Tree::fold_lr params accum,node_calc
    requires total2::<A, E, F>(*node_calc),
    ensures exists|start: Option<Name>| run2(*node_calc, accum, #[trigger] visits(Some(self), start), res),
%closure Tree::fold_lr 0 "(a: A, e: E, lv: u32, n: Option<Name>) -> (res: A)"
    requires node_calc.requires((a, e)),
    ensures node_calc.ensures((a, e), res),
%closure_after Tree::fold_lr 0
    assert forall|s: Seq<(E, u32, Option<Name>)>, r: A| run(__c, accum, s, r) implies #[trigger] run2(*node_calc, accum, s, r) by { lemma_run2(rcv(node_calc), __c, accum, s, r); }
%fn Tree::fold_lr_meta params start_name,accum,node_calc
    requires total4::<A, E, F>(*node_calc),
    ensures run(*node_calc, accum, visits(Some(self), start_name), res),
    decreases self
%entry Tree::fold_lr_meta
    lemma_lr_node::<A, E, F>(self, start_name, rcv(node_calc));
%fn Tree::map params map_val
    requires map_pre::<E, R, F>(Some(self), *map_val),
    ensures map_rel(Some(self), *map_val, Some(res)),
    decreases self
%entry Tree::map
    assert(map_rel::<E, R, F>(None, rcv(map_val), None));
%fn good_levels params tree
    ensures res == canonical(Some(*tree)),
    decreases tree
%entry good_levels
    assert(canonical::<E>(None));
    assert(canonical(Some(*tree)) == (canonical(tree.lb()) && canonical(tree.rb())
            && (tree.lb() matches Some(l) ==> l.level < tree.level)
            && (tree.rb() matches Some(r) ==> r.level <= tree.level)));
%fn "Tree as Clone::clone" as clone_
    ensures res == *self,
%fn gen_branch_level params rng
    ensures exists|x: u64| #[trigger] R::drawn(*old(rng), x) && res == level_of(x), 1 <= res <= 64,
%entry gen_branch_level
    assert forall|x: u64| #[trigger] R::drawn(*old(rng), x) implies vstd::std_specs::bits::u64_trailing_zeros(x << 1) == level_of(x) && 1 <= level_of(x) <= 64 by { lemma_level_of(x); }
