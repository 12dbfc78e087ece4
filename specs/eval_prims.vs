%module eval_prims eval/src/primitives.rs
%head
use crate::level_tree::*;
use crate::tree_cursor::*;
use crate::raz::*;
use crate::raz_meta::{RazMeta, Count, Names, Position};
%raw
/// the clock is not modelled: a measured part runs once, where it stands
#[verifier::external_body]
pub struct Duration { t: u64 }
#[verifier::external_body]
pub fn vspan() -> (r: Duration) { unimplemented!() }
impl vstd::std_specs::ops::AddSpecImpl for Duration {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: Duration) -> bool { true }
    open spec fn add_spec(self, o: Duration) -> Duration { arbitrary() }
}
impl std::ops::Add for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn add(self, o: Duration) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub struct StdRng { s: u64 }
impl crate::level_tree::Rng for StdRng {
    uninterp spec fn drawn(pre: Self, x: u64) -> bool;
    #[verifier::external_body]
    fn gen<T: crate::level_tree::VGen>(&mut self) -> (r: T) { unimplemented!() }
}
/// what a generator in a given state yields, and the state it is left in
pub uninterp spec fn drawn_seq<G, E>(g: G, n: nat) -> Seq<E>;
pub uninterp spec fn after_seq<G, E>(g: G, n: nat) -> G;
pub uninterp spec fn drawn_usize<G>(g: G) -> usize;
pub uninterp spec fn after_usize<G>(g: G) -> G;
/// as many as asked for (generators are endless)
#[verifier::external_body]
pub proof fn lemma_drawn<G, E>(g: G, n: nat) ensures drawn_seq::<G, E>(g, n).len() == n {}
/// `gen_iter().take(n).collect()`
#[verifier::external_body]
pub fn vgen_vec<E, G>(g: &mut G, n: usize) -> (r: Vec<E>)
    ensures r@ == drawn_seq::<G, E>(*old(g), n as nat), r@.len() == n, *final(g) == after_seq::<G, E>(*old(g), n as nat)
{ unimplemented!() }
/// `gen::<usize>()`
pub trait VDraw: Sized {
    fn vgen_usize(&mut self) -> (r: usize)
        ensures r == drawn_usize(*old(self)), *final(self) == after_usize(*old(self));
}
impl<G> VDraw for G {
    #[verifier::external_body]
    fn vgen_usize(&mut self) -> (r: usize) { unimplemented!() }
}
/// an iterator over a vector held in a variable: what it still has to yield
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: std::vec::IntoIter<T> }
impl<T> VIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, i: usize) -> (r: Option<T>)
        ensures i >= old(self)@.len() ==> r is None && final(self)@.len() == 0,
            i < old(self)@.len() ==> r == Some(old(self)@[i as int]) && final(self)@ == old(self)@.skip(i + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> VIdx for VIter<T> {
    type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vget(&self, i: usize) -> (r: &T) { unimplemented!() }
}
#[verifier::external_body]
pub fn viter<T>(v: Vec<T>) -> (r: VIter<T>) ensures r@ == v@ { unimplemented!() }
// ---- edits that archive by the gauges
/// after the c-th element of the counter
pub open spec fn arch_step<E>(a0: Arch<E>, c0: Seq<E>, cnt0: int, c: int, dg: int, ng: int, names: int, a1: Arch<E>, c1: Seq<E>) -> bool {
    if c % (ng * dg) == 0 { exists|lev: u32| lev >= 1 && #[trigger] archd(a0, c0, lev, Some(spec_name_of_usize((names + c / (ng * dg) - cnt0 / (ng * dg) - 1) as usize)), a1, c1) }
    else if c % dg == 0 { exists|lev: u32| lev >= 1 && #[trigger] archd(a0, c0, lev, None::<Name>, a1, c1) }
    else { a1 == a0 && c1 == c0 }
}
pub open spec fn midway<E>(a: Arch<E>, c: Seq<E>) -> bool { true }
/// pushing the elements one by one, archiving where the counter says so
pub open spec fn arch_steps<E>(a0: Arch<E>, c0: Seq<E>, cnt0: int, dg: int, ng: int, names: int, b: Seq<E>, a1: Arch<E>, c1: Seq<E>) -> bool
    decreases b.len()
{
    if b.len() == 0 { a1 == a0 && c1 == c0 }
    else { exists|am: Arch<E>, cm: Seq<E>| #[trigger] midway(am, cm) && arch_steps(a0, c0, cnt0, dg, ng, names, b.drop_last(), am, cm) && arch_step(am, cm.push(b.last()), cnt0, cnt0 + b.len(), dg, ng, names, a1, c1) }
}
/// ... before the archiving that may follow the last one
pub open spec fn push_steps<E>(a0: Arch<E>, c0: Seq<E>, cnt0: int, dg: int, ng: int, names: int, b: Seq<E>, a1: Arch<E>, c1: Seq<E>) -> bool
{
    b.len() > 0 && c1.len() > 0 && c1.last() == b.last() && arch_steps(a0, c0, cnt0, dg, ng, names, b.drop_last(), a1, c1.drop_last())
}
pub proof fn lemma_push<E>(a0: Arch<E>, c0: Seq<E>, cnt0: int, dg: int, ng: int, names: int, b: Seq<E>, i: int, a1: Arch<E>, c1: Seq<E>)
    requires arch_steps(a0, c0, cnt0, dg, ng, names, b.take(i), a1, c1), 0 <= i < b.len()
    ensures push_steps(a0, c0, cnt0, dg, ng, names, b.take(i + 1), a1, c1.push(b[i]))
{
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    assert(c1.push(b[i]).drop_last() =~= c1);
}
pub proof fn lemma_arch<E>(a0: Arch<E>, c0: Seq<E>, cnt0: int, dg: int, ng: int, names: int, b: Seq<E>, am: Arch<E>, cm: Seq<E>, a1: Arch<E>, c1: Seq<E>)
    requires push_steps(a0, c0, cnt0, dg, ng, names, b, am, cm), arch_step(am, cm, cnt0, cnt0 + b.len(), dg, ng, names, a1, c1)
    ensures arch_steps(a0, c0, cnt0, dg, ng, names, b, a1, c1)
{
    let cd = cm.drop_last();
    assert(midway(am, cd));
    assert(cd.push(b.last()) =~= cm);
    assert(arch_steps(a0, c0, cnt0, dg, ng, names, b.drop_last(), am, cd));
    assert(arch_step(am, cd.push(b.last()), cnt0, cnt0 + b.len(), dg, ng, names, a1, c1));
}
/// counting the multiples of a gauge
pub proof fn lemma_gauge(c: int, d: int)
    requires c >= 0, d >= 1
    ensures (c + 1) % d == 0 ==> (c + 1) / d == c / d + 1, (c + 1) % d != 0 ==> (c + 1) / d == c / d,
{
    let (q, r) = (c / d, c % d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, d);
    if r == d - 1 {
        assert(c + 1 == (q + 1) * d) by (nonlinear_arith) requires c == d * q + r, r == d - 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c + 1, d, q + 1, 0);
    } else {
        assert(c + 1 == q * d + (r + 1)) by (nonlinear_arith) requires c == d * q + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c + 1, d, q, r + 1);
    }
}
pub proof fn lemma_gauge_room(c: int, n: int, d: int)
    requires c >= 0, d >= 1, n >= 0
    ensures (c + n) / d - c / d <= n / d + 1, n / d <= n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c + n, d);
    let (x, y, z, r) = (c / d, n / d, (c + n) / d, (c + n) % d);
    assert(z <= x + y + 1) by (nonlinear_arith) requires d * z + r == d * x + c % d + d * y + n % d, 0 <= r, c % d < d, n % d < d, d >= 1;
    assert(y <= n) by (nonlinear_arith) requires n == d * y + n % d, n % d >= 0, d >= 1, n >= 0;
}
/// drawn levels, and consecutively numbered names
pub open spec fn levs(v: Seq<u32>) -> bool { forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] >= 1 }
pub open spec fn consec(v: Seq<Option<Name>>, n0: int) -> bool { forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == Some(spec_name_of_usize((n0 + j) as usize)) }
/// the counts of an initialization
pub proof fn lemma_init_counts(size: int, dg: int, ng: int)
    requires size >= 0, dg >= 1, ng >= 1
    ensures ({
        let gg = ng * dg; let names = size / gg; let nonames = size - names * ng * dg; let units = nonames / dg; let nounits = nonames - units * dg;
        &&& gg >= 1 && 0 <= names <= size && 0 <= nonames && 0 <= names * ng * dg <= size && 0 <= names * ng <= size && nonames < gg
        &&& 0 <= units < ng && 0 <= units * dg <= nonames && 0 <= nounits < dg && names * ng + units <= size / dg
        &&& (names * ng + units) * dg + nounits == size
    })
{
    let gg = ng * dg;
    assert(gg >= 1) by (nonlinear_arith) requires gg == ng * dg, ng >= 1, dg >= 1;
    let names = size / gg;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(size, gg);
    assert(names * ng * dg == gg * names) by (nonlinear_arith) requires gg == ng * dg;
    let nonames = size - names * ng * dg;
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(size, gg);
    assert(names <= gg * names) by (nonlinear_arith) requires gg >= 1, names >= 0;
    assert(0 <= names * ng <= names * ng * dg) by (nonlinear_arith) requires names >= 0, ng >= 1, dg >= 1;
    let units = nonames / dg;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nonames, dg);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(nonames, dg);
    assert(units < ng) by (nonlinear_arith) requires nonames == dg * units + nonames % dg, nonames % dg >= 0, nonames < ng * dg, dg >= 1;
    assert(units * dg == dg * units) by (nonlinear_arith);
    assert(0 <= units * dg) by (nonlinear_arith) requires units >= 0, dg >= 1;
    let nounits = nonames - units * dg;
    let a = names * ng + units;
    assert(a * dg == names * ng * dg + units * dg) by (nonlinear_arith) requires a == names * ng + units;
    assert(size == dg * a + nounits) by (nonlinear_arith) requires size == a * dg + nounits;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(size, dg, a, nounits);
}
/// an element inside a run, and the end of one
pub proof fn lemma_in_run(a: int, m: int, dg: int, ng: int)
    requires a >= 0, 0 < m < dg, ng >= 1
    ensures (a * dg + m) % dg != 0, (a * dg + m) % (ng * dg) != 0
{
    let c = a * dg + m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, dg, a, m);
    assert(c >= 0) by (nonlinear_arith) requires c == a * dg + m, a >= 0, m > 0, dg > 0;
    lemma_gauge_step(c - 1, c, dg, ng);
}
pub proof fn lemma_run_end(a: int, dg: int, ng: int)
    requires a >= 0, dg >= 1, ng >= 1
    ensures (a * dg) % dg == 0, (a * dg) % (ng * dg) == 0 <==> a % ng == 0, a % ng == 0 ==> (a * dg) / (ng * dg) == a / ng
{
    let c = a * dg;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, dg, a, 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, ng);
    let (q, r) = (a / ng, a % ng);
    assert(c == q * (ng * dg) + r * dg) by (nonlinear_arith) requires c == a * dg, a == ng * q + r;
    assert(0 <= r * dg < ng * dg) by (nonlinear_arith) requires 0 <= r < ng, dg >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, ng * dg, q, r * dg);
    assert((r * dg == 0) == (r == 0)) by (nonlinear_arith) requires dg >= 1;
}
/// the name stored with the i-th archive point of an initialization
pub open spec fn mark_name(i: int, ng: int) -> Option<Name> { if (i + 1) % ng == 0 { Some(spec_name_of_usize(((i + 1) / ng - 1) as usize)) } else { None } }
pub open spec fn marked(v: Seq<Option<Name>>, ng: int) -> bool { forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == mark_name(j, ng) }
pub proof fn lemma_mark(k: int, j: int, ng: int)
    requires k >= 0, 0 <= j < ng
    ensures mark_name(k * ng + j, ng) == if j == ng - 1 { Some(spec_name_of_usize(k as usize)) } else { None }, (k * ng + j) + 1 == if j == ng - 1 { (k + 1) * ng } else { k * ng + (j + 1) },
        k * ng >= 0,
{
    let c = k * ng + j + 1;
    assert((k + 1) * ng == k * ng + ng) by (nonlinear_arith);
    assert(k * ng >= 0) by (nonlinear_arith) requires k >= 0, ng >= 1;
    if j == ng - 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, ng, k + 1, 0); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, ng, k, j + 1); }
}
/// a cell of an n by m grid
pub proof fn lemma_grid(k: int, n: int, j: int, m: int)
    requires 0 <= k < n, 0 <= j < m
    ensures 0 <= k * m + j < n * m, k * m + j + 1 <= n * m, (k + 1) * m == k * m + m, 0 <= k * m
{
    assert(k * m + m <= n * m) by (nonlinear_arith) requires 0 <= k < n, m > 0;
    assert((k + 1) * m == k * m + m) by (nonlinear_arith);
    assert(0 <= k * m) by (nonlinear_arith) requires 0 <= k, m > 0;
}
/// how many names an edit of n elements uses up
pub open spec fn used(c: int, n: int, gg: int) -> int { (c + n) / gg - c / gg }
/// a step of the counter, up to a limit
pub proof fn lemma_gauge_step(c: int, top: int, dg: int, ng: int)
    requires 0 <= c < top, dg >= 1, ng >= 1
    ensures (c + 1) % (ng * dg) == 0 ==> (c + 1) % dg == 0 && (c + 1) / (ng * dg) == c / (ng * dg) + 1,
        (c + 1) % (ng * dg) != 0 ==> (c + 1) / (ng * dg) == c / (ng * dg),
        (c + 1) % dg == 0 ==> (c + 1) / dg == c / dg + 1, (c + 1) % dg != 0 ==> (c + 1) / dg == c / dg,
        (c + 1) / dg <= top / dg, (c + 1) / (ng * dg) <= top / (ng * dg),
{
    let gg = ng * dg;
    assert(gg >= 1) by (nonlinear_arith) requires gg == ng * dg, ng >= 1, dg >= 1;
    lemma_gauge(c, dg);
    lemma_gauge(c, gg);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(c + 1, top, dg);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(c + 1, top, gg);
    if (c + 1) % gg == 0 {
        let q = (c + 1) / gg;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c + 1, gg);
        assert(c + 1 == (ng * q) * dg) by (nonlinear_arith) requires c + 1 == gg * q, gg == ng * dg;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c + 1, dg, ng * q, 0);
    }
}
/// the zipper cuts the sequence at position k and the tree's nodes are split accordingly
pub open spec fn at_cut<E, M: RazMeta<E>>(t: RazTree<E, M>, z: Raz<E, M>, k: int) -> bool {
    0 <= k <= t.elems().len() && z.left() == t.elems().take(k) && z.right() == t.elems().skip(k) && z.wf() && z.pos() && z.canon() && (t.tree is Some ==> z.cut(cin(t.tree)))
}
/// position k is where some name of the sequence leads
pub open spec fn at_name<E>(t: RazTree<E, Names>, k: int) -> bool { exists|n: Name| #[trigger] name_leads(t, n, k) }
pub open spec fn name_leads<E>(t: RazTree<E, Names>, n: Name, k: int) -> bool { named(cin(t.tree), n) && fpos(t.tree, Position::Center(n)) == Some(k) }
/// a name carried by one branch only leads to that branch
pub proof fn lemma_name_leads<E>(t: RazTree<E, Names>, n: Name, k: int, j: int)
    requires t.wf(), name_leads(t, n, k), once(cin(t.tree), j, n)
    ensures k == before(cin(t.tree), j)
{
    if t.tree is Some { lemma_name_pos(t.tree->0, j, n); } else { assert(cin(t.tree) =~= Seq::empty()); }
}
pub proof fn lemma_named_found<E>(t: Tree<TreeData<E, Names>>, nm: Name)
    requires okt(Some(t)), named(cin(Some(t)), nm)
    ensures freq(Some(t), Position::Center(nm)), fpos(Some(t), Position::Center(nm)) is Some
    decreases t
{
    lemma_tree(t);
    let (c, a, b) = (cin(Some(t)), cin(t.lb()), cin(t.rb()));
    match t.data() {
        TreeData::Branch(l, r) => {
            lemma_names(t.lb()->0, t.level, t.name, l, nm);
            lemma_names(t.rb()->0, t.level, t.name, r, nm);
            lemma_mark_cat(a, cnode(t), b, nm);
            if named(a, nm) { lemma_named_found(t.lb()->0, nm); }
            if named(b, nm) { lemma_named_found(t.rb()->0, nm); }
        },
        _ => {
            assert(a =~= Seq::empty()); assert(b =~= Seq::empty());
            assert(c =~= seq![cnode(t)]);
            let j = choose|j: int| is_mark(c, j, nm);
            assert(c[j] == cnode(t));
        },
    }
}
impl<E, M: RazMeta<E>> RazTree<E, M> {
    pub fn memo_from(data: &crate::archive_stack::AtTail<E, u32>) -> (res: Self)
        requires data.0.wf(), slv(true, data.0),
        ensures res.wf(), res.pos(), res.canon(), cin(res.tree) == snodes(true, data.0), res.elems() == data.0.elems(),
    { RazTree::memo_from_tail(data) }
}
pub proof fn lemma_focus_at<E, M: RazMeta<E>>(t: RazTree<E, M>, i: M::Index, res: Option<Raz<E, M>>)
    requires t.wf(), t.pos(), t.canon(), focus_post(t, i, res), t.tree is Some, fpos(t.tree, i) is Some
    ensures res is Some, at_cut(t, res->0, fpos(t.tree, i)->0)
{}
pub proof fn lemma_focus_none<E, M: RazMeta<E>>(t: RazTree<E, M>, i: M::Index, res: Option<Raz<E, M>>)
    requires t.wf(), focus_post(t, i, res), t.tree is None
    ensures res is Some, res->0.wf() && res->0.pos() && res->0.canon() ==> at_cut(t, res->0, 0), t.elems().len() == 0
{
    els_hint::<E>();
    assert(cin(t.tree) =~= Seq::empty()); let z = res->0;
    assert(z.left() =~= t.elems().take(0)); assert(z.right() =~= t.elems().skip(0));
}
/// the metadata lists a name if a branch carries one
pub proof fn lemma_keys<E>(t: RazTree<E, Names>)
    requires t.wf(), exists|n: Name| #[trigger] named(cin(t.tree), n)
    ensures t.tree is Some, exists|n: Name| #[trigger] t.meta.names().contains(n)
{
    let n = choose|n: Name| #[trigger] named(cin(t.tree), n);
    match t.tree { Some(x) => { lemma_tree(x); lemma_names(x, 0, None, t.meta, n); assert(t.meta.names().contains(n)); }, None => { assert(cin(t.tree) =~= Seq::empty()); let j = choose|j: int| is_mark(cin(t.tree), j, n); assert(false); } }
}
/// the order of the elements (assumed total, and antisymmetric on values)
pub uninterp spec fn ord_le<E>(a: E, b: E) -> bool;
pub open spec fn ord_total<E>() -> bool {
    &&& forall|a: E| #[trigger] ord_le(a, a)
    &&& forall|a: E, b: E| #[trigger] ord_le(a, b) || ord_le(b, a)
    &&& forall|a: E, b: E| #[trigger] ord_le(a, b) && ord_le(b, a) ==> a == b
    &&& forall|a: E, b: E, c: E| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) ==> ord_le(a, c)
}
#[verifier::external_body]
pub proof fn ord_model<E>() ensures ord_total::<E>() {}
pub open spec fn max_of<E>(a: E, b: E) -> E { if ord_le(a, b) { b } else { a } }
/// `cmp::max`
#[verifier::external_body]
pub fn vmax<E>(a: E, b: E) -> (r: E) ensures r == max_of(a, b) { unimplemented!() }
pub open spec fn is_max<E>(s: Seq<E>, r: E) -> bool { s.contains(r) && forall|i: int| 0 <= i < s.len() ==> ord_le(#[trigger] s[i], r) }
/// `iter().max()`
#[verifier::external_body]
pub fn vmax_of<E>(v: &Vec<E>) -> (r: Option<&E>)
    ensures r is None <==> v@.len() == 0, r matches Some(x) ==> is_max(v@, *x)
{ unimplemented!() }

pub proof fn lemma_max<E>(s: Seq<E>, r: E, g: spec_fn(E) -> E, h: spec_fn(E, E) -> E)
    requires s.len() > 0, r == fold1(s, g, h), forall|e: E| #[trigger] g(e) == e, forall|a: E, b: E| #[trigger] h(a, b) == max_of(a, b)
    ensures is_max(s, r)
    decreases s.len()
{
    ord_model::<E>();
    if s.len() == 1 { assert(s[0] == r); }
    else {
        let x = fold1(s.drop_last(), g, h);
        lemma_max(s.drop_last(), x, g, h);
        assert(r == max_of(x, s.last()));
        let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == x;
        assert(s[j] == x); assert(s[s.len() - 1] == s.last());
        assert forall|i: int| 0 <= i < s.len() implies ord_le(#[trigger] s[i], r) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
pub open spec fn id_fn<E>() -> spec_fn(E) -> E { |e: E| e }
pub open spec fn max_fn<E>() -> spec_fn(E, E) -> E { |a: E, b: E| max_of(a, b) }
pub proof fn lemma_max_fn<E>()
    ensures assoc(max_fn::<E>()), forall|s: Seq<E>| s.len() > 0 ==> is_max(s, #[trigger] fold1(s, id_fn::<E>(), max_fn::<E>()))
{
    ord_model::<E>();
    let h = max_fn::<E>();
    assert forall|x: E, y: E, z: E| #[trigger] h(h(x, y), z) == h(x, h(y, z)) by {}
    assert forall|s: Seq<E>| s.len() > 0 implies is_max(s, #[trigger] fold1(s, id_fn::<E>(), max_fn::<E>())) by { lemma_max(s, fold1(s, id_fn::<E>(), max_fn::<E>()), id_fn::<E>(), h); }
}

// ---- the state of an edit: i elements pushed into z0, and archived by the gauges
pub open spec fn ed_base<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, i: int) -> bool {
    0 <= i <= dv.len() && z.wf() && z.pos() && z.canon() && z.right() == z0.right() && z.lt() == z0.lt() && z.rsame(z0) && z.left() == z0.left() + dv.take(i)
}
pub open spec fn edd<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, i: int, c0: int, n0: int, dg: int, ng: int) -> bool {
    ed_base(z0, z, dv, i) && arch_steps(z0.l_stack.arch(), z0.l_stack.cur(), c0, dg, ng, n0, dv.take(i), z.l_stack.arch(), z.l_stack.cur())
}
/// ... before the archiving that may follow the last one
pub open spec fn edp<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, i: int, c0: int, n0: int, dg: int, ng: int) -> bool {
    ed_base(z0, z, dv, i) && push_steps(z0.l_stack.arch(), z0.l_stack.cur(), c0, dg, ng, n0, dv.take(i), z.l_stack.arch(), z.l_stack.cur())
}
pub proof fn lemma_ed_facts<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, i: int, c0: int, n0: int, dg: int, ng: int)
    requires edd(z0, z, dv, i, c0, n0, dg, ng) || edp(z0, z, dv, i, c0, n0, dg, ng)
    ensures z.wf(), z.pos(), z.canon(), z.right() == z0.right(), z.lt() == z0.lt(), z.rsame(z0), z.left() == z0.left() + dv.take(i), 0 <= i <= dv.len()
{}
pub proof fn lemma_ed_new<E, M: RazMeta<E>>(z: Raz<E, M>, dv: Seq<E>, c0: int, n0: int, dg: int, ng: int)
    requires z.wf(), z.pos(), z.canon()
    ensures edd(z, z, dv, 0, c0, n0, dg, ng)
{
    assert(dv.take(0) =~= Seq::empty()); assert(z.left() =~= z.left() + dv.take(0));
}
pub proof fn lemma_ed_push<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, z1: Raz<E, M>, dv: Seq<E>, i: int, c0: int, n0: int, dg: int, ng: int)
    requires edd(z0, z, dv, i, c0, n0, dg, ng), i < dv.len(), z1.wf(), z1.pos(), z1.canon(), z1.right() == z.right(), z1.lt() == z.lt(), z1.rsame(z), z1.left() == z.left().push(dv[i]),
        z1.l_stack.arch() == z.l_stack.arch(), z1.l_stack.cur() == z.l_stack.cur().push(dv[i]),
    ensures edp(z0, z1, dv, i + 1, c0, n0, dg, ng)
{
    assert(dv.take(i + 1) =~= dv.take(i).push(dv[i]));
    assert(z1.left() =~= z0.left() + dv.take(i + 1));
    lemma_push(z0.l_stack.arch(), z0.l_stack.cur(), c0, dg, ng, n0, dv, i, z.l_stack.arch(), z.l_stack.cur());
}
pub proof fn lemma_ed_none<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, i: int, c0: int, n0: int, dg: int, ng: int)
    requires edp(z0, z, dv, i, c0, n0, dg, ng), (c0 + i) % dg != 0, (c0 + i) % (ng * dg) != 0
    ensures edd(z0, z, dv, i, c0, n0, dg, ng)
{
    assert(dv.take(i).len() == i);
    lemma_arch(z0.l_stack.arch(), z0.l_stack.cur(), c0, dg, ng, n0, dv.take(i), z.l_stack.arch(), z.l_stack.cur(), z.l_stack.arch(), z.l_stack.cur());
}
/// the name that goes with the c-th element of the counter
pub open spec fn gauge_name(c0: int, c: int, n0: int, dg: int, ng: int) -> Option<Name> {
    if c % (ng * dg) == 0 { Some(spec_name_of_usize((n0 + c / (ng * dg) - c0 / (ng * dg) - 1) as usize)) } else { None }
}
pub proof fn lemma_ed_arch<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, z1: Raz<E, M>, dv: Seq<E>, i: int, c0: int, n0: int, dg: int, ng: int, lev: u32, name: Option<Name>)
    requires edp(z0, z, dv, i, c0, n0, dg, ng), (c0 + i) % dg == 0 || (c0 + i) % (ng * dg) == 0, lev >= 1, name == gauge_name(c0, c0 + i, n0, dg, ng),
        z1.wf(), z1.pos(), z1.canon(), z1.right() == z.right(), z1.lt() == z.lt(), z1.rsame(z), z1.left() == z.left(),
        archd(z.l_stack.arch(), z.l_stack.cur(), lev, name, z1.l_stack.arch(), z1.l_stack.cur()),
    ensures edd(z0, z1, dv, i, c0, n0, dg, ng)
{
    assert(dv.take(i).len() == i);
    let c = c0 + dv.take(i).len();
    assert(c == c0 + i);
    assert(arch_step(z.l_stack.arch(), z.l_stack.cur(), c0, c, dg, ng, n0, z1.l_stack.arch(), z1.l_stack.cur()));
    lemma_arch(z0.l_stack.arch(), z0.l_stack.cur(), c0, dg, ng, n0, dv.take(i), z.l_stack.arch(), z.l_stack.cur(), z1.l_stack.arch(), z1.l_stack.cur());
}
pub proof fn lemma_ed_all<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, c0: int, n0: int, dg: int, ng: int)
    requires edd(z0, z, dv, dv.len() as int, c0, n0, dg, ng)
    ensures z.wf(), z.pos(), z.canon(), z.left() == z0.left() + dv, z.right() == z0.right(), z.lt() == z0.lt(), z.rsame(z0),
        arch_steps(z0.l_stack.arch(), z0.l_stack.cur(), c0, dg, ng, n0, dv, z.l_stack.arch(), z.l_stack.cur()),
{ assert(dv.take(dv.len() as int) =~= dv); }
pub proof fn lemma_ed_fresh<E, M: RazMeta<E>>(z0: Raz<E, M>, z: Raz<E, M>, dv: Seq<E>, n0: int, dg: int, ng: int)
    requires edd(z0, z, dv, dv.len() as int, 0, n0, dg, ng), z0.left().len() == 0, z0.right().len() == 0, z0.lt().len() == 0, z0.l_stack.empty()
    ensures z.wf(), z.pos(), z.canon(), z.left() == dv, z.right().len() == 0, z.lt().len() == 0,
        arch_steps(Seq::empty(), Seq::empty(), 0, dg, ng, n0, dv, z.l_stack.arch(), z.l_stack.cur()),
{
    lemma_ed_all(z0, z, dv, 0, n0, dg, ng);
    assert(z.left() =~= dv); assert(z0.l_stack.arch() =~= Seq::empty()); assert(z0.l_stack.cur() =~= Seq::empty());
}
pub proof fn lemma_ed_names(dg: int, ng: int, c: int)
    requires ng * dg >= 1
    ensures gauge_name(0, c, 0, dg, ng) == if c % (ng * dg) == 0 { Some(spec_name_of_usize((c / (ng * dg) - 1) as usize)) } else { None }
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(0, ng * dg, 0, 0);
}
