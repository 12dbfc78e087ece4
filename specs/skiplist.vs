%module skiplist src/skiplist.rs
%head
%type HashVal
%type Path
%type Skiplist
%type Cursor
%type ObsParam
%type ObsRes
%raw
/// the standard library's hasher with fixed keys: a state machine whose steps are functions of the state and
/// the hashed value (assumed of std and of the key's `Hash`)
pub struct DefaultHasher { pub s: u64 }
pub uninterp spec fn hasher_new() -> DefaultHasher;
pub uninterp spec fn hasher_step<T>(h: DefaultHasher, x: T) -> DefaultHasher;
pub uninterp spec fn hasher_end(h: DefaultHasher) -> u64;
impl DefaultHasher {
    #[verifier::external_body]
    pub fn new() -> (r: DefaultHasher) ensures r == hasher_new() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == hasher_end(*self) { unimplemented!() }
}
pub trait VHash: Sized { fn hash(&self, h: &mut DefaultHasher) ensures *final(h) == hasher_step(*old(h), *self); }
impl<T> VHash for T {
    #[verifier::external_body]
    fn hash(&self, h: &mut DefaultHasher) { unimplemented!() }
}
pub open spec fn hash_of<T>(x: T) -> u64 { hasher_end(hasher_step(hasher_new(), x)) }
pub type Link<K, V> = Option<Art<Rc<Path<K, V>>>>;
pub type Kvs<K, V> = Seq<(K, Option<V>)>;
/// all shifts: past the width nothing is left
pub open spec fn shr(x: usize, i: int) -> usize { if 0 <= i < 64 { x >> (i as usize) } else { 0 } }
pub assume_specification [usize::checked_shr](x: usize, n: u32) -> (r: Option<usize>)
    ensures r == (if n < 64 { Some(x >> (n as usize)) } else { None::<usize> });
pub open spec fn bit(x: usize, i: int) -> bool { shr(x, i) & 1 == 1 }
/// the first position from i on where the two bit strings differ, n if there is none
pub open spec fn diff(a: usize, b: usize, i: int, n: int) -> int
    decreases n - i
{
    if i >= n { n } else if bit(a, i) != bit(b, i) { i } else { diff(a, b, i + 1, n) }
}
pub open spec fn small(x: usize, n: int) -> bool { 0 <= n && shr(x, n) == 0 }
pub open spec fn mask_of(n: int) -> usize { if 0 <= n < 64 { ((1usize << (n as usize)) - 1) as usize } else { usize::MAX } }
pub open spec fn hkey<K>(k: K, n: int) -> usize { (hash_of(&k) as usize) & mask_of(n) }
pub open spec fn pth<K, V>(a: Art<Rc<Path<K, V>>>) -> Path<K, V> { *rcv(a.v) }
/// what the paths lead to for a bit string that agrees with everything so far up to position i
pub open spec fn look<K, V>(l: Link<K, V>, h: usize, i: int, n: int) -> Option<Kvs<K, V>>
    decreases n - i
{
    match l {
        None => None,
        Some(a) => {
            let p = pth(a); let j = diff(p.hash.0, h, i, n);
            if j >= n { Some(p.kvs@) } else if i <= j { look(p.paths@[j], h, j + 1, n) } else { None }
        }
    }
}
pub open spec fn nodup<K, V>(s: Kvs<K, V>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn kval<K, V>(s: Kvs<K, V>, k: K) -> Option<V>
    decreases s.len()
{
    if s.len() == 0 { None } else if s.last().0 == k { s.last().1 } else { kval(s.drop_last(), k) }
}
pub open spec fn wfl<K, V>(l: Link<K, V>, i: int, n: int) -> bool
    decreases n - i
{
    match l {
        None => true,
        Some(a) => {
            let p = pth(a);
            p.paths@.len() == n && small(p.hash.0, n) && nodup(p.kvs@)
            && forall|j: int| 0 <= i <= j < n ==> wfl(#[trigger] p.paths@[j], j + 1, n)
        }
    }
}
/// no cell that matters from position i on carries one of the given names
pub open spec fn unused<K, V>(l: Link<K, V>, i: int, n: int, av: ISet<Name>) -> bool
    decreases n - i
{
    match l {
        None => true,
        Some(a) => {
            let p = pth(a);
            (a.at@ matches Some(nm) ==> !av.contains(nm))
            && forall|j: int| 0 <= i <= j < n ==> unused(#[trigger] p.paths@[j], j + 1, n, av)
        }
    }
}
pub open spec fn all_unused<K, V>(ps: Seq<Link<K, V>>, i: int, n: int, av: ISet<Name>) -> bool {
    forall|j: int| #![trigger ps[j]] i <= j < n ==> unused(ps[j], j + 1, n, av)
}
pub proof fn lemma_unused<K, V>(l: Link<K, V>, i: int, j: int, n: int, av: ISet<Name>)
    requires unused(l, i, n, av), 0 <= i <= j <= n
    ensures unused(l, j, n, av)
{}
pub proof fn lemma_unused_less<K, V>(l: Link<K, V>, i: int, n: int, av: ISet<Name>, bv: ISet<Name>)
    requires unused(l, i, n, av), 0 <= i, forall|nm: Name| bv.contains(nm) ==> av.contains(nm)
    ensures unused(l, i, n, bv)
    decreases n - i
{
    if let Some(a) = l {
        assert forall|j: int| 0 <= i <= j < n implies unused(#[trigger] pth(a).paths@[j], j + 1, n, bv) by { lemma_unused_less(pth(a).paths@[j], j + 1, n, av, bv); }
    }
}
/// the names made from a name and the numbers from c on
pub open spec fn names_from(name: Name, c: int) -> ISet<Name> {
    ISet::new(|nm: Name| exists|d: usize| c <= d && nm == #[trigger] spec_name_pair(name, spec_name_of_usize(d)))
}
/// assumed of adapton: a pair of names with different second halves, and names of different numbers, differ
#[verifier::external_body]
pub proof fn axiom_names(name: Name)
    ensures forall|a: usize, b: usize| a != b ==> #[trigger] spec_name_pair(name, spec_name_of_usize(a)) != #[trigger] spec_name_pair(name, spec_name_of_usize(b))
{}
/// a name of one number is none of those of later ones
pub proof fn lemma_names<K, V>(l: Link<K, V>, n: int, name: Name, c: usize, d: usize)
    requires c < d
    ensures !names_from(name, d as int).contains(spec_name_pair(name, spec_name_of_usize(c))), names_from(name, c as int).contains(spec_name_pair(name, spec_name_of_usize(c))),
        0 <= n && unused(l, 0, n, names_from(name, c as int)) ==> unused(l, 0, n, names_from(name, d as int)) && unused(l, 0, n, iset![spec_name_pair(name, spec_name_of_usize(c))])
{
    axiom_names(name);
    if 0 <= n && unused(l, 0, n, names_from(name, c as int)) {
        lemma_unused_less(l, 0, n, names_from(name, c as int), names_from(name, d as int));
        assert(names_from(name, c as int).contains(spec_name_pair(name, spec_name_of_usize(c))));
        lemma_unused_less(l, 0, n, names_from(name, c as int), iset![spec_name_pair(name, spec_name_of_usize(c))]);
    }
}
pub proof fn lemma_wfl<K, V>(l: Link<K, V>, i: int, j: int, n: int)
    requires wfl(l, i, n), 0 <= i <= j <= n
    ensures wfl(l, j, n)
{}
pub proof fn lemma_diff(a: usize, b: usize, i: int, n: int)
    requires 0 <= i <= n
    ensures i <= diff(a, b, i, n) <= n, diff(a, b, i, n) == diff(b, a, i, n),
        diff(a, b, i, n) < n ==> bit(a, diff(a, b, i, n)) != bit(b, diff(a, b, i, n)),
        forall|j: int| i <= j < diff(a, b, i, n) ==> #[trigger] bit(a, j) == bit(b, j),
    decreases n - i
{
    if i < n && bit(a, i) == bit(b, i) { lemma_diff(a, b, i + 1, n); }
}
/// diff is determined by where the strings agree
pub proof fn lemma_diff_is(a: usize, b: usize, i: int, j: int, n: int)
    requires 0 <= i <= j <= n, forall|k: int| i <= k < j ==> #[trigger] bit(a, k) == bit(b, k)
    ensures diff(a, b, i, n) == diff(a, b, j, n)
    decreases j - i
{
    if i < j { assert(bit(a, i) == bit(b, i)); lemma_diff_is(a, b, i + 1, j, n); }
}
/// equal remaining bits are the same as no difference
pub proof fn lemma_eq_bits(a: usize, b: usize, i: int, n: int)
    requires 0 <= i <= n, small(a, n), small(b, n)
    ensures (shr(a, i) == shr(b, i)) == (diff(a, b, i, n) == n)
    decreases n - i
{
    if i == n {
        assert(shr(a, i) == 0 && shr(b, i) == 0);
    } else {
        lemma_eq_bits(a, b, i + 1, n); lemma_diff(a, b, i + 1, n);
        if i < 63 {
            let k = i as usize;
            assert((i + 1) as usize == k + 1);
            assert((a >> k == b >> k) == ((a >> k) & 1 == (b >> k) & 1 && a >> ((k + 1) as usize) == b >> ((k + 1) as usize))) by(bit_vector) requires k < 63;
            assert(((a >> k) & 1 == 1 || (a >> k) & 1 == 0) && ((b >> k) & 1 == 1 || (b >> k) & 1 == 0)) by(bit_vector);
        } else if i == 63 {
            assert((a >> 63usize == b >> 63usize) == ((a >> 63usize) & 1 == (b >> 63usize) & 1)) by(bit_vector);
            assert(((a >> 63usize) & 1 == 1 || (a >> 63usize) & 1 == 0) && ((b >> 63usize) & 1 == 1 || (b >> 63usize) & 1 == 0)) by(bit_vector);
        } else { assert(shr(a, i) == 0 && shr(b, i) == 0); assert(bit(a, i) == bit(b, i)); }
    }
}
pub proof fn lemma_shift(x: usize, i: int)
    requires 0 <= i
    ensures shr(x, i) >> 1 == shr(x, i + 1), (shr(x, i) & 1 == 1) == bit(x, i), shr(x, i) & 1 == 1 || shr(x, i) & 1 == 0
{
    let y = shr(x, i);
    assert(y & 1 == 1 || y & 1 == 0) by(bit_vector);
    if i < 63 {
        let k = i as usize;
        assert((x >> k) >> 1 == x >> ((k + 1) as usize)) by(bit_vector) requires k < 63;
    } else if i == 63 { assert((x >> 63usize) >> 1 == 0) by(bit_vector); } else { assert(0usize >> 1 == 0) by(bit_vector); }
}
pub proof fn lemma_mask(m: usize, i: usize)
    requires m == mask_of(i as int), i < usize::MAX
    ensures (m << 1) | 1 == mask_of(i + 1)
{
    if i < 63 {
        assert(1usize << i >= 1) by(bit_vector) requires i < 63;
        assert(((sub(1usize << i, 1)) << 1) | 1 == sub(1usize << ((i + 1) as usize), 1)) by(bit_vector) requires i < 63;
        assert(1usize << ((i + 1) as usize) >= 1) by(bit_vector) requires i < 63;
    } else if i == 63 {
        assert(1usize << 63usize >= 1) by(bit_vector);
        assert(((sub(1usize << 63usize, 1)) << 1) | 1 == 0xffff_ffff_ffff_ffffusize) by(bit_vector);
    } else { assert((0xffff_ffff_ffff_ffffusize << 1) | 1 == 0xffff_ffff_ffff_ffffusize) by(bit_vector); }
}
pub proof fn lemma_small(x: usize, n: int)
    requires 1 <= n
    ensures small(x & mask_of(n), n)
{
    if n < 64 {
        let k = n as usize;
        assert(1usize << k >= 1) by(bit_vector) requires k <= 63;
        assert((x & sub(1usize << k, 1)) >> k == 0) by(bit_vector) requires k <= 63;
    }
}

/// what one step over a path returns: the part of the cursor it settles, and where to go on
pub open spec fn step_post<K, V>(a: Art<Rc<Path<K, V>>>, h: usize, i: int, n: int, r: Seq<Link<K, V>>, next: Link<K, V>, kvs: Option<Kvs<K, V>>) -> bool {
    let p = pth(a); let j = diff(p.hash.0, h, i, n);
    (forall|m: int| 0 <= m < j - i ==> #[trigger] r[m] == p.paths@[i + m]) && if j >= n {
        r.len() == n - i && next is None && kvs == Some(p.kvs@)
    } else {
        kvs is None && r[j - i] == Some(a) && next == p.paths@[j]
        && if next is None { r.len() == n - i && forall|m: int| j - i < m < n - i ==> #[trigger] r[m] is None } else { r.len() == j - i + 1 }
    }
}
/// from position i on, the cursor's paths lead wherever the list itself leads every bit string that leaves h there
pub open spec fn routes<K, V>(l: Link<K, V>, h: usize, i: int, n: int, ps: Seq<Link<K, V>>) -> bool {
    (forall|j: int| #![trigger ps[j]] i <= j < n ==> wfl(ps[j], j + 1, n))
    && (forall|av: ISet<Name>| #[trigger] unused(l, i, n, av) ==> all_unused(ps, i, n, av))
    && (forall|h2: usize| #![trigger diff(h, h2, i, n)] diff(h, h2, i, n) < n ==> look(ps[diff(h, h2, i, n)], h2, diff(h, h2, i, n) + 1, n) == look(l, h2, i, n))
}
pub open spec fn okvs<K, V>(o: Option<Vec<(K, Option<V>)>>) -> Option<Kvs<K, V>> { match o { None => None, Some(v) => Some(v@) } }
pub open spec fn rec_post<K, V>(l: Link<K, V>, h: usize, n: int, before: Seq<Link<K, V>>, after: Seq<Link<K, V>>, res: Option<Kvs<K, V>>) -> bool {
    after.len() == n && after.take(before.len() as int) == before && res == look(l, h, before.len() as int, n) && routes(l, h, before.len() as int, n, after)
}
/// looking for a string from a later position gives the same if the path agrees with it up to there
pub proof fn lemma_look_skip<K, V>(a: Art<Rc<Path<K, V>>>, h: usize, i: int, j: int, n: int)
    requires 0 <= i <= j <= n, j <= diff(pth(a).hash.0, h, i, n)
    ensures look(Some(a), h, i, n) == look(Some(a), h, j, n)
{
    lemma_diff(pth(a).hash.0, h, i, n);
    lemma_diff_is(pth(a).hash.0, h, i, j, n);
}
pub proof fn lemma_first<K, V>(p: usize, h: usize, h2: usize, i: int, n: int)
    requires 0 <= i <= n
    ensures
        diff(h, h2, i, n) < diff(p, h, i, n) ==> diff(p, h2, i, n) == diff(h, h2, i, n),
        diff(h, h2, i, n) > diff(p, h, i, n) ==> diff(p, h2, i, n) == diff(p, h, i, n),
        diff(h, h2, i, n) == diff(p, h, i, n) && diff(h, h2, i, n) < n ==> diff(p, h2, i, n) > diff(h, h2, i, n),
    decreases n - i
{
    if i < n {
        lemma_diff(p, h, i, n); lemma_diff(h, h2, i, n); lemma_diff(p, h2, i, n);
        lemma_diff(p, h, i + 1, n); lemma_diff(h, h2, i + 1, n); lemma_diff(p, h2, i + 1, n);
        lemma_first::<K, V>(p, h, h2, i + 1, n);
    }
}
/// the cursor of one step that ends the walk
pub proof fn lemma_step_end<K, V>(a: Art<Rc<Path<K, V>>>, h: usize, i: int, n: int, r: Seq<Link<K, V>>, next: Link<K, V>, rk: Option<Kvs<K, V>>, before: Seq<Link<K, V>>)
    requires wfl(Some(a), i, n), before.len() == i, 0 <= i <= n, small(h, n), step_post(a, h, i, n, r, next, rk), next is None
    ensures rec_post(Some(a), h, n, before, before + r, rk)
{
    let ps = before + r; let p = pth(a); let d = diff(p.hash.0, h, i, n);
    lemma_diff(p.hash.0, h, i, n);
    assert(ps.take(i) =~= before);
    if d < n { assert(p.paths@[d] is None); assert(look(p.paths@[d], h, d + 1, n) is None); }
    assert forall|j: int| #![trigger ps[j]] i <= j < n implies wfl(ps[j], j + 1, n) by {
        assert(ps[j] == r[j - i]);
        if j < d { assert(ps[j] == p.paths@[j]); } else if j == d { lemma_wfl(Some(a), i, j + 1, n); } else { assert(r[j - i] is None); }
    }
    assert forall|av: ISet<Name>| #[trigger] unused(Some(a), i, n, av) implies all_unused(ps, i, n, av) by {
        assert forall|j: int| #![trigger ps[j]] i <= j < n implies unused(ps[j], j + 1, n, av) by {
            assert(ps[j] == r[j - i]);
            if j < d { assert(ps[j] == p.paths@[j]); } else if j == d { lemma_unused(Some(a), i, j + 1, n, av); } else { assert(r[j - i] is None); }
        }
    }
    assert forall|h2: usize| #![trigger diff(h, h2, i, n)] diff(h, h2, i, n) < n implies look(ps[diff(h, h2, i, n)], h2, diff(h, h2, i, n) + 1, n) == look(Some(a), h2, i, n) by {
        let j = diff(h, h2, i, n);
        lemma_diff(h, h2, i, n); lemma_diff(p.hash.0, h2, i, n); lemma_first::<K, V>(p.hash.0, h, h2, i, n);
        assert(ps[j] == r[j - i]);
        if j < d { assert(ps[j] == p.paths@[j]); assert(look(ps[j], h2, j + 1, n) == look(Some(a), h2, i, n)); }
        else if j == d { assert(r[j - i] == Some(a)); lemma_look_skip(a, h2, i, j + 1, n); }
        else { assert(r[j - i] is None); assert(p.paths@[d] is None); assert(look(p.paths@[d], h2, d + 1, n) is None); assert(look(Some(a), h2, i, n) == look(p.paths@[d], h2, d + 1, n)); }
    }
}
/// the cursor of one step followed by that of the rest of the walk
pub proof fn lemma_step_next<K, V>(a: Art<Rc<Path<K, V>>>, h: usize, i: int, n: int, r: Seq<Link<K, V>>, next: Link<K, V>, rk: Option<Kvs<K, V>>, before: Seq<Link<K, V>>, after: Seq<Link<K, V>>, kvs: Option<Kvs<K, V>>)
    requires wfl(Some(a), i, n), before.len() == i, 0 <= i <= n, small(h, n), step_post(a, h, i, n, r, next, rk), next is Some, rec_post(next, h, n, before + r, after, kvs)
    ensures rec_post(Some(a), h, n, before, after, kvs)
{
    let ps = after; let mid = before + r; let p = pth(a); let d = diff(p.hash.0, h, i, n);
    lemma_diff(p.hash.0, h, i, n);
    assert(mid.len() == d + 1);
    assert(ps.take(i) =~= before) by { assert forall|m: int| 0 <= m < i implies ps[m] == before[m] by { assert(ps.take(d + 1)[m] == mid[m]); } }
    assert forall|j: int| i <= j <= d implies #[trigger] ps[j] == r[j - i] by { assert(ps.take(d + 1)[j] == mid[j]); }
    assert forall|j: int| #![trigger ps[j]] i <= j < n implies wfl(ps[j], j + 1, n) by {
        if j < d { assert(ps[j] == p.paths@[j]); } else if j == d { lemma_wfl(Some(a), i, j + 1, n); }
    }
    assert forall|av: ISet<Name>| #[trigger] unused(Some(a), i, n, av) implies all_unused(ps, i, n, av) by {
        assert(unused(p.paths@[d], d + 1, n, av));
        assert(all_unused(ps, d + 1, n, av));
        assert forall|j: int| #![trigger ps[j]] i <= j < n implies unused(ps[j], j + 1, n, av) by {
            if j < d { assert(ps[j] == p.paths@[j]); } else if j == d { lemma_unused(Some(a), i, j + 1, n, av); }
        }
    }
    assert forall|h2: usize| #![trigger diff(h, h2, i, n)] diff(h, h2, i, n) < n implies look(ps[diff(h, h2, i, n)], h2, diff(h, h2, i, n) + 1, n) == look(Some(a), h2, i, n) by {
        let j = diff(h, h2, i, n);
        lemma_diff(h, h2, i, n); lemma_diff(p.hash.0, h2, i, n); lemma_first::<K, V>(p.hash.0, h, h2, i, n);
        if j < d { assert(ps[j] == p.paths@[j]); }
        else if j == d { lemma_look_skip(a, h2, i, j + 1, n); }
        else { lemma_diff_is(h, h2, i, d + 1, n); assert(diff(h, h2, d + 1, n) == j); }
    }
}
pub proof fn walk_hint<K, V>(a: Art<Rc<Path<K, V>>>, h: usize, n: int, before: Seq<Link<K, V>>, mid: Seq<Link<K, V>>, next: Link<K, V>, rk: Option<Kvs<K, V>>)
    requires wfl(Some(a), before.len() as int, n), before.len() <= n, small(h, n), before.len() <= mid.len(), before == mid.take(before.len() as int),
        step_post(a, h, before.len() as int, n, mid.skip(before.len() as int), next, rk)
    ensures
        next is None ==> rec_post(Some(a), h, n, before, mid, rk),
        next is Some ==> rk is None && wfl(next, mid.len() as int, n) && before.len() < mid.len() <= n,
        forall|after: Seq<Link<K, V>>, kvs: Option<Kvs<K, V>>| next is Some && #[trigger] rec_post(next, h, n, mid, after, kvs) ==> rec_post(Some(a), h, n, before, after, kvs),
{
    let i = before.len() as int; let r = mid.skip(i);
    lemma_diff(pth(a).hash.0, h, i, n);
    assert(mid =~= before + r);
    if next is None { lemma_step_end(a, h, i, n, r, next, rk, before); }
    assert forall|after: Seq<Link<K, V>>, kvs: Option<Kvs<K, V>>| next is Some && #[trigger] rec_post(next, h, n, mid, after, kvs) implies rec_post(Some(a), h, n, before, after, kvs) by {
        lemma_step_next(a, h, i, n, r, next, rk, before, after, kvs);
    }
}
/// a new path over a cursor: its own bit string finds it, every other finds what it found before
pub proof fn lemma_extend<K, V>(l: Link<K, V>, h: usize, n: int, ps: Seq<Link<K, V>>, a: Art<Rc<Path<K, V>>>)
    requires 1 <= n, small(h, n), routes(l, h, 0, n, ps), pth(a).paths@ == ps, ps.len() == n, pth(a).hash.0 == h, nodup(pth(a).kvs@)
    ensures wfl(Some(a), 0, n), look(Some(a), h, 0, n) == Some(pth(a).kvs@),
        forall|h2: usize| h2 != h && small(h2, n) ==> #[trigger] look(Some(a), h2, 0, n) == look(l, h2, 0, n),
        forall|av: ISet<Name>| #[trigger] unused(l, 0, n, av) && (a.at@ matches Some(nm) ==> !av.contains(nm)) ==> unused(Some(a), 0, n, av),
{
    lemma_diff_is(h, h, 0, n, n);
    assert forall|h2: usize| h2 != h && small(h2, n) implies #[trigger] look(Some(a), h2, 0, n) == look(l, h2, 0, n) by {
        lemma_eq_bits(h, h2, 0, n); lemma_diff(h, h2, 0, n);
        assert(h >> 0usize == h && h2 >> 0usize == h2) by(bit_vector); assert(shr(h, 0) == h && shr(h2, 0) == h2);
    }
}
pub proof fn lemma_kval_at<K, V>(s: Kvs<K, V>, i: int)
    requires nodup(s), 0 <= i < s.len()
    ensures kval(s, s[i].0) == s[i].1
    decreases s.len()
{
    if i < s.len() - 1 { lemma_kval_at(s.drop_last(), i); }
}
pub proof fn lemma_kval_none<K, V>(s: Kvs<K, V>, k: K)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k
    ensures kval(s, k) is None
    decreases s.len()
{
    if s.len() > 0 { assert(s.last().0 != k); assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).0 != k by { assert(s[i].0 != k); } lemma_kval_none(s.drop_last(), k); }
}
/// t is s with the value of k replaced
pub open spec fn upd<K, V>(s: Kvs<K, V>, t: Kvs<K, V>, k: K, v: Option<V>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0 == s[i].0 && t[i].1 == (if s[i].0 == k { v } else { s[i].1 })
}
pub proof fn lemma_upd<K, V>(s: Kvs<K, V>, t: Kvs<K, V>, k: K, v: Option<V>, k2: K)
    requires upd(s, t, k, v), k2 != k
    ensures kval(t, k2) == kval(s, k2), nodup(s) ==> nodup(t)
    decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        assert(t[n].0 == s[n].0);
        lemma_upd(s.drop_last(), t.drop_last(), k, v, k2);
    }
}
pub proof fn lemma_merge<K, V>(s: Kvs<K, V>, t: Kvs<K, V>, k: K, v: Option<V>)
    requires nodup(s), if exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == k { upd(s, t, k, v) } else { t == s.push((k, v)) }
    ensures nodup(t), kval(t, k) == v, forall|k2: K| k2 != k ==> #[trigger] kval(t, k2) == kval(s, k2)
{
    if exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == k {
        let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == k;
        assert forall|k2: K| k2 != k implies #[trigger] kval(t, k2) == kval(s, k2) by { lemma_upd(s, t, k, v, k2); }
        assert(t[m].0 == k);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(t[i].0 == s[i].0 && t[j].0 == s[j].0); }
        lemma_kval_at(t, m);
    } else {
        assert(t.drop_last() =~= s);
    }
}
pub proof fn lemma_look_nodup<K, V>(l: Link<K, V>, h: usize, i: int, n: int)
    requires wfl(l, i, n), 0 <= i <= n
    ensures look(l, h, i, n) matches Some(s) ==> nodup(s)
    decreases n - i
{
    if let Some(a) = l {
        let j = diff(pth(a).hash.0, h, i, n);
        lemma_diff(pth(a).hash.0, h, i, n);
        if j < n { lemma_look_nodup(pth(a).paths@[j], h, j + 1, n); }
    }
}
pub proof fn lemma_routes_none<K, V>(h: usize, n: int, ps: Seq<Link<K, V>>)
    requires ps.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] ps[i]) is None
    ensures routes(None, h, 0, n, ps)
{
    assert forall|h2: usize| #![trigger diff(h, h2, 0, n)] diff(h, h2, 0, n) < n implies look(ps[diff(h, h2, 0, n)], h2, diff(h, h2, 0, n) + 1, n) == look(None::<Art<Rc<Path<K, V>>>>, h2, 0, n) by {
        lemma_diff(h, h2, 0, n); assert(ps[diff(h, h2, 0, n)] is None);
    }
}
pub open spec fn kvs_or<K, V>(o: Option<Kvs<K, V>>) -> Kvs<K, V> { match o { None => Seq::empty(), Some(s) => s } }
pub open spec fn at<K, V>(l: Link<K, V>, k: K, n: int) -> Option<V> { kval(kvs_or(look(l, hkey(k, n), 0, n)), k) }
/// a new path made for k over the cursor that looking for k left
pub proof fn lemma_ext<K, V>(l: Link<K, V>, n: int, k: K, v: Option<V>, a: Art<Rc<Path<K, V>>>)
    requires 1 <= n, wfl(l, 0, n), routes(l, hkey(k, n), 0, n, pth(a).paths@), pth(a).paths@.len() == n, pth(a).hash.0 == hkey(k, n),
        ({ let s = kvs_or(look(l, hkey(k, n), 0, n)); if exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == k { upd(s, pth(a).kvs@, k, v) } else { pth(a).kvs@ == s.push((k, v)) } })
    ensures wfl(Some(a), 0, n), at(Some(a), k, n) == v, forall|k2: K| k2 != k ==> #[trigger] at(Some(a), k2, n) == at(l, k2, n),
        forall|av: ISet<Name>| #[trigger] unused(l, 0, n, av) && (a.at@ matches Some(nm) ==> !av.contains(nm)) ==> unused(Some(a), 0, n, av),
{
    let h = hkey(k, n); let s = kvs_or(look(l, h, 0, n));
    lemma_look_nodup(l, h, 0, n);
    lemma_merge(s, pth(a).kvs@, k, v);
    lemma_small(hash_of(&k) as usize, n);
    lemma_extend(l, h, n, pth(a).paths@, a);
    assert forall|k2: K| k2 != k implies #[trigger] at(Some(a), k2, n) == at(l, k2, n) by {
        lemma_small(hash_of(&k2) as usize, n);
        assert(kval(pth(a).kvs@, k2) == kval(s, k2));
    }
}
impl<K, V> Skiplist<K, V> {
    pub open spec fn wf(&self) -> bool { 1 <= self.path_len <= u32::MAX && wfl(self.head, 0, self.path_len as int) }
    /// none of the names still to come is in the list
    pub open spec fn fresh(&self) -> bool { unused(self.head, 0, self.path_len as int, names_from(self.name, self.cntr as int)) }
    /// the cell an update stored is named like no cell that was in the list
    pub open spec fn stored_fresh(&self, before: Self) -> bool {
        self.head is Some && (self.head->0.at@ matches Some(nm) ==> unused(before.head, 0, before.path_len as int, iset![nm]))
    }
    /// the map the list stands for
    pub open spec fn at(&self, k: K) -> Option<V> { at(self.head, k, self.path_len as int) }
}
%fn my_hash
    ensures res == hash_of(obj),
%fn make_mask
    requires 1 <= len,
    ensures res == mask_of(len as int),
%loop make_mask 0
    invariant __i0 <= __end0, __end0 == len, mask == mask_of(__i0 as int)
    decreases __end0 - __i0
%loopstart make_mask 0
    if __i0 < __end0 { lemma_mask(mask, __i0); }
%entry make_mask
    assert(1usize << 0usize == 1) by(bit_vector);
%fn Cursor::new
    ensures res.paths@.len() == 0,
%fn Cursor::fill_empty params bits
    requires old(self).paths@.len() <= bits,
    ensures final(self).paths@.len() == bits, forall|i: int| 0 <= i < old(self).paths@.len() ==> final(self).paths@[i] == old(self).paths@[i],
        forall|i: int| old(self).paths@.len() <= i < bits ==> (#[trigger] final(self).paths@[i]) is None,
        old(self).paths@.len() == bits ==> final(self).paths@ =~= old(self).paths@,
%loop Cursor::fill_empty 0
    invariant old(self).paths@.len() <= __i0 <= __end0, __end0 == bits, self.paths@.len() == __i0,
        forall|i: int| 0 <= i < old(self).paths@.len() ==> self.paths@[i] == old(self).paths@[i],
        forall|i: int| old(self).paths@.len() <= i < __i0 ==> (#[trigger] self.paths@[i]) is None,
    decreases __end0 - __i0
%fn build_path_step params art,path,params
    requires *path == pth(*art), params.key_biti <= params.path_len, small(params.key_bits, params.path_len as int), 1 <= params.path_len <= u32::MAX, wfl(Some(*art), params.key_biti as int, params.path_len as int),
    ensures step_post(*art, params.key_bits, params.key_biti as int, params.path_len as int, res.paths@, res.next, okvs(res.kvs)),
%loop build_path_step 0
    invariant params.key_biti <= __i0 <= __end0, __end0 == params.path_len, cur_paths@.len() == __i0 - params.key_biti,
        forall|m: int| 0 <= m < cur_paths@.len() ==> #[trigger] cur_paths@[m] == path.paths@[params.key_biti + m],
    decreases __end0 - __i0
%loop build_path_step 1
    invariant params.key_biti <= __i1 <= __end1, __end1 == params.path_len, cur_paths@.len() == __i1 - params.key_biti,
        forall|m: int| 0 <= m < cur_paths@.len() ==> #[trigger] cur_paths@[m] == path.paths@[params.key_biti + m],
        key_bits == shr(params.key_bits, __i1 as int), hsh_bits == shr(path.hash.0, __i1 as int),
        diff(path.hash.0, params.key_bits, params.key_biti as int, params.path_len as int) == diff(path.hash.0, params.key_bits, __i1 as int, params.path_len as int),
    ensures __i1 == params.path_len,
    decreases __end1 - __i1
%loopstart build_path_step 1
    if __i1 < __end1 { lemma_shift(params.key_bits, __i1 as int); lemma_shift(path.hash.0, __i1 as int); }
%loop build_path_step 2
    invariant i < __i2 <= __end2, __end2 == params.path_len, cur_paths@.len() == __i2 - params.key_biti,
        cur_paths@[i - params.key_biti] == Some(*art),
        forall|m: int| 0 <= m < i - params.key_biti ==> #[trigger] cur_paths@[m] == path.paths@[params.key_biti + m],
        forall|m: int| i - params.key_biti < m < cur_paths@.len() ==> (#[trigger] cur_paths@[m]) is None,
    decreases __end2 - __i2
%entry build_path_step
    lemma_eq_bits(path.hash.0, params.key_bits, params.key_biti as int, params.path_len as int);
    lemma_diff(path.hash.0, params.key_bits, params.key_biti as int, params.path_len as int);
%fn build_path_rec params path_len,key_hash,cur_art,cursor
    requires 1 <= path_len <= u32::MAX, old(cursor).paths@.len() <= path_len, small(key_hash.0, path_len as int), wfl(Some(*cur_art), old(cursor).paths@.len() as int, path_len as int),
    ensures rec_post(Some(*cur_art), key_hash.0, path_len as int, old(cursor).paths@, final(cursor).paths@, okvs(res)),
    decreases path_len - old(cursor).paths@.len()
%closure build_path_rec 0 "(art: &Art<Rc<Path<K, V>>>, path: Rc<Path<K, V>>) -> (r: ObsRes<K, V>)"
    requires *path == pth(*art), key_biti <= path_len, small(key_bits, path_len as int), 1 <= path_len <= u32::MAX, wfl(Some(*art), key_biti as int, path_len as int),
    ensures step_post(*art, key_bits, key_biti as int, path_len as int, r.paths@, r.next, okvs(r.kvs)),
%before build_path_rec append 0
    assert((cursor.paths@ + res.paths@).skip(cursor.paths@.len() as int) =~= res.paths@);
%after build_path_rec append 0
    let b = old(cursor).paths@;
    assert(cursor.paths@.take(b.len() as int) =~= b);
    walk_hint(*cur_art, key_hash.0, path_len as int, b, cursor.paths@, res.next, okvs(res.kvs));
%fn "Skiplist as FinMap::emp" params path_len,n
    requires 1 <= path_len <= u32::MAX,
    ensures res.wf(), res.path_len == path_len, forall|k: K| #[trigger] res.at(k) is None, res.fresh(),
%fn "Skiplist as FinMap::archive" params n
    ensures final(self).path_len == old(self).path_len, old(self).wf() ==> final(self).wf(), forall|k: K| #[trigger] final(self).at(k) == old(self).at(k),
        unused(old(self).head, 0, old(self).path_len as int, names_from(n, 0)) ==> final(self).fresh(),
%entry "Skiplist as FinMap::archive"
    if unused(old(self).head, 0, old(self).path_len as int, names_from(n, 0)) {
        assert forall|c: usize| unused(old(self).head, 0, old(self).path_len as int, #[trigger] names_from(n, c as int)) by { lemma_unused_less(old(self).head, 0, old(self).path_len as int, names_from(n, 0), names_from(n, c as int)); }
    }
%fn "Skiplist as FinMap::ext" params k,opv eq
    requires old(self).wf(), old(self).cntr < usize::MAX,
    ensures final(self).wf(), final(self).path_len == old(self).path_len, res == old(self).at(k), final(self).at(k) == opv,
        forall|k2: K| k2 != k ==> #[trigger] final(self).at(k2) == old(self).at(k2),
        old(self).fresh() ==> final(self).fresh() && final(self).stored_fresh(*old(self)),
%entry "Skiplist as FinMap::ext"
    lemma_small(hash_of(&k) as usize, self.path_len as int);
    lemma_look_nodup(self.head, hkey(k, self.path_len as int), 0, self.path_len as int);
%loop "Skiplist as FinMap::ext" 0
    invariant __i0 <= __v0@.len(), new_kvs@.len() == __i0, upd(__v0@.take(__i0 as int), new_kvs@, k, opv),
        found_key == (exists|m: int| 0 <= m < __i0 && (#[trigger] __v0@[m]).0 == k),
        found_key ==> exists|m: int| 0 <= m < __i0 && (#[trigger] __v0@[m]).0 == k && opv_old == Some(__v0@[m].1),
        !found_key ==> opv_old is None,
    decreases __v0@.len() - __i0
%after "Skiplist as FinMap::ext" fill_empty 0
    if old(self).head is None { lemma_routes_none(k_hash.0, self.path_len as int, cur.paths@); }
%afterloop "Skiplist as FinMap::ext" 0
    assert(__v0@.take(__v0@.len() as int) =~= __v0@);
    if !found_key { assert(new_kvs@ =~= __v0@); } else {
        let m = choose|m: int| 0 <= m < __v0@.len() && (#[trigger] __v0@[m]).0 == k && opv_old == Some(__v0@[m].1);
        lemma_kval_at(__v0@, m);
    }
%before "Skiplist as FinMap::ext" cell 0
    let n = self.path_len as int; let s = kvs_or(look(old(self).head, hkey(k, n), 0, n));
    assert(s == kvs_or(okvs(old_kvs)));
    if exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == k { } else { assert(new_path.kvs@ =~= s.push((k, opv))); lemma_kval_none(s, k); }
%after "Skiplist as FinMap::ext" cell 0
    lemma_ext(old(self).head, self.path_len as int, k, opv, __r);
    let nm = spec_name_pair(old(self).name, spec_name_of_usize(old(self).cntr)); let n = old(self).path_len as int;
    assert forall|d: usize| d > old(self).cntr implies !(#[trigger] names_from(old(self).name, d as int)).contains(nm)
        && (old(self).fresh() ==> unused(old(self).head, 0, n, names_from(old(self).name, d as int)) && unused(old(self).head, 0, n, iset![nm])) by {
        lemma_names(old(self).head, n, old(self).name, old(self).cntr, d);
    }
%fn "Skiplist as FinMap::rem" params k
    requires old(self).wf(), old(self).cntr < usize::MAX,
    ensures final(self).wf(), final(self).path_len == old(self).path_len, res == old(self).at(k), final(self).at(k) is None,
        forall|k2: K| k2 != k ==> #[trigger] final(self).at(k2) == old(self).at(k2),
        old(self).fresh() ==> final(self).fresh() && final(self).stored_fresh(*old(self)),
%fn "Skiplist as FinMap::put" params k,v
    requires old(self).wf(), old(self).cntr < usize::MAX,
    ensures final(self).wf(), final(self).path_len == old(self).path_len, final(self).at(k) == Some(v),
        forall|k2: K| k2 != k ==> #[trigger] final(self).at(k2) == old(self).at(k2),
        old(self).fresh() ==> final(self).fresh() && final(self).stored_fresh(*old(self)),
%fn "Skiplist as FinMap::get" params k eq
    requires self.wf(),
    ensures res == self.at(k),
%entry "Skiplist as FinMap::get"
    lemma_small(hash_of(&k) as usize, self.path_len as int);
    lemma_look_nodup(self.head, hkey(k, self.path_len as int), 0, self.path_len as int);
%loop "Skiplist as FinMap::get" 0
    invariant __i0 <= __v0@.len(), forall|m: int| 0 <= m < __i0 ==> (#[trigger] __v0@[m]).0 != k,
    decreases __v0@.len() - __i0
%loopstart "Skiplist as FinMap::get" 0
    if __i0 < __v0@.len() { lemma_kval_at(__v0@, __i0 as int); }
%afterloop "Skiplist as FinMap::get" 0
    lemma_kval_none(__v0@, k);
