%module trie src/trie.rs
%head
%raw
/// std's map, assumed to be a map of its keys' values
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: std::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
}
/// iterating over a std map gives its bindings, in an unspecified order
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MapIter<K, V> { p: std::marker::PhantomData<(K, V)> }
impl<K, V> MapIter<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: HashMap<K, V>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Self) ensures n >= self@.dom().len() ==> r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Self) ensures n == 0 ==> r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&(K, V)) -> bool>(self, f: F) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: HashMap<K, V>) -> (r: Self) ensures r@ == self@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vclone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: MapIter<K, V>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: MapIter<K, V>) ensures r@ == old(self)@, final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == mget(old(self)@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vextend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vclone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// the order a map's bindings are listed in: each of them once
pub uninterp spec fn listing<K, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub open spec fn lists<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k)
}
#[verifier::external_body]
pub broadcast proof fn axiom_listing<K, V>(m: HashMap<K, V>)
    ensures lists(#[trigger] listing(m), m@)
{}
impl<K, V> VIdx for HashMap<K, V> {
    type Item = (K, V);
    open spec fn vseq(&self) -> Seq<(K, V)> { listing(*self) }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vget(&self, i: usize) -> (r: &(K, V)) { unimplemented!() }
}
/// a hasher is a state machine whose steps are functions of the state and the hashed value (assumed of std and of
/// the `Hash` of keys and values)
pub struct DefaultHasher { pub s: u64 }
pub uninterp spec fn hasher_new() -> DefaultHasher;
pub uninterp spec fn hasher_end(h: DefaultHasher) -> u64;
impl DefaultHasher {
    #[verifier::external_body]
    pub fn new() -> (r: DefaultHasher) ensures r == hasher_new() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == hasher_end(*self) { unimplemented!() }
}
pub open spec fn hash_of<T>(x: T) -> u64 { hasher_end(hasher_step(hasher_new(), x)) }
#[verifier::external_body]
pub fn drop<T>(x: T) { unimplemented!() }
%type HashVal
#[derive(PartialEq, Eq, Structural)]
%type Bits
#[derive(PartialEq, Eq, Structural)]
%type Trie
%type TrieLeaf
%type TrieBin
%raw
pub open spec fn mget<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// what a lookup of k under hash h has to find
pub open spec fn lookup<K, V>(t: Trie<K, V>, h: usize, k: K) -> Option<V>
    decreases t
{
    match t {
        Trie::Empty => None,
        Trie::Leaf(l) => mget(l.map@, k),
        Trie::Bin(b) => if h & 1 == 0 { lookup(*b.left.v, h >> 1, k) } else { lookup(*b.right.v, h >> 1, k) },
    }
}
/// the same trie: leaves hold the same bindings
pub open spec fn same<K, V>(a: Trie<K, V>, b: Trie<K, V>) -> bool {
    a == b || (a is Leaf && b is Leaf && a->Leaf_0.hash == b->Leaf_0.hash && a->Leaf_0.map@ == b->Leaf_0.map@)
}
/// a hash of a map that does not depend on the order its bindings are listed in
pub open spec fn hash_sum<K, V>(s: Seq<(K, V)>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { hash_sum(s.drop_last()) + hash_of(&s.last()) as usize }
}
pub open spec fn map_hash<K, V>(m: Map<K, V>) -> int { hash_sum(choose|s: Seq<(K, V)>| lists(s, m)) % 0x1_0000_0000_0000_0000 }
pub proof fn lemma_sum_remove<K, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len()
    ensures hash_sum(s) == hash_sum(s.remove(i)) + hash_of(&s[i]) as usize
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); } else {
        lemma_sum_remove(s.drop_last(), i);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
pub proof fn lemma_lists<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, m: Map<K, V>)
    requires lists(s, m), lists(t, m)
    ensures hash_sum(s) == hash_sum(t)
    decreases s.len()
{
    if s.len() == 0 {
        if t.len() > 0 { assert(m.contains_key(t[0].0)); }
    } else {
        let x = s.last(); let n = s.len() - 1;
        assert(m.contains_key(s[n].0));
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == x.0;
        assert(m.contains_key(t[i].0) && m[t[i].0] == t[i].1);
        assert(t[i] == x);
        let m2 = m.remove(x.0); let s2 = s.drop_last(); let t2 = t.remove(i);
        assert(lists(s2, m2)) by {
            assert forall|j: int| 0 <= j < s2.len() implies m2.contains_key((#[trigger] s2[j]).0) && m2[s2[j].0] == s2[j].1 by { assert(s2[j] == s[j]); assert(s[j].0 != s[n].0); }
            assert forall|k: K| #[trigger] m2.contains_key(k) implies exists|j: int| 0 <= j < s2.len() && (#[trigger] s2[j]).0 == k by {
                assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; assert(s2[j].0 == k);
            }
        }
        assert(lists(t2, m2)) by {
            assert forall|j: int| 0 <= j < t2.len() implies m2.contains_key((#[trigger] t2[j]).0) && m2[t2[j].0] == t2[j].1 by {
                let jj = if j < i { j } else { j + 1 }; assert(t2[j] == t[jj]); assert(t[jj].0 != t[i].0);
            }
            assert forall|j: int, l: int| 0 <= j < l < t2.len() implies (#[trigger] t2[j]).0 != (#[trigger] t2[l]).0 by {
                let jj = if j < i { j } else { j + 1 }; let ll = if l < i { l } else { l + 1 }; assert(t[jj].0 != t[ll].0);
            }
            assert forall|k: K| #[trigger] m2.contains_key(k) implies exists|j: int| 0 <= j < t2.len() && (#[trigger] t2[j]).0 == k by {
                assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k;
                let jj = if j < i { j } else { j - 1 }; assert(j != i); assert(t2[jj].0 == k);
            }
        }
        lemma_lists(s2, t2, m2); lemma_sum_remove(t, i);
    }
}
/// what the code adds up is the hash of the map
pub proof fn lemma_map_hash<K, V>(s: Seq<(K, V)>, m: Map<K, V>)
    requires lists(s, m)
    ensures map_hash(m) == hash_sum(s) % 0x1_0000_0000_0000_0000
{
    lemma_lists(s, choose|s: Seq<(K, V)>| lists(s, m), m);
}
pub proof fn lemma_hash_step(a: int, h: int)
    ensures (a % 0x1_0000_0000_0000_0000 + h) % 0x1_0000_0000_0000_0000 == (a + h) % 0x1_0000_0000_0000_0000
{
    let m = 0x1_0000_0000_0000_0000; let q = a / m;
    assert(a == q * m + a % m) by(nonlinear_arith) requires q == a / m, m == 0x1_0000_0000_0000_0000;
    assert(a + h == q * m + (a % m + h));
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, a % m + h, m);
    assert(m * q + (a % m + h) == a + h) by(nonlinear_arith) requires a + h == q * m + (a % m + h);
}
pub open spec fn mask_of(n: int) -> usize { if 0 <= n < 64 { ((1usize << (n as usize)) - 1) as usize } else { usize::MAX } }
pub proof fn lemma_mask(m: usize, i: usize)
    requires m == mask_of(i as int), i < usize::MAX
    ensures (m << 1) | 1 == mask_of(i + 1)
{
    if i < 63 {
        assert(1usize << i >= 1) by(bit_vector) requires i < 63;
        assert(((sub(1usize << i, 1)) << 1) | 1 == sub(1usize << ((i + 1) as usize), 1)) by(bit_vector) requires i < 63;
        assert(1usize << ((i + 1) as usize) >= 1) by(bit_vector) requires i < 63;
    } else if i == 63 {
        assert(1usize << 63usize >= 1) by(bit_vector);
        assert(((sub(1usize << 63usize, 1)) << 1) | 1 == 0xffff_ffff_ffff_ffffusize) by(bit_vector);
    } else { assert((0xffff_ffff_ffff_ffffusize << 1) | 1 == 0xffff_ffff_ffff_ffffusize) by(bit_vector); }
}
/// which half a key goes to
pub open spec fn low<K>(k: K, len: int) -> bool { hash_of(&k) & (1u64 << ((len + 1) as u64)) == 0 }
/// a map after the first n of the listed bindings that belong to its half went into it
pub open spec fn gets<K, V>(r: Map<K, V>, m: Map<K, V>, s: Seq<(K, V)>, n: int, zero: bool, len: int) -> bool {
    forall|k: K| #[trigger] mget(r, k) == (if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k && low(k, len) == zero {
        Some(s[choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k && low(k, len) == zero].1) } else { mget(m, k) })
}
pub proof fn lemma_gets<K, V>(r: Map<K, V>, m: Map<K, V>, s: Seq<(K, V)>, n: int, zero: bool, len: int, mm: Map<K, V>)
    requires gets(r, m, s, n, zero, len), lists(s, mm), 0 <= n < s.len()
    ensures low(s[n].0, len) == zero ==> gets(r.insert(s[n].0, s[n].1), m, s, n + 1, zero, len), low(s[n].0, len) != zero ==> gets(r, m, s, n + 1, zero, len)
{
    let x = s[n]; let r2 = if low(x.0, len) == zero { r.insert(x.0, x.1) } else { r };
    assert forall|k: K| #[trigger] mget(r2, k) == (if exists|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0 == k && low(k, len) == zero {
        Some(s[choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0 == k && low(k, len) == zero].1) } else { mget(m, k) }) by {
        assert(mget(r, k) == mget(r, k));
        if low(k, len) == zero {
            if k == x.0 { assert(s[n].0 == k); }
            else if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k && low(k, len) == zero {
                let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k && low(k, len) == zero;
                assert(s[i].0 == k);
            } else {
                assert forall|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0 == k implies false by {}
            }
        }
    }
}
pub proof fn lemma_gets_all<K, V>(r: Map<K, V>, m: Map<K, V>, s: Seq<(K, V)>, zero: bool, len: int, mm: Map<K, V>)
    requires gets(r, m, s, s.len() as int, zero, len), lists(s, mm)
    ensures forall|k: K| #[trigger] mget(r, k) == (if mm.contains_key(k) && low(k, len) == zero { Some(mm[k]) } else { mget(m, k) })
{
    assert forall|k: K| #[trigger] mget(r, k) == (if mm.contains_key(k) && low(k, len) == zero { Some(mm[k]) } else { mget(m, k) }) by {
        if mm.contains_key(k) && low(k, len) == zero {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            assert(s[i].0 == k);
        }
    }
}
%fn make_mask
    requires 1 <= len,
    ensures res == mask_of(len as int),
%loop make_mask 0
    invariant __i0 <= __end0, __end0 == len, mask == mask_of(__i0 as int)
    decreases __end0 - __i0
%loopstart make_mask 0
    if __i0 < __end0 { lemma_mask(mask, __i0); }
%entry make_mask
    assert(1usize << 0usize == 1) by(bit_vector);
%fn my_hash
    ensures res == hash_of(obj),
%fn Trie::find params t,h,k
    ensures res == lookup(*t, h.0, *k),
    decreases *t
%fn Trie::hash_map params map
    ensures res.0 == map_hash(map@),
%entry Trie::hash_map
    broadcast use axiom_listing;
    lemma_map_hash(listing(*map), map@);
%loop Trie::hash_map 0
    invariant __i0 <= listing(*map).len(), __v0 == map, sum == hash_sum(listing(*map).take(__i0 as int)) % 0x1_0000_0000_0000_0000,
    decreases listing(*map).len() - __i0
%loopstart Trie::hash_map 0
    if __i0 < listing(*map).len() {
        let t = listing(*map).take(__i0 + 1); let u = listing(*map).take(__i0 as int);
        assert(t.drop_last() =~= u);
        lemma_hash_step(hash_sum(u), hash_of(&t.last()) as usize as int);
    }
%afterloop Trie::hash_map 0
    assert(listing(*map).take(listing(*map).len() as int) =~= listing(*map));
%fn Trie::split_map params map,bits,map0,map1
    requires 1 <= bits.len < 63, forall|k: K| #[trigger] map@.contains_key(k) ==> (mask_of(bits.len as int) as u64) & hash_of(&k) == bits.bits as u64,
    ensures forall|k: K| #[trigger] mget(res.0@, k) == (if map@.contains_key(k) && low(k, bits.len as int) { Some(map@[k]) } else { mget(map0@, k) }),
        forall|k: K| #[trigger] mget(res.1@, k) == (if map@.contains_key(k) && !low(k, bits.len as int) { Some(map@[k]) } else { mget(map1@, k) }),
%entry Trie::split_map
    broadcast use axiom_listing;
%loop Trie::split_map 0
    invariant __i0 <= listing(map).len(), __v0 == map, mask == mask_of(bits.len as int) as u64,
        gets(map0@, map0__0@, listing(map), __i0 as int, true, bits.len as int), gets(map1@, map1__0@, listing(map), __i0 as int, false, bits.len as int),
    decreases listing(map).len() - __i0
%loopstart Trie::split_map 0
    if __i0 < listing(map).len() {
        lemma_gets(map0@, map0__0@, listing(map), __i0 as int, true, bits.len as int, map@);
        lemma_gets(map1@, map1__0@, listing(map), __i0 as int, false, bits.len as int, map@);
        let n = bits.len; 
    }
%afterloop Trie::split_map 0
    lemma_gets_all(map0@, map0__0@, listing(map), true, bits.len as int, map@);
    lemma_gets_all(map1@, map1__0@, listing(map), false, bits.len as int, map@);
%fn Trie::empty
    ensures res is Empty,
%fn Trie::from_hashmap params hm
    ensures forall|h: usize, k: K| #[trigger] lookup(res, h, k) == mget(hm@, k), res is Leaf && res->Leaf_0.hash.0 == map_hash(hm@),
%fn Trie::union params lt,rt,n
    requires lt is Empty || rt is Empty,
    ensures lt is Empty ==> same(res, rt), rt is Empty ==> same(res, lt),
%fn Trie::union_rec params lt,rt,bits,n
    requires lt is Empty || rt is Empty,
    ensures lt is Empty ==> same(res, rt), rt is Empty ==> same(res, lt),
    decreases 0int
%fn "TrieLeaf as Hash::hash" params h
    ensures *final(h) == hasher_step(*old(h), self.hash),
%fn "TrieLeaf as PartialEq::eq" params other
    ensures res ==> self.hash == other.hash, self.hash == other.hash && self.map@ == other.map@ ==> res,
