// ---------------------------------------------------------------- src/network/graph/building.rs: types
// constant of the build (GRAPH_DIM, default)
pub const SMALL_VEC_INLINE_SIZE: usize = 5;
@@item src/defaults.rs :: IS_USING_CH_LEVEL_SPEEDUP [mod=routing]
@@item src/defaults.rs :: MAX_BYTE_PER_CHUNK [mod=capacity]
@@item src/defaults.rs :: LEVEL [mod=network::nodes]
@@item src/network/graph/building.rs :: ProtoNode
@@item src/network/graph/building.rs :: ProtoEdge
@@item src/network/graph/building.rs :: ProtoShortcut
@@item src/network/graph/building.rs :: ProtoEdgeA
@@item src/network/graph/building.rs :: ProtoEdgeB
@@item src/network/graph/building.rs :: ProtoEdgeC
@@item src/network/graph/building.rs :: EdgeBuilder [map=parsing::Config>ParsingConfig]
@@item src/network/graph/building.rs :: NodeBuilder [map=parsing::Config>ParsingConfig]
@@item src/network/graph/building.rs :: GraphBuilder [map=parsing::Config>ParsingConfig]
// ---------------------------------------------------------------- std, assumed contracts
/// p rearranges n positions; q is its inverse
pub open spec fn is_perm(p: Seq<int>, q: Seq<int>, n: int) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i
}
pub trait KeyOrd: Sized { spec fn kle(self, o: Self) -> bool; }
pub struct Reverse<T>(pub T);
impl KeyOrd for usize { open spec fn kle(self, o: usize) -> bool { self <= o } }
impl KeyOrd for i64 { open spec fn kle(self, o: i64) -> bool { self <= o } }
impl KeyOrd for NodeIdx { open spec fn kle(self, o: NodeIdx) -> bool { self.0 <= o.0 } }
impl KeyOrd for Option<usize> { open spec fn kle(self, o: Option<usize>) -> bool { match (self, o) { (None, _) => true, (Some(_), None) => false, (Some(a), Some(b)) => a <= b } } }
impl<T: KeyOrd> KeyOrd for Reverse<T> { open spec fn kle(self, o: Reverse<T>) -> bool { o.0.kle(self.0) } }
impl<A: KeyOrd, B: KeyOrd> KeyOrd for (A, B) { open spec fn kle(self, o: (A, B)) -> bool { if self.0 == o.0 { self.1.kle(o.1) } else { self.0.kle(o.0) } } }
impl<A: KeyOrd, B: KeyOrd, C: KeyOrd> KeyOrd for (A, B, C) { open spec fn kle(self, o: (A, B, C)) -> bool { if self.0 == o.0 { (self.1, self.2).kle((o.1, o.2)) } else { self.0.kle(o.0) } } }
impl<A: KeyOrd, B: KeyOrd, C: KeyOrd, D: KeyOrd> KeyOrd for (A, B, C, D) { open spec fn kle(self, o: (A, B, C, D)) -> bool { if self.0 == o.0 { (self.1, self.2, self.3).kle((o.1, o.2, o.3)) } else { self.0.kle(o.0) } } }
pub open spec fn sorted_perm<T, K: KeyOrd>(p: Seq<int>, q: Seq<int>, a: Seq<T>, b: Seq<T>, k: Seq<K>) -> bool {
    &&& is_perm(p, q, a.len() as int) && b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] k[p[i]]).kle(#[trigger] k[p[j]])
}
/// sort_by_key: a rearrangement, ascending in the keys (assumed contract of std)
#[verifier::external_body]
pub fn sort_by_keys<T, K: KeyOrd>(v: &mut Vec<T>, keys: &Vec<K>)
    requires keys@.len() == old(v)@.len(),
    ensures exists|p: Seq<int>, q: Seq<int>| #[trigger] sorted_perm(p, q, old(v)@, final(v)@, keys@)
{ unimplemented!() }
/// dedup_by_key: drops elements whose key equals the one before; nothing to drop, nothing changed (assumed contract of std)
#[verifier::external_body]
pub fn dedup_by_keys<T, K>(v: &mut Vec<T>, keys: &Vec<K>)
    requires keys@.len() == old(v)@.len(),
    ensures (forall|i: int| 0 <= i < keys@.len() - 1 ==> #[trigger] keys@[i] != keys@[i + 1]) ==> final(v)@ == old(v)@,
        (exists|i: int| 0 <= i < keys@.len() - 1 && #[trigger] keys@[i] == keys@[i + 1]) ==> final(v)@.len() < old(v)@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_swap<T>(v: &mut Vec<T>, a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{ v.swap(a, b) }
#[verifier::external_body]
pub fn vec_sort(v: &mut Vec<i64>)
    ensures forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j], forall|x: i64| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
{ v.sort_unstable() }
pub open spec fn dedup_of(s: Seq<i64>) -> Seq<i64> decreases s.len() {
    if s.len() <= 1 { s } else if s[s.len() - 1] == s[s.len() - 2] { dedup_of(s.drop_last()) } else { dedup_of(s.drop_last()).push(s.last()) } }
#[verifier::external_body]
pub fn vec_dedup(v: &mut Vec<i64>) ensures final(v)@ == dedup_of(old(v)@) { v.dedup() }
pub fn splice_tail_rev<T>(v: &mut Vec<T>, at: usize) -> (r: Vec<T>)
    requires at <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, at as int), r@ == old(v)@.subrange(at as int, old(v)@.len() as int).reverse(),
{
    let mut r = Vec::new(); let ghost o = v@;
    while v.len() > at invariant at <= v@.len() <= o.len(), v@ == o.subrange(0, v@.len() as int), r@.len() == o.len() - v@.len(), forall|k: int| 0 <= k < r@.len() ==> r@[k] == o[o.len() - 1 - k] decreases v@.len()
    { r.push(v.pop().unwrap()); }
    proof { assert(r@ =~= o.subrange(at as int, o.len() as int).reverse()); }
    r
}
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn range_contains(v: &Vec<i64>, a: usize, b: usize, x: &i64) -> (r: bool) requires a <= b <= v@.len() ensures r == (exists|i: int| a <= i < b && #[trigger] v@[i] == *x) {
    let mut i = a;
    while i < b invariant a <= i <= b <= v@.len(), forall|k: int| a <= k < i ==> #[trigger] v@[k] != *x decreases b - i { if v[i] == *x { return true; } i = i + 1; }
    false
}
pub fn vec_copy<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ {
    let mut r = Vec::new(); let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), r@ == v@.subrange(0, i as int) decreases v@.len() - i { r.push(v[i]); i = i + 1; }
    proof { assert(r@ =~= v@); } r }
// std::mem::size_of of the field types: positive and small (assumed)
pub trait Small: Sized {}
impl Small for usize {}
impl Small for i64 {}
impl Small for F64 {}
impl Small for Option<usize> {}
impl Small for EdgeIdx {}
#[verifier::external_body]
pub fn size_of<T: Small>() -> (r: usize) ensures 1 <= r <= 64 { std::mem::size_of::<T>() }
