// std::collections::HashMap with keys String (by their characters) or usize
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
// a key: what of it counts, and what a look-up is done with
pub trait VKey: Sized {
    type KV;
    type Q: ?Sized;
    spec fn kv(self) -> Self::KV;
    spec fn qv(q: &Self::Q) -> Self::KV;
}
impl VKey for String { type KV = Seq<char>; type Q = str; open spec fn kv(self) -> Seq<char> { self@ } open spec fn qv(q: &str) -> Seq<char> { q@ } }
impl VKey for usize { type KV = usize; type Q = usize; open spec fn kv(self) -> usize { self } open spec fn qv(q: &usize) -> usize { *q } }
// its contents
pub uninterp spec fn hmap<K: VKey, V>(h: HashMap<K, V>) -> Map<K::KV, V>;
pub open spec fn smap<V>(h: HashMap<String, V>) -> Map<Seq<char>, V> { hmap::<String, V>(h) }
pub open spec fn imap<V>(h: HashMap<usize, V>) -> Map<usize, V> { hmap::<usize, V>(h) }
impl<K: VKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures hmap(r) == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures hmap(*final(self)) == hmap(*old(self)).insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K::Q) -> (r: Option<&V>)
        ensures match r { Some(v) => hmap(*self).dom().contains(K::qv(k)) && *v == hmap(*self)[K::qv(k)], None => !hmap(*self).dom().contains(K::qv(k)) } { unimplemented!() }
    // m[k] where the key has to be there, and where a missing key may abort the run
    #[verifier::external_body] pub fn vat(&self, k: &K::Q) -> (r: &V) requires hmap(*self).dom().contains(K::qv(k)) ensures *r == hmap(*self)[K::qv(k)] { unimplemented!() }
    #[verifier::external_body] pub fn vat_p(&self, k: &K::Q) -> (r: &V) ensures hmap(*self).dom().contains(K::qv(k)), *r == hmap(*self)[K::qv(k)] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K::Q) -> (r: bool) ensures r == hmap(*self).dom().contains(K::qv(k)) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
    // in some order, every entry once
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&K, &V)>)
        ensures forall|i: int| 0 <= i < r.len() ==> hmap(*self).dom().contains((#[trigger] r[i]).0.kv()) && *r[i].1 == hmap(*self)[r[i].0.kv()],
            forall|k: K::KV| #[trigger] hmap(*self).dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.kv() == k,
            forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.kv() != (#[trigger] r[j]).0.kv() { unimplemented!() }
}
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// no collection outgrows the address space
pub axiom fn ax_map_len<K: VKey, V>(h: HashMap<K, V>) ensures hmap(h).dom().len() < usize::MAX / 2;
