use std::collections::BTreeMap;
verus! {

pub open spec fn key_le<K: Ord>(a: K, b: K) -> bool { a.cmp_spec(&b) != Ordering::Greater }
pub open spec fn is_top<K: Ord>(s: Set<K>, k: K) -> bool { s.contains(k) && forall|j: K| #[trigger] s.contains(j) ==> key_le(j, k) }
pub open spec fn is_bottom<K: Ord>(s: Set<K>, k: K) -> bool { s.contains(k) && forall|j: K| #[trigger] s.contains(j) ==> key_le(k, j) }
/// the key type's comparison is a total order, as BTreeMap requires of its keys
pub open spec fn key_laws<K: Ord>() -> bool { vstd::laws_cmp::obeys_cmp::<K>() && vstd::std_specs::btree::key_obeys_cmp_spec::<K>() }
pub open spec fn ordered<K: Ord + Clone>() -> bool { key_laws::<K>() && forall|a: &K, b: K| #[trigger] call_ensures(K::clone, (a,), b) ==> *a == b }

// ---- std::collections::BTreeMap without a vstd specification
pub assume_specification<K: Ord, V, A: Clone + std::alloc::Allocator> [BTreeMap::<K, V, A>::last_key_value] (m: &BTreeMap<K, V, A>) -> (r: Option<(&K, &V)>)
    ensures key_laws::<K>() ==> match r { None => m@.dom() =~= Set::empty(), Some((k, v)) => is_top(m@.dom(), *k) && m@[*k] == *v };
pub assume_specification<K: Ord, V, A: Clone + std::alloc::Allocator> [BTreeMap::<K, V, A>::first_key_value] (m: &BTreeMap<K, V, A>) -> (r: Option<(&K, &V)>)
    ensures key_laws::<K>() ==> match r { None => m@.dom() =~= Set::empty(), Some((k, v)) => is_bottom(m@.dom(), *k) && m@[*k] == *v };
/// std::collections::btree_map::OccupiedEntry: a key that is present and the right to change or remove its value
pub struct VxOcc<'a, K: Ord + Clone, V> { map: &'a mut BTreeMap<K, V>, k: K }
#[verifier::external_body]
fn vx_last_entry<'a, K: Ord + Clone, V>(m: &'a mut BTreeMap<K, V>) -> (r: Option<VxOcc<'a, K, V>>)
    requires ordered::<K>()
    ensures match r {
        None => old(m)@.dom() =~= Set::empty() && *final(m) == *old(m),
        Some(o) => *o.map == *old(m) && is_top(old(m)@.dom(), o.k) && *final(o.map) == *final(m),
    }
{ let k = m.last_key_value()?.0.clone(); Some(VxOcc { map: m, k }) }
#[verifier::external_body]
fn vx_first_entry<'a, K: Ord + Clone, V>(m: &'a mut BTreeMap<K, V>) -> (r: Option<VxOcc<'a, K, V>>)
    requires ordered::<K>()
    ensures match r {
        None => old(m)@.dom() =~= Set::empty() && *final(m) == *old(m),
        Some(o) => *o.map == *old(m) && is_bottom(old(m)@.dom(), o.k) && *final(o.map) == *final(m),
    }
{ let k = m.first_key_value()?.0.clone(); Some(VxOcc { map: m, k }) }
#[verifier::external_body]
fn vx_present<'a, K: Ord + Clone, V>(m: &'a mut BTreeMap<K, V>, k: &K) -> (r: &'a mut V)
    requires ordered::<K>(), old(m)@.contains_key(*k)
    ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r))
{ m.get_mut(k).unwrap() }
/// std::collections::btree_map::Entry: any key and the right to put a value there
pub struct VxEntry<'a, K: Ord + Clone, V> { map: &'a mut BTreeMap<K, V>, k: K }
fn vx_entry<'a, K: Ord + Clone, V>(m: &'a mut BTreeMap<K, V>, k: K) -> (r: VxEntry<'a, K, V>)
    ensures *r.map == *old(m), r.k == k, *final(r.map) == *final(m)
{ VxEntry { map: m, k } }
impl<'a, K: Ord + Clone, T> VxEntry<'a, K, VecDeque<T>> {
    #[verifier::external_body]
    fn or_default(self) -> (r: &'a mut VecDeque<T>)
        requires ordered::<K>()
        ensures r@ == (if old(self.map)@.contains_key(self.k) { old(self.map)@[self.k]@ } else { Seq::<T>::empty() }), final(self.map)@ == old(self.map)@.insert(self.k, *final(r))
    { self.map.entry(self.k).or_default() }
}
impl<'a, K: Ord + Clone, V> VxOcc<'a, K, V> {
    fn key(&self) -> (r: &K) ensures *r == self.k { &self.k }
    fn get_mut(&mut self) -> (r: &mut V)
        requires ordered::<K>(), old(self).map@.contains_key(old(self).k)
        ensures *r == old(self).map@[old(self).k], final(self).map@ == old(self).map@.insert(old(self).k, *final(r)), final(self).k == old(self).k,
            *final(final(self).map) == *final(old(self).map)
    { vx_present(&mut *self.map, &self.k) }
    fn remove(self) -> (r: V)
        requires ordered::<K>(), old(self.map)@.contains_key(self.k)
        ensures final(self.map)@ == old(self.map)@.remove(self.k), r == old(self.map)@[self.k]
    { let x = self.map.remove(&self.k); x.unwrap() }
}
} // verus!
