use std::collections::HashMap;
verus! {
//@ method clone .vx_clone
/// every value of `m` once, each with its key, in some order
spec fn listing<K, V>(m: Map<K, V>, ks: Seq<K>) -> bool {
    ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])) && forall|k: K| #[trigger] m.contains_key(k) ==> ks.contains(k)
}
/// std::collections::HashMap::values, as the values of a listing of the map
#[verifier::external_body]
fn vx_values<'a, V>(m: &'a HashMap<u16, V>) -> (r: Vec<&'a V>)
    ensures exists|ks: Seq<u16>| #[trigger] listing(m@, ks) && r@.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] r@[i] == m@[ks[i]]
{ m.values().collect() }
#[verifier::external_body]
fn vx_values_str<'a, V>(m: &'a HashMap<String, V>) -> (r: Vec<&'a V>)
    ensures r@.len() == m@.dom().len()
{ m.values().collect() }
/// String is a well-behaved hash key
axiom fn axiom_string_key()
    ensures vstd::std_specs::hash::obeys_key_model::<String>();
}
verus! {
#[verifier::external_body]
fn vx_get_mut<'a, V>(m: &'a mut HashMap<u16, V>, k: &u16) -> (r: Option<&'a mut V>)
    ensures match r {
        None => !old(m)@.contains_key(*k) && *final(m) == *old(m),
        Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
    }
{ m.get_mut(k) }
}
verus! {
/// the key `f` computes for `x`
uninterp spec fn vx_key<T, F: Fn(&T) -> u64>(f: F, x: T) -> u64;
/// slice::sort_by_key: the same elements, in the order of their keys
#[verifier::external_body]
fn vx_sort_by_key<T, F: Fn(&T) -> u64>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| #[trigger] call_requires(f, (x,))
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int| 0 <= i < final(v)@.len() ==> call_ensures(f, (&#[trigger] final(v)@[i],), vx_key(f, final(v)@[i])),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> vx_key(f, #[trigger] final(v)@[i]) <= vx_key(f, #[trigger] final(v)@[j])
{ v.sort_by_key(f) }
/// into_iter().map(f).collect()
#[verifier::external_body]
fn vx_map_all<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|x: T| #[trigger] call_requires(f, (x,))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i])
{ v.into_iter().map(f).collect() }
}
