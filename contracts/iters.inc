/// iter().filter(f).count() (std: Iterator)
fn vx_count_if<T, F: Fn(&&T) -> bool>(v: &Vec<T>, f: F) -> (r: usize)
    requires forall|x: &&T| call_requires(f, (x,))
    ensures forall|g: spec_fn(T) -> bool| (forall|x: &&T, b: bool| call_ensures(f, (x,), b) ==> b == g(**x)) ==> r == (#[trigger] v@.filter(g)).len()
{
    let mut n: usize = 0;
    let mut i: usize = 0;
    proof { assert forall|g: spec_fn(T) -> bool| (#[trigger] v@.take(0).filter(g)).len() == 0 by { reveal(Seq::filter); } }
    while i < v.len()
        invariant i <= v.len(), n <= i, forall|x: &&T| call_requires(f, (x,)),
            forall|g: spec_fn(T) -> bool| (forall|x: &&T, b: bool| call_ensures(f, (x,), b) ==> b == g(**x)) ==> n == (#[trigger] v@.take(i as int).filter(g)).len()
        decreases v.len() - i
    {
        let ghost n0 = n;
        let x: &T = &v[i];
        if f(&x) { n = n + 1; }
        proof {
            assert forall|g: spec_fn(T) -> bool| (forall|x: &&T, b: bool| call_ensures(f, (x,), b) ==> b == g(**x)) implies n == (#[trigger] v@.take(i + 1).filter(g)).len() by {
                reveal(Seq::filter);
                assert(v@.take(i + 1).drop_last() =~= v@.take(i as int));
                assert(n0 == v@.take(i as int).filter(g).len());
            }
        }
        i = i + 1;
    }
    proof { assert(v@.take(i as int) =~= v@); }
    n
}
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_none_or](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures o is None ==> r, o is Some ==> call_ensures(f, (o->0,), r);
/// iter().all(f), iter().any(f) (std: Iterator)
fn vx_all_of<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: bool)
    requires forall|x: &T| call_requires(f, (x,))
    ensures forall|g: spec_fn(T) -> bool| (forall|x: &T, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == g(*x)) ==> r == #[trigger] v@.all(g)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), forall|x: &T| call_requires(f, (x,)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (& #[trigger] v[j],), true),
        decreases v.len() - i
    {
        if !f(&v[i]) { return false; }
        i = i + 1;
    }
    true
}
fn vx_any_of<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: bool)
    requires forall|x: &T| call_requires(f, (x,))
    ensures forall|g: spec_fn(T) -> bool| (forall|x: &T, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == g(*x)) ==> r == #[trigger] v@.any(g)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), forall|x: &T| call_requires(f, (x,)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (& #[trigger] v[j],), false),
        decreases v.len() - i
    {
        if f(&v[i]) { return true; }
        i = i + 1;
    }
    false
}
