// combinators of the standard library without closures, as std documents them
verus! {
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None::<T> });
pub assume_specification<T, U>[Option::<T>::and](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None::<U> });
pub assume_specification<T, U>[Option::<T>::zip](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(T, U)> });
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T>[core::mem::replace](o: &mut T, v: T) -> (r: T)
    ensures r == *old(o), *final(o) == v;
pub assume_specification<T>[bool::then_some](b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None::<T> });
pub assume_specification<T, E>[Result::<T, E>::unwrap_or](a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U>[Result::<T, E>::and](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    ensures r == (match a { Ok(_) => b, Err(e) => Err::<U, E>(e) });
pub assume_specification[u8::abs_diff](a: u8, b: u8) -> (r: u8)
    ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[u16::abs_diff](a: u16, b: u16) -> (r: u16)
    ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });
}
