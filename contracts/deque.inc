use std::collections::VecDeque;
verus! {
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::front] (d: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { None => d@.len() == 0, Some(x) => d@.len() > 0 && *x == d@[0] };
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (d: &VecDeque<T, A>) -> (r: bool)
    ensures r == (d@.len() == 0);
}
