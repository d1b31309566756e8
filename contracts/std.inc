use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::iter::IteratorSpec;
//@ include deque.inc
//@ include map.inc
//@ include btree.inc
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vecdeque::group_vec_dequeue_axioms, vstd::std_specs::btree::group_btree_axioms};
}
