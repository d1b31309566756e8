#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
verus! {
//@ include pqfns.inc
fn main(){}
}
