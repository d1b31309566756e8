#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
//@ include time.inc
verus! {
//@ include types.inc
//@ include errors.inc
//@ include inflightfns.inc
fn main(){}
}
