#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
//@ include time.inc
verus! {
use std::sync::Arc;
global size_of usize == 8;
//@ include tls.inc
fn main(){}
}
