#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
verus! {
global size_of usize == 8;
//@ include types.inc
//@ include propval.inc
//@ include vpacket.inc
//@ include willfold.inc
//@ include duality.inc
fn main(){}
}
