#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
//@ include time.inc
verus! {
//@ include types.inc
//@ include errors.inc
//@ include pqfns.inc
//@ include inflightfns.inc
//@ include csid.inc
//@ include enginetypes.inc
//@ include ctors.inc
//@ include enginefns.inc
//@ include enginepkt.inc
//@ include enginetick.inc
//@ include engineio.inc
//@ include enginecmd.inc
//@ include noio.inc
fn main(){}
}
