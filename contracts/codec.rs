#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include base.inc
verus! {
global size_of usize == 8;
//@ include str.inc
//@ include bytes.inc
//@ include vbi.inc
//@ include basefns.inc
//@ include text.inc
//@ include types.inc
//@ item src/mqtt_serde/parser/mod.rs ParseOk
//@ opt flat=parser
//@ opt flat=properties
//@ include propspec.inc
//@ include propfns.inc
//@ include here.inc
//@ include c03.inc
//@ include bits.inc
//@ include ctors.inc
//@ include ctors2.inc
//@ include frame.inc
//@ include cptype.inc
//@ include vpacket.inc
//@ include acks.inc
//@ include connack.inc
//@ include cells.inc
//@ include unsub.inc
//@ include subs.inc
//@ include publish.inc
//@ include connect.inc
//@ include toplevel.inc
//@ include stream.inc
//@ include leveled.inc
//@ include c09.inc
fn main(){}
}
