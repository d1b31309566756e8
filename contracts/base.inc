use std::str::Utf8Error;
use std::io::Error as IoError;
use vstd::utf8::*;
verus! {
pub open spec fn be16(v: u16) -> Seq<u8> {
    seq![(v / 256) as u8, (v % 256) as u8]
}
pub open spec fn un16(a: u8, b: u8) -> u16 { (a as u16 * 256 + b as u16) as u16 }
pub open spec fn be32(v: u32) -> Seq<u8> {
    seq![(v / 16777216) as u8, ((v / 65536) % 256) as u8, ((v / 256) % 256) as u8, (v % 256) as u8]
}
pub open spec fn un32(a: u8, b: u8, c: u8, d: u8) -> u32 {
    (a as u32 * 16777216 + b as u32 * 65536 + c as u32 * 256 + d as u32) as u32
}

trait VxBe16: Sized { fn vx_to_be_bytes(self) -> [u8; 2]; }
impl VxBe16 for u16 {
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) ensures r@ == be16(self) { self.to_be_bytes() }
}
trait VxBe32: Sized { fn vx_to_be_bytes(self) -> [u8; 4]; }
impl VxBe32 for u32 {
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) ensures r@ == be32(self) { self.to_be_bytes() }
}
#[verifier::external_body]
fn vx_u16_from_be(x: [u8; 2]) -> (r: u16) ensures r == un16(x@[0], x@[1]) { u16::from_be_bytes(x) }
#[verifier::external_body]
fn vx_u32_from_be(x: [u8; 4]) -> (r: u32) ensures r == un32(x@[0], x@[1], x@[2], x@[3]) { u32::from_be_bytes(x) }
//@ method to_be_bytes .vx_to_be_bytes
//@ path u16::from_be_bytes vx_u16_from_be
//@ path u32::from_be_bytes vx_u32_from_be

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [std::string::FromUtf8Error::utf8_error] (e: &std::string::FromUtf8Error) -> (r: std::str::Utf8Error);
pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@),
            r is Ok ==> r->Ok_0@ == decode_utf8(v@);
pub assume_specification [std::str::from_utf8] (v: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(v@),
            r is Ok ==> r->Ok_0@ == decode_utf8(v@);
pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
pub assume_specification [std::string::String::len] (s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len();
#[verifier::external_body]
fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
//@ method to_vec &vx_to_vec
// A slice of bytes never spans more than isize::MAX bytes (Rust reference, slice layout).
#[verifier::external_body]
proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX {}
} // verus!
