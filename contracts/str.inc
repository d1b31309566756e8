// ---- trusted: text operations of std ------------------------------------------
pub trait VxEqStr { fn vx_eq_str(&self, l: &str) -> (r: bool); }
impl VxEqStr for str {
    #[verifier::external_body]
    fn vx_eq_str(&self, l: &str) -> (r: bool) ensures r <==> self@ == l@ { self == l }
}
impl VxEqStr for String {
    #[verifier::external_body]
    fn vx_eq_str(&self, l: &str) -> (r: bool) ensures r <==> self@ == l@ { self.as_str() == l }
}
#[verifier::external_body]
fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(),
        forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && (r@[k].0 == 0 <==> k == 0)
{ s.char_indices().collect() }
/// a pattern that is a set of characters
pub trait VxCharSet { spec fn has(&self, c: char) -> bool; }
impl VxCharSet for char { open spec fn has(&self, c: char) -> bool { *self == c } }
impl<const N: usize> VxCharSet for [char; N] { open spec fn has(&self, c: char) -> bool { exists|i: int| 0 <= i < N && #[trigger] self@[i] == c } }
pub open spec fn has_any<P: VxCharSet>(s: Seq<char>, p: P) -> bool { exists|k: int| 0 <= k < s.len() && p.has(#[trigger] s[k]) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub trait VxStr {
    fn vx_contains<P: VxCharSet>(&self, p: P) -> (r: bool);
    fn vx_starts_with(&self, p: &str) -> (r: bool);
    fn vx_to_string(&self) -> (r: String);
}
impl VxStr for str {
    #[verifier::external_body]
    fn vx_contains<P: VxCharSet>(&self, p: P) -> (r: bool) ensures r <==> has_any(self@, p) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r <==> starts(self@, p@) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { self.to_string() }
}
impl VxStr for String {
    #[verifier::external_body]
    fn vx_contains<P: VxCharSet>(&self, p: P) -> (r: bool) ensures r <==> has_any(self@, p) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r <==> starts(self@, p@) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { self.to_string() }
}
/// the parts of `s` between the separators; the last of at most `n` parts is what remains
pub open spec fn vx_parts(s: Seq<char>, c: char, n: nat) -> Seq<Seq<char>>
    decreases s.len()
{
    if n == 0 { seq![] }
    else if n == 1 || !s.contains(c) { seq![s] }
    else { match s.index_of_first(c) { Some(i) => if 0 <= i < s.len() { seq![s.take(i)] + vx_parts(s.skip(i + 1), c, (n - 1) as nat) } else { seq![s] }, None => seq![s] } }
}
#[verifier::external_body]
pub struct VxSplit<'a> { it: std::str::Split<'a, char> }
impl<'a> View for VxSplit<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> VxSplit<'a> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { self.it.next() }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>) ensures r@ == vx_parts(s@, c, s@.len() + 1) { unimplemented!() }
#[verifier::external_body]
fn vx_splitn<'a>(s: &'a str, n: usize, c: char) -> (r: VxSplit<'a>) ensures r@ == vx_parts(s@, c, n as nat) { unimplemented!() }
/// len() of a text is its length in UTF-8 (and the ordinary len of other things)
pub trait VxLen { fn vx_len(&self) -> (r: usize); }
impl VxLen for str {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == encode_utf8(self@).len(), r <= 0x3fff_ffff_ffff_ffff { self.len() }
}
impl VxLen for String {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == encode_utf8(self@).len(), r <= 0x3fff_ffff_ffff_ffff { self.len() }
}
// no 64-bit machine has a vector of 2^62 bytes or more
impl VxLen for [u8] {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x3fff_ffff_ffff_ffff { self.len() }
}
impl VxLen for Vec<u8> {
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x3fff_ffff_ffff_ffff { self.len() }
}
//@ method len .vx_len
//@ method char_indices vx_char_indices
//@ method contains .vx_contains
//@ method starts_with .vx_starts_with
//@ method to_string .vx_to_string
//@ method split vx_split
//@ method splitn vx_splitn
