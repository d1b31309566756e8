// ---- trusted: operations of std on byte vectors and slices ---------------------
pub trait VxItems { type Item; spec fn items(&self) -> Seq<Self::Item>; }
impl<T> VxItems for Vec<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxItems for [T; N] { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } }
pub trait VxExtend<T> { fn vx_extend<I: VxItems<Item = T>>(&mut self, i: I); }
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend<I: VxItems<Item = T>>(&mut self, i: I) ensures final(self)@ == old(self)@ + i.items() { unimplemented!() }
}
//@ method extend .vx_extend
pub trait VxGet<I> { type Out: ?Sized; fn vx_get(&self, i: I) -> (r: Option<&Self::Out>); }
impl VxGet<usize> for [u8] {
    type Out = u8;
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: Option<&u8>) ensures r is Some <==> i < self@.len(), r is Some ==> *r->0 == self@[i as int] { self.get(i) }
}
impl VxGet<std::ops::Range<usize>> for [u8] {
    type Out = [u8];
    #[verifier::external_body]
    fn vx_get(&self, i: std::ops::Range<usize>) -> (r: Option<&[u8]>)
        ensures r is Some <==> i.start <= i.end <= self@.len(), r is Some ==> r->0@ == self@.subrange(i.start as int, i.end as int)
    { self.get(i) }
}
impl VxGet<std::ops::RangeFrom<usize>> for [u8] {
    type Out = [u8];
    #[verifier::external_body]
    fn vx_get(&self, i: std::ops::RangeFrom<usize>) -> (r: Option<&[u8]>)
        ensures r is Some <==> i.start <= self@.len(), r is Some ==> r->0@ == self@.subrange(i.start as int, self@.len() as int)
    { self.get(i) }
}
//@ method get .vx_get
pub trait VxFirst { fn vx_first(&self) -> (r: Option<&u8>); }
impl VxFirst for [u8] {
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&u8>) ensures r is Some <==> self@.len() > 0, r is Some ==> *r->0 == self@[0] { self.first() }
}
pub trait VxSub {
    spec fn all(&self) -> Seq<u8>;
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.all().len()
        ensures r@ == self.all().subrange(a as int, b as int), r@.len() == b - a;
    fn vx_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.all().len()
        ensures r@ == self.all().subrange(a as int, self.all().len() as int), r@.len() == self.all().len() - a, r@.len() <= isize::MAX;
}
impl VxSub for [u8] {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
}
impl VxSub for Vec<u8> {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
}
pub trait VxTryInto { fn vx_try_into<const N: usize>(&self) -> (r: Result<[u8; N], ()>); }
impl VxTryInto for [u8] {
    #[verifier::external_body]
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[u8; N], ()>) ensures r is Ok <==> self@.len() == N, r is Ok ==> r->Ok_0@ == self@ { unimplemented!() }
}
//@ opt subslice
// ---- optional values
pub trait VxOptRef<T> { fn vx_cloned(self) -> (r: Option<T>); }
impl<'a, T: Clone> VxOptRef<T> for Option<&'a T> {
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<T>) ensures match self { Some(x) => r == Some(*x), None => r is None } { self.cloned() }
}
pub trait VxOrEmpty<T> { fn vx_or_empty(self) -> (r: Vec<T>); }
impl<T> VxOrEmpty<T> for Option<Vec<T>> {
    #[verifier::external_body]
    fn vx_or_empty(self) -> (r: Vec<T>) ensures match self { Some(x) => r == x, None => r@.len() == 0 } { self.unwrap_or_default() }
}
//@ method cloned .vx_cloned
//@ method unwrap_or_default .vx_or_empty
