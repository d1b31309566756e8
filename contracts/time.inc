verus! {
// ---- std::time, wrapped so that the operators of its types can carry contracts
#[verifier::external_body]
pub struct Duration { x: std::time::Duration }
#[verifier::external_body]
pub struct Instant { x: std::time::Instant }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { Duration { x: self.x } } }
impl Copy for Duration {}
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { Instant { x: self.x } } }
impl Copy for Instant {}
/// length of a Duration in nanoseconds
pub uninterp spec fn ns(x: Duration) -> nat;
pub uninterp spec fn dur(n: nat) -> Duration;
/// position of an Instant on the clock in nanoseconds, counted from the earliest one there is
pub uninterp spec fn at(x: Instant) -> int;
pub uninterp spec fn inst(n: int) -> Instant;
pub open spec fn ns_max() -> nat { 18446744073709551615999999999 }
/// std::time::Instant counts i64 seconds and nanoseconds on Linux
pub open spec fn at_max() -> int { 18446744073709551615999999999 }
pub broadcast axiom fn axiom_dur(n: nat) requires n <= ns_max() ensures #[trigger] ns(dur(n)) == n;
pub broadcast axiom fn axiom_ns(x: Duration) ensures #[trigger] ns(x) <= ns_max(), dur(ns(x)) == x;
pub broadcast axiom fn axiom_inst(n: int) requires 0 <= n <= at_max() ensures #[trigger] at(inst(n)) == n;
pub broadcast axiom fn axiom_at(x: Instant) ensures 0 <= #[trigger] at(x) <= at_max(), inst(at(x)) == x;
pub broadcast group group_time { axiom_dur, axiom_ns, axiom_inst, axiom_at }
impl PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { *self == *o }
}
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> bool { self.x == o.x } }
impl PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<Ordering> { Some(if at(*self) < at(*o) { Ordering::Less } else if at(*self) == at(*o) { Ordering::Equal } else { Ordering::Greater }) }
}
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Instant) -> Option<Ordering> { self.x.partial_cmp(&o.x) } }
impl PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { *self == *o }
}
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> bool { self.x == o.x } }
impl PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { Some(if ns(*self) < ns(*o) { Ordering::Less } else if ns(*self) == ns(*o) { Ordering::Equal } else { Ordering::Greater }) }
}
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> Option<Ordering> { self.x.partial_cmp(&o.x) } }
impl AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Duration) -> bool { at(self) + ns(o) <= at_max() }
    open spec fn add_spec(self, o: Duration) -> Instant { inst(at(self) + ns(o)) }
}
impl core::ops::Add<Duration> for Instant { type Output = Instant; #[verifier::external_body] fn add(self, o: Duration) -> Instant { Instant { x: self.x + o.x } } }
impl MulSpecImpl<u32> for Duration {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, k: u32) -> bool { ns(self) * k <= ns_max() }
    open spec fn mul_spec(self, k: u32) -> Duration { dur(ns(self) * (k as nat)) }
}
impl core::ops::Mul<u32> for Duration { type Output = Duration; #[verifier::external_body] fn mul(self, k: u32) -> Duration { Duration { x: self.x * k } } }
impl Instant {
    #[verifier::external_body]
    fn now() -> (r: Instant) ensures at(r) <= clock_end() { Instant { x: std::time::Instant::now() } }
    #[verifier::external_body]
    fn duration_since(&self, o: Instant) -> (r: Duration)
        ensures ns(r) == (if at(*self) >= at(o) { (at(*self) - at(o)) as nat } else { 0 })
    { Duration { x: self.x.duration_since(o.x) } }
}
#[verifier::external_body]
const fn vx_no_time() -> (r: Duration) ensures ns(r) == 0 { Duration { x: std::time::Duration::ZERO } }
impl Duration {
    exec const ZERO: Duration ensures ns(Self::ZERO) == 0 { vx_no_time() }
    #[verifier::external_body]
    fn from_secs(s: u64) -> (r: Duration) ensures ns(r) == s * 1000000000 { Duration { x: std::time::Duration::from_secs(s) } }
    #[verifier::external_body]
    fn from_millis(s: u64) -> (r: Duration) ensures ns(r) == s * 1000000 { Duration { x: std::time::Duration::from_millis(s) } }
    #[verifier::external_body]
    fn as_millis(&self) -> (r: u128) ensures r == ns(*self) / 1000000 { self.x.as_millis() }
}
/// the clock of the machine stays away from the end of its representation
pub open spec fn clock_end() -> int { at_max() - 100000000000000000000000000 }
/// the clock is monotonic: it does not run back behind a moment already read
#[verifier::external_body]
fn vx_now_after(Ghost(t): Ghost<int>) -> (r: Instant) ensures at(r) >= t, at(r) <= clock_end() { Instant { x: std::time::Instant::now() } }
}
