use vstd::prelude::*;
use vstd::std_specs::result::*;
use vstd::std_specs::option::*;

verus! {

// ---- trusted prelude: functions of std without a vstd specification ----------
#[verifier::external_body]
fn vx_string() -> (r: String) { String::new() }

#[verifier::external_body]
fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }

#[verifier::external_body]
fn vx_panic() -> !
    requires false,
{ panic!() }

/// `+= 1` on a counter that does not reach the end of its type (18446744073709551615 packets, 4294967295 repetitions)
#[verifier::external_body]
fn vx_count_up_u64(x: &mut u64) ensures *final(x) == *old(x) + 1 { *x += 1; }
#[verifier::external_body]
fn vx_count_up_u32(x: &mut u32) ensures *final(x) == *old(x) + 1 { *x += 1; }

/// a derived Clone yields an equal value
trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}

} // verus!
//@ include stdx.inc
