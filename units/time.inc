// ---- time (trusted stand-ins): an instant and a duration are numbers of nanoseconds
pub mod time_model {
use super::*;
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Instant { t: u64 }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Duration { d: u64 }
/// the largest instant the system can represent
pub uninterp spec fn max_instant() -> int;
pub open spec fn far() -> int { 60int * 60 * 24 * 365 * 30 * 1_000_000_000 }
pub open spec fn max_duration() -> int { 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1 }
impl Duration {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Duration) -> (r: Duration) ensures r == if self.ns() <= o.ns() { self } else { o } { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Duration) -> (r: Duration) ensures r == if o.ns() >= self.ns() { o } else { self } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_micros(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(s: u64) -> (r: Duration) ensures r.ns() == s { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.ns() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.ns() / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_micros(&self) -> (r: u128) ensures r == self.ns() / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures r.ns() == if self.ns() >= o.ns() { self.ns() - o.ns() } else { 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Duration) -> (r: Duration) ensures r.ns() == if self.ns() + o.ns() < max_duration() { self.ns() + o.ns() } else { max_duration() } { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: u32) -> (r: Duration) ensures r.ns() == if self.ns() * o < max_duration() { self.ns() * o } else { max_duration() } { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>) ensures r is Some == (self.ns() >= o.ns()), r is Some ==> r->0.ns() == self.ns() - o.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: Duration) -> (r: Option<Duration>) ensures r is Some == (self.ns() + o.ns() <= max_duration()), r is Some ==> r->0.ns() == self.ns() + o.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == self.ns() { unimplemented!() }
}
pub broadcast axiom fn ns_bounds(d: Duration) ensures 0 <= #[trigger] d.ns() < 0x1_0000_0000_0000_0000 * 1_000_000_000;
pub broadcast axiom fn ns_ext(d: Duration, e: Duration) ensures #[trigger] d.ns() == #[trigger] e.ns() ==> d == e;
impl Instant {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == if self.ns() >= o.ns() { self.ns() - o.ns() } else { 0 } { unimplemented!() }
    /// saturates too
    #[verifier::external_body]
    pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == if self.ns() >= o.ns() { self.ns() - o.ns() } else { 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<Instant>)
        ensures r == if self.ns() + d.ns() <= max_instant() { Some(after(*self, d)) } else { None::<Instant> } { unimplemented!() }
}
impl Instant {
    #[verifier::external_body]
    pub fn max(self, o: Instant) -> (r: Instant) ensures r.ns() == if o.ns() >= self.ns() { o.ns() } else { self.ns() }, r == self || r == o { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Instant) -> (r: Instant) ensures r.ns() == if self.ns() <= o.ns() { self.ns() } else { o.ns() }, r == self || r == o { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, d: Duration) -> (r: Option<Instant>) ensures r is Some ==> r->0.ns() == self.ns() - d.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_duration_since(&self, o: Instant) -> (r: Option<Duration>) ensures r is Some == (self.ns() >= o.ns()), r is Some ==> r->0.ns() == self.ns() - o.ns() { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.ns() == o.ns() }
}
impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, o: &Instant) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<std::cmp::Ordering> { cmp_int(self.ns(), o.ns()) }
}
impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> (r: Option<std::cmp::Ordering>) { unimplemented!() }
}
pub open spec fn cmp_int(a: int, b: int) -> Option<std::cmp::Ordering> {
    if a < b { Some(std::cmp::Ordering::Less) } else if a == b { Some(std::cmp::Ordering::Equal) } else { Some(std::cmp::Ordering::Greater) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() }
}
impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, o: &Duration) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<std::cmp::Ordering> { cmp_int(self.ns(), o.ns()) }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> (r: Option<std::cmp::Ordering>) { unimplemented!() }
}
/// `Instant - Instant` saturates
impl vstd::std_specs::ops::SubSpecImpl for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Instant) -> bool { true }
    open spec fn sub_spec(self, o: Instant) -> Duration { since(self, o) }
}
pub uninterp spec fn since(a: Instant, b: Instant) -> Duration;
pub broadcast axiom fn since_ns(a: Instant, b: Instant) ensures (#[trigger] since(a, b)).ns() == if a.ns() >= b.ns() { a.ns() - b.ns() } else { 0 };
impl std::ops::Sub for Instant {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, o: Instant) -> (r: Duration) { unimplemented!() }
}
/// `Instant + Duration` panics when it is not representable
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { self.ns() + d.ns() <= max_instant() }
    open spec fn add_spec(self, d: Duration) -> Instant { after(self, d) }
}
pub uninterp spec fn after(a: Instant, d: Duration) -> Instant;
pub broadcast axiom fn after_ns(a: Instant, d: Duration) requires a.ns() + d.ns() <= max_instant() ensures (#[trigger] after(a, d)).ns() == a.ns() + d.ns();
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant) { unimplemented!() }
}
/// `Instant - Duration` panics when it is not representable: it is a moment of the past here
impl vstd::std_specs::ops::SubSpecImpl<Duration> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, d: Duration) -> bool { true }
    open spec fn sub_spec(self, d: Duration) -> Instant { before(self, d) }
}
pub uninterp spec fn before(a: Instant, d: Duration) -> Instant;
pub broadcast axiom fn before_ns(a: Instant, d: Duration) ensures (#[trigger] before(a, d)).ns() == a.ns() - d.ns();
impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn sub(self, d: Duration) -> (r: Instant) { unimplemented!() }
}
// arithmetic of durations panics on overflow
pub uninterp spec fn of_ns(n: int) -> Duration;
pub broadcast axiom fn of_ns_ns(n: int) requires 0 <= n <= max_duration() ensures (#[trigger] of_ns(n)).ns() == n;
impl vstd::std_specs::ops::AddSpecImpl for Duration {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { self.ns() + d.ns() <= max_duration() }
    open spec fn add_spec(self, d: Duration) -> Duration { of_ns(self.ns() + d.ns()) }
}
impl std::ops::Add for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Duration) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl for Duration {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, d: Duration) -> bool { self.ns() >= d.ns() }
    open spec fn sub_spec(self, d: Duration) -> Duration { of_ns(self.ns() - d.ns()) }
}
impl std::ops::Sub for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, d: Duration) -> (r: Duration) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<u32> for Duration {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, d: u32) -> bool { self.ns() * d <= max_duration() }
    open spec fn mul_spec(self, d: u32) -> Duration { of_ns(self.ns() * d) }
}
impl std::ops::Mul<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn mul(self, d: u32) -> (r: Duration) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<u32> for Duration {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, d: u32) -> bool { d != 0 }
    open spec fn div_spec(self, d: u32) -> Duration { of_ns(self.ns() / d as int) }
}
impl std::ops::Div<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn div(self, d: u32) -> (r: Duration) { unimplemented!() }
}
#[verifier::external_body]
pub fn __duration_max() -> (r: Duration) ensures r.ns() == max_duration() { unimplemented!() }
pub uninterp spec fn far_future() -> Duration;
pub broadcast axiom fn far_ns() ensures #[trigger] far_future().ns() == far();
/// when the waiting ends; a time that cannot be represented is decades away
pub open spec fn deadline_of(now: Instant, d: Duration) -> Instant { if now.ns() + d.ns() <= max_instant() { after(now, d) } else { after(now, far_future()) } }
pub broadcast group times { ns_bounds, ns_ext, since_ns, after_ns, before_ns, of_ns_ns, far_ns }
} // time_model
pub use time_model::*;
