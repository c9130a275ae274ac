// Assumed contracts for time arithmetic of the `jiff` crate. An instant is an integer number of nanoseconds.
verus! {
pub uninterp spec fn dt_max() -> int;
pub open spec fn SEC() -> int { 1000000000 }
impl DateTime {
    pub uninterp spec fn ns(&self) -> int;
    pub uninterp spec fn nano(&self) -> int;
    /// nanoseconds since midnight
    pub open spec fn since_midnight(&self) -> int { ((self.hh() * 60 + self.mi()) * 60 + self.ss()) * SEC() + self.nano() }
    #[verifier::external_body] pub broadcast proof fn axiom_nano(x: DateTime) ensures 0 <= #[trigger] x.nano() < 1000000000, x.ns() <= dt_max() {}
    #[verifier::external_body] pub fn start_of_day(self) -> (r: DateTime)
        ensures r.y() == self.y(), r.m() == self.m(), r.dd() == self.dd(), r.since_midnight() == 0, r.ns() == self.ns() - self.since_midnight(), self.wf(), 0 <= self.nano() < SEC() { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(self, o: DateTime) -> (r: SignedDuration) ensures r.ns() == self.ns() - o.ns() { unimplemented!() }
}
impl PartialEqSpecImpl for DateTime { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DateTime) -> bool { self.ns() == o.ns() } }
impl PartialEq for DateTime { #[verifier::external_body] fn eq(&self, o: &DateTime) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for DateTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &DateTime) -> Option<Ordering> { if self.ns() < o.ns() { Some(Ordering::Less) } else if self.ns() == o.ns() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for DateTime { #[verifier::external_body] fn partial_cmp(&self, o: &DateTime) -> (r: Option<Ordering>) { unimplemented!() } }

#[verifier::external_body] #[derive(Clone, Copy)] pub struct SignedDuration { x: u8 }
impl SignedDuration {
    pub uninterp spec fn ns(&self) -> int;
    /// jiff panics on overflow: |hours| is bounded by the representable number of seconds
    #[verifier::external_body] pub fn from_hours(h: i64) -> (r: SignedDuration) requires -2562047788015215 <= h <= 2562047788015215 ensures r.ns() == h * 3600 * SEC() { unimplemented!() }
    #[verifier::external_body] pub fn from_mins(h: i64) -> (r: SignedDuration) requires -153722867280912930 <= h <= 153722867280912930 ensures r.ns() == h * 60 * SEC() { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(h: i64) -> (r: SignedDuration) ensures r.ns() == h * SEC() { unimplemented!() }
    #[verifier::external_body] pub fn as_secs_f64(&self) -> (r: R) ensures r@ == (self.ns() as real) / (SEC() as real) { unimplemented!() }
}
impl PartialEqSpecImpl for SignedDuration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SignedDuration) -> bool { self.ns() == o.ns() } }
impl PartialEq for SignedDuration { #[verifier::external_body] fn eq(&self, o: &SignedDuration) -> (r: bool) { unimplemented!() } }
impl AddSpecImpl<SignedDuration> for DateTime { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: SignedDuration) -> bool { self.ns() + o.ns() <= dt_max() } open spec fn add_spec(self, o: SignedDuration) -> DateTime { arbitrary() } }
impl core::ops::Add<SignedDuration> for DateTime { type Output = DateTime; #[verifier::external_body] fn add(self, o: SignedDuration) -> (r: DateTime) ensures r.ns() == self.ns() + o.ns() { unimplemented!() } }
}
