pub open spec fn DAYNS() -> int { 86400 * SEC() }
/// days from a fixed origin to 1 January of year y
pub uninterp spec fn year0(y: int) -> int;
#[verifier::external_body] pub broadcast proof fn axiom_year0(y: int) ensures #[trigger] year0(y) == year0(y - 1) + ylen(y - 1) {}
pub open spec fn daynum(y: int, m: int, d: int) -> int { year0(y) + before_month(y, m) + d - 1 }
impl DateTime {
    /// fraction of the day that has passed
    pub open spec fn tod(&self) -> real { (self.since_midnight() as real) / (DAYNS() as real) }
    /// not in the first or last year of the supported calendar
    pub open spec fn has_room(&self) -> bool { -9998 <= self.y() <= 9997 }
    /// the instant is the day number and the time of day
    #[verifier::external_body] pub broadcast proof fn axiom_ns(x: DateTime) ensures #[trigger] x.ns() == daynum(x.y(), x.m(), x.dd()) * DAYNS() + x.since_midnight() {}
    #[verifier::external_body] pub fn time(&self) -> (r: DateTime) ensures r.hh() == self.hh(), r.mi() == self.mi(), r.ss() == self.ss() { unimplemented!() }
    #[verifier::external_body] pub fn first_of_month(self) -> (r: DateTime) ensures r.y() == self.y(), r.m() == self.m(), r.dd() == 1, r.since_midnight() == self.since_midnight() { unimplemented!() }
    #[verifier::external_body] pub fn first_of_year(self) -> (r: DateTime) ensures r.y() == self.y(), r.m() == 1, r.dd() == 1, r.since_midnight() == self.since_midnight() { unimplemented!() }
    #[verifier::external_body] pub fn last_of_month(self) -> (r: DateTime) ensures r.y() == self.y(), r.m() == self.m(), r.dd() == dim(self.y(), self.m()), r.since_midnight() == self.since_midnight() { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(&self, s: CalSpan) -> (r: Option<DateTime>)
        ensures
            -9998 <= self.y() <= 9998 && -12 <= s.mo() <= 12 && -31 <= s.dy() <= 31 ==> r is Some,
            self.y() <= 9998 && 0 <= s.mo() <= 12 && 0 <= s.dy() <= 31 ==> r is Some,
            s.mo() == 0 && s.dy() >= 0 && self.ns() + s.dy() * DAYNS() <= dt_max() ==> r is Some,
            r is Some && s.mo() == 0 ==> r->Some_0.ns() == self.ns() + s.dy() * DAYNS(),
            r is Some && s.dy() == 0 && s.mo() == 12 ==> r->Some_0.y() == self.y() + 1 && r->Some_0.m() == self.m() && r->Some_0.since_midnight() == self.since_midnight(),
            r is Some && s.dy() == 0 && s.mo() == 1 ==> r->Some_0.y() == (if self.m() == 12 { self.y() + 1 } else { self.y() }) && r->Some_0.m() == (if self.m() == 12 { 1 } else { self.m() + 1 }) && r->Some_0.since_midnight() == self.since_midnight(),
            r is Some && s.dy() == 0 && s.mo() == -1 ==> r->Some_0.y() == (if self.m() == 1 { self.y() - 1 } else { self.y() }) && r->Some_0.m() == (if self.m() == 1 { 12 } else { self.m() - 1 }) && r->Some_0.since_midnight() == self.since_midnight(),
            r is Some && s.mo() == 0 ==> r->Some_0.since_midnight() == self.since_midnight() && r->Some_0.wf() && r->Some_0.tod() == self.tod(),
            r is Some && s.mo() == 0 && s.dy() == 1 ==> (if self.dd() < dim(self.y(), self.m()) { r->Some_0.y() == self.y() && r->Some_0.m() == self.m() && r->Some_0.dd() == self.dd() + 1 }
                else { r->Some_0.dd() == 1 && r->Some_0.y() == (if self.m() == 12 { self.y() + 1 } else { self.y() }) && r->Some_0.m() == (if self.m() == 12 { 1 } else { self.m() + 1 }) }),
    { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct CalSpan { x: u8 }
impl CalSpan { pub uninterp spec fn mo(&self) -> int; pub uninterp spec fn dy(&self) -> int; }
impl NegSpecImpl for CalSpan { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> CalSpan { arbitrary() } }
impl core::ops::Neg for CalSpan { type Output = CalSpan; #[verifier::external_body] fn neg(self) -> (r: CalSpan) ensures r.mo() == -self.mo(), r.dy() == -self.dy() { unimplemented!() } }
pub trait ToSpan: Sized { fn years(self) -> CalSpan; fn months(self) -> CalSpan; fn days(self) -> CalSpan; }
impl ToSpan for i64 {
    #[verifier::external_body] fn years(self) -> (r: CalSpan) ensures r.mo() == 12 * self, r.dy() == 0 { unimplemented!() }
    #[verifier::external_body] fn months(self) -> (r: CalSpan) ensures r.mo() == self, r.dy() == 0 { unimplemented!() }
    #[verifier::external_body] fn days(self) -> (r: CalSpan) ensures r.mo() == 0, r.dy() == self { unimplemented!() }
}
impl ToSpan for i32 {
    #[verifier::external_body] fn years(self) -> (r: CalSpan) ensures r.mo() == 12 * self, r.dy() == 0 { unimplemented!() }
    #[verifier::external_body] fn months(self) -> (r: CalSpan) ensures r.mo() == self, r.dy() == 0 { unimplemented!() }
    #[verifier::external_body] fn days(self) -> (r: CalSpan) ensures r.mo() == 0, r.dy() == self { unimplemented!() }
}
pub proof fn lemma_tod(d: DateTime)
    requires d.wf(), 0 <= d.nano() < SEC()
    ensures 0real <= d.tod() < 1real, 0 <= d.since_midnight() < DAYNS(), d.tod() * (DAYNS() as real) == d.since_midnight() as real,
        ((d.since_midnight() as real) / (SEC() as real)) / 86400real == d.tod()
{
    let a = d.since_midnight(); let b = DAYNS();
    assert(0 <= a < b) by (nonlinear_arith) requires a == ((d.hh() * 60 + d.mi()) * 60 + d.ss()) * SEC() + d.nano(), b == 86400 * SEC(), 0 <= d.nano() < SEC(), 0 <= d.hh() < 24, 0 <= d.mi() < 60, 0 <= d.ss() < 60, SEC() == 1000000000;
    assert(0real <= (a as real) / (b as real) < 1real && ((a as real) / (b as real)) * (b as real) == a as real) by (nonlinear_arith) requires 0 <= a < b;
    let ar = a as real; let sc = SEC() as real; assert((ar / sc) / 86400real == ar / (sc * 86400real)) by (nonlinear_arith) requires sc == 1000000000real;
    assert(sc * 86400real == b as real);
}

/// instants on whole days `a` and `b`, n days apart, and `d`, k days and its time of day after `a`
pub proof fn lemma_ratio(d: DateTime, a: DateTime, b: DateTime, x0: int, k: int, n: int)
    requires d.wf(), 0 <= d.nano() < SEC(), n > 0, a.ns() == x0 * DAYNS(), b.ns() == (x0 + n) * DAYNS(), d.ns() == (x0 + k) * DAYNS() + d.since_midnight()
    ensures ((b.ns() - a.ns()) as real) / (SEC() as real) > 0real,
        (((d.ns() - a.ns()) as real) / (SEC() as real)) / (((b.ns() - a.ns()) as real) / (SEC() as real)) == (k as real + d.tod()) / (n as real)
{
    lemma_tod(d); let kk = DAYNS(); assert((x0 + n) * kk == x0 * kk + n * kk && (x0 + k) * kk == x0 * kk + k * kk) by (nonlinear_arith);
    let sm = d.since_midnight() as real; let dn = DAYNS() as real; let sc = SEC() as real; let t = d.tod(); let kr = k as real; let nr = n as real;
    assert(DAYNS() == 86400000000000); let dd = DAYNS(); assert((k * dd) as real == kr * dn && (n * dd) as real == nr * dn) by (nonlinear_arith) requires dd == 86400000000000, dn == dd as real, kr == k as real, nr == n as real;
    let x = (kr * dn + sm) / sc; let y = (nr * dn) / sc;
    assert(y > 0real) by (nonlinear_arith) requires y == (nr * dn) / sc, nr >= 1real, dn > 0real, sc > 0real;
    assert(x * sc == kr * dn + t * dn) by (nonlinear_arith) requires x == (kr * dn + sm) / sc, t * dn == sm, sc > 0real;
    assert(y * sc == nr * dn) by (nonlinear_arith) requires y == (nr * dn) / sc, sc > 0real;
    let q = (kr + t) / nr;
    assert(q * nr == kr + t) by (nonlinear_arith) requires q == (kr + t) / nr, nr >= 1real;
    assert(x * sc == (q * y) * sc) by (nonlinear_arith) requires x * sc == kr * dn + t * dn, y * sc == nr * dn, q * nr == kr + t;
    assert(x == q * y) by (nonlinear_arith) requires x * sc == (q * y) * sc, sc > 0real;
    assert(x / y == q) by (nonlinear_arith) requires x == q * y, y > 0real;
}
