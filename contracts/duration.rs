//@ extract pywr-core/src/timestep.rs const SECS_IN_DAY
//@ extract pywr-core/src/timestep.rs struct PywrDuration
//@| derive Clone Copy
//@| pub
impl PywrDuration {
    pub open spec fn ns(&self) -> int { self.0.ns() }
    pub open spec fn days(&self) -> real { (self.ns() as real) / (86400 * SEC()) as real }
}
/// derived by the compiler
impl PartialEqSpecImpl for PywrDuration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PywrDuration) -> bool { self.ns() == o.ns() } }
impl PartialEq for PywrDuration { #[verifier::external_body] fn eq(&self, o: &PywrDuration) -> (r: bool) { unimplemented!() } }
//@ extract pywr-core/src/timestep.rs impl PywrDuration::fractional_days
//@| ensures
//@|     r@ == self.days()
//@| at fn.top
//@|     proof { let a = self.0.ns() as real; let b = SEC() as real; let c = 86400real; assert((a / b) / c == a / (b * c)) by (nonlinear_arith) requires b == 1000000000real, c == 86400real; }
/// a multiple of a day has an integral number of days and conversely
proof fn lemma_whole(n: int)
    ensures ({ let d = (n as real) / ((86400 * SEC()) as real); let f = d.floor();
        (n % (86400 * SEC()) == 0) == (d == f as real) && (d == f as real ==> f * 86400 * SEC() == n && f == n / (86400 * SEC())) })
{
    let k = 86400 * SEC(); let d = (n as real) / (k as real); let f = d.floor(); let q = n / k;
    assert(n == k * q + n % k) by (nonlinear_arith) requires q == n / k, k > 0;
    assert(d * (k as real) == n as real) by (nonlinear_arith) requires d == (n as real) / (k as real), k > 0;
    assert(q as real <= d < (q + 1) as real) by (nonlinear_arith) requires d * (k as real) == n as real, n == k * q + n % k, 0 <= n % k < k, k > 0;
    assert(f == q);
    if d == f as real { assert(f * 86400 * SEC() == f * k) by (nonlinear_arith) requires k == 86400 * SEC(); assert(f * k == n) by (nonlinear_arith) requires d * (k as real) == n as real, d == f as real; }
    if n % k == 0 { assert(d == q as real) by (nonlinear_arith) requires d * (k as real) == n as real, n == k * q, k > 0; }
}
