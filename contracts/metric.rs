// Assumed contracts for metric look-ups. A metric read is a (partial) function of the network and the
// state; reading it changes neither.
verus! {
#[verifier::external_body] pub struct Network { x: u8 }
#[verifier::external_body] pub struct State { x: u8 }
#[verifier::external_body] pub struct MetricF64 { x: u8 }
#[verifier::external_body] pub struct MetricU64 { x: u8 }
impl MetricF64 {
    pub uninterp spec fn val(&self, n: &Network, s: &State) -> real;
    /// whether the look-up succeeds
    pub uninterp spec fn has(&self, n: &Network, s: &State) -> bool;
    #[verifier::external_body]
    pub fn get_value(&self, n: &Network, s: &State) -> (r: Result<R, E_>) ensures r is Ok == self.has(n, s), r is Ok ==> r->Ok_0@ == self.val(n, s) { unimplemented!() }
}
impl MetricU64 {
    pub uninterp spec fn val(&self, n: &Network, s: &State) -> u64;
    pub uninterp spec fn has(&self, n: &Network, s: &State) -> bool;
    #[verifier::external_body]
    pub fn get_value(&self, n: &Network, s: &State) -> (r: Result<u64, E_>) ensures r is Ok == self.has(n, s), r is Ok ==> r->Ok_0 == self.val(n, s) { unimplemented!() }
}
pub open spec fn mvals(ms: Seq<MetricF64>, n: &Network, s: &State) -> Seq<real> { ms.map_values(|m: MetricF64| m.val(n, s)) }
pub open spec fn uvals(ms: Seq<MetricU64>, n: &Network, s: &State) -> Seq<u64> { ms.map_values(|m: MetricU64| m.val(n, s)) }
}
