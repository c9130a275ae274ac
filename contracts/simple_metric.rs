// Assumed contracts for the metrics of "simple" parameters: partial functions of the simple values.
#[verifier::external_body] pub struct SimpleParameterValues { x: u8 }
#[verifier::external_body] pub struct SimpleMetricF64 { x: u8 }
#[verifier::external_body] pub struct SimpleMetricU64 { x: u8 }
impl SimpleMetricF64 {
    pub uninterp spec fn val(&self, v: &SimpleParameterValues) -> real;
    pub uninterp spec fn has(&self, v: &SimpleParameterValues) -> bool;
    #[verifier::external_body]
    pub fn get_value(&self, v: &SimpleParameterValues) -> (r: Result<R, E_>) ensures r is Ok == self.has(v), r is Ok ==> r->Ok_0@ == self.val(v) { unimplemented!() }
}
impl SimpleMetricU64 {
    pub uninterp spec fn val(&self, v: &SimpleParameterValues) -> u64;
    pub uninterp spec fn has(&self, v: &SimpleParameterValues) -> bool;
    #[verifier::external_body]
    pub fn get_value(&self, v: &SimpleParameterValues) -> (r: Result<u64, E_>) ensures r is Ok == self.has(v), r is Ok ==> r->Ok_0 == self.val(v) { unimplemented!() }
}
//@ extract pywr-core/src/parameters/mod.rs struct SimpleParameterContext
//@| keep timestep scenario_index values
//@| mapfield values: &'a SimpleParameterValues
