//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index
//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state
//@ include ../agg.rs
//@ include ../aggu.rs
#[verifier::external_body] pub struct ConstParameterValues { x: u8 }
#[verifier::external_body] pub struct ConstantMetricF64 { x: u8 }
#[verifier::external_body] pub struct ConstantMetricU64 { x: u8 }
impl ConstantMetricF64 {
    pub uninterp spec fn val(&self, v: &ConstParameterValues) -> real;
    pub uninterp spec fn has(&self, v: &ConstParameterValues) -> bool;
    #[verifier::external_body]
    pub fn get_value(&self, v: &ConstParameterValues) -> (r: Result<R, E_>) ensures r is Ok == self.has(v), r is Ok ==> r->Ok_0@ == self.val(v) { unimplemented!() }
}
impl ConstantMetricU64 {
    pub uninterp spec fn val(&self, v: &ConstParameterValues) -> u64;
    pub uninterp spec fn has(&self, v: &ConstParameterValues) -> bool;
    #[verifier::external_body]
    pub fn get_value(&self, v: &ConstParameterValues) -> (r: Result<u64, E_>) ensures r is Ok == self.has(v), r is Ok ==> r->Ok_0 == self.val(v) { unimplemented!() }
}
#[verifier::external_body] pub struct ScenarioIndex { x: u8 }
//@ include ../simple_metric.rs
spec fn all_has(ms: Seq<MetricF64>, n: &Network, s: &State) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).has(n, s) }
spec fn uall_has(ms: Seq<MetricU64>, n: &Network, s: &State) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).has(n, s) }
spec fn svals(ms: Seq<SimpleMetricF64>, v: &SimpleParameterValues) -> Seq<real> { ms.map_values(|m: SimpleMetricF64| m.val(v)) }
spec fn suvals(ms: Seq<SimpleMetricU64>, v: &SimpleParameterValues) -> Seq<u64> { ms.map_values(|m: SimpleMetricU64| m.val(v)) }
spec fn cvals(ms: Seq<ConstantMetricF64>, v: &ConstParameterValues) -> Seq<real> { ms.map_values(|m: ConstantMetricF64| m.val(v)) }
spec fn cuvals(ms: Seq<ConstantMetricU64>, v: &ConstParameterValues) -> Seq<u64> { ms.map_values(|m: ConstantMetricU64| m.val(v)) }
//@ extract pywr-core/src/parameters/aggregated.rs struct AggregatedParameter
//@| drop meta
//@ extract pywr-core/src/parameters/aggregated.rs impl GeneralBeforeParameter<f64> for AggregatedParameter<MetricF64>::before
//@| selfty AggregatedParameter<MetricF64>
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok ==> r->Ok_0@ == self.agg_func.of(mvals(self.metrics@, ctx.network, ctx.state)),
//@|     (all_has(self.metrics@, ctx.network, ctx.state)) ==> r is Ok
//@| acctype 0 R
//@| loop 0 invariant
//@|     rviews(_acc0@) =~= mvals(self.metrics@, ctx.network, ctx.state).take(_i0 as int)
//@| at loop0.after proof { assert(mvals(self.metrics@, ctx.network, ctx.state).take(mvals(self.metrics@, ctx.network, ctx.state).len() as int) =~= mvals(self.metrics@, ctx.network, ctx.state)); }
//@ extract pywr-core/src/parameters/aggregated.rs impl GeneralAfterParameter<f64> for AggregatedParameter<MetricF64>::after
//@| selfty AggregatedParameter<MetricF64>
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok ==> r->Ok_0@ == self.agg_func.of(mvals(self.metrics@, ctx.network, ctx.state)),
//@|     (all_has(self.metrics@, ctx.network, ctx.state)) ==> r is Ok
//@| acctype 0 R
//@| loop 0 invariant
//@|     rviews(_acc0@) =~= mvals(self.metrics@, ctx.network, ctx.state).take(_i0 as int)
//@| at loop0.after proof { assert(mvals(self.metrics@, ctx.network, ctx.state).take(mvals(self.metrics@, ctx.network, ctx.state).len() as int) =~= mvals(self.metrics@, ctx.network, ctx.state)); }
//@ extract pywr-core/src/parameters/aggregated.rs impl SimpleParameter<f64> for AggregatedParameter<SimpleMetricF64>::compute
//@| selfty AggregatedParameter<SimpleMetricF64>
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok ==> r->Ok_0@ == self.agg_func.of(svals(self.metrics@, ctx.values)),
//@|     (forall|i: int| 0 <= i < self.metrics@.len() ==> (#[trigger] self.metrics@[i]).has(ctx.values)) ==> r is Ok
//@| acctype 0 R
//@| loop 0 invariant
//@|     rviews(_acc0@) =~= svals(self.metrics@, ctx.values).take(_i0 as int)
//@| at loop0.after proof { assert(svals(self.metrics@, ctx.values).take(svals(self.metrics@, ctx.values).len() as int) =~= svals(self.metrics@, ctx.values)); }
//@ extract pywr-core/src/parameters/aggregated.rs impl ConstParameter<f64> for AggregatedParameter<ConstantMetricF64>::compute
//@| selfty AggregatedParameter<ConstantMetricF64>
//@| dropparam _internal_state _scenario_index
//@| ensures
//@|     r is Ok ==> r->Ok_0@ == self.agg_func.of(cvals(self.metrics@, values)),
//@|     (forall|i: int| 0 <= i < self.metrics@.len() ==> (#[trigger] self.metrics@[i]).has(values)) ==> r is Ok
//@| acctype 0 R
//@| loop 0 invariant
//@|     rviews(_acc0@) =~= cvals(self.metrics@, values).take(_i0 as int)
//@| at loop0.after proof { assert(cvals(self.metrics@, values).take(cvals(self.metrics@, values).len() as int) =~= cvals(self.metrics@, values)); }
//@ extract pywr-core/src/parameters/aggregated_index.rs struct AggregatedIndexParameter
//@| drop meta
//@ extract pywr-core/src/parameters/aggregated_index.rs impl GeneralBeforeParameter<u64> for AggregatedIndexParameter<MetricU64>::before
//@| selfty AggregatedIndexParameter<MetricU64>
//@| dropparam _internal_state
//@| requires
//@|     self.agg_func.fits(uvals(self.metrics@, ctx.network, ctx.state))
//@| ensures
//@|     r is Ok ==> r->Ok_0 == self.agg_func.of(uvals(self.metrics@, ctx.network, ctx.state)),
//@|     (uall_has(self.metrics@, ctx.network, ctx.state)) ==> r is Ok
//@| acctype 0 u64
//@| loop 0 invariant
//@|     _acc0@ =~= uvals(self.metrics@, ctx.network, ctx.state).take(_i0 as int)
//@| at loop0.after proof { assert(uvals(self.metrics@, ctx.network, ctx.state).take(uvals(self.metrics@, ctx.network, ctx.state).len() as int) =~= uvals(self.metrics@, ctx.network, ctx.state)); }
//@ extract pywr-core/src/parameters/aggregated_index.rs impl GeneralAfterParameter<u64> for AggregatedIndexParameter<MetricU64>::after
//@| selfty AggregatedIndexParameter<MetricU64>
//@| dropparam _internal_state
//@| requires
//@|     self.agg_func.fits(uvals(self.metrics@, ctx.network, ctx.state))
//@| ensures
//@|     r is Ok ==> r->Ok_0 == self.agg_func.of(uvals(self.metrics@, ctx.network, ctx.state)),
//@|     (uall_has(self.metrics@, ctx.network, ctx.state)) ==> r is Ok
//@| acctype 0 u64
//@| loop 0 invariant
//@|     _acc0@ =~= uvals(self.metrics@, ctx.network, ctx.state).take(_i0 as int)
//@| at loop0.after proof { assert(uvals(self.metrics@, ctx.network, ctx.state).take(uvals(self.metrics@, ctx.network, ctx.state).len() as int) =~= uvals(self.metrics@, ctx.network, ctx.state)); }
//@ extract pywr-core/src/parameters/aggregated_index.rs impl SimpleParameter<u64> for AggregatedIndexParameter<SimpleMetricU64>::compute
//@| selfty AggregatedIndexParameter<SimpleMetricU64>
//@| dropparam _internal_state
//@| requires
//@|     self.agg_func.fits(suvals(self.metrics@, ctx.values))
//@| ensures
//@|     r is Ok ==> r->Ok_0 == self.agg_func.of(suvals(self.metrics@, ctx.values)),
//@|     (forall|i: int| 0 <= i < self.metrics@.len() ==> (#[trigger] self.metrics@[i]).has(ctx.values)) ==> r is Ok
//@| acctype 0 u64
//@| loop 0 invariant
//@|     _acc0@ =~= suvals(self.metrics@, ctx.values).take(_i0 as int)
//@| at loop0.after proof { assert(suvals(self.metrics@, ctx.values).take(suvals(self.metrics@, ctx.values).len() as int) =~= suvals(self.metrics@, ctx.values)); }
//@ extract pywr-core/src/parameters/aggregated_index.rs impl ConstParameter<u64> for AggregatedIndexParameter<ConstantMetricU64>::compute
//@| selfty AggregatedIndexParameter<ConstantMetricU64>
//@| dropparam _internal_state _scenario_index
//@| requires
//@|     self.agg_func.fits(cuvals(self.metrics@, values))
//@| ensures
//@|     r is Ok ==> r->Ok_0 == self.agg_func.of(cuvals(self.metrics@, values)),
//@|     (forall|i: int| 0 <= i < self.metrics@.len() ==> (#[trigger] self.metrics@[i]).has(values)) ==> r is Ok
//@| acctype 0 u64
//@| loop 0 invariant
//@|     _acc0@ =~= cuvals(self.metrics@, values).take(_i0 as int)
//@| at loop0.after proof { assert(cuvals(self.metrics@, values).take(cuvals(self.metrics@, values).len() as int) =~= cuvals(self.metrics@, values)); }
} // verus!
fn main() {}
