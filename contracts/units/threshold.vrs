//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
//@ mappath downcast_internal_state_ref => identity
//@ mappath downcast_internal_state_mut => identity
//@ mappath Box::new => identity

//@ float_const FLOAT_EQ_TOLERANCE
verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index

//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state

//@ extract pywr-core/src/lib.rs const FLOAT_EQ_TOLERANCE
//@ extract pywr-core/src/parameters/threshold.rs enum Predicate
impl Predicate {
    spec fn holds(&self, v: real, t: real) -> bool {
        match self {
            Self::LessThan => v < t, Self::GreaterThan => v > t, Self::EqualTo => rabs(v - t) <= FLOAT_EQ_TOLERANCE_s(),
            Self::LessThanOrEqualTo => v <= t, Self::GreaterThanOrEqualTo => v >= t,
        }
    }
}
//@ extract pywr-core/src/parameters/threshold.rs impl Predicate::apply
//@| ensures
//@|     r == self.holds(value@, threshold@)

//@ extract pywr-core/src/parameters/threshold.rs struct ThresholdParameter
//@| drop meta
//@ extract pywr-core/src/parameters/threshold.rs impl Parameter for ThresholdParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<bool>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 == Some(false)
//@ extract pywr-core/src/parameters/threshold.rs impl GeneralBeforeParameter for ThresholdParameter::before
//@| param internal_state: &mut bool
//@| ensures
//@|     self.ratchet && *old(internal_state) ==> r is Ok && r->Ok_0 == 1,
//@|     self.metric.has(ctx.network, ctx.state) && self.threshold.has(ctx.network, ctx.state) ==> r is Ok,
//@|     r is Ok && !(self.ratchet && *old(internal_state)) ==> r->Ok_0 == (if self.predicate.holds(self.metric.val(ctx.network, ctx.state), self.threshold.val(ctx.network, ctx.state)) { 1u64 } else { 0u64 }),
//@|     r is Ok ==> *final(internal_state) == (*old(internal_state) || r->Ok_0 == 1)

//@ extract pywr-core/src/parameters/multi_threshold.rs struct MultiThresholdParameter
//@| drop meta
impl MultiThresholdParameter {
    spec fn met(&self, i: int, n: &Network, s: &State) -> bool { self.predicate.holds(self.metric.val(n, s), self.thresholds@[i].val(n, s)) }
    /// the number of leading thresholds that are not met
    spec fn pos(&self, i: int, n: &Network, s: &State) -> int decreases self.thresholds@.len() - i {
        if i >= self.thresholds@.len() { self.thresholds@.len() as int } else if self.met(i, n, s) { i } else { self.pos(i + 1, n, s) }
    }
}
//@ extract pywr-core/src/parameters/multi_threshold.rs impl Parameter for MultiThresholdParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<u64>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 == Some(0u64)
//@ extract pywr-core/src/parameters/multi_threshold.rs impl GeneralBeforeParameter for MultiThresholdParameter::before
//@| param internal_state: &mut u64
//@| ensures
//@|     !self.ratchet ==> *final(internal_state) == *old(internal_state),
//@|     !self.ratchet && r is Ok ==> r->Ok_0 == self.pos(0, ctx.network, ctx.state),
//@|     self.ratchet && r is Ok ==> r->Ok_0 == (if self.pos(0, ctx.network, ctx.state) > *old(internal_state) { self.pos(0, ctx.network, ctx.state) } else { *old(internal_state) as int }) && *final(internal_state) == r->Ok_0,
//@|     self.ratchet ==> *final(internal_state) >= *old(internal_state),
//@|     self.metric.has(ctx.network, ctx.state) && (forall|i: int| 0 <= i < self.thresholds@.len() ==> (#[trigger] self.thresholds@[i]).has(ctx.network, ctx.state)) ==> r is Ok
//@| loop 0 invariant
//@|     position <= _i0, value@ == self.metric.val(ctx.network, ctx.state), *previous_max == *old(internal_state),
//@|     self.pos(0, ctx.network, ctx.state) == self.pos(position as int, ctx.network, ctx.state), position == _i0
//@| attr #[verifier::allow_complex_invariants]
//@| loop 0 ensures
//@|     self.pos(0, ctx.network, ctx.state) == position, *previous_max == *old(internal_state)

//@ extract pywr-core/src/parameters/asymmetric.rs struct AsymmetricSwitchIndexParameter
//@| drop meta
//@ extract pywr-core/src/parameters/asymmetric.rs impl Parameter for AsymmetricSwitchIndexParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<u64>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 == Some(0u64)
//@ extract pywr-core/src/parameters/asymmetric.rs impl GeneralBeforeParameter for AsymmetricSwitchIndexParameter::before
//@| param internal_state: &mut u64
//@| requires
//@|     *old(internal_state) <= 1
//@| ensures
//@|     r is Ok ==> r->Ok_0 == *final(internal_state) && *final(internal_state) <= 1,
//@|     self.on_parameter.has(ctx.network, ctx.state) && self.off_parameter.has(ctx.network, ctx.state) ==> r is Ok,
//@|     r is Ok ==> (r->Ok_0 == 1) == (self.on_parameter.val(ctx.network, ctx.state) > 0 || (*old(internal_state) == 1 && self.off_parameter.val(ctx.network, ctx.state) != 0))
} // verus!
fn main() {}
