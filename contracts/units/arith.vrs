//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
//@ mappath downcast_internal_state_ref => identity
//@ mappath downcast_internal_state_mut => identity
//@ mappath downcast_variable_config_ref => identity
//@ mappath Box::new => identity
//@ map InternalValue Option<R>
verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index

//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state

//@ extract pywr-core/src/parameters/min.rs struct MinParameter
//@| drop meta
//@ extract pywr-core/src/parameters/min.rs impl GeneralBeforeParameter for MinParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == rmin(self.metric.val(ctx.network, ctx.state), self.threshold@)

//@ extract pywr-core/src/parameters/max.rs struct MaxParameter
//@| drop meta
//@ extract pywr-core/src/parameters/max.rs impl GeneralBeforeParameter for MaxParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == rmax(self.metric.val(ctx.network, ctx.state), self.threshold@)

//@ extract pywr-core/src/parameters/negative.rs struct NegativeParameter
//@| drop meta
//@ extract pywr-core/src/parameters/negative.rs impl GeneralBeforeParameter for NegativeParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == -self.metric.val(ctx.network, ctx.state)

//@ extract pywr-core/src/parameters/negativemax.rs struct NegativeMaxParameter
//@| drop meta
//@ extract pywr-core/src/parameters/negativemax.rs impl GeneralBeforeParameter for NegativeMaxParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == rmax(-self.metric.val(ctx.network, ctx.state), self.threshold@)

//@ extract pywr-core/src/parameters/negativemin.rs struct NegativeMinParameter
//@| drop meta
//@ extract pywr-core/src/parameters/negativemin.rs impl GeneralBeforeParameter for NegativeMinParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == rmin(-self.metric.val(ctx.network, ctx.state), self.threshold@)

//@ extract pywr-core/src/parameters/division.rs struct DivisionParameter
//@| drop meta
//@ extract pywr-core/src/parameters/division.rs impl GeneralBeforeParameter for DivisionParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.post(ctx, r)
//@ extract pywr-core/src/parameters/division.rs impl GeneralAfterParameter for DivisionParameter::after
//@| dropparam _internal_state
//@| ensures
//@|     self.post(ctx, r)
impl DivisionParameter {
    spec fn post(&self, ctx: GeneralParameterContext<'_>, r: Result<R, E_>) -> bool {
        let (n, s) = (ctx.network, ctx.state);
        self.numerator.has(n, s) && self.denominator.has(n, s) ==>
            (if self.denominator.val(n, s) == 0real { r is Err } else { r is Ok && r->Ok_0@ == self.numerator.val(n, s) / self.denominator.val(n, s) })
    }
}

//@ extract pywr-core/src/parameters/deficit.rs struct DeficitParameter
//@| drop meta
//@ extract pywr-core/src/parameters/deficit.rs impl GeneralAfterParameter for DeficitParameter::after
//@| dropparam _internal_state
//@| ensures
//@|     self.flow.has(ctx.network, ctx.state) && self.max_flow.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == rmax(self.max_flow.val(ctx.network, ctx.state) - self.flow.val(ctx.network, ctx.state), 0real),
//@|     r is Ok ==> r->Ok_0@ >= 0real

spec fn diff_spec(a: real, b: real, lo: Option<real>, hi: Option<real>) -> real {
    let d = a - b;
    if lo is Some && d < lo->Some_0 { lo->Some_0 } else if hi is Some && d > hi->Some_0 { hi->Some_0 } else { d }
}
spec fn oview(x: Option<R>) -> Option<real> { match x { Some(v) => Some(v@), None => None } }
spec fn omet(x: Option<MetricF64>, n: &Network, s: &State) -> Option<real> { match x { Some(m) => Some(m.val(n, s)), None => None } }
spec fn ohas(x: Option<MetricF64>, n: &Network, s: &State) -> bool { match x { Some(m) => m.has(n, s), None => true } }

//@ extract pywr-core/src/parameters/difference.rs struct DifferenceParameter
//@| drop meta
//@ extract pywr-core/src/parameters/difference.rs fn difference
//@| ensures
//@|     oview(min) is Some && oview(max) is Some && oview(min)->Some_0 > oview(max)->Some_0 || r@ == diff_spec(a@, b@, oview(min), oview(max)),
//@|     oview(min) is None && oview(max) is None ==> r@ == a@ - b@
//@ extract pywr-core/src/parameters/difference.rs impl GeneralBeforeParameter for DifferenceParameter<MetricF64>::before
//@| selfty DifferenceParameter<MetricF64>
//@| dropparam _internal_state
//@| ensures
//@|     self.a.has(ctx.network, ctx.state) && self.b.has(ctx.network, ctx.state) && ohas(self.min, ctx.network, ctx.state) && ohas(self.max, ctx.network, ctx.state)
//@|         && !(self.min is Some && self.max is Some && omet(self.min, ctx.network, ctx.state)->Some_0 > omet(self.max, ctx.network, ctx.state)->Some_0)
//@|         ==> r is Ok && r->Ok_0@ == diff_spec(self.a.val(ctx.network, ctx.state), self.b.val(ctx.network, ctx.state), omet(self.min, ctx.network, ctx.state), omet(self.max, ctx.network, ctx.state))

/// sum of c_i * x^i over the first n coefficients
spec fn poly(c: Seq<real>, x: real, n: int) -> real decreases n { if n <= 0 { 0real } else { poly(c, x, n - 1) + c[n - 1] * rpow(x, n - 1) } }
//@ extract pywr-core/src/parameters/polynomial.rs struct Polynomial1DParameter
//@| drop meta
//@ extract pywr-core/src/parameters/polynomial.rs impl GeneralBeforeParameter for Polynomial1DParameter::before
//@| dropparam _internal_state
//@| requires
//@|     self.coefficients@.len() < 0x7fff_ffff
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == poly(rviews(self.coefficients@), self.metric.val(ctx.network, ctx.state) * self.scale@ + self.offset@, self.coefficients@.len() as int)
//@| loop 0 invariant
//@|     _acc0@ == poly(rviews(self.coefficients@), self.metric.val(ctx.network, ctx.state) * self.scale@ + self.offset@, _i0 as int)

pub proof fn lemma_pow_pos(x: real, n: int) requires x > 0real ensures rpow(x, n) > 0real decreases (if n >= 0 { n } else { -n }), (if n >= 0 { 0int } else { 1int })
{
    if n > 0 { lemma_pow_pos(x, n - 1); assert(rpow(x, n - 1) * x > 0real) by(nonlinear_arith) requires rpow(x, n - 1) > 0real, x > 0real; }
    else if n < 0 { lemma_pow_pos(x, -n); let p = rpow(x, -n); assert(1real / p > 0real) by(nonlinear_arith) requires p > 0real; }
}
//@ extract pywr-core/src/parameters/discount_factor.rs struct DiscountFactorParameter
//@| drop meta
//@ extract pywr-core/src/parameters/discount_factor.rs impl GeneralBeforeParameter for DiscountFactorParameter::before
//@| dropparam _internal_state
//@| requires
//@|     -20000 <= self.base_year <= 20000, self.discount_rate.val(ctx.network, ctx.state) > -1real
//@| ensures
//@|     self.discount_rate.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == 1real / rpow(1real + self.discount_rate.val(ctx.network, ctx.state), ctx.timestep.date.y() - self.base_year)
//@| at fn.top proof { lemma_pow_pos(1real + self.discount_rate.val(ctx.network, ctx.state), ctx.timestep.date.y() - self.base_year); assert(ctx.timestep.date.wf()) by { broadcast use DateTime::axiom_wf; } }

//@ extract pywr-core/src/parameters/offset.rs struct OffsetParameter
//@| drop meta
//@ extract pywr-core/src/parameters/offset.rs impl OffsetParameter::offset
//@| param internal_state: &Option<R>
//@| ensures
//@|     r@ == (match *internal_state { Some(v) => v@, None => self.offset@ })
//@ extract pywr-core/src/parameters/offset.rs impl GeneralBeforeParameter for OffsetParameter::before
//@| param internal_state: &mut Option<R>
//@| ensures
//@|     *final(internal_state) == *old(internal_state),
//@|     self.metric.has(ctx.network, ctx.state) ==> r is Ok && r->Ok_0@ == self.metric.val(ctx.network, ctx.state) + (match *old(internal_state) { Some(v) => v@, None => self.offset@ })
//@ extract pywr-core/src/parameters/offset.rs impl Parameter for OffsetParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<Option<R>>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0 is None
} // verus!
fn main() {}
