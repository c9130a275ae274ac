//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
//@ map String Str
//@ map HashMap SMap
//@ mappath HashMap::new => SMap::empty
//@ mappath .to_string => fn str_of
verus! {
/// owned strings and maps from them
#[verifier::external_body] pub struct Str { x: u8 }
impl Str { pub uninterp spec fn chars(&self) -> Seq<char>; }
#[verifier::external_body] fn str_of(s: &str) -> (r: Str) ensures r.chars() == s@ { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct SMap<V> { v: V }
impl<V> SMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] fn empty() -> (r: SMap<V>) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Str, v: V) ensures final(self)@ == old(self)@.insert(k.chars(), v) { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &str) -> (r: Option<&V>) ensures self@.contains_key(k@) == (r is Some), r is Some ==> *r->Some_0 == self@[k@] { unimplemented!() }
}
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index
//@ extract pywr-core/src/timestep.rs impl Timestep::is_first
//@| ensures
//@|     r == (self.index == 0)
//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state
//@ extract pywr-core/src/state/mod.rs struct MultiValue
//@| mapfield values: SMap<R>
//@| mapfield indices: SMap<u64>
impl MultiValue {
    spec fn has(&self, k: &str) -> bool { self.values@.contains_key(k@) }
    spec fn at(&self, k: &str) -> real { self.values@[k@]@ }
}
//@ extract pywr-core/src/state/mod.rs impl MultiValue::new
//@| param values: SMap<R>
//@| param indices: SMap<u64>
//@| ensures
//@|     r.values == values, r.indices == indices
//@ extract pywr-core/src/state/mod.rs impl MultiValue::get_value
//@| ensures
//@|     r is Some == self.has(key), r is Some ==> r->Some_0@ == self.at(key)

// ---- Muskingum routing: K is the travel time in time-steps, X the weight
#[verifier::opaque] spec fn den(x: real, k: real) -> real { 2real * k * (1real - x) + 1real }
/// the flow out of the reach that the coefficients ask for
#[verifier::opaque] spec fn routed(factor: real, rhs: real, inflow: real) -> real { rhs - factor * inflow }
/// the water in the reach
#[verifier::opaque] spec fn in_reach(x: real, k: real, inflow: real, outflow: real) -> real { k * (x * inflow + (1real - x) * outflow) }
/// what is in the reach changes by what came in less what went out, each at the mean of the flows of the two time-steps
#[verifier::opaque] spec fn keeps_account(x: real, k: real, before: (real, real), i1: real, o1: real) -> bool {
    2real * (in_reach(x, k, i1, o1) - in_reach(x, k, before.0, before.1)) == (before.0 + i1) - (before.1 + o1)
}
#[verifier::opaque] spec fn times(a: real, b: real) -> real { a * b }
spec fn rhs_top(x: real, k: real, i: real, o: real) -> real { i * (1real + 2real * x * k) + o * (2real * k * (1real - x) - 1real) }
//@ extract pywr-core/src/parameters/muskingum.rs fn inflow_factor
//@| requires
//@|     den(weight@, travel_time@) != 0real
//@| ensures
//@|     is_factor(r@, weight@, travel_time@)
//@| at fn.top proof { reveal(den); }
//@| at fn.end proof { reveal(is_factor); muldiv(_ret@, 1real - 2real * weight@ * travel_time@, den(weight@, travel_time@)); }
//@ extract pywr-core/src/parameters/muskingum.rs fn rhs
//@| requires
//@|     den(weight@, travel_time@) != 0real
//@| ensures
//@|     is_rhs(r@, weight@, travel_time@, inflow@, outflow@)
//@| at fn.top proof { reveal(den); }
//@| at fn.end proof {
//@|     reveal(is_rhs);
//@|     let d = den(weight@, travel_time@);
//@|     muldiv(i@, inflow@ * (1real + 2real * weight@ * travel_time@), d);
//@|     muldiv(o@, outflow@ * (2real * travel_time@ * (1real - weight@) - 1real), d);
//@|     sum_times(i@, o@, d);
//@|     }
//@ extract pywr-core/src/parameters/muskingum.rs fn steady_state_inflow_factor
//@| requires
//@|     den(weight@, travel_time@) != 0real
//@| ensures
//@|     times(r@, den(weight@, travel_time@)) == 2real
//@| at fn.top proof { reveal(den); reveal(times); }
//@| at fn.end proof { muldiv(_ret@, 2real, den(weight@, travel_time@)); }
//@ extract pywr-core/src/parameters/muskingum.rs fn steady_state_outflow_factor
//@| requires
//@|     den(weight@, travel_time@) != 0real
//@| ensures
//@|     times(r@, den(weight@, travel_time@)) == 2real, r@ != 0real
//@| at fn.top proof { reveal(den); reveal(times); }
//@| at fn.end proof {
//@|     let d = den(weight@, travel_time@); let q = 1real - _ret@;
//@|     muldiv(q, d - 2real, d);
//@|     one_less(_ret@, q, d);
//@|     }
#[verifier::opaque] spec fn is_factor(r: real, x: real, k: real) -> bool { r * den(x, k) == 1real - 2real * x * k }
#[verifier::opaque] spec fn is_rhs(r: real, x: real, k: real, i: real, o: real) -> bool { r * den(x, k) == rhs_top(x, k, i, o) }
proof fn muldiv(q: real, a: real, d: real) requires d != 0real, q == a / d ensures q * d == a { assert(q * d == a) by (nonlinear_arith) requires d != 0real, q == a / d; }
proof fn sum_times(a: real, b: real, d: real) ensures (a + b) * d == a * d + b * d { assert((a + b) * d == a * d + b * d) by (nonlinear_arith); }
proof fn one_less(x: real, q: real, d: real) requires x == 1real - q, q * d == d - 2real ensures x * d == 2real, x != 0real {
    assert(x * d == d - q * d) by (nonlinear_arith) requires x == 1real - q;
    assert(x != 0real) by (nonlinear_arith) requires x * d == 2real;
}
/// the routed flow is the one that keeps account of the water in the reach over the time-step
proof fn routing_conserves(x: real, k: real, before: (real, real), i1: real, factor: real, rhs: real, o1: real)
    requires den(x, k) != 0real, is_factor(0real - factor, x, k), is_rhs(rhs, x, k, before.0, before.1)
    ensures o1 == routed(factor, rhs, i1) <==> keeps_account(x, k, before, i1, o1)
{
    reveal(den); reveal(is_factor); reveal(is_rhs); reveal(routed); reveal(in_reach); reveal(keeps_account);
    let d = den(x, k);
    let o = routed(factor, rhs, i1);
    let (i0, o0) = before;
    routing_algebra(x, k, i0, o0, i1, o1, factor, rhs, d, o);
}
proof fn routing_algebra(x: real, k: real, i0: real, o0: real, i1: real, o1: real, f: real, b: real, d: real, o: real)
    requires d != 0real, d == 2real * k * (1real - x) + 1real, (0real - f) * d == 1real - 2real * x * k,
        b * d == i0 * (1real + 2real * x * k) + o0 * (2real * k * (1real - x) - 1real), o == b - f * i1
    ensures o1 == o <==> 2real * (k * (x * i1 + (1real - x) * o1) - k * (x * i0 + (1real - x) * o0)) == (i0 + i1) - (o0 + o1)
{
    let kx = k * x;
    assert(2real * k * (1real - x) == 2real * k - 2real * kx) by (nonlinear_arith) requires kx == k * x;
    assert(2real * x * k == 2real * kx) by (nonlinear_arith) requires kx == k * x;
    assert(k * (x * i1 + (1real - x) * o1) == kx * i1 + k * o1 - kx * o1) by (nonlinear_arith) requires kx == k * x;
    assert(k * (x * i0 + (1real - x) * o0) == kx * i0 + k * o0 - kx * o0) by (nonlinear_arith) requires kx == k * x;
    assert(b * d == i0 + 2real * (kx * i0) + 2real * (k * o0) - 2real * (kx * o0) - o0) by (nonlinear_arith)
        requires b * d == i0 * (1real + 2real * kx) + o0 * (2real * k - 2real * kx - 1real);
    assert(o * d == b * d + (1real - 2real * kx) * i1) by (nonlinear_arith) requires o == b - f * i1, (0real - f) * d == 1real - 2real * kx;
    assert((1real - 2real * kx) * i1 == i1 - 2real * (kx * i1)) by (nonlinear_arith);
    assert(o1 * d == 2real * (k * o1) - 2real * (kx * o1) + o1) by (nonlinear_arith) requires d == 2real * k - 2real * kx + 1real;
    assert(o1 * d == o * d ==> o1 == o) by (nonlinear_arith) requires d != 0real;
}
proof fn steady(f: real, a: real, b: real, d: real, i: real) requires times(a, d) == 2real, times(b, d) == 2real, b != 0real, f == (0real - a) / b ensures routed(f, 0real, i) == i {
    reveal(times); reveal(routed);
    assert(d != 0real) by (nonlinear_arith) requires a * d == 2real;
    assert(a == b) by (nonlinear_arith) requires a * d == b * d, d != 0real;
    assert(f == 0real - 1real) by (nonlinear_arith) requires f == (0real - b) / b, b != 0real;
    assert(0real - f * i == i) by (nonlinear_arith) requires f == 0real - 1real;
}
//@ extract pywr-core/src/parameters/muskingum.rs enum MuskingumInitialCondition
//@ extract pywr-core/src/parameters/muskingum.rs struct MuskingumParameter
//@| drop meta
impl MuskingumParameter {
    spec fn x(&self, c: GeneralParameterContext) -> real { self.weight.val(c.network, c.state) }
    spec fn k(&self, c: GeneralParameterContext) -> real { self.travel_time.val(c.network, c.state) }
    /// the flows in and out of the time-step before
    spec fn past(&self, c: GeneralParameterContext) -> (real, real) {
        match self.initial_condition {
            MuskingumInitialCondition::Specified { inflow, outflow } if c.timestep.index == 0 => (inflow@, outflow@),
            _ => (self.inflow.val(c.network, c.state), self.outflow.val(c.network, c.state)),
        }
    }
    spec fn all_there(&self, c: GeneralParameterContext) -> bool {
        self.weight.has(c.network, c.state) && self.travel_time.has(c.network, c.state) && (c.timestep.index != 0 ==> self.inflow.has(c.network, c.state) && self.outflow.has(c.network, c.state))
    }
}
//@ extract pywr-core/src/parameters/muskingum.rs impl GeneralBeforeParameter<MultiValue> for MuskingumParameter::before
//@| as muskingum_before
//@| dropparam _internal_state
//@| requires
//@|     den(self.x(ctx), self.k(ctx)) != 0real
//@| ensures
//@|     self.all_there(ctx) ==> r is Ok,
//@|     r is Ok ==> r->Ok_0.has("inflow_factor") && r->Ok_0.has("rhs"),
//@|     r is Ok && ctx.timestep.index == 0 && self.initial_condition is SteadyState ==> forall|i: real| #[trigger] routed(r->Ok_0.at("inflow_factor"), r->Ok_0.at("rhs"), i) == i,
//@|     r is Ok && !(ctx.timestep.index == 0 && self.initial_condition is SteadyState) ==> forall|i1: real, o1: real| o1 == routed(r->Ok_0.at("inflow_factor"), r->Ok_0.at("rhs"), i1) <==> #[trigger] keeps_account(self.x(ctx), self.k(ctx), self.past(ctx), i1, o1)
//@| at fn.top proof {
//@|     reveal_strlit("inflow_factor"); reveal_strlit("rhs"); assert("inflow_factor"@.len() != "rhs"@.len());
//@|     let d = den(self.x(ctx), self.k(ctx));
//@|     assert forall|p: real, q: real, f: real, i: real| #[trigger] times(p, d) == 2real && #[trigger] times(q, d) == 2real && q != 0real && f == quotient(p, q) ==> #[trigger] routed(f, 0real, i) == i by {
//@|         if times(p, d) == 2real && times(q, d) == 2real && q != 0real && f == quotient(p, q) { steady(f, p, q, d, i); }
//@|     }
//@|     }
//@| at fn.end proof {
//@|     if _ret is Ok {
//@|         let (x, k, f, b) = (self.x(ctx), self.k(ctx), _ret->Ok_0.at("inflow_factor"), _ret->Ok_0.at("rhs"));
//@|         if !(ctx.timestep.index == 0 && self.initial_condition is SteadyState) {
//@|             assert forall|i1: real, o1: real| o1 == routed(f, b, i1) <==> #[trigger] keeps_account(x, k, self.past(ctx), i1, o1) by { routing_conserves(x, k, self.past(ctx), i1, f, b, o1); }
//@|         }
//@|     }
//@|     }
spec fn quotient(p: real, q: real) -> real { (0real - p) / q }

// ---- hydropower
//@ extract pywr-core/src/utils.rs fn inverse_hydropower_calculation
//@| requires
//@|     per_flow(head@, efficiency@, flow_unit_conversion@, energy_unit_conversion@, density@) != 0real
//@| ensures
//@|     r@ == flow_for(power@, per_flow(head@, efficiency@, flow_unit_conversion@, energy_unit_conversion@, density@))
//@| at fn.top proof { reveal(per_flow); reveal(flow_for); }
//@ extract pywr-core/src/utils.rs fn hydropower_calculation
//@| ensures
//@|     r@ == times(flow@, per_flow(head@, efficiency@, flow_unit_conversion@, energy_unit_conversion@, density@))
//@| at fn.top proof { reveal(per_flow); reveal(times); }
/// the flow that gives a power, and that it gives it
#[verifier::opaque] spec fn flow_for(power: real, per_flow: real) -> real { power / per_flow }
proof fn target_met(power: real, per_flow: real) requires per_flow != 0real ensures times(flow_for(power, per_flow), per_flow) == power {
    reveal(flow_for); reveal(times); muldiv(power / per_flow, power, per_flow);
}
/// the power of one unit of flow
#[verifier::opaque] spec fn per_flow(head: real, efficiency: real, flow_conv: real, energy_conv: real, density: real) -> real {
    energy_conv * density * (981real / 100real) * head * efficiency * flow_conv
}
//@ extract pywr-core/src/parameters/hydropower.rs struct HydropowerTargetParameter
//@| drop meta
spec fn ometric(m: Option<MetricF64>, n: &Network, s: &State) -> Option<real> { match m { Some(x) => Some(x.val(n, s)), None => None } }
spec fn ohas(m: Option<MetricF64>, n: &Network, s: &State) -> bool { match m { Some(x) => x.has(n, s), None => true } }
impl HydropowerTargetParameter {
    spec fn head_of(&self, n: &Network, s: &State) -> real {
        rmax(match ometric(self.water_elevation, n, s) { Some(e) => e - self.turbine_elevation@, None => self.turbine_elevation@ }, 0real)
    }
    spec fn per_flow(&self, n: &Network, s: &State) -> real {
        per_flow(self.head_of(n, s), self.turbine_efficiency@, self.flow_unit_conversion@, self.energy_unit_conversion@, self.water_density@)
    }
    spec fn below(&self, n: &Network, s: &State) -> bool { self.head_of(n, s) <= self.turbine_min_head@ }
    /// within the limits on the flow
    spec fn limited(&self, q: real, n: &Network, s: &State) -> real {
        let a = match ometric(self.max_flow, n, s) { Some(m) => rmin(q, m), None => q };
        match ometric(self.min_flow, n, s) { Some(m) => rmax(a, m), None => a }
    }
}
//@ extract pywr-core/src/parameters/hydropower.rs impl HydropowerTargetParameter::head
//@| ensures
//@|     r is Ok == ohas(self.water_elevation, model, state), r is Ok ==> r->Ok_0@ == self.head_of(model, state)
//@ extract pywr-core/src/parameters/hydropower.rs impl GeneralBeforeParameter<f64> for HydropowerTargetParameter::before
//@| as hydropower_before
//@| dropparam _internal_state
//@| requires
//@|     !self.below(ctx.network, ctx.state) ==> self.per_flow(ctx.network, ctx.state) != 0real
//@| ensures
//@|     self.target is None ==> r is Err,
//@|     self.target is Some && ohas(self.water_elevation, ctx.network, ctx.state) && self.below(ctx.network, ctx.state) ==> r is Ok,
//@|     self.target is Some && ohas(self.water_elevation, ctx.network, ctx.state) && ohas(self.target, ctx.network, ctx.state) && ohas(self.max_flow, ctx.network, ctx.state) && ohas(self.min_flow, ctx.network, ctx.state)
//@|         && self.limited(flow_for(self.target->Some_0.val(ctx.network, ctx.state), self.per_flow(ctx.network, ctx.state)), ctx.network, ctx.state) >= 0real ==> r is Ok,
//@|     r is Ok && self.below(ctx.network, ctx.state) ==> r->Ok_0@ == 0real,
//@|     r is Ok && !self.below(ctx.network, ctx.state) ==> r->Ok_0@ == self.limited(flow_for(self.target->Some_0.val(ctx.network, ctx.state), self.per_flow(ctx.network, ctx.state)), ctx.network, ctx.state),
//@|     r is Ok ==> r->Ok_0@ >= 0real
//@ extract pywr-core/src/parameters/hydropower.rs impl GeneralAfterParameter<f64> for HydropowerTargetParameter::after
//@| as hydropower_after
//@| dropparam _internal_state
//@| ensures
//@|     self.actual_flow is None ==> r is Err,
//@|     self.actual_flow is Some && ohas(self.actual_flow, ctx.network, ctx.state) && ohas(self.water_elevation, ctx.network, ctx.state) ==> r is Ok,
//@|     r is Ok ==> r->Ok_0@ == (if self.below(ctx.network, ctx.state) { 0real } else { times(self.actual_flow->Some_0.val(ctx.network, ctx.state), self.per_flow(ctx.network, ctx.state)) })
} // verus!
fn main() {}
