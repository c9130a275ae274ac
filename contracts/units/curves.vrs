//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ include ../interpolate.rs
//@ map TimestepIndex usize
//@ mappath downcast_internal_state_ref => identity
//@ mappath downcast_internal_state_mut => identity
//@ mappath Box::new => identity
//@ mappath HashMap::from => kv_from
//@ mappath HashMap::new => kv_new

verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index

//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state

/// the index of the first curve (from i on) that x is at or above; the number of curves if there is none
spec fn first(x: real, cc: Seq<real>, i: int) -> int decreases cc.len() - i {
    if i >= cc.len() { cc.len() as int } else if x >= cc[i] { i } else { first(x, cc, i + 1) }
}
spec fn all_has(ms: Seq<MetricF64>, n: &Network, s: &State) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).has(n, s) }
proof fn lemma_first(x: real, cc: Seq<real>, i: int) requires 0 <= i <= cc.len() ensures i <= first(x, cc, i) <= cc.len(), first(x, cc, i) < cc.len() ==> x >= cc[first(x, cc, i)] decreases cc.len() - i
{ if i < cc.len() && x < cc[i] { lemma_first(x, cc, i + 1); } }
/// lower and upper bound of the band that x lies in
spec fn lo(x: real, cc: Seq<real>, bottom: real) -> real { if first(x, cc, 0) < cc.len() { cc[first(x, cc, 0)] } else { bottom } }
spec fn hi(x: real, cc: Seq<real>, top: real) -> real { if first(x, cc, 0) == 0 { top } else { cc[first(x, cc, 0) - 1] } }
/// the value r interpolates (lower_value at lb, upper_value at ub); bands thinner than the float tolerance are not constrained inside
spec fn interp_ok(r: real, x: real, lb: real, ub: real, lv: real, uv: real) -> bool {
    &&& (x <= lb ==> r == lv)
    &&& (lb < x && x >= ub ==> r == uv)
    &&& (lb < x < ub && ub - lb >= FLOAT_EQ_TOLERANCE_s() ==> r == interp_spec(x, lb, ub, lv, uv))
    &&& rmin(lv, uv) <= r <= rmax(lv, uv)
}

//@ extract pywr-core/src/parameters/control_curves/index.rs struct ControlCurveIndexParameter
//@| drop meta
//@ extract pywr-core/src/parameters/control_curves/index.rs impl GeneralBeforeParameter for ControlCurveIndexParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok ==> r->Ok_0 == first(self.metric.val(ctx.network, ctx.state), mvals(self.control_curves@, ctx.network, ctx.state), 0),
//@|     self.metric.has(ctx.network, ctx.state) && all_has(self.control_curves@, ctx.network, ctx.state) ==> r is Ok
//@| loop 0 invariant
//@|     x@ == self.metric.val(ctx.network, ctx.state), first(x@, mvals(self.control_curves@, ctx.network, ctx.state), 0) == first(x@, mvals(self.control_curves@, ctx.network, ctx.state), _i0 as int)

//@ extract pywr-core/src/parameters/control_curves/simple.rs struct ControlCurveParameter
//@| drop meta
//@ extract pywr-core/src/parameters/control_curves/simple.rs impl GeneralBeforeParameter for ControlCurveParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.values@.len() == self.control_curves@.len() + 1 && r is Ok ==> r->Ok_0@ == self.values@[first(self.metric.val(ctx.network, ctx.state), mvals(self.control_curves@, ctx.network, ctx.state), 0)].val(ctx.network, ctx.state),
//@|     self.values@.len() == self.control_curves@.len() + 1 && self.metric.has(ctx.network, ctx.state) && all_has(self.control_curves@, ctx.network, ctx.state) && all_has(self.values@, ctx.network, ctx.state) ==> r is Ok
//@| loop 0 invariant
//@|     x@ == self.metric.val(ctx.network, ctx.state), first(x@, mvals(self.control_curves@, ctx.network, ctx.state), 0) == first(x@, mvals(self.control_curves@, ctx.network, ctx.state), _i0 as int)

//@ extract pywr-core/src/parameters/control_curves/interpolated.rs struct ControlCurveInterpolatedParameter
//@| drop meta
//@ extract pywr-core/src/parameters/control_curves/interpolated.rs impl GeneralBeforeParameter for ControlCurveInterpolatedParameter::before
//@| dropparam _internal_state
//@| requires
//@|     self.values@.len() == self.control_curves@.len() + 2
//@| ensures
//@|     r is Ok ==> ({
//@|     let x = self.metric.val(ctx.network, ctx.state); let cc = mvals(self.control_curves@, ctx.network, ctx.state); let k = first(x, cc, 0);
//@|     let v = mvals(self.values@, ctx.network, ctx.state);
//@|     interp_ok(r->Ok_0@, x, lo(x, cc, 0real), hi(x, cc, 1real), v[k + 1], v[k]) }),
//@|     self.metric.has(ctx.network, ctx.state) && all_has(self.control_curves@, ctx.network, ctx.state) && all_has(self.values@, ctx.network, ctx.state) ==> r is Ok
//@| loop 0 invariant
//@|     x@ == self.metric.val(ctx.network, ctx.state), first(x@, mvals(self.control_curves@, ctx.network, ctx.state), 0) == first(x@, mvals(self.control_curves@, ctx.network, ctx.state), _i0 as int),
//@|     cc_prev@ == (if _i0 == 0 { 1real } else { mvals(self.control_curves@, ctx.network, ctx.state)[_i0 - 1] })

//@ extract pywr-core/src/parameters/control_curves/piecewise.rs struct PiecewiseInterpolatedParameter
//@| drop meta
//@ extract pywr-core/src/parameters/control_curves/piecewise.rs impl GeneralBeforeParameter for PiecewiseInterpolatedParameter::before
//@| dropparam _internal_state
//@| requires
//@|     self.values@.len() == self.control_curves@.len() + 1
//@| ensures
//@|     r is Ok ==> ({
//@|     let x = self.metric.val(ctx.network, ctx.state); let cc = mvals(self.control_curves@, ctx.network, ctx.state); let k = first(x, cc, 0);
//@|     interp_ok(r->Ok_0@, x, lo(x, cc, self.minimum@), hi(x, cc, self.maximum@), self.values@[k]@[1]@, self.values@[k]@[0]@) }),
//@|     self.metric.has(ctx.network, ctx.state) && all_has(self.control_curves@, ctx.network, ctx.state) ==> r is Ok
//@| loop 0 invariant
//@|     x@ == self.metric.val(ctx.network, ctx.state), first(x@, mvals(self.control_curves@, ctx.network, ctx.state), 0) == first(x@, mvals(self.control_curves@, ctx.network, ctx.state), _i0 as int),
//@|     cc_previous_value@ == (if _i0 == 0 { self.maximum@ } else { mvals(self.control_curves@, ctx.network, ctx.state)[_i0 - 1] })

/// string-keyed maps: only construction from pairs is used
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct Kv<V> { x: core::marker::PhantomData<V> }
impl<V> View for Kv<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
#[verifier::external_body]
fn kv_from(p: [(String, R); 2]) -> (r: Kv<R>) ensures r@ == Map::<Seq<char>, R>::empty().insert(p@[0].0@, p@[0].1).insert(p@[1].0@, p@[1].1) { unimplemented!() }
#[verifier::external_body]
fn kv_new() -> (r: Kv<u64>) ensures r@ == Map::<Seq<char>, u64>::empty() { unimplemented!() }
struct MultiValue { values: Kv<R>, indices: Kv<u64> }
impl MultiValue { fn new(values: Kv<R>, indices: Kv<u64>) -> (r: Self) ensures r.values == values, r.indices == indices { MultiValue { values, indices } } }
spec fn clampu(c: real) -> real { rmin(rmax(c, 0real), 1real) }
//@ extract pywr-core/src/parameters/control_curves/apportion.rs struct ApportionParameter
//@| drop meta
//@ extract pywr-core/src/parameters/control_curves/apportion.rs impl GeneralBeforeParameter for ApportionParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     self.metric.has(ctx.network, ctx.state) && self.control_curve.has(ctx.network, ctx.state) ==> r is Ok && ({
//@|         let x = self.metric.val(ctx.network, ctx.state); let c = clampu(self.control_curve.val(ctx.network, ctx.state)); let m = r->Ok_0.values@;
//@|         m.dom() =~= set!["upper"@, "lower"@] && m["upper"@]@ == (1real - c) * x && m["lower"@]@ == c * x
//@|         && m["upper"@]@ + m["lower"@]@ == x })
//@| at fn.top proof { reveal_strlit("upper"); reveal_strlit("lower"); assert("upper"@[0] == 'u' && "lower"@[0] == 'l'); let x = self.metric.val(ctx.network, ctx.state); let c = clampu(self.control_curve.val(ctx.network, ctx.state)); assert((1real - c) * x + c * x == x) by(nonlinear_arith); }

#[verifier::external_body] pub struct ScenarioIndex { x: u8 }
//@ include ../simple_metric.rs
//@ extract pywr-core/src/parameters/control_curves/volume_between.rs struct VolumeBetweenControlCurvesParameter
//@| drop meta
//@ extract pywr-core/src/parameters/control_curves/volume_between.rs impl SimpleParameter for VolumeBetweenControlCurvesParameter<SimpleMetricF64>::compute
//@| selfty VolumeBetweenControlCurvesParameter<SimpleMetricF64>
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok ==> r->Ok_0@ == self.total.val(ctx.values) * ((match self.upper { Some(u) => u.val(ctx.values), None => 1real }) - (match self.lower { Some(l) => l.val(ctx.values), None => 0real })),
//@|     self.total.has(ctx.values) && (self.upper is Some ==> self.upper->Some_0.has(ctx.values)) && (self.lower is Some ==> self.lower->Some_0.has(ctx.values)) ==> r is Ok
} // verus!
fn main() {}
