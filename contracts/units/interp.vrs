//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../interpolate.rs
verus! {
pub proof fn lemma_increasing_all(p: Seq<(real, real)>)
    ensures increasing(p, p.len() as int) ==> forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 <= p[p.len() - 1].0
{
    if increasing(p, p.len() as int) {
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 <= p[p.len() - 1].0 by { if i < p.len() - 1 { assert(p[i].0 < p[p.len() - 1].0); } }
    }
}

pub open spec fn rpts(p: Seq<(R, R)>) -> Seq<(real, real)> { p.map_values(|q: (R, R)| (q.0@, q.1@)) }
pub open spec fn increasing(p: Seq<(real, real)>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] p[i]).0 < (#[trigger] p[j]).0
}
/// the value of the piecewise linear curve through `p` at `v`
pub open spec fn pw(p: Seq<(real, real)>, v: real, i: int) -> real decreases p.len() - i {
    if i + 1 >= p.len() { p[p.len() - 1].1 }
    else if v <= p[i + 1].0 { interp_spec(v, p[i].0, p[i + 1].0, p[i].1, p[i + 1].1) }
    else { pw(p, v, i + 1) }
}
pub open spec fn spaced(p: Seq<(real, real)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[j]).0 - (#[trigger] p[i]).0 >= FLOAT_EQ_TOLERANCE_s()
}

/// what linear interpolation through the points `p` must return
pub open spec fn li_post(value: real, p: Seq<(real, real)>, error_on_bounds: bool, ok: bool, r: real) -> bool {
    let n = p.len() as int;
    &&& (n < 2 ==> !ok)
    &&& (n >= 2 && value < p[0].0 ==> (if error_on_bounds { !ok } else { ok && r == p[0].1 }))
    &&& (n >= 2 && increasing(p, n) && value > p[n - 1].0 ==> (if error_on_bounds { !ok } else { ok && r == p[n - 1].1 }))
    &&& (n >= 2 && increasing(p, n) && p[0].0 <= value <= p[n - 1].0 ==> ok)
    &&& (n >= 2 && increasing(p, n) && spaced(p) && p[0].0 <= value <= p[n - 1].0 ==> r == pw(p, value, 0))
}

//@ extract pywr-core/src/parameters/interpolate.rs fn linear_interpolation
//@| ensures
//@|     li_post(value@, rpts(points@), error_on_bounds, r is Ok, r->Ok_0@)
//@| at fn.top proof { lemma_increasing_all(rpts(points@)); }
//@| at loop0.top assert(rpts(points@)[_i0 - 1] == (points@[_i0 - 1].0@, points@[_i0 - 1].1@) && rpts(points@)[_i0 as int] == (points@[_i0 as int].0@, points@[_i0 as int].1@) && rpts(points@).len() == points@.len());
//@| loop 0 invariant
//@|     points@.len() >= 2, value@ >= points@[0].0@,
//@|     _i0 > 0 ==> value@ > points@[_i0 as int].0@,
//@|     pw(rpts(points@), value@, 0) == pw(rpts(points@), value@, _i0 as int)

//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep network state

//@ extract pywr-core/src/parameters/interpolated.rs struct InterpolatedParameter
//@| drop meta

//@ extract pywr-core/src/parameters/interpolated.rs impl GeneralBeforeParameter for InterpolatedParameter::before
//@| dropparam _internal_state
//@| acctype 0 (R, R)
//@| ensures
//@|     r is Ok ==> li_post(self.x.val(ctx.network, ctx.state), self.pts(ctx), self.error_on_bounds, true, r->Ok_0@)
//@| loop 0 invariant
//@|     _acc0@.len() == _i0,
//@|     forall|i: int| 0 <= i < _i0 ==> (#[trigger] _acc0@[i]).0@ == self.points@[i].0.val(ctx.network, ctx.state) && _acc0@[i].1@ == self.points@[i].1.val(ctx.network, ctx.state)
//@| at loop0.after assert(rpts(_acc0@) =~= self.pts(ctx));

impl InterpolatedParameter {
    spec fn pts(&self, ctx: GeneralParameterContext<'_>) -> Seq<(real, real)> {
        self.points@.map_values(|m: (MetricF64, MetricF64)| (m.0.val(ctx.network, ctx.state), m.1.val(ctx.network, ctx.state)))
    }
}
} // verus!
fn main() {}
