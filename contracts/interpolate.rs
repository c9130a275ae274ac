//@ float_const FLOAT_EQ_TOLERANCE
verus! {
#[verifier::opaque]
pub open spec fn lin(v: real, lb: real, ub: real, lv: real, uv: real) -> real { lv + (uv - lv) * (v - lb) / (ub - lb) }
pub open spec fn interp_spec(v: real, lb: real, ub: real, lv: real, uv: real) -> real {
    if v <= lb { lv } else if v >= ub { uv } else { lin(v, lb, ub, lv, uv) }
}
/// a point strictly inside the segment interpolates to a value between the end values
pub proof fn lemma_interp_between(v: real, lb: real, ub: real, lv: real, uv: real)
    ensures rmin(lv, uv) <= interp_spec(v, lb, ub, lv, uv) <= rmax(lv, uv)
{
    reveal(lin);
    if lb < v && v < ub {
        let d = ub - lb;
        let a = v - lb;
        let x = (uv - lv) * a / d;
        assert(d > 0real && 0real < a && a < d);
        assert(x * d == (uv - lv) * a) by(nonlinear_arith) requires x == (uv - lv) * a / d, d > 0real;
        if uv >= lv {
            assert(0real <= x) by(nonlinear_arith) requires x * d == (uv - lv) * a, uv >= lv, a > 0real, d > 0real;
            assert(x <= uv - lv) by(nonlinear_arith) requires x * d == (uv - lv) * a, uv >= lv, a > 0real, a < d, d > 0real;
        } else {
            assert(0real >= x) by(nonlinear_arith) requires x * d == (uv - lv) * a, uv <= lv, a > 0real, d > 0real;
            assert(x >= uv - lv) by(nonlinear_arith) requires x * d == (uv - lv) * a, uv <= lv, a > 0real, a < d, d > 0real;
        }
    }
}
//@ extract pywr-core/src/lib.rs const FLOAT_EQ_TOLERANCE

//@ extract pywr-core/src/parameters/interpolate.rs fn interpolate
//@| ensures
//@|     value@ <= lower_bound@ ==> r@ == lower_value@,
//@|     lower_bound@ < value@ && value@ >= upper_bound@ ==> r@ == upper_value@,
//@|     lower_bound@ < value@ < upper_bound@ && upper_bound@ - lower_bound@ >= FLOAT_EQ_TOLERANCE_s() ==> r@ == interp_spec(value@, lower_bound@, upper_bound@, lower_value@, upper_value@),
//@|     rmin(lower_value@, upper_value@) <= r@ <= rmax(lower_value@, upper_value@)
//@| at fn.top proof { reveal(lin); lemma_interp_between(value@, lower_bound@, upper_bound@, lower_value@, upper_value@); }

} // verus!
