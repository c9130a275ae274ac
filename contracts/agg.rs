// Aggregation functions (pywr-core/src/agg_funcs) under contract. `CountFunc` (a function pointer) and
// `Python` variants are outside the verifier's reach and are dropped from the enum and from every match.
/// sum, product, maximum, minimum and number of non-zero of the first n items
spec fn psum(v: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { psum(v, n - 1) + v[n - 1] } }
spec fn pprod(v: Seq<real>, n: int) -> real decreases n { if n <= 0 { 1real } else { pprod(v, n - 1) * v[n - 1] } }
spec fn pmax(v: Seq<real>, n: int) -> real decreases n { if n <= 0 { -f64_max() } else { rmax(pmax(v, n - 1), v[n - 1]) } }
spec fn pmin(v: Seq<real>, n: int) -> real decreases n { if n <= 0 { f64_max() } else { rmin(pmin(v, n - 1), v[n - 1]) } }
spec fn pnz(v: Seq<real>, n: int) -> int decreases n { if n <= 0 { 0 } else { pnz(v, n - 1) + if v[n - 1] != 0real { 1int } else { 0 } } }
spec fn anybig(v: Seq<real>, t: real) -> bool { exists|i: int| 0 <= i < v.len() && rabs(#[trigger] v[i]) > t }
/// for non-empty lists of representable values the extremum is one of the values and bounds all of them
proof fn lemma_pmax(v: Seq<real>, n: int) requires 0 < n <= v.len(), forall|i: int| 0 <= i < n ==> #[trigger] v[i] >= -f64_max()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] v[i] <= pmax(v, n), exists|i: int| 0 <= i < n && #[trigger] v[i] == pmax(v, n) decreases n
{ if n > 1 { lemma_pmax(v, n - 1); if v[n - 1] >= pmax(v, n - 1) { assert(v[n - 1] == pmax(v, n)); } else { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] v[i] == pmax(v, n - 1); assert(v[i] == pmax(v, n)); } } else { assert(pmax(v, 0) == -f64_max()); assert(v[0] == pmax(v, 1)); } }
proof fn lemma_pmin(v: Seq<real>, n: int) requires 0 < n <= v.len(), forall|i: int| 0 <= i < n ==> #[trigger] v[i] <= f64_max()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] v[i] >= pmin(v, n), exists|i: int| 0 <= i < n && #[trigger] v[i] == pmin(v, n) decreases n
{ if n > 1 { lemma_pmin(v, n - 1); if v[n - 1] <= pmin(v, n - 1) { assert(v[n - 1] == pmin(v, n)); } else { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] v[i] == pmin(v, n - 1); assert(v[i] == pmin(v, n)); } } else { assert(pmin(v, 0) == f64_max()); assert(v[0] == pmin(v, 1)); } }
//@ extract pywr-core/src/agg_funcs/mod.rs enum AggFuncF64
//@| dropvariant CountFunc Python
impl AggFuncF64 {
    spec fn of(&self, v: Seq<real>) -> real {
        let n = v.len() as int;
        match self {
            Self::Sum => psum(v, n), Self::Mean => if n == 0 { 0real } else { psum(v, n) / (n as real) },
            Self::Product => pprod(v, n), Self::Min => pmin(v, n), Self::Max => pmax(v, n),
            Self::CountNonZero => pnz(v, n) as real, Self::AnyNonZero { tolerance } => if anybig(v, tolerance@) { 1real } else { 0real },
        }
    }
}
//@ extract pywr-core/src/agg_funcs/mod.rs impl AggFuncF64::calc_iter_f64
//@| dropgenerics
//@| dropvariant CountFunc Python
//@| param values: &[R]
//@| byval !values
//@| ensures
//@|     r is Ok && r->Ok_0@ == self.of(rviews(values@))
//@| loop 0 invariant
//@|     _acc0@ == psum(rviews(values@), _i0 as int)
//@| loop 1 invariant
//@|     _acc1@ == psum(rviews(values@), _i1 as int)
//@| loop 2 invariant
//@|     total@ == pmax(rviews(values@), _i2 as int)
//@| loop 3 invariant
//@|     total@ == pmin(rviews(values@), _i3 as int)
//@| loop 4 invariant
//@|     _acc4@ == pprod(rviews(values@), _i4 as int)
//@| loop 5 invariant
//@|     _acc5 <= _i5, _acc5 == pnz(rviews(values@), _i5 as int)
//@| loop 6 invariant
//@|     _n6 == values@.len(), _acc6 ==> anybig(rviews(values@), tolerance@), !_acc6 ==> (forall|i: int| 0 <= i < _i6 ==> rabs(#[trigger] rviews(values@)[i]) <= tolerance@)
//@| at loop6.end proof { assert(rviews(values@)[_i6 - 1] == values@[_i6 - 1]@); }
