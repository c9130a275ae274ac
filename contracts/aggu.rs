spec fn usum(v: Seq<u64>, n: int) -> int decreases n { if n <= 0 { 0 } else { usum(v, n - 1) + v[n - 1] } }
spec fn uprod(v: Seq<u64>, n: int) -> int decreases n { if n <= 0 { 1 } else { uprod(v, n - 1) * v[n - 1] } }
spec fn umax(v: Seq<u64>, n: int) -> u64 decreases n { if n <= 0 { 0 } else if v[n - 1] >= umax(v, n - 1) { v[n - 1] } else { umax(v, n - 1) } }
spec fn umin(v: Seq<u64>, n: int) -> u64 decreases n { if n <= 0 { u64::MAX } else if v[n - 1] < umin(v, n - 1) { v[n - 1] } else { umin(v, n - 1) } }
proof fn lemma_usum(v: Seq<u64>, i: int, n: int) requires 0 <= i <= n <= v.len() ensures 0 <= usum(v, i) <= usum(v, n) decreases n
{ if i < n { lemma_usum(v, i, n - 1); } else if n > 0 { lemma_usum(v, n - 1, n - 1); } }
//@ extract pywr-core/src/agg_funcs/mod.rs enum AggFuncU64
//@| dropvariant Python
impl AggFuncU64 {
    /// every partial sum / product is representable
    spec fn fits(&self, v: Seq<u64>) -> bool {
        match self { Self::Sum => usum(v, v.len() as int) <= u64::MAX, Self::Product => forall|i: int| 0 <= i <= v.len() ==> #[trigger] uprod(v, i) <= u64::MAX, _ => true }
    }
    spec fn of(&self, v: Seq<u64>) -> int {
        let n = v.len() as int;
        match self {
            Self::Sum => usum(v, n), Self::Product => uprod(v, n), Self::Min => umin(v, n) as int, Self::Max => umax(v, n) as int,
            Self::Any => if exists|i: int| 0 <= i < n && #[trigger] v[i] != 0 { 1 } else { 0 }, Self::All => if forall|i: int| 0 <= i < n ==> #[trigger] v[i] != 0 { 1 } else { 0 },
        }
    }
}
//@ extract pywr-core/src/agg_funcs/mod.rs impl AggFuncU64::calc_iter_u64
//@| dropgenerics
//@| dropvariant Python
//@| param values: &[u64]
//@| byval !values
//@| sumtype u64
//@| acctype 2 &u64
//@| acctype 3 &u64
//@| requires
//@|     self.fits(values@)
//@| ensures
//@|     r is Ok && r->Ok_0 == self.of(values@)
//@| loop 0 invariant
//@|     _acc0 == usum(values@, _i0 as int)
//@| at loop0.top proof { lemma_usum(values@, _i0 as int, values@.len() as int); }
//@| loop 1 invariant
//@|     _acc1 == uprod(values@, _i1 as int)
//@| at loop1.top proof { assert(uprod(values@, _i1 as int) <= u64::MAX); assert(uprod(values@, _i1 as int) == _acc1 * _item); }
//@| loop 2 invariant
//@|     _acc2 is None == (_i2 == 0), _acc2 is Some ==> *(_acc2->Some_0) == umax(values@, _i2 as int)
//@| at loop2.before proof { assert(umax(values@, 0) == 0); }
//@| at loop3.before proof { assert(umin(values@, 0) == u64::MAX); }
//@| loop 3 invariant
//@|     _acc3 is None == (_i3 == 0), _acc3 is Some ==> *(_acc3->Some_0) == umin(values@, _i3 as int)
//@| loop 4 invariant
//@|     _acc4 ==> (exists|i: int| 0 <= i < values@.len() && #[trigger] values@[i] != 0), !_acc4 ==> (forall|i: int| 0 <= i < _i4 ==> #[trigger] values@[i] == 0)
//@| loop 5 invariant
//@|     !_acc5 ==> (exists|i: int| 0 <= i < values@.len() && #[trigger] values@[i] == 0), _acc5 ==> (forall|i: int| 0 <= i < _i5 ==> #[trigger] values@[i] != 0)
