//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ map I usize
//@ map Lp Lp
//@ map LpBuilder LpBuilder
//@ map RowBuilder RowBuilder
//@ map ColumnEdgeMap ColumnEdgeMap
//@ map ColumnEdgeMapBuilder ColumnEdgeMapBuilder
//@ map SolverBuilder SolverBuilder
//@ map BuiltSolver BuiltSolver
//@ map AggNodeFactorRow AggNodeFactorRow
//@ map NodeRowId NodeRowId
//@ map NodeRowType NodeRowType
//@ mappath I::from => idx_from
//@ mappath I::one => idx_one
//@ mappath I::zero => idx_zero
//@ mappath .fill => &mut fn vec_fill
//@ refcalls get_incoming_edges get_outgoing_edges nodes edges aggregated_nodes virtual_storage_nodes node0_indices node1_indices iter_nodes
//@ mappath .into => fn vec_to_deque
//@ mappath .drain => &mut fn vec_drain
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/lib.rs const STORAGE_MASS_BALANCE_TOLERANCE
//@| pub
//@ include ../net/metric_set_opaque.rs
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include-trusted ../net/values.rs metrics
//@ include-trusted ../net/state_fns.rs state
//@ include-trusted ../net/netstate_fns.rs state
//@ include-trusted ../net/statevals_fns.rs state
//@ include-trusted ../net/nodes_fns.rs nodes
//@ include-trusted ../net/vs_fns.rs vstorage
//@ include-trusted ../net/metric_fns.rs metrics
//@ include ../net/agg_specs.rs
//@ include-trusted ../net/agg_fns.rs aggnode
//@ include ../net/lpbase.rs
//@ include-trusted ../net/lp_fns.rs lp
//@ extract pywr-core/src/node.rs enum NodeType
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct AggNodeFactorRow
//@| dropgenerics
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct NodeRowId
//@| dropgenerics
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/solvers/builder.rs enum NodeRowType
//@| dropgenerics
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct BuiltSolver
//@| dropgenerics
//@| pub
//@ include ../net/netok.rs
//@ include ../net/lpnet.rs
//@ include-trusted ../net/lpacc_fns.rs lpbuild
//@ include ../net/lplin.rs
//@ include ../net/lpstep.rs
//@ extract pywr-core/src/solvers/mod.rs struct SolverTimings
//@| mapfield update_objective: R
//@|     update_constraints: R
//@|     solve: R
//@|     save_solution: R
//@| pub
/// all elements are taken out
#[verifier::external_body] pub fn vec_drain<T>(v: &mut Vec<T>, _a: core::ops::RangeFull) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
/// a clock
#[verifier::external_body] pub struct Instant { x: u64 }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> R { unimplemented!() }
}
//@ include ../net/lplink.rs
//@ include ../net/lpupdate_fns.rs
//@ include ../net/lpclient.rs
}
fn main() {}
