//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ mappath .into => fn vec_to_deque
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/lib.rs const STORAGE_MASS_BALANCE_TOLERANCE
//@| pub
//@ include ../net/metric_set_opaque.rs
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include-trusted ../net/values.rs metrics
//@ include ../net/state_fns.rs
//@ include ../net/netstate_fns.rs
//@ include ../net/statevals_fns.rs
//@ include-trusted ../net/nodes_fns.rs nodes
//@ include-trusted ../net/vs_fns.rs vstorage
//@ include-trusted ../net/metric_fns.rs metrics
//@ include ../net/complete_fns.rs
}
fn main() {}
