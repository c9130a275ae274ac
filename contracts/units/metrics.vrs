//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ mappath .into => fn vec_to_deque
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/lib.rs const STORAGE_MASS_BALANCE_TOLERANCE
//@| pub
//@ include ../net/metric_set_opaque.rs
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include ../net/values.rs
//@ include-trusted ../net/state_fns.rs state
//@ include-trusted ../net/netstate_fns.rs state
//@ include-trusted ../net/statevals_fns.rs state
//@ include-trusted ../net/nodes_fns.rs nodes
//@ include-trusted ../net/vs_fns.rs vstorage
//@ include ../net/metric_fns.rs
}
fn main() {}
