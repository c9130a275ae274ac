//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map GeneralParameterIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ mappath .as_deref => & fn opt_ref
//@ mappath .as_deref_mut => &mut fn opt_mut
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
use std::sync::Arc;
verus! {
//@ include ../duration.rs
//@ include ../net/metric_set_opaque.rs
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include-trusted ../net/values.rs metrics
//@ include-trusted ../net/statevals_fns.rs state
//@ extract pywr-core/src/parameters/mod.rs struct ParameterName
//@| derive Clone Copy
//@| pub
//@ include ../net/eval_base.rs
//@ include ../net/eval_specs.rs
//@ include ../net/eval_fns.rs
}
fn main() {}
