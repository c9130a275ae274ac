//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map GeneralParameterIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ map HashMap HMap<..>
//@ map HashSet HSet<..>
//@ mappath HashSet::with_capacity => HSet::with_capacity
//@ map Aggregator AggregatorPart
//@ map ParameterIndex ParameterIndex
//@ map GeneralParameterRegistration GeneralParameterRegistration
//@ map ModelDomain DomainPart
//@ refcalls nodes name
//@ mappath .cloned => fn cloned_list
//@ mappath .as_deref => & fn opt_ref
//@ mappath .as_deref_mut => &mut fn opt_mut
//@ mappath .unwrap_or_default => fn or_empty
//@ mappath Default::default => empty_map
//@ mappath .contains => & fn in_list
//@ mappath HashMap::with_capacity => HMap::with_capacity
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
use std::sync::Arc;
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/lib.rs const STORAGE_MASS_BALANCE_TOLERANCE
//@| pub
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include ../net/netok.rs
// pywr-core/src/network.rs: type NodeEdgeMap
pub type NodeEdgeMap = HMap<NodeIndex, Vec<EdgeIndex>>;
//@ include ../net/assembly_base.rs
//@ include ../net/same_maps.rs
//@ include ../net/eval_base.rs
//@ include ../net/eval_specs.rs
//@ include ../net/collection_fns.rs
//@ include ../net/collection_build.rs
//@ include ../net/collection_builder.rs
//@ include ../net/collection_proofs.rs
}
fn main() {}
