//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map GeneralParameterIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ map HashMap HMap<..>
//@ map Aggregator AggregatorPart
//@ map Into Conv<..>
//@ map ParameterIndex ParameterIndex
//@ map GeneralParameterRegistration GeneralParameterRegistration
//@ map ModelDomain DomainPart
//@ refcalls nodes name
//@ mappath .into => fn conv
//@ mappath .cloned => fn cloned_list
//@ mappath .as_deref => & fn opt_ref
//@ mappath .unwrap_or_default => fn or_empty
//@ mappath .try_into => fn into_simple
//@ mappath Default::default => empty_map
//@ mappath HashMap::with_capacity => HMap::with_capacity
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/lib.rs const STORAGE_MASS_BALANCE_TOLERANCE
//@| pub
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include ../net/netok.rs
// pywr-core/src/network.rs: type NodeEdgeMap
pub type NodeEdgeMap = HMap<NodeIndex, Vec<EdgeIndex>>;
//@ include ../net/assembly_base.rs
//@ include ../net/same_maps.rs
//@ include ../net/resolve_fns.rs
//@ include ../net/assembly_fns.rs
//@ include ../net/assembly_proofs.rs
//@ include ../net/assembly_setters.rs
//@ include ../net/names_fns.rs
}
fn main() {}
