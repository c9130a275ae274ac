// State of a network. Proved in unit `state`.
//@ extract pywr-core/src/edge.rs impl Edge::index
//@| ensures
//@|     r == self.index
//@ extract pywr-core/src/edge.rs impl Edge::from_node_index
//@| ensures
//@|     r == self.from_node_index
//@ extract pywr-core/src/edge.rs impl Edge::to_node_index
//@| ensures
//@|     r == self.to_node_index
//@ extract pywr-core/src/state/mod.rs impl NetworkState::new
//@| ensures
//@|     r.ns() =~~= (NS { n: nvs(initial_node_states@), e: Seq::new(num_edges as nat, |k: int| 0real), v: vvs(initial_virtual_storage_states@) })
//@| acctype 0 EdgeState
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, _n0 == num_edges, forall|k: int| 0 <= k < _i0 ==> (#[trigger] _acc0@[k]).flow@ == 0real
//@ extract pywr-core/src/state/mod.rs impl NetworkState::reset
//@| ensures
//@|     final(self).ns() =~~= old(self).ns().zeroed()
//@| loop 0 invariant
//@|     _i0 <= _n0, _n0 == self.node_states@.len(), self.ns().e =~~= old(self).ns().e, self.ns().v =~~= old(self).ns().v, self.ns().n.len() == old(self).ns().n.len(), forall|k: int| 0 <= k < _n0 ==> (#[trigger] self.node_states@[k]).nv() == (if k < _i0 { old(self).node_states@[k].nv().zeroed() } else { old(self).node_states@[k].nv() })
//@| loop 1 invariant
//@|     _i1 <= _n1, _n1 == self.edge_states@.len(), self.ns().n =~~= old(self).ns().zeroed().n, self.ns().v =~~= old(self).ns().v, self.ns().e.len() == old(self).ns().e.len(), forall|k: int| 0 <= k < _i1 ==> (#[trigger] self.edge_states@[k]).flow@ == 0real
//@| loop 2 invariant
//@|     _i2 <= _n2, _n2 == self.virtual_storage_states@.len(), self.ns().n =~~= old(self).ns().zeroed().n, self.ns().e =~~= old(self).ns().zeroed().e, self.ns().v.len() == old(self).ns().v.len(), forall|k: int| 0 <= k < _n2 ==> (#[trigger] self.virtual_storage_states@[k]).vv() == (if k < _i2 { old(self).virtual_storage_states@[k].vv().zeroed() } else { old(self).virtual_storage_states@[k].vv() })
//@ extract pywr-core/src/state/mod.rs impl NetworkState::add_flow
//@| ensures
//@|     r is Ok == old(self).ns().has_edge(edge),
//@|     r is Ok ==> final(self).ns() =~~= old(self).ns().flowed(edge, flow@, timestep.dy())
//@ extract pywr-core/src/state/mod.rs impl NetworkState::finalise_node_volume
//@| requires
//@|     old(self).ns().is_store(*node_index) ==> min_volume@ <= max_volume@
//@| ensures
//@|     r is Ok == old(self).ns().has_node(*node_index),
//@|     r is Ok ==> (old(self).ns().nd(*node_index).st ==> !out_of_bounds(old(self).ns().nd(*node_index).v, min_volume@, max_volume@)) && final(self).ns() =~~= old(self).ns().with_node(node_index.0 as int, old(self).ns().nd(*node_index).held(min_volume@, max_volume@)),
//@|     r is Err ==> final(self).ns() == old(self).ns()
//@ extract pywr-core/src/state/mod.rs impl NetworkState::finalise_virtual_storage_node_volume
//@| requires
//@|     min_volume@ <= max_volume@
//@| ensures
//@|     r is Ok == old(self).ns().has_vs(*node_index),
//@|     r is Ok ==> !out_of_bounds(old(self).ns().vs(*node_index).s.v, min_volume@, max_volume@) && final(self).ns() =~~= old(self).ns().with_vs(node_index.0 as int, VV { s: old(self).ns().vs(*node_index).s.held(min_volume@, max_volume@), ..old(self).ns().vs(*node_index) }),
//@|     r is Err ==> final(self).ns() == old(self).ns()
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_node_in_flow
//@| ensures
//@|     r is Ok == self.ns().has_node(*node_index), r is Ok ==> r->Ok_0@ == self.ns().nd(*node_index).i
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_node_out_flow
//@| ensures
//@|     r is Ok == self.ns().has_node(*node_index), r is Ok ==> r->Ok_0@ == self.ns().nd(*node_index).o
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_node_volume
//@| ensures
//@|     r is Ok == self.ns().is_store(*node_index), r is Ok ==> r->Ok_0@ == self.ns().nd(*node_index).v
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_node_max_volume
//@| ensures
//@|     r is Ok == self.ns().is_store(*node_index), r is Ok ==> r->Ok_0@ == self.ns().nd(*node_index).mx
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_node_proportional_volume
//@| ensures
//@|     r is Ok == self.ns().is_store(*node_index), r is Ok ==> r->Ok_0@ == prop_vol(self.ns().nd(*node_index).v, self.ns().nd(*node_index).mx)
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_edge_flow
//@| ensures
//@|     r is Ok == (edge_index.0 < self.ns().e.len()), r is Ok ==> r->Ok_0@ == self.ns().e[edge_index.0 as int]
//@ extract pywr-core/src/state/mod.rs impl NetworkState::set_volume
//@| ensures
//@|     r is Ok == old(self).ns().is_store(*node_index),
//@|     r is Ok ==> final(self).ns() =~~= old(self).ns().with_node(node_index.0 as int, NV { v: volume@, mx: max_volume@, ..old(self).ns().nd(*node_index) }),
//@|     r is Err ==> final(self).ns() =~~= old(self).ns()
//@ extract pywr-core/src/state/mod.rs impl NetworkState::reset_virtual_storage_volume
//@| ensures
//@|     r is Ok == old(self).ns().has_vs(*idx),
//@|     r is Ok ==> final(self).ns() =~~= old(self).ns().with_vs(idx.0 as int, old(self).ns().vs(*idx).set_to(volume@, max_volume@, *timestep)),
//@|     r is Err ==> final(self).ns() =~~= old(self).ns()
//@ extract pywr-core/src/state/mod.rs impl NetworkState::reset_virtual_storage_history
//@| ensures
//@|     r is Ok == old(self).ns().has_vs(*idx),
//@|     r is Ok ==> final(self).ns() =~~= old(self).ns().with_vs(idx.0 as int, old(self).ns().vs(*idx).hist_set(initial_volume@)),
//@|     r is Err ==> final(self).ns() =~~= old(self).ns()
//@ extract pywr-core/src/state/mod.rs impl NetworkState::recover_virtual_storage_last_historical_flow
//@| requires
//@|     timestep.dy() > 0real
//@| ensures
//@|     r is Ok == old(self).ns().has_vs(*idx),
//@|     r is Ok ==> final(self).ns() =~~= old(self).ns().with_vs(idx.0 as int, old(self).ns().vs(*idx).recovered(timestep.dy())),
//@|     r is Err ==> final(self).ns() =~~= old(self).ns()
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_virtual_storage_volume
//@| ensures
//@|     r is Ok == self.ns().has_vs(*idx), r is Ok ==> r->Ok_0@ == self.ns().vs(*idx).s.v
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_virtual_storage_proportional_volume
//@| ensures
//@|     r is Ok == self.ns().has_vs(*idx), r is Ok ==> r->Ok_0@ == prop_vol(self.ns().vs(*idx).s.v, self.ns().vs(*idx).s.mx)
//@ extract pywr-core/src/state/mod.rs impl NetworkState::get_virtual_storage_last_reset
//@| ensures
//@|     r is Ok == self.ns().has_vs(*idx), r is Ok ==> *r->Ok_0 == self.ns().vs(*idx).last
