// State of the nodes, edges and virtual storages. Proved in unit `state`.
//@ extract pywr-core/src/state/flow.rs impl FlowState::new
//@| ensures
//@|     r.in_flow@ == 0real, r.out_flow@ == 0real
//@ extract pywr-core/src/state/flow.rs impl FlowState::reset
//@| ensures
//@|     final(self).in_flow@ == 0real, final(self).out_flow@ == 0real
//@ extract pywr-core/src/state/flow.rs impl FlowState::add_in_flow
//@| ensures
//@|     final(self).in_flow@ == old(self).in_flow@ + flow@, final(self).out_flow == old(self).out_flow
//@ extract pywr-core/src/state/flow.rs impl FlowState::add_out_flow
//@| ensures
//@|     final(self).out_flow@ == old(self).out_flow@ + flow@, final(self).in_flow == old(self).in_flow
//@ extract pywr-core/src/state/storage.rs impl StorageState::new
//@| ensures
//@|     r.nv() == (NV { st: true, i: 0real, o: 0real, v: initial_volume@, mx: max_volume@ })
//@ extract pywr-core/src/state/storage.rs impl StorageState::volume
//@| ensures
//@|     r@ == self.nv().v
//@ extract pywr-core/src/state/storage.rs impl StorageState::max_volume
//@| ensures
//@|     r@ == self.nv().mx
//@ extract pywr-core/src/state/storage.rs impl StorageState::proportional_volume
//@| ensures
//@|     r@ == prop_vol(self.nv().v, self.nv().mx)
//@ extract pywr-core/src/state/storage.rs impl StorageState::flow_state
//@| ensures
//@|     *r == self.flows
//@ extract pywr-core/src/state/storage.rs impl StorageState::reset
//@| ensures
//@|     final(self).nv() == old(self).nv().zeroed()
//@ extract pywr-core/src/state/storage.rs impl StorageState::add_in_flow
//@| ensures
//@|     final(self).nv() == old(self).nv().plus_in(flow@, timestep.dy())
//@ extract pywr-core/src/state/storage.rs impl StorageState::add_out_flow
//@| ensures
//@|     final(self).nv() == old(self).nv().plus_out(flow@, timestep.dy())
//@ extract pywr-core/src/state/storage.rs impl StorageState::set_volume
//@| ensures
//@|     final(self).nv() == (NV { v: volume@, mx: max_volume@, ..old(self).nv() })
//@ extract pywr-core/src/state/storage.rs impl StorageState::clamp
//@| stop out_of_bounds(old(self).nv().v, min_volume@, max_volume@)
//@| requires
//@|     min_volume@ <= max_volume@
//@| ensures
//@|     !out_of_bounds(old(self).nv().v, min_volume@, max_volume@),
//@|     final(self).nv() == (NV { mx: old(self).nv().mx, ..old(self).nv().held(min_volume@, max_volume@) })
//@ extract pywr-core/src/state/storage.rs impl StorageState::finalise
//@| requires
//@|     min_volume@ <= max_volume@
//@| ensures
//@|     !out_of_bounds(old(self).nv().v, min_volume@, max_volume@),
//@|     final(self).nv() == old(self).nv().held(min_volume@, max_volume@)
//@ extract pywr-core/src/state/mod.rs impl NodeState::new_flow_state
//@| ensures
//@|     r.nv() == (NV { st: false, i: 0real, o: 0real, v: 0real, mx: 0real })
//@ extract pywr-core/src/state/mod.rs impl NodeState::new_storage_state
//@| ensures
//@|     r.nv() == (NV { st: true, i: 0real, o: 0real, v: initial_volume@, mx: max_volume@ })
//@ extract pywr-core/src/state/mod.rs impl NodeState::reset
//@| ensures
//@|     final(self).nv() == old(self).nv().zeroed()
//@ extract pywr-core/src/state/mod.rs impl NodeState::add_in_flow
//@| ensures
//@|     final(self).nv() == old(self).nv().plus_in(flow@, timestep.dy())
//@ extract pywr-core/src/state/mod.rs impl NodeState::add_out_flow
//@| ensures
//@|     final(self).nv() == old(self).nv().plus_out(flow@, timestep.dy())
//@ extract pywr-core/src/state/mod.rs impl NodeState::get_in_flow
//@| ensures
//@|     r@ == self.nv().i
//@ extract pywr-core/src/state/mod.rs impl NodeState::get_out_flow
//@| ensures
//@|     r@ == self.nv().o
//@ extract pywr-core/src/state/mod.rs impl NodeState::finalise_volume
//@| requires
//@|     old(self).nv().st ==> min_volume@ <= max_volume@
//@| ensures
//@|     old(self).nv().st ==> !out_of_bounds(old(self).nv().v, min_volume@, max_volume@),
//@|     final(self).nv() == old(self).nv().held(min_volume@, max_volume@)
//@ extract pywr-core/src/state/mod.rs impl EdgeState::reset
//@| ensures
//@|     final(self).flow@ == 0real
//@ extract pywr-core/src/state/mod.rs impl EdgeState::add_flow
//@| ensures
//@|     final(self).flow@ == old(self).flow@ + flow@
// ---- virtual storages
#[verifier::external_body] fn vec_to_deque<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { unimplemented!() }
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageHistory::new
//@| ensures
//@|     r.flows@.len() == size.v(), r.size == size, forall|k: int| 0 <= k < size.v() ==> (#[trigger] r.flows@[k])@ == initial_flow@
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageHistory::reset
//@| ensures
//@|     final(self).flows@.len() == old(self).size.v(), final(self).size == old(self).size, forall|k: int| 0 <= k < old(self).size.v() ==> (#[trigger] final(self).flows@[k])@ == initial_flow@
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageHistory::add_flow
//@| ensures
//@|     final(self).flows@ == old(self).flows@.push(flow), final(self).size == old(self).size
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageHistory::pop_flow
//@| ensures
//@|     final(self).size == old(self).size,
//@|     old(self).flows@.len() >= old(self).size.v() ==> old(self).flows@.len() > 0 && r == old(self).flows@[0] && final(self).flows@ == old(self).flows@.drop_first(),
//@|     old(self).flows@.len() < old(self).size.v() ==> r@ == 0real && final(self).flows@ == old(self).flows@
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::new
//@| ensures
//@|     r.vv().s == (NV { st: true, i: 0real, o: 0real, v: initial_volume@, mx: max_volume@ }), r.vv().last is None,
//@|     history_size is None ==> r.vv().h is None,
//@|     history_size is Some ==> r.vv().h is Some && r.vv().h->Some_0.1 == history_size->Some_0.v()
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::reset
//@| ensures
//@|     final(self).vv() == (VV { s: old(self).vv().s.zeroed(), ..old(self).vv() })
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::reset_volume
//@| ensures
//@|     final(self).vv() == old(self).vv().set_to(volume@, max_volume@, *timestep)
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::reset_history
//@| ensures
//@|     final(self).vv() =~~= old(self).vv().hist_set(initial_flow@)
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::recover_last_historical_flow
//@| requires
//@|     timestep.dy() > 0real
//@| ensures
//@|     final(self).vv() =~~= old(self).vv().recovered(timestep.dy())
//@| at fn.top
//@|     proof { div_back(0real, timestep.dy()); assert(0real / timestep.dy() == 0real) by (nonlinear_arith) requires timestep.dy() > 0real; if self.vv().h is Some { let h = self.vv().h->Some_0; if h.0.len() >= 1 { div_back(h.0[0], timestep.dy()); } } }
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::add_out_flow
//@| ensures
//@|     final(self).vv() =~~= old(self).vv().used(flow@, timestep.dy())
//@ extract pywr-core/src/state/mod.rs impl VirtualStorageState::finalise_volume
//@| requires
//@|     min_volume@ <= max_volume@
//@| ensures
//@|     !out_of_bounds(old(self).vv().s.v, min_volume@, max_volume@),
//@|     final(self).vv() == (VV { s: old(self).vv().s.held(min_volume@, max_volume@), ..old(self).vv() })
