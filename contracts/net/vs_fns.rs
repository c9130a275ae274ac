// Virtual storages. Proved in unit `vstorage`.
//@ extract pywr-core/src/node.rs impl NodeMeta<T>::index
//@| implgen <T>
//@| selfty NodeMeta<T>
//@| ensures
//@|     *r == self.index
//@ iterfn pywr-core/src/virtual_storage.rs VirtualStorageNode::iter_nodes_with_factors
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::get_min_volume
//@| ensures
//@|     r is Ok == self.storage_constraints.has_min(state), r is Ok ==> r->Ok_0@ == self.storage_constraints.min(state)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::get_max_volume
//@| ensures
//@|     r is Ok == self.storage_constraints.has_max(state), r is Ok ==> r->Ok_0@ == self.storage_constraints.max(state)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::get_cost
//@| ensures
//@|     r is Ok == self.has_cost(network, state), r is Ok ==> r->Ok_0@ == self.cost(network, state)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::index
//@| ensures
//@|     r == self.vi()
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::default_state
//@| ensures
//@|     r.vv().s == (NV { st: true, i: 0real, o: 0real, v: 0real, mx: 0real }), r.vv().last is None,
//@|     self.rolling_window is None ==> r.vv().h is None,
//@|     self.rolling_window is Some ==> r.vv().h is Some && r.vv().h->Some_0.1 == self.rolling_window->Some_0.v()
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageActivePeriod::is_active
//@| ensures
//@|     r == self.covers(*timestep)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::is_active
//@| ensures
//@|     r == self.active(timestep)
//@ extract pywr-core/src/virtual_storage.rs fn months_since_last_reset
//@| ensures
//@|     r == months_between(*current, *last_reset)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::get_available_volume_bounds
//@| ensures
//@|     r is Ok == (self.storage_constraints.has_min(state) && self.storage_constraints.has_max(state) && state.network.ns().has_vs(self.vi())),
//@|     r is Ok ==> r->Ok_0.0@ == rmax(state.network.ns().vs(self.vi()).s.v - self.storage_constraints.min(state), 0real) && r->Ok_0.1@ == rmax(self.mx(state) - state.network.ns().vs(self.vi()).s.v, 0real)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::before
//@| requires
//@|     timestep.dy() > 0real
//@| ensures
//@|     old(state).network.ns().has_vs(self.vi()) ==> r is Ok == self.can_begin(timestep, old(state)),
//@|     old(state).network.ns().has_vs(self.vi()) && r is Ok ==> final(state).network.ns() =~~= old(state).network.ns().with_vs(self.vi().0 as int, self.begun(timestep, old(state))),
//@|     final(state).same_values(old(state))
