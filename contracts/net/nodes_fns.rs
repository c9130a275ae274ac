// Constraints, costs and initial volumes of nodes. Proved in unit `nodes`.
//@ extract pywr-core/src/node.rs impl FlowConstraints::get_min_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.has_min(network, state), r is Ok ==> r->Ok_0@ == self.min(network, state)
//@ extract pywr-core/src/node.rs impl FlowConstraints::get_max_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.has_max(network, state), r is Ok ==> r->Ok_0@ == self.max(network, state)
//@ extract pywr-core/src/node.rs impl InputNode::get_min_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.flow_constraints.has_min(network, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.min(network, state)
//@ extract pywr-core/src/node.rs impl InputNode::get_max_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.flow_constraints.has_max(network, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.max(network, state)
//@ extract pywr-core/src/node.rs impl OutputNode::get_min_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.flow_constraints.has_min(network, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.min(network, state)
//@ extract pywr-core/src/node.rs impl OutputNode::get_max_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.flow_constraints.has_max(network, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.max(network, state)
//@ extract pywr-core/src/node.rs impl LinkNode::get_min_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.flow_constraints.has_min(network, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.min(network, state)
//@ extract pywr-core/src/node.rs impl LinkNode::get_max_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.flow_constraints.has_max(network, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.max(network, state)
//@ extract pywr-core/src/node.rs impl StorageConstraints::get_min_volume
//@| ensures
//@|     r is Ok == self.has_lo(values.constant.constant.pv(), values.simple.pv()), r is Ok ==> r->Ok_0@ == self.lo(values.constant.constant.pv(), values.simple.pv())
//@ extract pywr-core/src/node.rs impl StorageConstraints::get_max_volume
//@| ensures
//@|     r is Ok == self.has_hi(values.constant.constant.pv(), values.simple.pv()), r is Ok ==> r->Ok_0@ == self.hi(values.constant.constant.pv(), values.simple.pv())
//@ extract pywr-core/src/node.rs impl StorageNode::get_min_volume
//@| ensures
//@|     r is Ok == self.storage_constraints.has_min(state), r is Ok ==> r->Ok_0@ == self.storage_constraints.min(state)
//@ extract pywr-core/src/node.rs impl StorageNode::get_max_volume
//@| ensures
//@|     r is Ok == self.storage_constraints.has_max(state), r is Ok ==> r->Ok_0@ == self.storage_constraints.max(state)
//@ extract pywr-core/src/node.rs impl Node::index
//@| ensures
//@|     r == self.idx()
//@ extract pywr-core/src/node.rs impl Node::get_min_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == (!(self is Storage) && self.fc().has_min(network, state)), r is Ok ==> r->Ok_0@ == self.fc().min(network, state)
//@ extract pywr-core/src/node.rs impl Node::get_max_flow
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == (!(self is Storage) && self.fc().has_max(network, state)), r is Ok ==> r->Ok_0@ == self.fc().max(network, state)
//@ extract pywr-core/src/node.rs impl Node::get_min_volume
//@| ensures
//@|     r is Ok == (self is Storage && self.sc().has_min(state)), r is Ok ==> r->Ok_0@ == self.sc().min(state)
//@ extract pywr-core/src/node.rs impl Node::get_max_volume
//@| ensures
//@|     r is Ok == (self is Storage && self.sc().has_max(state)), r is Ok ==> r->Ok_0@ == self.sc().max(state)
//@ extract pywr-core/src/node.rs impl FlowConstraints::get_const_min_flow
//@| ensures
//@|     self.const_min(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl FlowConstraints::get_const_max_flow
//@| ensures
//@|     self.const_max(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl FlowConstraints::is_max_flow_unconstrained
//@| ensures
//@|     r == (self.max_flow is None)
//@ extract pywr-core/src/node.rs impl InputNode::get_const_min_flow
//@| ensures
//@|     self.flow_constraints.const_min(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl InputNode::get_const_max_flow
//@| ensures
//@|     self.flow_constraints.const_max(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl InputNode::is_max_flow_unconstrained
//@| ensures
//@|     r == (self.flow_constraints.max_flow is None)
//@ extract pywr-core/src/node.rs impl OutputNode::get_const_min_flow
//@| ensures
//@|     self.flow_constraints.const_min(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl OutputNode::get_const_max_flow
//@| ensures
//@|     self.flow_constraints.const_max(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl OutputNode::is_max_flow_unconstrained
//@| ensures
//@|     r == (self.flow_constraints.max_flow is None)
//@ extract pywr-core/src/node.rs impl LinkNode::get_const_min_flow
//@| ensures
//@|     self.flow_constraints.const_min(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl LinkNode::get_const_max_flow
//@| ensures
//@|     self.flow_constraints.const_max(values.constant.pv(), r)
//@ extract pywr-core/src/node.rs impl LinkNode::is_max_flow_unconstrained
//@| ensures
//@|     r == (self.flow_constraints.max_flow is None)
//@ extract pywr-core/src/node.rs impl Node::get_const_min_flow
//@| ensures
//@|     if self is Storage { r is Err } else { self.fc().const_min(values.constant.pv(), r) }
//@ extract pywr-core/src/node.rs impl Node::get_const_max_flow
//@| ensures
//@|     if self is Storage { r is Err } else { self.fc().const_max(values.constant.pv(), r) }
//@ extract pywr-core/src/node.rs impl Node::is_max_flow_unconstrained
//@| ensures
//@|     r is Ok == !(self is Storage), r is Ok ==> r->Ok_0 == (self.fc().max_flow is None)
//@ extract pywr-core/src/node.rs impl Node::get_volume_bounds
//@| ensures
//@|     r is Ok == (self is Storage && self.sc().has_min(state) && self.sc().has_max(state)), r is Ok ==> r->Ok_0.0@ == self.sc().min(state) && r->Ok_0.1@ == self.sc().max(state)
//@ extract pywr-core/src/node.rs impl Node::get_bounds
//@| ensures
//@|     !(self is Storage) ==> r is Ok == (self.fc().has_min(network, state) && self.fc().has_max(network, state)) && (r is Ok ==> r->Ok_0 is Flow && r->Ok_0->Flow_0.min_flow@ == self.fc().min(network, state) && r->Ok_0->Flow_0.max_flow@ == self.fc().max(network, state)),
//@|     self is Storage ==> r is Ok == (self.sc().has_min(state) && self.sc().has_max(state) && state.network.ns().is_store(self.idx())) && (r is Ok ==> r->Ok_0 is Volume && r->Ok_0->Volume_0.available@ == state.network.ns().nd(self.idx()).v - self.sc().min(state) && r->Ok_0->Volume_0.missing@ == self.sc().max(state) - state.network.ns().nd(self.idx()).v)
//@ extract pywr-core/src/node.rs impl Node::get_const_bounds
//@| ensures
//@|     self is Storage ==> r is Ok && r->Ok_0 is None,
//@|     !(self is Storage) && r is Ok ==> match r->Ok_0 { None => self.fc().varies(), Some(b) => !self.fc().varies() && b is Flow && self.fc().const_min(values.constant.pv(), Ok(Some(b->Flow_0.min_flow))) && self.fc().const_max(values.constant.pv(), Ok(Some(b->Flow_0.max_flow))) }
//@ extract pywr-core/src/node.rs impl NodeCost::get_cost
//@| ensures
//@|     r is Ok == self.has(network, state), r is Ok ==> r->Ok_0@ == self.val(network, state)
//@| loop 0 invariant
//@|     self.has_own(network, state), self.agg_func == Some(*agg_func), _n0 == self.virtual_storage_nodes@.len(),
//@|     cost@ == combined(*agg_func, self.own(network, state), self.others(network, state), _i0 as int),
//@|     forall|k: int| 0 <= k < _i0 ==> #[trigger] self.has_other(network, state, k)
//@| at loop0.top
//@|     proof { let _known = self.has_other(network, state, _i0 as int - 1); }
//@| loop 1 invariant
//@|     self.has_own(network, state), self.agg_func == Some(*agg_func), _n1 == self.virtual_storage_nodes@.len(),
//@|     cost@ == combined(*agg_func, self.own(network, state), self.others(network, state), _i1 as int),
//@|     forall|k: int| 0 <= k < _i1 ==> #[trigger] self.has_other(network, state, k)
//@| at loop1.top
//@|     proof { let _known = self.has_other(network, state, _i1 as int - 1); }
//@| loop 2 invariant
//@|     self.has_own(network, state), self.agg_func == Some(*agg_func), _n2 == self.virtual_storage_nodes@.len(),
//@|     cost@ == combined(*agg_func, self.own(network, state), self.others(network, state), _i2 as int),
//@|     forall|k: int| 0 <= k < _i2 ==> #[trigger] self.has_other(network, state, k)
//@| at loop2.top
//@|     proof { let _known = self.has_other(network, state, _i2 as int - 1); }
//@ extract pywr-core/src/node.rs impl InputNode::get_cost
//@| ensures
//@|     r is Ok == self.cost.has(network, state), r is Ok ==> r->Ok_0@ == self.cost.val(network, state)
//@ extract pywr-core/src/node.rs impl OutputNode::get_cost
//@| ensures
//@|     r is Ok == self.cost.has(network, state), r is Ok ==> r->Ok_0@ == self.cost.val(network, state)
//@ extract pywr-core/src/node.rs impl LinkNode::get_cost
//@| ensures
//@|     r is Ok == self.cost.has(network, state), r is Ok ==> r->Ok_0@ == self.cost.val(network, state)
//@ extract pywr-core/src/node.rs impl StorageNode::get_cost
//@| ensures
//@|     r is Ok == self.cost.has(network, state), r is Ok ==> r->Ok_0@ == self.cost.val(network, state)
//@ extract pywr-core/src/node.rs impl Node::get_outgoing_cost
//@| ensures
//@|     r is Ok == self.nc().has(network, state), r is Ok ==> r->Ok_0@ == self.out_cost(network, state)
//@ extract pywr-core/src/node.rs impl Node::get_incoming_cost
//@| ensures
//@|     r is Ok == self.nc().has(network, state), r is Ok ==> r->Ok_0@ == self.in_cost(network, state)
//@ extract pywr-core/src/edge.rs impl Edge::cost
//@| ensures
//@|     r is Ok == (self.from_node_index.0 < nodes@.len() && self.to_node_index.0 < nodes@.len() && nodes@[self.from_node_index.0 as int].nc().has(model, state) && nodes@[self.to_node_index.0 as int].nc().has(model, state)),
//@|     r is Ok ==> r->Ok_0@ == nodes@[self.from_node_index.0 as int].out_cost(model, state) + nodes@[self.to_node_index.0 as int].in_cost(model, state)
//@ extract pywr-core/src/node.rs impl StorageInitialVolume::get_absolute_initial_volume
//@| ensures
//@|     r is Ok == self.has(state), r is Ok ==> r->Ok_0@ == self.at(max_volume@, state)
//@ extract pywr-core/src/node.rs impl StorageNode::before
//@| ensures
//@|     timestep.index != 0 ==> r is Ok && *final(state) == *old(state),
//@|     timestep.index == 0 ==> r is Ok == (self.storage_constraints.has_max(old(state)) && self.initial_volume.has(old(state)) && old(state).network.ns().is_store(self.meta.index)) && final(state).same_values(old(state)),
//@|     timestep.index == 0 && r is Ok ==> final(state).network.ns() =~~= old(state).network.ns().initialised(self.meta.index, self.initial_volume.at(self.storage_constraints.max(old(state)), old(state)), self.storage_constraints.max(old(state)))
//@ extract pywr-core/src/node.rs impl Node::before
//@| ensures
//@|     !(self is Storage) || timestep.index != 0 ==> r is Ok && *final(state) == *old(state),
//@|     self is Storage && timestep.index == 0 ==> r is Ok == (self.sc().has_max(old(state)) && self->Storage_0.initial_volume.has(old(state)) && old(state).network.ns().is_store(self.idx())) && final(state).same_values(old(state)),
//@|     self is Storage && timestep.index == 0 && r is Ok ==> final(state).network.ns() =~~= old(state).network.ns().initialised(self.idx(), self->Storage_0.initial_volume.at(self.sc().max(old(state)), old(state)), self.sc().max(old(state)))
//@ extract pywr-core/src/node.rs impl Node::default_state
//@| ensures
//@|     r.nv() == (NV { st: self is Storage, i: 0real, o: 0real, v: 0real, mx: 0real })
