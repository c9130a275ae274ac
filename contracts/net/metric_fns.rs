// Metrics of the network. Proved in unit `metrics`.
//@ extract pywr-core/src/network.rs impl Network::nodes
//@| ensures
//@|     r@ == self.nodes@
//@ extract pywr-core/src/network.rs impl Network::virtual_storage_nodes
//@| ensures
//@|     r@ == self.virtual_storage_nodes@
//@ extract pywr-core/src/network.rs impl Network::get_node
//@| ensures
//@|     r is Some == self.has_node(*index), r is Some ==> *r->Some_0 == self.node(*index)
//@ extract pywr-core/src/network.rs impl Network::get_virtual_storage_node
//@| ensures
//@|     r is Some == self.has_vs(*index), r is Some ==> *r->Some_0 == self.vs(*index)
//@ extract pywr-core/src/network.rs impl Network::get_aggregated_node
//@| ensures
//@|     r is Some == (index.0 < self.aggregated_nodes@.len()), r is Some ==> *r->Some_0 == self.agg(*index)
//@ extract pywr-core/src/network.rs impl Network::get_aggregated_storage_node
//@| ensures
//@|     r is Some == (index.0 < self.aggregated_storage_nodes@.len()), r is Some ==> *r->Some_0 == self.aggs(index)
//@ iterfn pywr-core/src/aggregated_node.rs AggregatedNode::iter_nodes
//@ iterfn pywr-core/src/aggregated_storage_node.rs AggregatedStorageNode::iter_nodes
//@ extract pywr-core/src/metric.rs impl SimpleMetricF64::try_get_constant_value
//@| resultmap
//@| ensures
//@|     match self { SimpleMetricF64::Constant(c) => r is Ok == c.has(values.constant.pv()) && (r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0@ == c.val(values.constant.pv())), _ => r is Ok && r->Ok_0 is None }
//@ extract pywr-core/src/metric.rs impl SimpleMetricF64::is_constant
//@| ensures
//@|     r == (self is Constant)
//@ extract pywr-core/src/metric.rs impl ConstantMetricF64::is_constant_zero
//@| ensures
//@|     r == (self is Constant && self->Constant_0@ == 0real)
//@ extract pywr-core/src/metric.rs impl SimpleMetricF64::is_constant_zero
//@| ensures
//@|     r == (self is Constant && self->Constant_0 is Constant && self->Constant_0->Constant_0@ == 0real)
//@ extract pywr-core/src/metric.rs impl MetricF64::is_constant
//@| ensures
//@|     r == (self is Simple && self->Simple_0 is Constant)
//@ extract pywr-core/src/metric.rs impl MetricF64::is_constant_zero
//@| ensures
//@|     r == (self is Simple && self->Simple_0 is Constant && self->Simple_0->Constant_0 is Constant && self->Simple_0->Constant_0->Constant_0@ == 0real)
//@ extract pywr-core/src/metric.rs impl MetricF64::try_get_constant_value
//@| ensures
//@|     known(Some(*self), values.constant.pv(), 0real, r)
//@ extract pywr-core/src/metric.rs impl MetricF64::get_value
//@| iterof
//@|     get_aggregated_node AggregatedNode
//@|     get_aggregated_storage_node AggregatedStorageNode
//@| attr #[verifier::exec_allows_no_decreases_clause]
//@| ensures
//@|     r is Ok == self.has(network, state), r is Ok ==> r->Ok_0@ == self.val(network, state)
//@| at fn.top
//@|     proof { metric_axiom(*self, network, state); }
//@| acctype 1 &NodeIndex
//@| loop 1 invariant
//@|     _n1 == node.nodes@.len(), _flat1@.len() == mem(node.nodes@, _i1 as int).len(), forall|k: int| 0 <= k < _flat1@.len() ==> *(#[trigger] _flat1@[k]) == mem(node.nodes@, _i1 as int)[k]
//@| loop 2 invariant
//@|     _n2 == node.nodes@[_i1 - 1]@.len(), _x1@ == node.nodes@[_i1 - 1]@, 1 <= _i1 <= _n1, _flat1@.len() == mem(node.nodes@, _i1 - 1).len() + _i2, forall|k: int| 0 <= k < _flat1@.len() ==> *(#[trigger] _flat1@[k]) == (mem(node.nodes@, _i1 - 1) + node.nodes@[_i1 - 1]@)[k]
//@| loop 0 invariant
//@|     _n0 == node.members().len(), forall|k: int| 0 <= k < _flat1@.len() ==> *(#[trigger] _flat1@[k]) == node.members()[k], _acc0@ == upto(ins(state.network.ns(), node.members()), _i0 as int), forall|k: int| 0 <= k < _i0 ==> state.network.ns().has_node(#[trigger] node.members()[k])
//@| acctype 4 &NodeIndex
//@| loop 4 invariant
//@|     _n4 == node.nodes@.len(), _flat4@.len() == mem(node.nodes@, _i4 as int).len(), forall|k: int| 0 <= k < _flat4@.len() ==> *(#[trigger] _flat4@[k]) == mem(node.nodes@, _i4 as int)[k]
//@| loop 5 invariant
//@|     _n5 == node.nodes@[_i4 - 1]@.len(), _x4@ == node.nodes@[_i4 - 1]@, 1 <= _i4 <= _n4, _flat4@.len() == mem(node.nodes@, _i4 - 1).len() + _i5, forall|k: int| 0 <= k < _flat4@.len() ==> *(#[trigger] _flat4@[k]) == (mem(node.nodes@, _i4 - 1) + node.nodes@[_i4 - 1]@)[k]
//@| loop 3 invariant
//@|     _n3 == node.members().len(), forall|k: int| 0 <= k < _flat4@.len() ==> *(#[trigger] _flat4@[k]) == node.members()[k], _acc3@ == upto(outs(state.network.ns(), node.members()), _i3 as int), forall|k: int| 0 <= k < _i3 ==> state.network.ns().has_node(#[trigger] node.members()[k])
//@| loop 6 invariant
//@|     _n6 == indices@.len(), _acc6@ == upto(eflows(state.network.ns(), indices@), _i6 as int), forall|k: int| 0 <= k < _i6 ==> (#[trigger] indices@[k]).0 < state.network.ns().e.len()
//@| loop 7 invariant
//@|     _n7 == node.nodes@.len(), _acc7@ == upto(vols(state.network.ns(), node.nodes@), _i7 as int), forall|k: int| 0 <= k < _i7 ==> state.network.ns().is_store(#[trigger] node.nodes@[k])
//@| acctype 8a Result<R, E_>
//@| acctype 8b Result<R, E_>
//@| loop 8 invariant
//@|     _n8 == node.nodes@.len(), _acc8a@.len() == _i8, _acc8b@.len() == _i8, forall|k: int| 0 <= k < _i8 ==> (#[trigger] _acc8a@[k]) is Ok == state.network.ns().is_store(node.nodes@[k]) && (_acc8a@[k] is Ok ==> _acc8a@[k]->Ok_0@ == vols(state.network.ns(), node.nodes@)[k]), forall|k: int| 0 <= k < _i8 ==> (#[trigger] _acc8b@[k]) is Ok == state.network.ns().is_store(node.nodes@[k]) && (_acc8b@[k] is Ok ==> _acc8b@[k]->Ok_0@ == mxs(state.network.ns(), node.nodes@)[k])
//@| loop 9 invariant
//@|     _n9 == node.nodes@.len(), _acc9@ == upto(vols(state.network.ns(), node.nodes@), _i9 as int), forall|k: int| 0 <= k < _i9 ==> state.network.ns().is_store(#[trigger] node.nodes@[k])
//@| loop 10 invariant
//@|     _n10 == node.nodes@.len(), _acc10@ == upto(mxs(state.network.ns(), node.nodes@), _i10 as int)
//@| loop 11 invariant
//@|     _n11 == indices@.len(), _acc11@ == upto(ins(state.network.ns(), indices@), _i11 as int), forall|k: int| 0 <= k < _i11 ==> state.network.ns().has_node(#[trigger] indices@[k])
//@| loop 12 invariant
//@|     _n12 == indices@.len(), _acc12@ == upto(outs(state.network.ns(), indices@), _i12 as int), forall|k: int| 0 <= k < _i12 ==> state.network.ns().has_node(#[trigger] indices@[k])
//@ extract pywr-core/src/metric.rs impl ConstantMetricU64::get_value
//@| ensures
//@|     r is Ok == self.has(values.constant.pv()), r is Ok ==> r->Ok_0 == self.val(values.constant.pv())
//@ extract pywr-core/src/metric.rs impl SimpleMetricU64::get_value
//@| ensures
//@|     r is Ok == self.has(values.constant.constant.pv(), values.simple.pv()), r is Ok ==> r->Ok_0 == self.val(values.constant.constant.pv(), values.simple.pv())
//@ extract pywr-core/src/metric.rs impl MetricU64::get_value
//@| stop self is InterNetworkTransfer
//@| ensures
//@|     r is Ok == self.has(state), r is Ok ==> r->Ok_0 == self.val(state)
