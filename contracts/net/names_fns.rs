// Look-ups of a network by name.
impl PartialEqSpecImpl for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Str) -> bool { self.id() == o.id() } }
impl PartialEq for Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) ensures r == (self.id() == o.id()) { unimplemented!() } }
impl Str { pub fn as_str(&self) -> (r: &Str) ensures r.id() == self.id() { self } }
/// Option<String>::as_deref
pub fn opt_ref(o: &Option<Str>) -> (r: Option<&Str>) ensures opt_ref_id(r) == opt_id(*o) { match o { Some(s) => Some(s), None => None } }
pub open spec fn opt_ref_id(s: Option<&Str>) -> Option<int> { match s { None => None, Some(s) => Some(s.id()) } }
/// what a full name is compared by
pub open spec fn nk(n: (&Str, Option<&Str>)) -> NK { (n.0.id(), opt_ref_id(n.1)) }
/// comparison of two full names
pub fn tuple_eq(a: (&Str, Option<&Str>), b: (&Str, Option<&Str>)) -> (r: bool) ensures r == (nk(a) == nk(b)) {
    *a.0 == *b.0 && match (a.1, b.1) { (Some(x), Some(y)) => *x == *y, (None, None) => true, _ => false }
}
pub trait Named { spec fn nk(&self) -> NK; }
impl<T> NodeMeta<T> { pub open spec fn nk(&self) -> NK { (self.name.id(), opt_id(self.sub_name)) } }
impl Named for Node { open spec fn nk(&self) -> NK { self.meta_().nk() } }
impl Named for AggregatedNode { open spec fn nk(&self) -> NK { self.meta.nk() } }
impl Named for AggregatedStorageNode { open spec fn nk(&self) -> NK { self.meta.nk() } }
impl Named for VirtualStorageNode { open spec fn nk(&self) -> NK { self.meta.nk() } }
/// nothing of this name among the first c
pub open spec fn unnamed<T: Named>(ns: Seq<T>, q: NK, c: int) -> bool { forall|i: int| 0 <= i < c ==> (#[trigger] ns[i]).nk() != q }
/// n is the first of this name
pub open spec fn first_named<T: Named>(ns: Seq<T>, q: NK, n: T) -> bool { exists|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == n && ns[i].nk() == q && unnamed(ns, q, i) }

//@ extract pywr-core/src/node.rs impl NodeMeta<T>::name
//@| implgen <T>
//@| selfty NodeMeta<T>
//@| ensures
//@|     r.id() == self.name.id()
//@ extract pywr-core/src/node.rs impl NodeMeta<T>::sub_name
//@| implgen <T>
//@| selfty NodeMeta<T>
//@| ensures
//@|     opt_ref_id(r) == opt_id(self.sub_name)
//@ extract pywr-core/src/node.rs impl NodeMeta<T>::full_name
//@| implgen <T>
//@| selfty NodeMeta<T>
//@| ensures
//@|     nk(r) == self.nk()
//@ extract pywr-core/src/node.rs impl NodeMeta<T>::index
//@| implgen <T>
//@| selfty NodeMeta<T>
//@| ensures
//@|     *r == self.index
//@ extract pywr-core/src/node.rs impl Node::name
//@| ensures
//@|     r.id() == self.nk().0
//@ extract pywr-core/src/node.rs impl Node::sub_name
//@| ensures
//@|     opt_ref_id(r) == self.nk().1
//@ extract pywr-core/src/node.rs impl Node::full_name
//@| ensures
//@|     nk(r) == self.nk()
//@ extract pywr-core/src/node.rs impl Node::index
//@| ensures
//@|     r == self.meta_().index
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::name
//@| ensures
//@|     r.id() == self.nk().0
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::sub_name
//@| ensures
//@|     opt_ref_id(r) == self.nk().1
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::full_name
//@| ensures
//@|     nk(r) == self.nk()
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::index
//@| ensures
//@|     r == self.meta.index
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNode::name
//@| ensures
//@|     r.id() == self.nk().0
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNode::sub_name
//@| ensures
//@|     opt_ref_id(r) == self.nk().1
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNode::full_name
//@| ensures
//@|     nk(r) == self.nk()
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNode::index
//@| ensures
//@|     r == self.meta.index
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::name
//@| ensures
//@|     r.id() == self.nk().0
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::sub_name
//@| ensures
//@|     opt_ref_id(r) == self.nk().1
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::full_name
//@| ensures
//@|     nk(r) == self.nk()
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNode::index
//@| ensures
//@|     r == self.meta.index

//@ extract pywr-core/src/network.rs impl Network::get_node_by_name
//@| ensures
//@|     r is None ==> unnamed(self.nodes@, nk((name, sub_name)), self.nodes@.len() as int),
//@|     r is Some ==> first_named(self.nodes@, nk((name, sub_name)), *r->Some_0)
//@| acctype 0 &Node
//@| loop 0 invariant
//@|     _n0 == self.nodes@.len(), _acc0 is None ==> unnamed(self.nodes@, nk((name, sub_name)), _i0 as int),
//@|     _acc0 is Some ==> first_named(self.nodes@, nk((name, sub_name)), *_acc0->Some_0)
//@ extract pywr-core/src/network.rs impl Network::get_node_index_by_name
//@| ensures
//@|     r is None ==> unnamed(self.nodes@, nk((name, sub_name)), self.nodes@.len() as int),
//@|     r is Some ==> exists|n: Node| #[trigger] first_named(self.nodes@, nk((name, sub_name)), n) && r->Some_0 == n.meta_().index
//@ extract pywr-core/src/network.rs impl Network::get_aggregated_node_by_name
//@| ensures
//@|     r is None ==> unnamed(self.aggregated_nodes@, nk((name, sub_name)), self.aggregated_nodes@.len() as int),
//@|     r is Some ==> first_named(self.aggregated_nodes@, nk((name, sub_name)), *r->Some_0)
//@| acctype 0 &AggregatedNode
//@| loop 0 invariant
//@|     _n0 == self.aggregated_nodes@.len(), _acc0 is None ==> unnamed(self.aggregated_nodes@, nk((name, sub_name)), _i0 as int),
//@|     _acc0 is Some ==> first_named(self.aggregated_nodes@, nk((name, sub_name)), *_acc0->Some_0)
//@ extract pywr-core/src/network.rs impl Network::get_aggregated_node_index_by_name
//@| ensures
//@|     r is None ==> unnamed(self.aggregated_nodes@, nk((name, sub_name)), self.aggregated_nodes@.len() as int),
//@|     r is Some ==> exists|n: AggregatedNode| #[trigger] first_named(self.aggregated_nodes@, nk((name, sub_name)), n) && r->Some_0 == n.meta.index
//@ extract pywr-core/src/network.rs impl Network::get_aggregated_storage_node_by_name
//@| ensures
//@|     r is None ==> unnamed(self.aggregated_storage_nodes@, nk((name, sub_name)), self.aggregated_storage_nodes@.len() as int),
//@|     r is Some ==> first_named(self.aggregated_storage_nodes@, nk((name, sub_name)), *r->Some_0)
//@| acctype 0 &AggregatedStorageNode
//@| loop 0 invariant
//@|     _n0 == self.aggregated_storage_nodes@.len(), _acc0 is None ==> unnamed(self.aggregated_storage_nodes@, nk((name, sub_name)), _i0 as int),
//@|     _acc0 is Some ==> first_named(self.aggregated_storage_nodes@, nk((name, sub_name)), *_acc0->Some_0)
//@ extract pywr-core/src/network.rs impl Network::get_aggregated_storage_node_index_by_name
//@| ensures
//@|     r is None ==> unnamed(self.aggregated_storage_nodes@, nk((name, sub_name)), self.aggregated_storage_nodes@.len() as int),
//@|     r is Some ==> exists|n: AggregatedStorageNode| #[trigger] first_named(self.aggregated_storage_nodes@, nk((name, sub_name)), n) && r->Some_0 == n.meta.index
//@ extract pywr-core/src/network.rs impl Network::get_virtual_storage_node_by_name
//@| ensures
//@|     r is None ==> unnamed(self.virtual_storage_nodes@, nk((name, sub_name)), self.virtual_storage_nodes@.len() as int),
//@|     r is Some ==> first_named(self.virtual_storage_nodes@, nk((name, sub_name)), *r->Some_0)
//@| acctype 0 &VirtualStorageNode
//@| loop 0 invariant
//@|     _n0 == self.virtual_storage_nodes@.len(), _acc0 is None ==> unnamed(self.virtual_storage_nodes@, nk((name, sub_name)), _i0 as int),
//@|     _acc0 is Some ==> first_named(self.virtual_storage_nodes@, nk((name, sub_name)), *_acc0->Some_0)
//@ extract pywr-core/src/network.rs impl Network::get_virtual_storage_node_index_by_name
//@| ensures
//@|     r is None ==> unnamed(self.virtual_storage_nodes@, nk((name, sub_name)), self.virtual_storage_nodes@.len() as int),
//@|     r is Some ==> exists|n: VirtualStorageNode| #[trigger] first_named(self.virtual_storage_nodes@, nk((name, sub_name)), n) && r->Some_0 == n.meta.index
//@ extract pywr-core/src/network.rs impl Network::get_edge_index
//@| ensures
//@|     r is None ==> forall|i: int| 0 <= i < self.edges@.len() ==> !runs(#[trigger] self.edges@[i], from_node_index, to_node_index),
//@|     r is Some ==> exists|i: int| 0 <= i < self.edges@.len() && runs(#[trigger] self.edges@[i], from_node_index, to_node_index) && r->Some_0 == self.edges@[i].index
//@| acctype 0 &Edge
//@| loop 0 invariant
//@|     _n0 == self.edges@.len(), _acc0 is None ==> forall|i: int| 0 <= i < _i0 ==> !runs(#[trigger] self.edges@[i], from_node_index, to_node_index),
//@|     _acc0 is Some ==> exists|i: int| 0 <= i < self.edges@.len() && #[trigger] self.edges@[i] == *_acc0->Some_0 && runs(self.edges@[i], from_node_index, to_node_index)
pub open spec fn runs(e: Edge, a: NodeIndex, b: NodeIndex) -> bool { e.from_node_index == a && e.to_node_index == b }
//@ extract pywr-core/src/edge.rs impl Edge::index
//@| ensures
//@|     r == self.index
//@ extract pywr-core/src/recorders/metric_set.rs impl MetricSet::name
//@| ensures
//@|     r.id() == self.name.id()
pub open spec fn set_unnamed(ns: Seq<MetricSet>, q: int, c: int) -> bool { forall|i: int| 0 <= i < c ==> (#[trigger] ns[i]).name.id() != q }
//@ extract pywr-core/src/network.rs impl Network::get_metric_set_by_name
//@| ensures
//@|     r is Err ==> set_unnamed(self.metric_sets@, name.id(), self.metric_sets@.len() as int),
//@|     r is Ok ==> exists|i: int| 0 <= i < self.metric_sets@.len() && #[trigger] self.metric_sets@[i] == *r->Ok_0 && self.metric_sets@[i].name.id() == name.id() && set_unnamed(self.metric_sets@, name.id(), i)
//@| acctype 0 &MetricSet
//@| loop 0 invariant
//@|     _n0 == self.metric_sets@.len(), _acc0 is None ==> set_unnamed(self.metric_sets@, name.id(), _i0 as int),
//@|     _acc0 is Some ==> exists|i: int| 0 <= i < self.metric_sets@.len() && #[trigger] self.metric_sets@[i] == *_acc0->Some_0 && self.metric_sets@[i].name.id() == name.id() && set_unnamed(self.metric_sets@, name.id(), i)
//@ extract pywr-core/src/network.rs impl Network::get_metric_set_index_by_name
//@| ensures
//@|     r is Err ==> set_unnamed(self.metric_sets@, name.id(), self.metric_sets@.len() as int),
//@|     r is Ok ==> r->Ok_0.0 < self.metric_sets@.len() && self.metric_sets@[r->Ok_0.0 as int].name.id() == name.id() && set_unnamed(self.metric_sets@, name.id(), r->Ok_0.0 as int)
//@| loop 0 invariant
//@|     _n0 == self.metric_sets@.len(), _acc0 is None ==> set_unnamed(self.metric_sets@, name.id(), _i0 as int),
//@|     _acc0 is Some ==> _acc0->Some_0 < self.metric_sets@.len() && self.metric_sets@[_acc0->Some_0 as int].name.id() == name.id() && set_unnamed(self.metric_sets@, name.id(), _acc0->Some_0 as int)
//@ extract pywr-core/src/network.rs impl Network::add_metric_set
//@| ensures
//@|     r is Ok == set_unnamed(old(self).metric_sets@, metric_set.name.id(), old(self).metric_sets@.len() as int),
//@|     r is Ok ==> r->Ok_0.0 == old(self).metric_sets@.len() && final(self).metric_sets@ == old(self).metric_sets@.push(metric_set) && *final(self) == (Network { metric_sets: final(self).metric_sets, ..*old(self) }),
//@|     r is Err ==> *final(self) == *old(self)
// in a built network a described name finds what is described by it
impl NetworkBuilder {
    pub proof fn lemma_found(&self, net: &Network, maps: &ResolutionMaps, k: int)
        requires self.built(net, maps)
        ensures
            0 <= k < self.nodes@.len() ==> forall|n: Node| #[trigger] first_named(net.nodes@, self.nodes@[k].name.key(), n) <==> n == net.nodes@[k],
            0 <= k < self.aggregated_nodes@.len() ==> forall|n: AggregatedNode| #[trigger] first_named(net.aggregated_nodes@, self.aggregated_nodes@[k].name.key(), n) <==> n == net.aggregated_nodes@[k],
            0 <= k < self.aggregated_storage_nodes@.len() ==> forall|n: AggregatedStorageNode| #[trigger] first_named(net.aggregated_storage_nodes@, self.aggregated_storage_nodes@[k].name.key(), n) <==> n == net.aggregated_storage_nodes@[k],
            0 <= k < self.virtual_storage_nodes@.len() ==> forall|n: VirtualStorageNode| #[trigger] first_named(net.virtual_storage_nodes@, self.virtual_storage_nodes@[k].name.key(), n) <==> n == net.virtual_storage_nodes@[k],
    {
        if 0 <= k < self.nodes@.len() {
            assert forall|i: int| 0 <= i < net.nodes@.len() implies (#[trigger] net.nodes@[i]).nk() == self.node_key()(i) by { assert(self.nodes@[i].describes(net.nodes@[i], maps)); }
            assert forall|i: int| 0 <= i < net.nodes@.len() && (#[trigger] net.nodes@[i]).nk() == self.nodes@[k].name.key() implies i == k by { let _a = self.node_key()(i); let _b = self.node_key()(k); }
            assert(net.nodes@[k].nk() == self.node_key()(k));
            assert(unnamed(net.nodes@, self.nodes@[k].name.key(), k));
        }
        if 0 <= k < self.aggregated_nodes@.len() {
            assert forall|i: int| 0 <= i < net.aggregated_nodes@.len() implies (#[trigger] net.aggregated_nodes@[i]).nk() == self.agg_key()(i) by { assert(self.aggregated_nodes@[i].describes(net.aggregated_nodes@[i], maps)); }
            assert forall|i: int| 0 <= i < net.aggregated_nodes@.len() && (#[trigger] net.aggregated_nodes@[i]).nk() == self.aggregated_nodes@[k].name.key() implies i == k by { let _a = self.agg_key()(i); let _b = self.agg_key()(k); }
            assert(net.aggregated_nodes@[k].nk() == self.agg_key()(k));
            assert(unnamed(net.aggregated_nodes@, self.aggregated_nodes@[k].name.key(), k));
        }
        if 0 <= k < self.aggregated_storage_nodes@.len() {
            assert forall|i: int| 0 <= i < net.aggregated_storage_nodes@.len() implies (#[trigger] net.aggregated_storage_nodes@[i]).nk() == self.aggs_key()(i) by { assert(self.aggregated_storage_nodes@[i].describes(net.aggregated_storage_nodes@[i], maps)); }
            assert forall|i: int| 0 <= i < net.aggregated_storage_nodes@.len() && (#[trigger] net.aggregated_storage_nodes@[i]).nk() == self.aggregated_storage_nodes@[k].name.key() implies i == k by { let _a = self.aggs_key()(i); let _b = self.aggs_key()(k); }
            assert(net.aggregated_storage_nodes@[k].nk() == self.aggs_key()(k));
            assert(unnamed(net.aggregated_storage_nodes@, self.aggregated_storage_nodes@[k].name.key(), k));
        }
        if 0 <= k < self.virtual_storage_nodes@.len() {
            assert forall|i: int| 0 <= i < net.virtual_storage_nodes@.len() implies (#[trigger] net.virtual_storage_nodes@[i]).nk() == self.vs_key()(i) by { assert(self.virtual_storage_nodes@[i].describes(net.virtual_storage_nodes@[i], maps)); }
            assert forall|i: int| 0 <= i < net.virtual_storage_nodes@.len() && (#[trigger] net.virtual_storage_nodes@[i]).nk() == self.virtual_storage_nodes@[k].name.key() implies i == k by { let _a = self.vs_key()(i); let _b = self.vs_key()(k); }
            assert(net.virtual_storage_nodes@[k].nk() == self.vs_key()(k));
            assert(unnamed(net.virtual_storage_nodes@, self.virtual_storage_nodes@[k].name.key(), k));
        }
    }
}
//@ extract pywr-core/src/network.rs impl MetricSetIndex::new
//@| ensures
//@|     r.0 == idx
