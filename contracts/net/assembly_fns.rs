// Building a network from its description (pywr-core/src/network.rs, node.rs, ...).
pub trait Place: Sized { spec fn place(&self) -> int; }
impl Place for NodeIndex { open spec fn place(&self) -> int { self.0 as int } }
impl Place for EdgeIndex { open spec fn place(&self) -> int { self.0 as int } }
impl Place for VirtualStorageIndex { open spec fn place(&self) -> int { self.0 as int } }
impl Place for AggregatedNodeIndex { open spec fn place(&self) -> int { self.0 as int } }
impl Place for AggregatedStorageNodeIndex { open spec fn place(&self) -> int { self.0 as int } }
/// no key is there twice among the first n
pub open spec fn distinct<K>(ks: spec_fn(int) -> K, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] ks(i) != #[trigger] ks(j) }
/// m gives the place of every key among the first n
pub open spec fn places<K, V: Place>(ks: spec_fn(int) -> K, n: int, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key(#[trigger] ks(i)) && m[ks(i)].place() == i
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> 0 <= m[k].place() < n && ks(m[k].place()) == k
}
impl NetworkBuilder {
    pub open spec fn node_key(&self) -> spec_fn(int) -> NK { |i: int| self.nodes@[i].name.key() }
    /// the index of every name of the first n nodes
    pub open spec fn node_map(&self, n: int) -> Map<NK, NodeIndex> decreases n { if n <= 0 { Map::empty() } else { self.node_map(n - 1).insert(self.nodes@[n - 1].name.key(), NodeIndex((n - 1) as usize)) } }
    pub open spec fn edge_key(&self) -> spec_fn(int) -> (NK, NK) { |i: int| self.edges@[i].key() }
    pub open spec fn agg_key(&self) -> spec_fn(int) -> NK { |i: int| self.aggregated_nodes@[i].name.key() }
    pub open spec fn aggs_key(&self) -> spec_fn(int) -> NK { |i: int| self.aggregated_storage_nodes@[i].name.key() }
    pub open spec fn vs_key(&self) -> spec_fn(int) -> NK { |i: int| self.virtual_storage_nodes@[i].name.key() }
}
//@ extract pywr-core/src/node.rs impl NodeBuilder::name
//@| ensures
//@|     *r == self.name
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::name
//@| ensures
//@|     *r == self.name
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNodeBuilder::name
//@| ensures
//@|     *r == self.name
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::name
//@| ensures
//@|     *r == self.name
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::nodes
//@| ensures
//@|     r@ == self.nodes@
//@ extract pywr-core/src/network.rs impl NetworkBuilder::node_index_map
//@| ensures
//@|     (r is Ok) == distinct(self.node_key(), self.nodes@.len() as int),
//@|     r is Ok ==> r->Ok_0@ == self.node_map(self.nodes@.len() as int) && places(self.node_key(), self.nodes@.len() as int, r->Ok_0@)
//@| loop 0 invariant
//@|     node_index_map@ == self.node_map(_i0 as int), places(self.node_key(), _i0 as int, node_index_map@), distinct(self.node_key(), _i0 as int), _n0 == self.nodes@.len()
//@| at loop0.top proof { let _k = self.node_key()(_i0 - 1); }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::edge_index_map
//@| ensures
//@|     (r is Ok) == distinct(self.edge_key(), self.edges@.len() as int),
//@|     r is Ok ==> places(self.edge_key(), self.edges@.len() as int, r->Ok_0@)
//@| loop 0 invariant
//@|     places(self.edge_key(), _i0 as int, edge_index_map@), distinct(self.edge_key(), _i0 as int), _n0 == self.edges@.len()
//@| at loop0.top proof { let _k = self.edge_key()(_i0 - 1); }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::aggregated_node_map
//@| ensures
//@|     (r is Ok) == distinct(self.agg_key(), self.aggregated_nodes@.len() as int),
//@|     r is Ok ==> places(self.agg_key(), self.aggregated_nodes@.len() as int, r->Ok_0@)
//@| loop 0 invariant
//@|     places(self.agg_key(), _i0 as int, agg_node_index_map@), distinct(self.agg_key(), _i0 as int), _n0 == self.aggregated_nodes@.len()
//@| at loop0.top proof { let _k = self.agg_key()(_i0 - 1); }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::aggregated_storage_node_map
//@| ensures
//@|     (r is Ok) == distinct(self.aggs_key(), self.aggregated_storage_nodes@.len() as int),
//@|     r is Ok ==> places(self.aggs_key(), self.aggregated_storage_nodes@.len() as int, r->Ok_0@)
//@| loop 0 invariant
//@|     places(self.aggs_key(), _i0 as int, agg_node_index_map@), distinct(self.aggs_key(), _i0 as int), _n0 == self.aggregated_storage_nodes@.len()
//@| at loop0.top proof { let _k = self.aggs_key()(_i0 - 1); }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::virtual_storage_node_map
//@| ensures
//@|     (r is Ok) == distinct(self.vs_key(), self.virtual_storage_nodes@.len() as int),
//@|     r is Ok ==> places(self.vs_key(), self.virtual_storage_nodes@.len() as int, r->Ok_0@)
//@| loop 0 invariant
//@|     places(self.vs_key(), _i0 as int, vs_node_index_map@), distinct(self.vs_key(), _i0 as int), _n0 == self.virtual_storage_nodes@.len()
//@| at loop0.top proof { let _k = self.vs_key()(_i0 - 1); }

/// the list kept for a node, none when there is none
pub open spec fn listed<V>(m: Map<NodeIndex, Vec<V>>, n: NodeIndex) -> Seq<V> { if m.contains_key(n) { m[n]@ } else { Seq::empty() } }
pub open spec fn found(m: Map<NK, NodeIndex>, u: UnresolvedNode, n: NodeIndex) -> bool { m.contains_key(u.key()) && m[u.key()] == n }
/// those of the first c edges that end (start) at a node, in order
pub open spec fn edges_to(es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, n: NodeIndex, c: int) -> Seq<EdgeIndex> decreases c {
    if c <= 0 { Seq::empty() } else if found(m, es[c - 1].to, n) { edges_to(es, m, n, c - 1).push(EdgeIndex((c - 1) as usize)) } else { edges_to(es, m, n, c - 1) }
}
pub open spec fn edges_from(es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, n: NodeIndex, c: int) -> Seq<EdgeIndex> decreases c {
    if c <= 0 { Seq::empty() } else if found(m, es[c - 1].from, n) { edges_from(es, m, n, c - 1).push(EdgeIndex((c - 1) as usize)) } else { edges_from(es, m, n, c - 1) }
}
/// an edge joins two different nodes
pub open spec fn joins(e: UnresolvedEdge, m: Map<NK, NodeIndex>) -> bool { m.contains_key(e.from.key()) && m.contains_key(e.to.key()) && m[e.from.key()] != m[e.to.key()] }
pub open spec fn all_join(es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|k: int| 0 <= k < c ==> joins(#[trigger] es[k], m) }
pub open spec fn are_ins(l: Map<NodeIndex, Vec<EdgeIndex>>, es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|n: NodeIndex| #[trigger] listed(l, n) == edges_to(es, m, n, c) }
pub open spec fn are_outs(l: Map<NodeIndex, Vec<EdgeIndex>>, es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|n: NodeIndex| #[trigger] listed(l, n) == edges_from(es, m, n, c) }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::node_edge_maps
//@| ensures
//@|     (r is Ok) == all_join(self.edges@, node_indices@, self.edges@.len() as int),
//@|     r is Ok ==> are_ins(r->Ok_0.0@, self.edges@, node_indices@, self.edges@.len() as int) && are_outs(r->Ok_0.1@, self.edges@, node_indices@, self.edges@.len() as int)
//@| loop 0 invariant
//@|     are_ins(incoming@, self.edges@, node_indices@, _i0 as int), are_outs(outgoing@, self.edges@, node_indices@, _i0 as int), all_join(self.edges@, node_indices@, _i0 as int), _n0 == self.edges@.len()
//@| at loop0.top let ghost _in0 = incoming@; let ghost _out0 = outgoing@;
//@| at loop0.end proof {
//@|         assert forall|n: NodeIndex| #[trigger] listed(incoming@, n) == edges_to(self.edges@, node_indices@, n, _i0 as int) by { let _k = listed(_in0, n); }
//@|         assert forall|n: NodeIndex| #[trigger] listed(outgoing@, n) == edges_from(self.edges@, node_indices@, n, _i0 as int) by { let _k = listed(_out0, n); }
//@|     }

/// the virtual storages that count a node, once for each mention: c storages, and j mentions of the next one
pub open spec fn mentions(v: VirtualStorageNodeBuilder, m: Map<NK, NodeIndex>, n: NodeIndex, i: VirtualStorageIndex, j: int) -> Seq<VirtualStorageIndex> decreases j {
    if j <= 0 { Seq::empty() } else if found(m, v.nodes@[j - 1], n) { mentions(v, m, n, i, j - 1).push(i) } else { mentions(v, m, n, i, j - 1) }
}
pub open spec fn counted(vs: Seq<VirtualStorageNodeBuilder>, m: Map<NK, NodeIndex>, n: NodeIndex, c: int) -> Seq<VirtualStorageIndex> decreases c {
    if c <= 0 { Seq::empty() } else { counted(vs, m, n, c - 1) + mentions(vs[c - 1], m, n, VirtualStorageIndex((c - 1) as usize), vs[c - 1].nodes@.len() as int) }
}
pub open spec fn vs_named(v: VirtualStorageNodeBuilder, m: Map<NK, NodeIndex>, j: int) -> bool { forall|k: int| 0 <= k < j ==> m.contains_key((#[trigger] v.nodes@[k]).key()) }
pub open spec fn vss_named(vs: Seq<VirtualStorageNodeBuilder>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|k: int| 0 <= k < c ==> #[trigger] vs_named(vs[k], m, vs[k].nodes@.len() as int) }
pub open spec fn are_counted(l: Map<NodeIndex, Vec<VirtualStorageIndex>>, vs: Seq<VirtualStorageNodeBuilder>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|n: NodeIndex| #[trigger] listed(l, n) == counted(vs, m, n, c) }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::node_associated_vs_nodes
//@| ensures
//@|     (r is Ok) == vss_named(self.virtual_storage_nodes@, node_indices@, self.virtual_storage_nodes@.len() as int),
//@|     r is Ok ==> are_counted(r->Ok_0@, self.virtual_storage_nodes@, node_indices@, self.virtual_storage_nodes@.len() as int)
//@| loop 0 invariant
//@|     are_counted(vs_associated_nodes@, self.virtual_storage_nodes@, node_indices@, _i0 as int), vss_named(self.virtual_storage_nodes@, node_indices@, _i0 as int), _n0 == self.virtual_storage_nodes@.len()
//@| loop 1 invariant
//@|     forall|n: NodeIndex| #[trigger] listed(vs_associated_nodes@, n) == counted(self.virtual_storage_nodes@, node_indices@, n, i as int) + mentions(*vs, node_indices@, n, vi, _i1 as int),
//@|     vs_named(*vs, node_indices@, _i1 as int)
//@| at loop1.before proof { assert forall|n: NodeIndex| #[trigger] listed(vs_associated_nodes@, n) == counted(self.virtual_storage_nodes@, node_indices@, n, i as int) + mentions(*vs, node_indices@, n, vi, 0) by { assert(mentions(*vs, node_indices@, n, vi, 0) =~= Seq::<VirtualStorageIndex>::empty()); } }
//@| at loop1.top let ghost _l0 = vs_associated_nodes@; proof { let _k = vs.nodes@[_i1 - 1]; let _v = vs_named(self.virtual_storage_nodes@[i as int], node_indices@, self.virtual_storage_nodes@[i as int].nodes@.len() as int); }
//@| at loop1.end proof {
//@|         assert forall|n: NodeIndex| #[trigger] listed(vs_associated_nodes@, n) == counted(self.virtual_storage_nodes@, node_indices@, n, i as int) + mentions(*vs, node_indices@, n, vi, _i1 as int) by { let _k = listed(_l0, n); assert(listed(vs_associated_nodes@, n) =~= counted(self.virtual_storage_nodes@, node_indices@, n, i as int) + mentions(*vs, node_indices@, n, vi, _i1 as int)); }
//@|     }
//@| at loop1.after proof { assert forall|n: NodeIndex| #[trigger] listed(vs_associated_nodes@, n) == counted(self.virtual_storage_nodes@, node_indices@, n, i + 1) by {} }

impl RecorderBuilderPart {
    #[verifier::external_body] pub fn name(&self) -> (r: &Str) { unimplemented!() }
    #[verifier::external_body] pub fn build(self, maps: &ResolutionMaps) -> (r: Result<RecorderPart, E_>) { unimplemented!() }
}
impl ParametersBuilderPart {
    /// adds the parameters to the maps, and changes nothing else (proved for `ParameterCollectionBuilder::build` in unit `collection`)
    #[verifier::external_body] pub fn build(self, maps: &mut ResolutionMaps) -> (r: Result<ParametersPart, E_>)
        requires old(maps).parameters_f64@ == Map::<(int, Option<int>, Option<int>), ParameterIndex>::empty(), old(maps).parameters_u64@ == Map::<(int, Option<int>, Option<int>), ParameterIndex>::empty(), old(maps).parameters_multi@ == Map::<(int, Option<int>, Option<int>), ParameterIndex>::empty()
        ensures same_network(*old(maps), *final(maps)) { unimplemented!() }
}
impl NetworkBuilder {
    pub open spec fn set_key(&self) -> spec_fn(int) -> int { |i: int| self.metric_sets@[i].name.id() }
    pub open spec fn names(&self) -> Map<NK, NodeIndex> { self.node_map(self.nodes@.len() as int) }
}
impl Place for MetricSetIndex { open spec fn place(&self) -> int { self.0 as int } }
//@ extract pywr-core/src/network.rs impl NetworkBuilder::metric_set_map
//@| ensures
//@|     (r is Ok) == distinct(self.set_key(), self.metric_sets@.len() as int),
//@|     r is Ok ==> places(self.set_key(), self.metric_sets@.len() as int, r->Ok_0@)
//@| loop 0 invariant
//@|     places(self.set_key(), _i0 as int, metric_set_map@), distinct(self.set_key(), _i0 as int), _n0 == self.metric_sets@.len()
//@| at loop0.top proof { let _k = self.set_key()(_i0 - 1); }
impl NetworkBuilder {
    /// a description that can be wired up: every name is given once, edges join two different nodes of the network, and
    /// virtual storages count nodes of the network
    pub open spec fn well_formed(&self) -> bool {
        &&& distinct(self.node_key(), self.nodes@.len() as int) && distinct(self.edge_key(), self.edges@.len() as int) && distinct(self.agg_key(), self.aggregated_nodes@.len() as int)
        &&& distinct(self.aggs_key(), self.aggregated_storage_nodes@.len() as int) && distinct(self.vs_key(), self.virtual_storage_nodes@.len() as int) && distinct(self.set_key(), self.metric_sets@.len() as int)
        &&& all_join(self.edges@, self.names(), self.edges@.len() as int) && vss_named(self.virtual_storage_nodes@, self.names(), self.virtual_storage_nodes@.len() as int)
    }
    /// the maps of the description
    pub open spec fn wired(&self, m: ResolutionMaps) -> bool {
        &&& m.nodes@ == self.names() && places(self.node_key(), self.nodes@.len() as int, m.nodes@) && places(self.edge_key(), self.edges@.len() as int, m.edges@)
        &&& places(self.agg_key(), self.aggregated_nodes@.len() as int, m.aggregated_nodes@) && places(self.aggs_key(), self.aggregated_storage_nodes@.len() as int, m.aggregated_storage_nodes@)
        &&& places(self.vs_key(), self.virtual_storage_nodes@.len() as int, m.virtual_storage_node@) && places(self.set_key(), self.metric_sets@.len() as int, m.metric_sets@)
        &&& are_ins(m.incoming_edges@, self.edges@, m.nodes@, self.edges@.len() as int) && are_outs(m.outgoing_edges@, self.edges@, m.nodes@, self.edges@.len() as int)
        &&& are_counted(m.virtual_storage_associated_nodes@, self.virtual_storage_nodes@, m.nodes@, self.virtual_storage_nodes@.len() as int)
    }
}
//@ extract pywr-core/src/network.rs impl NetworkBuilder::build_resolution_map
//@| ensures
//@|     (r is Ok) == self.well_formed(),
//@|     r is Ok ==> self.wired(r->Ok_0) && r->Ok_0.inter_network_transfers@ == inter_network_transfer_map@ && r->Ok_0.domain == *domain,
//@|     r is Ok ==> r->Ok_0.parameters_f64@ == Map::<(int, Option<int>, Option<int>), ParameterIndex>::empty() && r->Ok_0.parameters_u64@ == Map::<(int, Option<int>, Option<int>), ParameterIndex>::empty() && r->Ok_0.parameters_multi@ == Map::<(int, Option<int>, Option<int>), ParameterIndex>::empty()

// ---- nodes
pub open spec fn BEFORE() -> MetricConsumerPhase { MetricConsumerPhase::Before }
pub open spec fn opt_known(u: Option<UnresolvedMetricF64>, maps: &ResolutionMaps) -> bool { match u { None => true, Some(u) => u.known(maps, BEFORE()) } }
pub open spec fn opt_means(u: Option<UnresolvedMetricF64>, m: Option<MetricF64>, maps: &ResolutionMaps) -> bool { match u { None => m is None, Some(u) => m is Some && u.means(m->Some_0, maps, BEFORE()) } }
impl UnresolvedMetricF64 {
    /// a constant, or a parameter that is known before the network is looked at
    pub open spec fn simple_known(&self, maps: &ResolutionMaps) -> bool { match self { Self::Constant(_) => true, _ => self.param(maps, BEFORE()) is Some && self.param(maps, BEFORE())->Some_0 is Simple } }
    pub open spec fn simple_means(&self, m: SimpleMetricF64, maps: &ResolutionMaps) -> bool { self.means(MetricF64::Simple(m), maps, BEFORE()) }
}
pub open spec fn opt_simple_known(u: Option<UnresolvedMetricF64>, maps: &ResolutionMaps) -> bool { match u { None => true, Some(u) => u.simple_known(maps) } }
pub open spec fn opt_simple_means(u: Option<UnresolvedMetricF64>, m: Option<SimpleMetricF64>, maps: &ResolutionMaps) -> bool { match u { None => m is None, Some(u) => m is Some && u.simple_means(m->Some_0, maps) } }
//@ extract pywr-core/src/metric.rs impl TryFrom<MetricF64> for SimpleMetricF64::try_from
//@| free
//@| as into_simple
//@| rettype Result<SimpleMetricF64, E_>
//@| ensures
//@|     (r is Ok) == (value is Simple),
//@|     r is Ok ==> value == MetricF64::Simple(r->Ok_0)
//@ extract pywr-core/src/node.rs impl FlowConstraints::new
//@| ensures
//@|     r == (FlowConstraints { min_flow, max_flow })
//@ extract pywr-core/src/node.rs impl StorageConstraints::new
//@| ensures
//@|     r == (StorageConstraints { min_volume, max_volume })
//@ extract pywr-core/src/node.rs impl NodeBuilder::build_cost
//@| ensures
//@|     (r is Ok) == (resolution_maps.node_at(self.name) is Some && opt_known(self.cost, resolution_maps)),
//@|     r is Ok ==> self.costed(r->Ok_0, resolution_maps)
impl NodeBuilder {
    /// its own cost, and the virtual storages whose costs may be combined with it
    pub open spec fn costed(&self, c: NodeCost, maps: &ResolutionMaps) -> bool {
        &&& c.local is Some && (if self.cost is Some { self.cost->Some_0.means(c.local->Some_0, maps, BEFORE()) } else { c.local->Some_0 is Simple && c.local->Some_0->Simple_0 is Constant && c.local->Some_0->Simple_0->Constant_0 is Constant && c.local->Some_0->Simple_0->Constant_0->Constant_0@ == 0real })
        &&& c.virtual_storage_nodes@ == listed(maps.virtual_storage_associated_nodes@, maps.node_at(self.name)->Some_0)
        &&& c.agg_func == self.cost_agg_func
    }
}
//@ extract pywr-core/src/node.rs impl NodeBuilder::build_flow_constraints
//@| ensures
//@|     (r is Ok) == (opt_known(self.min_flow, resolution_maps) && opt_known(self.max_flow, resolution_maps)),
//@|     r is Ok ==> opt_means(self.min_flow, r->Ok_0.min_flow, resolution_maps) && opt_means(self.max_flow, r->Ok_0.max_flow, resolution_maps)
//@ extract pywr-core/src/node.rs impl NodeBuilder::build_storage_constraints
//@| ensures
//@|     (r is Ok) == (opt_simple_known(self.min_volume, resolution_maps) && opt_simple_known(self.max_volume, resolution_maps)),
//@|     r is Ok ==> opt_simple_means(self.min_volume, r->Ok_0.min_volume, resolution_maps) && opt_simple_means(self.max_volume, r->Ok_0.max_volume, resolution_maps)
impl UnresolvedStorageInitialVolume {
    pub open spec fn known(&self, maps: &ResolutionMaps) -> bool {
        match self {
            Self::Absolute(_) => true,
            Self::Proportional(_) => true,
            Self::DistributedAbsolute { absolute, prior_max_volume } => prior_max_volume.simple_known(maps),
            Self::DistributedProportional { total_volume, proportion, prior_max_volume } => total_volume.simple_known(maps) && prior_max_volume.simple_known(maps),
        }
    }
    pub open spec fn means(&self, v: StorageInitialVolume, maps: &ResolutionMaps) -> bool {
        match self {
            Self::Absolute(x) => v == StorageInitialVolume::Absolute(*x),
            Self::Proportional(x) => v == StorageInitialVolume::Proportional(*x),
            Self::DistributedAbsolute { absolute, prior_max_volume } => v is DistributedAbsolute && v->DistributedAbsolute_absolute == *absolute && prior_max_volume.simple_means(v->DistributedAbsolute_prior_max_volume, maps),
            Self::DistributedProportional { total_volume, proportion, prior_max_volume } => v is DistributedProportional && v->DistributedProportional_proportion == *proportion
                && total_volume.simple_means(v->DistributedProportional_total_volume, maps) && prior_max_volume.simple_means(v->DistributedProportional_prior_max_volume, maps),
        }
    }
}
//@ extract pywr-core/src/node.rs impl NodeBuilder::build_storage_initial_volume
//@| ensures
//@|     (r is Ok) == (self.initial_volume is Some && self.initial_volume->Some_0.known(resolution_maps)),
//@|     r is Ok ==> self.initial_volume->Some_0.means(r->Ok_0, resolution_maps)
impl Node {
    pub open spec fn kind(&self) -> NodeType { match self { Self::Input(_) => NodeType::Input, Self::Output(_) => NodeType::Output, Self::Link(_) => NodeType::Link, Self::Storage(_) => NodeType::Storage } }
    pub open spec fn meta_(&self) -> NodeMeta<NodeIndex> { match self { Self::Input(n) => n.meta, Self::Output(n) => n.meta, Self::Link(n) => n.meta, Self::Storage(n) => n.meta } }
    pub open spec fn cost_(&self) -> NodeCost { match self { Self::Input(n) => n.cost, Self::Output(n) => n.cost, Self::Link(n) => n.cost, Self::Storage(n) => n.cost } }
}
impl NodeBuilder {
    pub open spec fn ins(&self, maps: &ResolutionMaps) -> Seq<EdgeIndex> { listed(maps.incoming_edges@, maps.node_at(self.name)->Some_0) }
    pub open spec fn outs(&self, maps: &ResolutionMaps) -> Seq<EdgeIndex> { listed(maps.outgoing_edges@, maps.node_at(self.name)->Some_0) }
    /// an input gives, an output takes, a link does both
    pub open spec fn placed(&self, maps: &ResolutionMaps) -> bool {
        let i = self.ins(maps).len();
        let o = self.outs(maps).len();
        match self.node_type { NodeType::Input => i == 0 && o > 0, NodeType::Output => i > 0 && o == 0, NodeType::Link => i > 0 && o > 0, NodeType::Storage => true }
    }
    pub open spec fn flow_known(&self, maps: &ResolutionMaps) -> bool { opt_known(self.min_flow, maps) && opt_known(self.max_flow, maps) }
    pub open spec fn volume_known(&self, maps: &ResolutionMaps) -> bool { opt_simple_known(self.min_volume, maps) && opt_simple_known(self.max_volume, maps) && self.initial_volume is Some && self.initial_volume->Some_0.known(maps) }
    /// the description can be built
    pub open spec fn buildable(&self, maps: &ResolutionMaps) -> bool {
        &&& maps.node_at(self.name) is Some && opt_known(self.cost, maps) && self.placed(maps)
        &&& if self.node_type is Storage { self.volume_known(maps) } else { self.flow_known(maps) }
    }
    pub open spec fn flows(&self, c: FlowConstraints, maps: &ResolutionMaps) -> bool { opt_means(self.min_flow, c.min_flow, maps) && opt_means(self.max_flow, c.max_flow, maps) }
    /// the node is the one described
    pub open spec fn describes(&self, n: Node, maps: &ResolutionMaps) -> bool {
        &&& n.kind() == self.node_type && n.meta_().index == maps.node_at(self.name)->Some_0 && n.meta_().name == self.name.name && n.meta_().sub_name == self.name.sub_name
        &&& n.ins() =~= self.ins(maps) && n.outs() =~= self.outs(maps)
        &&& self.costed(n.cost_(), maps)
        &&& match n {
            Node::Input(n) => self.flows(n.flow_constraints, maps),
            Node::Output(n) => self.flows(n.flow_constraints, maps),
            Node::Link(n) => self.flows(n.flow_constraints, maps),
            Node::Storage(n) => self.initial_volume->Some_0.means(n.initial_volume, maps) && opt_simple_means(self.min_volume, n.storage_constraints.min_volume, maps) && opt_simple_means(self.max_volume, n.storage_constraints.max_volume, maps),
        }
    }
}
//@ extract pywr-core/src/node.rs impl NodeBuilder::build
//@| ensures
//@|     (r is Ok) == self.buildable(resolution_maps),
//@|     r is Ok ==> self.describes(r->Ok_0, resolution_maps)

// ---- aggregated nodes, aggregated storages, virtual storages
//@ extract pywr-core/src/node.rs impl NodeMeta<T>::from_unresolved_name
//@| selfty NodeMeta<T>
//@| implgen <T>
//@| ensures
//@|     r.index == index && r.name == name.name && r.sub_name == name.sub_name
/// the nodes of the first c names
pub open spec fn all_named(us: Seq<UnresolvedNode>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|k: int| 0 <= k < c ==> m.contains_key((#[trigger] us[k]).key()) }
pub open spec fn named(us: Seq<UnresolvedNode>, ns: Seq<NodeIndex>, m: Map<NK, NodeIndex>, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> found(m, us[k], #[trigger] ns[k]) }
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNodeBuilder::build
//@| ensures
//@|     (r is Ok) == (resolution_maps.aggs_at(self.name) is Some && all_named(self.nodes@, resolution_maps.nodes@, self.nodes@.len() as int)),
//@|     r is Ok ==> self.describes(r->Ok_0, resolution_maps)
//@| loop 0 invariant
//@|     named(self.nodes@, _acc0@, resolution_maps.nodes@, _i0 as int), all_named(self.nodes@, resolution_maps.nodes@, _i0 as int), _n0 == self.nodes@.len()
//@| at loop0.top proof { let _k = self.nodes@[_i0 - 1]; }
impl AggregatedStorageNodeBuilder {
    pub open spec fn describes(&self, n: AggregatedStorageNode, maps: &ResolutionMaps) -> bool {
        &&& n.meta.index == maps.aggs_at(self.name)->Some_0 && n.meta.name == self.name.name && n.meta.sub_name == self.name.sub_name
        &&& named(self.nodes@, n.nodes@, maps.nodes@, self.nodes@.len() as int)
    }
}
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::build_flow_constraints
//@| ensures
//@|     (r is Ok) == (opt_known(self.min_flow, resolution_maps) && opt_known(self.max_flow, resolution_maps)),
//@|     r is Ok ==> opt_means(self.min_flow, r->Ok_0.min_flow, resolution_maps) && opt_means(self.max_flow, r->Ok_0.max_flow, resolution_maps)
pub open spec fn sets_named(us: Seq<Vec<UnresolvedNode>>, m: Map<NK, NodeIndex>, c: int) -> bool { forall|k: int| 0 <= k < c ==> all_named((#[trigger] us[k])@, m, us[k]@.len() as int) }
pub open spec fn sets_are(us: Seq<Vec<UnresolvedNode>>, ns: Seq<Vec<NodeIndex>>, m: Map<NK, NodeIndex>, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> named(us[k]@, (#[trigger] ns[k])@, m, us[k]@.len() as int) }
/// Box<dyn RelationshipBuilder>: builds a relationship, or an error (its four builders are below)
impl RelationshipPart {
    pub uninterp spec fn known(&self, maps: &ResolutionMaps) -> bool;
    pub uninterp spec fn means(&self, r: Relationship, maps: &ResolutionMaps) -> bool;
    #[verifier::external_body] pub fn build(&self, resolution_maps: &ResolutionMaps) -> (r: Result<Relationship, E_>) ensures (r is Ok) == self.known(resolution_maps), r is Ok ==> self.means(r->Ok_0, resolution_maps) { unimplemented!() }
}
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::build
//@| ensures
//@|     (r is Ok) == self.buildable(resolution_maps),
//@|     r is Ok ==> self.describes(r->Ok_0, resolution_maps)
//@| loop 0 invariant
//@|     sets_are(self.nodes@, _acc0@, resolution_maps.nodes@, _i0 as int), sets_named(self.nodes@, resolution_maps.nodes@, _i0 as int), _n0 == self.nodes@.len()
//@| loop 1 invariant
//@|     _err1 is None ==> named(indices@, _acc1@, resolution_maps.nodes@, _i1 as int) && all_named(indices@, resolution_maps.nodes@, _i1 as int),
//@|     _err1 is Some ==> _i1 > 0 && !resolution_maps.nodes@.contains_key(indices@[_i1 - 1].key()), _n1 == indices@.len()
//@| at loop0.top proof { let _k = self.nodes@[_i0 - 1]; }
//@| at loop1.top proof { let _k = indices@[_i1 - 1]; }
impl AggregatedNodeBuilder {
    pub open spec fn buildable(&self, maps: &ResolutionMaps) -> bool {
        &&& maps.agg_at(self.name) is Some && opt_known(self.min_flow, maps) && opt_known(self.max_flow, maps) && sets_named(self.nodes@, maps.nodes@, self.nodes@.len() as int)
        &&& self.relationship is Some ==> self.relationship->Some_0.known(maps)
    }
    pub open spec fn describes(&self, n: AggregatedNode, maps: &ResolutionMaps) -> bool {
        &&& n.meta.index == maps.agg_at(self.name)->Some_0 && n.meta.name == self.name.name && n.meta.sub_name == self.name.sub_name
        &&& opt_means(self.min_flow, n.flow_constraints.min_flow, maps) && opt_means(self.max_flow, n.flow_constraints.max_flow, maps)
        &&& sets_are(self.nodes@, n.nodes@, maps.nodes@, self.nodes@.len() as int)
        &&& n.relationship is Some == self.relationship is Some && (n.relationship is Some ==> self.relationship->Some_0.means(n.relationship->Some_0, maps))
    }
}

// ---- the relationships of an aggregated node
pub open spec fn all_known(us: Seq<UnresolvedMetricF64>, maps: &ResolutionMaps, c: int) -> bool { forall|k: int| 0 <= k < c ==> (#[trigger] us[k]).known(maps, BEFORE()) }
pub open spec fn all_mean(us: Seq<UnresolvedMetricF64>, ms: Seq<MetricF64>, maps: &ResolutionMaps, c: int) -> bool { ms.len() == c && forall|k: int| 0 <= k < c ==> us[k].means(#[trigger] ms[k], maps, BEFORE()) }
//@ extract pywr-core/src/aggregated_node.rs struct ProportionalFactorsBuilder
//@| pub
//@ extract pywr-core/src/aggregated_node.rs impl RelationshipBuilder for ProportionalFactorsBuilder::build
//@| ensures
//@|     (r is Ok) == all_known(self.factors@, resolution_maps, self.factors@.len() as int),
//@|     r is Ok ==> r->Ok_0 is Factored && r->Ok_0->Factored_0 is Proportion && all_mean(self.factors@, r->Ok_0->Factored_0->Proportion_factors@, resolution_maps, self.factors@.len() as int)
//@| loop 0 invariant
//@|     all_mean(self.factors@, _acc0@, resolution_maps, _i0 as int), all_known(self.factors@, resolution_maps, _i0 as int), _n0 == self.factors@.len()
//@| at loop0.top proof { let _k = self.factors@[_i0 - 1]; }
//@ extract pywr-core/src/aggregated_node.rs struct RatioFactorsBuilder
//@| pub
//@ extract pywr-core/src/aggregated_node.rs impl RelationshipBuilder for RatioFactorsBuilder::build
//@| ensures
//@|     (r is Ok) == all_known(self.factors@, resolution_maps, self.factors@.len() as int),
//@|     r is Ok ==> r->Ok_0 is Factored && r->Ok_0->Factored_0 is Ratio && all_mean(self.factors@, r->Ok_0->Factored_0->Ratio_factors@, resolution_maps, self.factors@.len() as int)
//@| loop 0 invariant
//@|     all_mean(self.factors@, _acc0@, resolution_maps, _i0 as int), all_known(self.factors@, resolution_maps, _i0 as int), _n0 == self.factors@.len()
//@| at loop0.top proof { let _k = self.factors@[_i0 - 1]; }
//@ extract pywr-core/src/aggregated_node.rs struct CoefficientFactorsBuilder
//@| pub
//@ extract pywr-core/src/aggregated_node.rs impl RelationshipBuilder for CoefficientFactorsBuilder::build
//@| ensures
//@|     (r is Ok) == (all_known(self.factors@, resolution_maps, self.factors@.len() as int) && opt_known(self.rhs, resolution_maps)),
//@|     r is Ok ==> r->Ok_0 is Factored && r->Ok_0->Factored_0 is Coefficients && all_mean(self.factors@, r->Ok_0->Factored_0->Coefficients_factors@, resolution_maps, self.factors@.len() as int) && opt_means(self.rhs, r->Ok_0->Factored_0->Coefficients_rhs, resolution_maps)
//@| loop 0 invariant
//@|     all_mean(self.factors@, _acc0@, resolution_maps, _i0 as int), all_known(self.factors@, resolution_maps, _i0 as int), _n0 == self.factors@.len()
//@| at loop0.top proof { let _k = self.factors@[_i0 - 1]; }
//@ extract pywr-core/src/aggregated_node.rs struct ExclusivityBuilder
//@| pub
//@ extract pywr-core/src/aggregated_node.rs impl Default for ExclusivityBuilder::default
//@| ensures
//@|     r == (ExclusivityBuilder { min_active: 0, max_active: 1 })
//@ extract pywr-core/src/aggregated_node.rs impl RelationshipBuilder for ExclusivityBuilder::build
//@| ensures
//@|     r is Ok && r->Ok_0 == Relationship::Exclusive(Exclusivity { min_active: self.min_active, max_active: self.max_active })

// ---- virtual storages
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::build_storage_constraints
//@| ensures
//@|     (r is Ok) == (opt_simple_known(self.min_volume, resolution_maps) && opt_simple_known(self.max_volume, resolution_maps)),
//@|     r is Ok ==> opt_simple_means(self.min_volume, r->Ok_0.min_volume, resolution_maps) && opt_simple_means(self.max_volume, r->Ok_0.max_volume, resolution_maps)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::build_storage_initial_volume
//@| ensures
//@|     (r is Ok) == self.initial_volume.known(resolution_maps),
//@|     r is Ok ==> self.initial_volume.means(r->Ok_0, resolution_maps)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::build
//@| ensures
//@|     (r is Ok) == self.buildable(resolution_maps),
//@|     r is Ok ==> self.describes(r->Ok_0, resolution_maps)
//@| loop 0 invariant
//@|     named(self.nodes@, _acc0@, resolution_maps.nodes@, _i0 as int), all_named(self.nodes@, resolution_maps.nodes@, _i0 as int), _n0 == self.nodes@.len()
//@| at loop0.top proof { let _k = self.nodes@[_i0 - 1]; }
impl VirtualStorageNodeBuilder {
    pub open spec fn at(&self, maps: &ResolutionMaps) -> Option<VirtualStorageIndex> { if maps.virtual_storage_node@.contains_key(self.name.key()) { Some(maps.virtual_storage_node@[self.name.key()]) } else { None } }
    pub open spec fn buildable(&self, maps: &ResolutionMaps) -> bool {
        &&& self.at(maps) is Some && all_named(self.nodes@, maps.nodes@, self.nodes@.len() as int) && opt_known(self.cost, maps)
        &&& self.initial_volume.known(maps) && opt_simple_known(self.min_volume, maps) && opt_simple_known(self.max_volume, maps)
    }
    pub open spec fn describes(&self, n: VirtualStorageNode, maps: &ResolutionMaps) -> bool {
        &&& n.meta.index == self.at(maps)->Some_0 && n.meta.name == self.name.name && n.meta.sub_name == self.name.sub_name
        &&& named(self.nodes@, n.nodes@, maps.nodes@, self.nodes@.len() as int)
        &&& match self.factors { Some(f) => n.factors@ == f@, None => n.factors@.len() == self.nodes@.len() && forall|k: int| 0 <= k < n.factors@.len() ==> (#[trigger] n.factors@[k])@ == 1real }
        &&& self.initial_volume.means(n.initial_volume, maps) && opt_simple_means(self.min_volume, n.storage_constraints.min_volume, maps) && opt_simple_means(self.max_volume, n.storage_constraints.max_volume, maps)
        &&& opt_means(self.cost, n.cost, maps)
        &&& n.reset == self.reset && n.reset_volume == self.reset_volume && n.rolling_window == self.rolling_window && n.active_period == self.active_period
    }
}

// ---- the network
pub open spec fn AFTER() -> MetricConsumerPhase { MetricConsumerPhase::After }
impl UnresolvedOutputMetric {
    pub open spec fn means(&self, o: OutputMetric, maps: &ResolutionMaps) -> bool {
        &&& o.name == self.name && o.attribute == self.attribute && o.ty == self.ty && o.sub_type == self.sub_type
        &&& self.metric.means(o.metric, maps, AFTER())
    }
}
pub open spec fn outputs_mean(us: Seq<UnresolvedOutputMetric>, os: Seq<OutputMetric>, maps: &ResolutionMaps, c: int) -> bool { os.len() == c && forall|k: int| 0 <= k < c ==> us[k].means(#[trigger] os[k], maps) }
pub open spec fn outputs_known(us: Seq<UnresolvedOutputMetric>, maps: &ResolutionMaps, c: int) -> bool { forall|k: int| 0 <= k < c ==> (#[trigger] us[k]).metric.known(maps, AFTER()) }
impl MetricSetBuilder {
    pub open spec fn means(&self, s: MetricSet, maps: &ResolutionMaps) -> bool {
        s.name == self.name && s.aggregator == self.aggregator && outputs_mean(self.metrics@, s.metrics@, maps, self.metrics@.len() as int)
    }
}
//@ extract pywr-core/src/recorders/metric_set.rs impl UnresolvedOutputMetric::resolve
//@| ensures
//@|     (r is Ok) == self.metric.known(resolution_maps, AFTER()),
//@|     r is Ok ==> self.means(r->Ok_0, resolution_maps)
//@ extract pywr-core/src/recorders/metric_set.rs impl MetricSetBuilder::name
//@| ensures
//@|     r.id() == self.name.id()
//@ extract pywr-core/src/recorders/metric_set.rs impl MetricSetBuilder::build
//@| moveout metrics
//@| ensures
//@|     (r is Ok) == outputs_known(self.metrics@, resolution_maps, self.metrics@.len() as int),
//@|     r is Ok ==> self.means(r->Ok_0, resolution_maps)
//@| loop 0 invariant
//@|     _n0 == self.metrics@.len(), outputs_mean(self.metrics@, _acc0@, resolution_maps, _i0 as int), outputs_known(self.metrics@, resolution_maps, _i0 as int)
impl NetworkBuilder {
    pub open spec fn joined(&self, e: Edge, k: int, m: Map<NK, NodeIndex>) -> bool { e.index.0 == k && found(m, self.edges@[k].from, e.from_node_index) && found(m, self.edges@[k].to, e.to_node_index) }
    pub open spec fn nodes_built(&self, ns: Seq<Node>, maps: &ResolutionMaps, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> self.nodes@[k].describes(#[trigger] ns[k], maps) && self.nodes@[k].buildable(maps) }
    pub open spec fn aggs_built(&self, ns: Seq<AggregatedNode>, maps: &ResolutionMaps, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> self.aggregated_nodes@[k].describes(#[trigger] ns[k], maps) }
    pub open spec fn stores_built(&self, ns: Seq<AggregatedStorageNode>, maps: &ResolutionMaps, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> self.aggregated_storage_nodes@[k].describes(#[trigger] ns[k], maps) }
    pub open spec fn vss_built(&self, ns: Seq<VirtualStorageNode>, maps: &ResolutionMaps, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> self.virtual_storage_nodes@[k].describes(#[trigger] ns[k], maps) }
    pub open spec fn edges_built(&self, es: Seq<Edge>, m: Map<NK, NodeIndex>, c: int) -> bool { es.len() == c && forall|k: int| 0 <= k < c ==> self.joined(#[trigger] es[k], k, m) }
    pub open spec fn sets_built(&self, ns: Seq<MetricSet>, maps: &ResolutionMaps, c: int) -> bool { ns.len() == c && forall|k: int| 0 <= k < c ==> self.metric_sets@[k].means(#[trigger] ns[k], maps) }
    /// the network is the one described
    pub open spec fn built(&self, net: &Network, maps: &ResolutionMaps) -> bool {
        &&& self.well_formed() && self.wired(*maps)
        &&& self.nodes_built(net.nodes@, maps, self.nodes@.len() as int) && self.edges_built(net.edges@, maps.nodes@, self.edges@.len() as int)
        &&& self.aggs_built(net.aggregated_nodes@, maps, self.aggregated_nodes@.len() as int) && self.stores_built(net.aggregated_storage_nodes@, maps, self.aggregated_storage_nodes@.len() as int)
        &&& self.vss_built(net.virtual_storage_nodes@, maps, self.virtual_storage_nodes@.len() as int)
        &&& self.sets_built(net.metric_sets@, maps, self.metric_sets@.len() as int) && net.recorders@.len() == self.recorders@.len()
    }
}
//@ extract pywr-core/src/network.rs impl NetworkBuilder::build
//@| moveout metric_sets
//@| ensures
//@|     r is Ok ==> self.built(&r->Ok_0.0, &r->Ok_0.1)
//@| loop 0 invariant
//@|     self.nodes_built(nodes@, &resolution_map, _i0 as int), _n0 == self.nodes@.len()
//@| loop 1 invariant
//@|     self.aggs_built(aggregated_nodes@, &resolution_map, _i1 as int), _n1 == self.aggregated_nodes@.len()
//@| loop 2 invariant
//@|     self.stores_built(aggregated_storage_nodes@, &resolution_map, _i2 as int), _n2 == self.aggregated_storage_nodes@.len()
//@| loop 3 invariant
//@|     self.vss_built(virtual_storage_nodes@, &resolution_map, _i3 as int), _n3 == self.virtual_storage_nodes@.len()
//@| loop 4 invariant
//@|     self.edges_built(edges@, resolution_map.nodes@, _i4 as int), _n4 == self.edges@.len()
//@| loop 5 invariant
//@|     self.sets_built(metric_sets@, &resolution_map, _i5 as int), _n5 == self.metric_sets@.len()
//@| loop 6 invariant
//@|     recorders@.len() == _i6
