// References by name (pywr-core/src/metric.rs).
/// conversions with `into`: each wraps the value
pub trait Conv<T>: Sized { spec fn conv_to(&self) -> T; fn conv_exec(self) -> (r: T) ensures r == self.conv_to(); }
pub fn conv<A: Conv<T>, T>(a: A) -> (r: T) ensures r == a.conv_to() { a.conv_exec() }
impl Conv<MetricF64> for R { open spec fn conv_to(&self) -> MetricF64 { MetricF64::Simple(SimpleMetricF64::Constant(ConstantMetricF64::Constant(*self))) } fn conv_exec(self) -> MetricF64 { MetricF64::Simple(SimpleMetricF64::Constant(ConstantMetricF64::Constant(self))) } }
impl Conv<MetricF64> for ConstantMetricF64 { open spec fn conv_to(&self) -> MetricF64 { MetricF64::Simple(SimpleMetricF64::Constant(*self)) } fn conv_exec(self) -> MetricF64 { MetricF64::Simple(SimpleMetricF64::Constant(self)) } }
impl Conv<MetricF64> for SimpleMetricF64 { open spec fn conv_to(&self) -> MetricF64 { MetricF64::Simple(*self) } fn conv_exec(self) -> MetricF64 { MetricF64::Simple(self) } }
impl Conv<MetricU64> for u64 { open spec fn conv_to(&self) -> MetricU64 { MetricU64::Simple(SimpleMetricU64::Constant(ConstantMetricU64::Constant(*self))) } fn conv_exec(self) -> MetricU64 { MetricU64::Simple(SimpleMetricU64::Constant(ConstantMetricU64::Constant(self))) } }
impl Conv<MetricU64> for ConstantMetricU64 { open spec fn conv_to(&self) -> MetricU64 { MetricU64::Simple(SimpleMetricU64::Constant(*self)) } fn conv_exec(self) -> MetricU64 { MetricU64::Simple(SimpleMetricU64::Constant(self)) } }
impl Conv<MetricU64> for SimpleMetricU64 { open spec fn conv_to(&self) -> MetricU64 { MetricU64::Simple(*self) } fn conv_exec(self) -> MetricU64 { MetricU64::Simple(self) } }
impl Str { #[verifier::external_body] pub fn to_string(&self) -> (r: Str) ensures r == *self { unimplemented!() } }

/// where the value of a general parameter that a reference asks for is kept: a value of after the solve is
/// not there for what is evaluated before it, unless the last one will do
pub open spec fn kept(g: GeneralParameterRegistration, rv: ParameterReturnValue, phase: MetricConsumerPhase) -> Option<(bool, VIdx)> {
    match rv {
        ParameterReturnValue::Before => match g.before { None => None, Some(i) => Some((false, i)) },
        ParameterReturnValue::After => if phase is After { match g.after { None => None, Some(i) => Some((true, i)) } } else { None },
        ParameterReturnValue::AfterOrElseInitial => match g.after { None => None, Some(i) => Some((true, i)) },
    }
}
/// the value of a parameter that a reference to it stands for
pub open spec fn f64_f64_of(p: ParameterIndex, rv: ParameterReturnValue, phase: MetricConsumerPhase) -> Option<MetricF64> {
    match p {
        ParameterIndex::Const(i) => if !(rv is Before) { None } else { Some(MetricF64::Simple(SimpleMetricF64::Constant(ConstantMetricF64::ParameterValue(i)))) },
        ParameterIndex::Simple(i) => if !(rv is Before) { None } else { Some(MetricF64::Simple(SimpleMetricF64::ParameterValue { index: i })) },
        ParameterIndex::General(g) => match kept(g, rv, phase) { None => None, Some((false, i)) => Some(MetricF64::ParameterBeforeF64(i)), Some((true, i)) => Some(MetricF64::ParameterAfterF64(i)) },
    }
}
//@ extract pywr-core/src/metric.rs fn resolve_parameter_index_f64_to_metric_f64
//@| ensures
//@|     (r is Ok) == (f64_f64_of(idx, parameter_return_value, consumer_phase) is Some),
//@|     r is Ok ==> r->Ok_0 == f64_f64_of(idx, parameter_return_value, consumer_phase)->Some_0
/// the value of a parameter that a reference to it stands for
pub open spec fn u64_f64_of(p: ParameterIndex, rv: ParameterReturnValue, phase: MetricConsumerPhase) -> Option<MetricF64> {
    match p {
        ParameterIndex::Const(i) => if !(rv is Before) { None } else { Some(MetricF64::Simple(SimpleMetricF64::Constant(ConstantMetricF64::IndexParameterValue(i)))) },
        ParameterIndex::Simple(i) => if !(rv is Before) { None } else { Some(MetricF64::Simple(SimpleMetricF64::IndexParameterValue { index: i })) },
        ParameterIndex::General(g) => match kept(g, rv, phase) { None => None, Some((false, i)) => Some(MetricF64::ParameterBeforeU64(i)), Some((true, i)) => Some(MetricF64::ParameterAfterU64(i)) },
    }
}
//@ extract pywr-core/src/metric.rs fn resolve_parameter_index_u64_to_metric_f64
//@| ensures
//@|     (r is Ok) == (u64_f64_of(idx, parameter_return_value, consumer_phase) is Some),
//@|     r is Ok ==> r->Ok_0 == u64_f64_of(idx, parameter_return_value, consumer_phase)->Some_0
/// the value of a parameter that a reference to it stands for
pub open spec fn multi_f64_of(p: ParameterIndex, key: Str, rv: ParameterReturnValue, phase: MetricConsumerPhase) -> Option<MetricF64> {
    match p {
        ParameterIndex::Const(i) => if !(rv is Before) { None } else { Some(MetricF64::Simple(SimpleMetricF64::Constant(ConstantMetricF64::MultiParameterValue { index: i, key }))) },
        ParameterIndex::Simple(i) => if !(rv is Before) { None } else { Some(MetricF64::Simple(SimpleMetricF64::MultiParameterValue { index: i, key })) },
        ParameterIndex::General(g) => match kept(g, rv, phase) { None => None, Some((false, i)) => Some(MetricF64::ParameterBeforeMulti { index: i, key }), Some((true, i)) => Some(MetricF64::ParameterAfterMulti { index: i, key }) },
    }
}
//@ extract pywr-core/src/metric.rs fn resolve_parameter_index_multi_to_metric_f64
//@| ensures
//@|     (r is Ok) == (multi_f64_of(idx, *key, parameter_return_value, consumer_phase) is Some),
//@|     r is Ok ==> r->Ok_0 == multi_f64_of(idx, *key, parameter_return_value, consumer_phase)->Some_0
/// the value of a parameter that a reference to it stands for
pub open spec fn u64_u64_of(p: ParameterIndex, rv: ParameterReturnValue, phase: MetricConsumerPhase) -> Option<MetricU64> {
    match p {
        ParameterIndex::Const(i) => Some(MetricU64::Simple(SimpleMetricU64::Constant(ConstantMetricU64::IndexParameterValue(i)))),
        ParameterIndex::Simple(i) => Some(MetricU64::Simple(SimpleMetricU64::IndexParameterValue { index: i })),
        ParameterIndex::General(g) => match kept(g, rv, phase) { None => None, Some((false, i)) => Some(MetricU64::ParameterBeforeU64(i)), Some((true, i)) => Some(MetricU64::ParameterAfterU64(i)) },
    }
}
//@ extract pywr-core/src/metric.rs fn resolve_parameter_index_u64_to_metric_u64
//@| ensures
//@|     (r is Ok) == (u64_u64_of(idx, parameter_return_value, consumer_phase) is Some),
//@|     r is Ok ==> r->Ok_0 == u64_u64_of(idx, parameter_return_value, consumer_phase)->Some_0
/// the value of a parameter that a reference to it stands for
pub open spec fn multi_u64_of(p: ParameterIndex, key: Str, rv: ParameterReturnValue, phase: MetricConsumerPhase) -> Option<MetricU64> {
    match p {
        ParameterIndex::Const(i) => Some(MetricU64::Simple(SimpleMetricU64::Constant(ConstantMetricU64::MultiParameterValue { index: i, key }))),
        ParameterIndex::Simple(i) => Some(MetricU64::Simple(SimpleMetricU64::MultiParameterValue { index: i, key })),
        ParameterIndex::General(g) => match kept(g, rv, phase) { None => None, Some((false, i)) => Some(MetricU64::ParameterBeforeMulti { index: i, key }), Some((true, i)) => Some(MetricU64::ParameterAfterMulti { index: i, key }) },
    }
}
//@ extract pywr-core/src/metric.rs fn resolve_parameter_index_multi_to_metric_u64
//@| ensures
//@|     (r is Ok) == (multi_u64_of(idx, *key, parameter_return_value, consumer_phase) is Some),
//@|     r is Ok ==> r->Ok_0 == multi_u64_of(idx, *key, parameter_return_value, consumer_phase)->Some_0
impl ResolutionMaps {
    pub open spec fn node_at(&self, n: UnresolvedNode) -> Option<NodeIndex> { if self.nodes@.contains_key(n.key()) { Some(self.nodes@[n.key()]) } else { None } }
    pub open spec fn edge_at(&self, e: UnresolvedEdge) -> Option<EdgeIndex> { if self.edges@.contains_key(e.key()) { Some(self.edges@[e.key()]) } else { None } }
    pub open spec fn agg_at(&self, n: UnresolvedNode) -> Option<AggregatedNodeIndex> { if self.aggregated_nodes@.contains_key(n.key()) { Some(self.aggregated_nodes@[n.key()]) } else { None } }
    pub open spec fn aggs_at(&self, n: UnresolvedNode) -> Option<AggregatedStorageNodeIndex> { if self.aggregated_storage_nodes@.contains_key(n.key()) { Some(self.aggregated_storage_nodes@[n.key()]) } else { None } }
    pub open spec fn vs_at(&self, n: UnresolvedNode) -> Option<VirtualStorageIndex> { if self.virtual_storage_node@.contains_key(n.key()) { Some(self.virtual_storage_node@[n.key()]) } else { None } }
    pub open spec fn transfer_at(&self, n: Str) -> Option<MultiNetworkTransferIndex> { if self.inter_network_transfers@.contains_key(n.key()) { Some(self.inter_network_transfers@[n.key()]) } else { None } }
}
/// the nodes of these names, in order
pub open spec fn nodes_are(maps: &ResolutionMaps, ns: Seq<UnresolvedNode>, is: Seq<NodeIndex>) -> bool { ns.len() == is.len() && forall|k: int| 0 <= k < ns.len() ==> maps.node_at(#[trigger] ns[k]) == Some(is[k]) }
pub open spec fn nodes_named(maps: &ResolutionMaps, ns: Seq<UnresolvedNode>) -> bool { forall|k: int| 0 <= k < ns.len() ==> maps.node_at(#[trigger] ns[k]) is Some }
pub open spec fn edges_are(maps: &ResolutionMaps, es: Seq<UnresolvedEdge>, is: Seq<EdgeIndex>) -> bool { es.len() == is.len() && forall|k: int| 0 <= k < es.len() ==> maps.edge_at(#[trigger] es[k]) == Some(is[k]) }
pub open spec fn edges_named(maps: &ResolutionMaps, es: Seq<UnresolvedEdge>) -> bool { forall|k: int| 0 <= k < es.len() ==> maps.edge_at(#[trigger] es[k]) is Some }
impl UnresolvedMetricF64 {
    /// the parameter value a reference stands for
    pub open spec fn param(&self, maps: &ResolutionMaps, phase: MetricConsumerPhase) -> Option<MetricF64> {
        match self {
            Self::ParameterValue { name, return_value } => if maps.parameters_f64@.contains_key(name.key()) { f64_f64_of(maps.parameters_f64@[name.key()], *return_value, phase) }
                else if maps.parameters_u64@.contains_key(name.key()) { u64_f64_of(maps.parameters_u64@[name.key()], *return_value, phase) } else { None },
            Self::MultiParameterValue { name, key, return_value } => if maps.parameters_multi@.contains_key(name.key()) { multi_f64_of(maps.parameters_multi@[name.key()], *key, *return_value, phase) } else { None },
            _ => None,
        }
    }
    /// what is referred to exists, and is there when it is needed
    pub open spec fn known(&self, maps: &ResolutionMaps, phase: MetricConsumerPhase) -> bool {
        match self {
            Self::NodeInFlow(n) => maps.node_at(*n) is Some,
            Self::NodeOutFlow(n) => maps.node_at(*n) is Some,
            Self::NodeVolume(n) => maps.node_at(*n) is Some,
            Self::NodeProportionalVolume(n) => maps.node_at(*n) is Some,
            Self::NodeMaxVolume(n) => maps.node_at(*n) is Some,
            Self::NodeMaxFlow(n) => maps.node_at(*n) is Some,
            Self::AggregatedNodeInFlow(n) => maps.agg_at(*n) is Some,
            Self::AggregatedNodeOutFlow(n) => maps.agg_at(*n) is Some,
            Self::AggregatedStorageNodeVolume(n) => maps.aggs_at(*n) is Some,
            Self::AggregatedStorageNodeProportionalVolume(n) => maps.aggs_at(*n) is Some,
            Self::EdgeFlow(e) => maps.edge_at(*e) is Some,
            Self::MultiEdgeFlow { edges, name } => edges_named(maps, edges@),
            Self::ParameterValue { name, return_value } => self.param(maps, phase) is Some,
            Self::MultiParameterValue { name, key, return_value } => self.param(maps, phase) is Some,
            Self::VirtualStorageVolume(n) => maps.vs_at(*n) is Some,
            Self::VirtualStorageProportionalVolume(n) => maps.vs_at(*n) is Some,
            Self::MultiNodeInFlow { nodes, name } => nodes_named(maps, nodes@),
            Self::MultiNodeOutFlow { nodes, name } => nodes_named(maps, nodes@),
            Self::InterNetworkTransfer(n) => maps.transfer_at(*n) is Some,
            Self::Constant(v) => true,
        }
    }
    /// m is the quantity of this network that is referred to
    pub open spec fn means(&self, m: MetricF64, maps: &ResolutionMaps, phase: MetricConsumerPhase) -> bool {
        match self {
            Self::NodeInFlow(n) => m is NodeInFlow && maps.node_at(*n) == Some(m->NodeInFlow_0),
            Self::NodeOutFlow(n) => m is NodeOutFlow && maps.node_at(*n) == Some(m->NodeOutFlow_0),
            Self::NodeVolume(n) => m is NodeVolume && maps.node_at(*n) == Some(m->NodeVolume_0),
            Self::NodeProportionalVolume(n) => m is NodeProportionalVolume && maps.node_at(*n) == Some(m->NodeProportionalVolume_0),
            Self::NodeMaxVolume(n) => m is NodeMaxVolume && maps.node_at(*n) == Some(m->NodeMaxVolume_0),
            Self::NodeMaxFlow(n) => m is NodeMaxFlow && maps.node_at(*n) == Some(m->NodeMaxFlow_0),
            Self::AggregatedNodeInFlow(n) => m is AggregatedNodeInFlow && maps.agg_at(*n) == Some(m->AggregatedNodeInFlow_0),
            Self::AggregatedNodeOutFlow(n) => m is AggregatedNodeOutFlow && maps.agg_at(*n) == Some(m->AggregatedNodeOutFlow_0),
            Self::AggregatedStorageNodeVolume(n) => m is AggregatedStorageNodeVolume && maps.aggs_at(*n) == Some(m->AggregatedStorageNodeVolume_0),
            Self::AggregatedStorageNodeProportionalVolume(n) => m is AggregatedStorageNodeProportionalVolume && maps.aggs_at(*n) == Some(m->AggregatedStorageNodeProportionalVolume_0),
            Self::EdgeFlow(e) => m is EdgeFlow && maps.edge_at(*e) == Some(m->EdgeFlow_0),
            Self::MultiEdgeFlow { edges, name } => m is MultiEdgeFlow && edges_are(maps, edges@, m->MultiEdgeFlow_indices@),
            Self::ParameterValue { name, return_value } => self.param(maps, phase) == Some(m),
            Self::MultiParameterValue { name, key, return_value } => self.param(maps, phase) == Some(m),
            Self::VirtualStorageVolume(n) => m is VirtualStorageVolume && maps.vs_at(*n) == Some(m->VirtualStorageVolume_0),
            Self::VirtualStorageProportionalVolume(n) => m is VirtualStorageProportionalVolume && maps.vs_at(*n) == Some(m->VirtualStorageProportionalVolume_0),
            Self::MultiNodeInFlow { nodes, name } => m is MultiNodeInFlow && nodes_are(maps, nodes@, m->MultiNodeInFlow_indices@),
            Self::MultiNodeOutFlow { nodes, name } => m is MultiNodeOutFlow && nodes_are(maps, nodes@, m->MultiNodeOutFlow_indices@),
            Self::InterNetworkTransfer(n) => m is InterNetworkTransfer && maps.transfer_at(*n) == Some(m->InterNetworkTransfer_0),
            Self::Constant(v) => m == MetricF64::Simple(SimpleMetricF64::Constant(ConstantMetricF64::Constant(*v))),
        }
    }
}
//@ extract pywr-core/src/metric.rs impl UnresolvedMetricF64::resolve
//@| ensures
//@|     (r is Ok) == self.known(maps, consumer_phase),
//@|     r is Ok ==> self.means(r->Ok_0, maps, consumer_phase)
//@| acctype 0 EdgeIndex
//@| loop 0 invariant
//@|     _n0 == edges@.len(), _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> maps.edge_at(#[trigger] edges@[k]) == Some(_acc0@[k])
//@| acctype 1 NodeIndex
//@| loop 1 invariant
//@|     _n1 == indices@.len(), _acc1@.len() == _i1, forall|k: int| 0 <= k < _i1 ==> maps.node_at(#[trigger] indices@[k]) == Some(_acc1@[k])
//@| acctype 2 NodeIndex
//@| loop 2 invariant
//@|     _n2 == indices@.len(), _acc2@.len() == _i2, forall|k: int| 0 <= k < _i2 ==> maps.node_at(#[trigger] indices@[k]) == Some(_acc2@[k])
impl UnresolvedMetricU64 {
    pub open spec fn meant(&self, maps: &ResolutionMaps, phase: MetricConsumerPhase) -> Option<MetricU64> {
        match self {
            Self::ParameterValue { name, return_value } => if maps.parameters_u64@.contains_key(name.key()) { u64_u64_of(maps.parameters_u64@[name.key()], *return_value, phase) } else { None },
            Self::MultiParameterValue { name, key, return_value } => if maps.parameters_multi@.contains_key(name.key()) { multi_u64_of(maps.parameters_multi@[name.key()], *key, *return_value, phase) } else { None },
            Self::InterNetworkTransfer(n) => match maps.transfer_at(*n) { None => None, Some(i) => Some(MetricU64::InterNetworkTransfer(i)) },
            Self::Constant(v) => Some(MetricU64::Simple(SimpleMetricU64::Constant(ConstantMetricU64::Constant(*v)))),
        }
    }
}
//@ extract pywr-core/src/metric.rs impl UnresolvedMetricU64::resolve
//@| ensures
//@|     (r is Ok) == (self.meant(resolution_maps, consumer_phase) is Some),
//@|     r is Ok ==> r->Ok_0 == self.meant(resolution_maps, consumer_phase)->Some_0
