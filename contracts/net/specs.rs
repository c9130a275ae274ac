// Specification functions of the network units (nothing here is code of pywr-next).
/// the observable state of a node
pub struct NV { pub st: bool, pub i: real, pub o: real, pub v: real, pub mx: real }
impl StorageState {
    pub open spec fn nv(&self) -> NV { NV { st: true, i: self.flows.in_flow@, o: self.flows.out_flow@, v: self.volume@, mx: self.max_volume@ } }
}
pub open spec fn prop_vol(v: real, mx: real) -> real { if mx == 0real { 1real } else { v / mx } }
impl NodeState {
    pub open spec fn nv(&self) -> NV { match self { NodeState::Flow(f) => NV { st: false, i: f.in_flow@, o: f.out_flow@, v: 0real, mx: 0real }, NodeState::Storage(s) => s.nv() } }
}
impl NV {
    pub open spec fn zeroed(self) -> NV { NV { i: 0real, o: 0real, ..self } }
    pub open spec fn plus_in(self, q: real, d: real) -> NV { NV { i: self.i + q, v: if self.st { self.v + q * d } else { self.v }, ..self } }
    pub open spec fn plus_out(self, q: real, d: real) -> NV { NV { o: self.o + q, v: if self.st { self.v - q * d } else { self.v }, ..self } }
    /// the volume held within its bounds
    pub open spec fn held(self, lo: real, hi: real) -> NV { if self.st { NV { v: rmin(rmax(self.v, lo), hi), mx: hi, ..self } } else { self } }
}
/// how far a volume may be out of bounds through rounding in the solver
pub open spec fn TOL() -> real { 1real / 1000000real }
pub open spec fn out_of_bounds(v: real, lo: real, hi: real) -> bool { v - lo < -TOL() || v - hi > TOL() }
pub open spec fn nvs(s: Seq<NodeState>) -> Seq<NV> { s.map_values(|x: NodeState| x.nv()) }
pub open spec fn flows(s: Seq<EdgeState>) -> Seq<real> { s.map_values(|x: EdgeState| x.flow@) }
/// the observable state of a virtual storage
#[verifier::ext_equal] pub struct VV { pub s: NV, pub last: Option<Timestep>, pub h: Option<(Seq<real>, nat)> }
impl VirtualStorageState {
    pub open spec fn vv(&self) -> VV { VV { s: self.storage.nv(), last: self.last_reset, h: match self.history { None => None, Some(h) => Some((rviews(h.flows@), h.size.v())) } } }
}
pub open spec fn vvs(s: Seq<VirtualStorageState>) -> Seq<VV> { s.map_values(|x: VirtualStorageState| x.vv()) }

/// values of parameters
#[verifier::ext_equal] pub struct PV { pub v: Seq<R>, pub i: Seq<u64>, pub m: Seq<MultiValue> }
impl ParameterValues { pub open spec fn pv(&self) -> PV { PV { v: self.values@, i: self.indices@, m: self.multi_values@ } } }
impl<'a> ParameterValuesRef<'a> { pub open spec fn pv(&self) -> PV { PV { v: self.values@, i: self.indices@, m: self.multi_values@ } } }
impl State {
    pub open spec fn cpv(&self) -> PV { self.parameters_constant.pv() }
    pub open spec fn spv(&self) -> PV { self.parameters_simple.pv() }
    pub open spec fn bpv(&self) -> PV { self.parameters_general_before.pv() }
    pub open spec fn apv(&self) -> PV { self.parameters_general_after.pv() }
    /// nothing but the network state differs
    pub open spec fn same_values(&self, o: &State) -> bool { self.cpv() == o.cpv() && self.spv() == o.spv() && self.bpv() == o.bpv() && self.apv() == o.apv() && self.inter_network_values@ == o.inter_network_values@ }
}

// ---- what the metrics name
impl PV {
    pub open spec fn hv(&self, i: VIdx) -> bool { i.0 < self.v.len() }
    pub open spec fn hi(&self, i: VIdx) -> bool { i.0 < self.i.len() }
    pub open spec fn hm(&self, i: VIdx, k: Str) -> bool { i.0 < self.m.len() && self.m[i.0 as int].values.has(k.id()) }
    pub open spec fn hn(&self, i: VIdx, k: Str) -> bool { i.0 < self.m.len() && self.m[i.0 as int].indices.has(k.id()) }
    pub open spec fn gv(&self, i: VIdx) -> real { self.v[i.0 as int]@ }
    pub open spec fn gi(&self, i: VIdx) -> u64 { self.i[i.0 as int] }
    pub open spec fn gm(&self, i: VIdx, k: Str) -> real { self.m[i.0 as int].values.at(k.id())@ }
    pub open spec fn gn(&self, i: VIdx, k: Str) -> u64 { self.m[i.0 as int].indices.at(k.id()) }
}
impl ConstantMetricF64 {
    pub open spec fn has(&self, c: PV) -> bool { match self { Self::ParameterValue(i) => c.hv(*i), Self::IndexParameterValue(i) => c.hi(*i), Self::MultiParameterValue { index, key } => c.hm(*index, *key), Self::Constant(_) => true } }
    pub open spec fn val(&self, c: PV) -> real { match self { Self::ParameterValue(i) => c.gv(*i), Self::IndexParameterValue(i) => c.gi(*i) as real, Self::MultiParameterValue { index, key } => c.gm(*index, *key), Self::Constant(v) => v@ } }
}
impl SimpleMetricF64 {
    pub open spec fn has(&self, c: PV, s: PV) -> bool { match self { Self::ParameterValue { index } => s.hv(*index), Self::IndexParameterValue { index } => s.hi(*index), Self::MultiParameterValue { index, key } => s.hm(*index, *key), Self::Constant(m) => m.has(c) } }
    pub open spec fn val(&self, c: PV, s: PV) -> real { match self { Self::ParameterValue { index } => s.gv(*index), Self::IndexParameterValue { index } => s.gi(*index) as real, Self::MultiParameterValue { index, key } => s.gm(*index, *key), Self::Constant(m) => m.val(c) } }
}
impl StorageConstraints {
    pub open spec fn has_lo(&self, c: PV, s: PV) -> bool { match self.min_volume { None => true, Some(m) => m.has(c, s) } }
    pub open spec fn has_hi(&self, c: PV, s: PV) -> bool { match self.max_volume { None => true, Some(m) => m.has(c, s) } }
    pub open spec fn lo(&self, c: PV, s: PV) -> real { match self.min_volume { None => 0real, Some(m) => m.val(c, s) } }
    pub open spec fn hi(&self, c: PV, s: PV) -> real { match self.max_volume { None => f64_max(), Some(m) => m.val(c, s) } }
    pub open spec fn has_min(&self, s: &State) -> bool { self.has_lo(s.cpv(), s.spv()) }
    pub open spec fn has_max(&self, s: &State) -> bool { self.has_hi(s.cpv(), s.spv()) }
    pub open spec fn min(&self, s: &State) -> real { self.lo(s.cpv(), s.spv()) }
    pub open spec fn max(&self, s: &State) -> real { self.hi(s.cpv(), s.spv()) }
}
// ---- virtual storage histories: the last volumes used, oldest first, and the length of the window
pub open spec fn same(n: nat, x: real) -> Seq<real> { Seq::new(n, |k: int| x) }
impl VV {
    pub open spec fn set_to(self, v: real, mx: real, t: Timestep) -> VV { VV { s: NV { v: v, mx: mx, ..self.s }, last: Some(t), ..self } }
    pub open spec fn hist_set(self, q: real) -> VV { VV { h: match self.h { None => None, Some(h) => Some((same(h.1, q), h.1)) }, ..self } }
    /// the oldest use returns to the volume, once the window is full
    pub open spec fn recovered(self, d: real) -> VV {
        match self.h { None => self, Some(h) => if h.0.len() >= h.1 { VV { s: NV { i: self.s.i + h.0[0] / d, v: self.s.v + h.0[0], ..self.s }, h: Some((h.0.drop_first(), h.1)), ..self } } else { self } }
    }
    /// a use leaves the volume and is remembered
    pub open spec fn used(self, q: real, d: real) -> VV { VV { s: self.s.plus_out(q, d), h: match self.h { None => None, Some(h) => Some((h.0.push(q * d), h.1)) }, ..self } }
}
pub proof fn div_back(q: real, d: real) requires d != 0real ensures q / d * d == q { assert(q / d * d == q) by (nonlinear_arith) requires d != 0real {} }
// ---- the state of a network
#[verifier::ext_equal] pub struct NS { pub n: Seq<NV>, pub e: Seq<real>, pub v: Seq<VV> }
impl NetworkState { pub open spec fn ns(&self) -> NS { NS { n: nvs(self.node_states@), e: flows(self.edge_states@), v: vvs(self.virtual_storage_states@) } } }
impl NS {
    /// no flow anywhere, volumes as they were
    pub open spec fn zeroed(self) -> NS { NS { n: self.n.map_values(|x: NV| x.zeroed()), e: Seq::new(self.e.len(), |k: int| 0real), v: self.v.map_values(|x: VV| x.zeroed()) } }
    pub open spec fn has_edge(self, e: &Edge) -> bool { e.from_node_index.0 < self.n.len() && e.to_node_index.0 < self.n.len() && e.index.0 < self.e.len() }
    /// the flow q leaves one node and enters the other
    pub open spec fn flowed(self, e: &Edge, q: real, d: real) -> NS {
        let a = self.n.update(e.from_node_index.0 as int, self.n[e.from_node_index.0 as int].plus_out(q, d));
        NS { n: a.update(e.to_node_index.0 as int, a[e.to_node_index.0 as int].plus_in(q, d)), e: self.e.update(e.index.0 as int, self.e[e.index.0 as int] + q), v: self.v }
    }
    pub open spec fn with_node(self, i: int, x: NV) -> NS { NS { n: self.n.update(i, x), ..self } }
    pub open spec fn with_vs(self, i: int, x: VV) -> NS { NS { v: self.v.update(i, x), ..self } }
    pub open spec fn is_store(self, i: NodeIndex) -> bool { i.0 < self.n.len() && self.n[i.0 as int].st }
    pub open spec fn has_node(self, i: NodeIndex) -> bool { i.0 < self.n.len() }
    pub open spec fn nd(self, i: NodeIndex) -> NV { self.n[i.0 as int] }
    pub open spec fn has_vs(self, i: VirtualStorageIndex) -> bool { i.0 < self.v.len() }
    pub open spec fn vs(self, i: VirtualStorageIndex) -> VV { self.v[i.0 as int] }
}
impl VV { pub open spec fn zeroed(self) -> VV { VV { s: self.s.zeroed(), ..self } } }
impl MultiValue { pub open spec fn nan(&self) -> bool { exists|k: int| self.values.has(k) && nanq(#[trigger] self.values.at(k)) } }

// ---- nodes, virtual storages and the metrics that name them
impl Network {
    pub open spec fn has_node(&self, i: NodeIndex) -> bool { i.0 < self.nodes@.len() }
    pub open spec fn node(&self, i: NodeIndex) -> Node { self.nodes@[i.0 as int] }
    pub open spec fn has_vs(&self, i: VirtualStorageIndex) -> bool { i.0 < self.virtual_storage_nodes@.len() }
    pub open spec fn vs(&self, i: VirtualStorageIndex) -> VirtualStorageNode { self.virtual_storage_nodes@[i.0 as int] }
    pub open spec fn agg(&self, i: AggregatedNodeIndex) -> AggregatedNode { self.aggregated_nodes@[i.0 as int] }
    pub open spec fn aggs(&self, i: AggregatedStorageNodeIndex) -> AggregatedStorageNode { self.aggregated_storage_nodes@[i.0 as int] }
}
impl FlowConstraints {
    pub open spec fn has_min(&self, n: &Network, s: &State) -> bool { match self.min_flow { None => true, Some(m) => m.has(n, s) } }
    pub open spec fn has_max(&self, n: &Network, s: &State) -> bool { match self.max_flow { None => true, Some(m) => m.has(n, s) } }
    pub open spec fn min(&self, n: &Network, s: &State) -> real { match self.min_flow { None => 0real, Some(m) => m.val(n, s) } }
    pub open spec fn max(&self, n: &Network, s: &State) -> real { match self.max_flow { None => f64_max(), Some(m) => m.val(n, s) } }
}
impl Node {
    pub open spec fn idx(&self) -> NodeIndex { match self { Self::Input(n) => n.meta.index, Self::Output(n) => n.meta.index, Self::Link(n) => n.meta.index, Self::Storage(n) => n.meta.index } }
    pub open spec fn fc(&self) -> FlowConstraints recommends !(self is Storage) { match self { Self::Input(n) => n.flow_constraints, Self::Output(n) => n.flow_constraints, Self::Link(n) => n.flow_constraints, Self::Storage(n) => arbitrary() } }
    pub open spec fn sc(&self) -> StorageConstraints recommends self is Storage { self->Storage_0.storage_constraints }
    pub open spec fn nc(&self) -> NodeCost { match self { Self::Input(n) => n.cost, Self::Output(n) => n.cost, Self::Link(n) => n.cost, Self::Storage(n) => n.cost } }
    /// the flow of a node that a virtual storage counts
    pub open spec fn used(&self, x: NV) -> real { match self { Self::Input(_) => x.o, _ => x.i } }
}
/// in-flows (out-flows, volumes, maximum volumes) of several nodes
pub open spec fn ins(x: NS, is: Seq<NodeIndex>) -> Seq<real> { is.map_values(|i: NodeIndex| x.nd(i).i) }
pub open spec fn outs(x: NS, is: Seq<NodeIndex>) -> Seq<real> { is.map_values(|i: NodeIndex| x.nd(i).o) }
pub open spec fn vols(x: NS, is: Seq<NodeIndex>) -> Seq<real> { is.map_values(|i: NodeIndex| x.nd(i).v) }
pub open spec fn mxs(x: NS, is: Seq<NodeIndex>) -> Seq<real> { is.map_values(|i: NodeIndex| x.nd(i).mx) }
pub open spec fn eflows(x: NS, is: Seq<EdgeIndex>) -> Seq<real> { is.map_values(|i: EdgeIndex| x.e[i.0 as int]) }
pub open spec fn all_nodes(x: NS, is: Seq<NodeIndex>) -> bool { forall|k: int| 0 <= k < is.len() ==> x.has_node(#[trigger] is[k]) }
pub open spec fn all_stores(x: NS, is: Seq<NodeIndex>) -> bool { forall|k: int| 0 <= k < is.len() ==> x.is_store(#[trigger] is[k]) }
pub open spec fn all_edges(x: NS, is: Seq<EdgeIndex>) -> bool { forall|k: int| 0 <= k < is.len() ==> (#[trigger] is[k]).0 < x.e.len() }
/// the sum of the first values, and of all values
pub open spec fn upto(s: Seq<real>, i: int) -> real decreases i { if i <= 0 { 0real } else { upto(s, i - 1) + s[i - 1] } }
pub open spec fn tot(s: Seq<real>) -> real { upto(s, s.len() as int) }
/// the members of the first groups
pub open spec fn mem(g: Seq<Vec<NodeIndex>>, i: int) -> Seq<NodeIndex> decreases i { if i <= 0 { Seq::empty() } else { mem(g, i - 1) + g[i - 1]@ } }
impl AggregatedNode { pub open spec fn members(&self) -> Seq<NodeIndex> { mem(self.nodes@, self.nodes@.len() as int) } }
impl MetricF64 {
    /// whether the metric has a value, and which (a metric may name the maximum flow of a node, which is a metric)
    pub uninterp spec fn has(&self, n: &Network, s: &State) -> bool;
    pub uninterp spec fn val(&self, n: &Network, s: &State) -> real;
    pub open spec fn has_(&self, n: &Network, s: &State) -> bool {
        let x = s.network.ns();
        match self {
            Self::NodeInFlow(i) => x.has_node(*i),
            Self::NodeOutFlow(i) => x.has_node(*i),
            Self::NodeMaxFlow(i) => n.has_node(*i) && !(n.node(*i) is Storage) && n.node(*i).fc().has_max(n, s),
            Self::NodeVolume(i) => x.is_store(*i),
            Self::NodeProportionalVolume(i) => x.is_store(*i),
            Self::NodeMaxVolume(i) => n.has_node(*i) && n.node(*i) is Storage && n.node(*i).sc().has_max(s),
            Self::AggregatedNodeInFlow(i) => i.0 < n.aggregated_nodes@.len() && all_nodes(x, n.agg(*i).members()),
            Self::AggregatedNodeOutFlow(i) => i.0 < n.aggregated_nodes@.len() && all_nodes(x, n.agg(*i).members()),
            Self::AggregatedStorageNodeVolume(i) => i.0 < n.aggregated_storage_nodes@.len() && all_stores(x, n.aggs(*i).nodes@),
            Self::AggregatedStorageNodeProportionalVolume(i) => i.0 < n.aggregated_storage_nodes@.len() && all_stores(x, n.aggs(*i).nodes@),
            Self::EdgeFlow(i) => i.0 < x.e.len(),
            Self::MultiEdgeFlow { indices, name } => all_edges(x, indices@),
            Self::ParameterBeforeF64(i) => s.bpv().hv(*i),
            Self::ParameterAfterF64(i) => s.apv().hv(*i),
            Self::ParameterBeforeU64(i) => s.bpv().hi(*i),
            Self::ParameterAfterU64(i) => s.apv().hi(*i),
            Self::ParameterBeforeMulti { index, key } => s.bpv().hm(*index, *key),
            Self::ParameterAfterMulti { index, key } => s.apv().hm(*index, *key),
            Self::VirtualStorageVolume(i) => x.has_vs(*i),
            Self::VirtualStorageProportionalVolume(i) => x.has_vs(*i),
            Self::VirtualStorageMaxVolume(i) => n.has_vs(*i) && n.vs(*i).storage_constraints.has_max(s),
            Self::MultiNodeInFlow { indices, name } => all_nodes(x, indices@),
            Self::MultiNodeOutFlow { indices, name } => all_nodes(x, indices@),
            Self::InterNetworkTransfer(i) => i.0 < s.inter_network_values@.len(),
            Self::Simple(m) => m.has(s.cpv(), s.spv()),
        }
    }
    pub open spec fn val_(&self, n: &Network, s: &State) -> real {
        let x = s.network.ns();
        match self {
            Self::NodeInFlow(i) => x.nd(*i).i,
            Self::NodeOutFlow(i) => x.nd(*i).o,
            Self::NodeMaxFlow(i) => n.node(*i).fc().max(n, s),
            Self::NodeVolume(i) => x.nd(*i).v,
            Self::NodeProportionalVolume(i) => prop_vol(x.nd(*i).v, x.nd(*i).mx),
            Self::NodeMaxVolume(i) => n.node(*i).sc().max(s),
            Self::AggregatedNodeInFlow(i) => tot(ins(x, n.agg(*i).members())),
            Self::AggregatedNodeOutFlow(i) => tot(outs(x, n.agg(*i).members())),
            Self::AggregatedStorageNodeVolume(i) => tot(vols(x, n.aggs(*i).nodes@)),
            Self::AggregatedStorageNodeProportionalVolume(i) => prop_vol(tot(vols(x, n.aggs(*i).nodes@)), tot(mxs(x, n.aggs(*i).nodes@))),
            Self::EdgeFlow(i) => x.e[i.0 as int],
            Self::MultiEdgeFlow { indices, name } => tot(eflows(x, indices@)),
            Self::ParameterBeforeF64(i) => s.bpv().gv(*i),
            Self::ParameterAfterF64(i) => s.apv().gv(*i),
            Self::ParameterBeforeU64(i) => s.bpv().gi(*i) as real,
            Self::ParameterAfterU64(i) => s.apv().gi(*i) as real,
            Self::ParameterBeforeMulti { index, key } => s.bpv().gm(*index, *key),
            Self::ParameterAfterMulti { index, key } => s.apv().gm(*index, *key),
            Self::VirtualStorageVolume(i) => x.vs(*i).s.v,
            Self::VirtualStorageProportionalVolume(i) => prop_vol(x.vs(*i).s.v, x.vs(*i).s.mx),
            Self::VirtualStorageMaxVolume(i) => n.vs(*i).storage_constraints.max(s),
            Self::MultiNodeInFlow { indices, name } => tot(ins(x, indices@)),
            Self::MultiNodeOutFlow { indices, name } => tot(outs(x, indices@)),
            Self::InterNetworkTransfer(i) => s.inter_network_values@[i.0 as int]@,
            Self::Simple(m) => m.val(s.cpv(), s.spv()),
        }
    }
}
/// the value of a metric is what its kind says (the maximum flow of a node passes the value of another metric on)
#[verifier::external_body] pub proof fn metric_axiom(m: MetricF64, n: &Network, s: &State) ensures m.has(n, s) == m.has_(n, s), m.val(n, s) == m.val_(n, s) {}
impl ConstantMetricU64 {
    pub open spec fn has(&self, c: PV) -> bool { match self { Self::IndexParameterValue(i) => c.hi(*i), Self::MultiParameterValue { index, key } => c.hn(*index, *key), Self::Constant(_) => true } }
    pub open spec fn val(&self, c: PV) -> u64 { match self { Self::IndexParameterValue(i) => c.gi(*i), Self::MultiParameterValue { index, key } => c.gn(*index, *key), Self::Constant(v) => *v } }
}
impl SimpleMetricU64 {
    pub open spec fn has(&self, c: PV, s: PV) -> bool { match self { Self::IndexParameterValue { index } => s.hi(*index), Self::MultiParameterValue { index, key } => s.hn(*index, *key), Self::Constant(m) => m.has(c) } }
    pub open spec fn val(&self, c: PV, s: PV) -> u64 { match self { Self::IndexParameterValue { index } => s.gi(*index), Self::MultiParameterValue { index, key } => s.gn(*index, *key), Self::Constant(m) => m.val(c) } }
}
impl MetricU64 {
    pub open spec fn has(&self, s: &State) -> bool { match self { Self::ParameterBeforeU64(i) => s.bpv().hi(*i), Self::ParameterAfterU64(i) => s.apv().hi(*i), Self::ParameterBeforeMulti { index, key } => s.bpv().hn(*index, *key), Self::ParameterAfterMulti { index, key } => s.apv().hn(*index, *key), Self::Simple(m) => m.has(s.cpv(), s.spv()), Self::InterNetworkTransfer(_) => false } }
    pub open spec fn val(&self, s: &State) -> u64 { match self { Self::ParameterBeforeU64(i) => s.bpv().gi(*i), Self::ParameterAfterU64(i) => s.apv().gi(*i), Self::ParameterBeforeMulti { index, key } => s.bpv().gn(*index, *key), Self::ParameterAfterMulti { index, key } => s.apv().gn(*index, *key), Self::Simple(m) => m.val(s.cpv(), s.spv()), Self::InterNetworkTransfer(_) => arbitrary() } }
}

// ---- costs
impl VirtualStorageNode {
    pub open spec fn has_cost(&self, n: &Network, s: &State) -> bool { match self.cost { None => true, Some(m) => m.has(n, s) } }
    pub open spec fn cost(&self, n: &Network, s: &State) -> real { match self.cost { None => 0real, Some(m) => m.val(n, s) } }
}
/// a cost combined with others
pub open spec fn combined(f: CostAggFunc, c: real, o: Seq<real>, i: int) -> real decreases i {
    if i <= 0 { c } else {
        let p = combined(f, c, o, i - 1);
        match f { CostAggFunc::Sum => p + o[i - 1], CostAggFunc::Max => rmax(p, o[i - 1]), CostAggFunc::Min => rmin(p, o[i - 1]) }
    }
}
impl NodeCost {
    pub open spec fn has_own(&self, n: &Network, s: &State) -> bool { match self.local { None => true, Some(m) => m.has(n, s) } }
    pub open spec fn own(&self, n: &Network, s: &State) -> real { match self.local { None => 0real, Some(m) => m.val(n, s) } }
    pub open spec fn others(&self, n: &Network, s: &State) -> Seq<real> { Seq::new(self.virtual_storage_nodes@.len(), |k: int| n.vs(self.virtual_storage_nodes@[k]).cost(n, s)) }
    pub open spec fn has_other(&self, n: &Network, s: &State, k: int) -> bool { n.has_vs(self.virtual_storage_nodes@[k]) && n.vs(self.virtual_storage_nodes@[k]).has_cost(n, s) }
    pub open spec fn has(&self, n: &Network, s: &State) -> bool { self.has_own(n, s) && (self.agg_func is Some ==> forall|k: int| 0 <= k < self.virtual_storage_nodes@.len() ==> #[trigger] self.has_other(n, s, k)) }
    pub open spec fn val(&self, n: &Network, s: &State) -> real { match self.agg_func { None => self.own(n, s), Some(f) => combined(f, self.own(n, s), self.others(n, s), self.virtual_storage_nodes@.len() as int) } }
}
impl Node {
    /// the cost of a unit of flow that leaves (enters) the node
    pub open spec fn out_cost(&self, n: &Network, s: &State) -> real { let c = self.nc().val(n, s); match self { Self::Link(_) => c / 2real, Self::Storage(_) => -c, _ => c } }
    pub open spec fn in_cost(&self, n: &Network, s: &State) -> real { let c = self.nc().val(n, s); match self { Self::Link(_) => c / 2real, _ => c } }
}
// ---- initial volumes
impl StorageInitialVolume {
    pub open spec fn has(&self, s: &State) -> bool {
        match self { Self::DistributedAbsolute { absolute, prior_max_volume } => prior_max_volume.has(s.cpv(), s.spv()), Self::DistributedProportional { total_volume, proportion, prior_max_volume } => total_volume.has(s.cpv(), s.spv()) && prior_max_volume.has(s.cpv(), s.spv()), _ => true }
    }
    /// the initial volume of a storage of maximum volume `mx`; a distributed volume fills the prior storages first
    pub open spec fn at(&self, mx: real, s: &State) -> real {
        match self {
            Self::Absolute(v) => v@,
            Self::Proportional(p) => mx * p@,
            Self::DistributedAbsolute { absolute, prior_max_volume } => rmin(rmax(absolute@ - prior_max_volume.val(s.cpv(), s.spv()), 0real), mx),
            Self::DistributedProportional { total_volume, proportion, prior_max_volume } => rmin(rmax(total_volume.val(s.cpv(), s.spv()) * proportion@ - prior_max_volume.val(s.cpv(), s.spv()), 0real), mx),
        }
    }
}
/// a storage at its initial volume
impl NS { pub open spec fn initialised(self, i: NodeIndex, v: real, mx: real) -> NS { self.with_node(i.0 as int, NV { v: v, mx: mx, ..self.nd(i) }) } }
// ---- constraints that never change
pub open spec fn constant(m: MetricF64) -> bool { m is Simple && m->Simple_0 is Constant }
pub open spec fn known(m: Option<MetricF64>, c: PV, dflt: real, r: Result<Option<R>, E_>) -> bool {
    match m { None => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@ == dflt, Some(m) =>
        if constant(m) { r is Ok == m->Simple_0->Constant_0.has(c) && (r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0@ == m->Simple_0->Constant_0.val(c)) } else { r is Ok && r->Ok_0 is None } }
}
impl FlowConstraints {
    pub open spec fn const_min(&self, c: PV, r: Result<Option<R>, E_>) -> bool { known(self.min_flow, c, 0real, r) }
    pub open spec fn const_max(&self, c: PV, r: Result<Option<R>, E_>) -> bool { known(self.max_flow, c, f64_max(), r) }
    pub open spec fn varies(&self) -> bool { (self.min_flow is Some && !constant(self.min_flow->Some_0)) || (self.max_flow is Some && !constant(self.max_flow->Some_0)) }
}

// ---- virtual storages
/// the calendar day, ordered within a year
pub open spec fn md(m: int, d: int) -> int { m * 1000 + d }
impl VirtualStorageActivePeriod {
    /// both ends are included; a period that ends before it starts wraps around the end of the year
    pub open spec fn covers(&self, t: DateTime) -> bool {
        match self { Self::Always => true, Self::Period { start_day, start_month, end_day, end_month } => {
            let s = md(*start_month as int, *start_day as int); let e = md(*end_month as int, *end_day as int); let c = md(t.m(), t.dd());
            if s <= e { s <= c <= e } else { s <= c || c <= e }
        } }
    }
}
pub open spec fn months_between(c: DateTime, l: DateTime) -> int { (c.y() - l.y()) * 12 + c.m() - l.m() }
impl VirtualStorageNode {
    pub open spec fn vi(&self) -> VirtualStorageIndex { self.meta.index }
    pub open spec fn active(&self, t: &Timestep) -> bool { self.active_period.covers(t.date) }
    /// whether the reset rule asks for a reset
    pub open spec fn due(&self, t: &Timestep, last: Option<Timestep>) -> bool {
        match self.reset { VirtualStorageReset::Never => false, VirtualStorageReset::DayOfYear { day, month } => t.date.dd() == day && t.date.m() == month, VirtualStorageReset::NumberOfMonths { months } => last is None || months_between(t.date, last->Some_0.date) >= months }
    }
    pub open spec fn resets(&self, t: &Timestep, x: NS) -> bool { t.index == 0 || !self.active(t) || self.due(t, x.vs(self.vi()).last) }
    pub open spec fn mx(&self, s: &State) -> real { self.storage_constraints.max(s) }
    pub open spec fn reset_to(&self, t: &Timestep, s: &State) -> real { if self.reset_volume is Max && t.index != 0 { self.mx(s) } else { self.initial_volume.at(self.mx(s), s) } }
    /// whether the virtual storage can begin a time-step
    pub open spec fn can_begin(&self, t: &Timestep, s: &State) -> bool { s.network.ns().has_vs(self.vi()) && (self.resets(t, s.network.ns()) ==> self.storage_constraints.has_max(s) && self.initial_volume.has(s)) }
    /// its state at the beginning of a time-step: reset when due, and one use of the rolling window returned
    pub open spec fn begun(&self, t: &Timestep, s: &State) -> VV {
        let v = s.network.ns().vs(self.vi());
        let a = if self.resets(t, s.network.ns()) {
            let x = v.set_to(self.reset_to(t, s), self.mx(s), *t);
            match self.rolling_window { None => x, Some(w) => x.hist_set((self.mx(s) - self.reset_to(t, s)) / (w.v() as real)) }
        } else { v };
        if self.rolling_window is Some { a.recovered(t.dy()) } else { a }
    }
}
