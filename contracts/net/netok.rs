// A network as the linear programme needs it (nothing here is code of pywr-next).
impl Node {
    pub open spec fn ins(&self) -> Seq<EdgeIndex> { match self { Self::Input(n) => Seq::empty(), Self::Output(n) => n.incoming_edges@, Self::Link(n) => n.incoming_edges@, Self::Storage(n) => n.incoming_edges@ } }
    pub open spec fn outs(&self) -> Seq<EdgeIndex> { match self { Self::Input(n) => n.outgoing_edges@, Self::Output(n) => Seq::empty(), Self::Link(n) => n.outgoing_edges@, Self::Storage(n) => n.outgoing_edges@ } }
}
pub open spec fn known_nodes(net: &Network, ns: Seq<NodeIndex>) -> bool { forall|k: int| 0 <= k < ns.len() ==> net.has_node(#[trigger] ns[k]) }
impl AggregatedNode { pub open spec fn known(&self, net: &Network) -> bool { forall|g: int| 0 <= g < self.nodes@.len() ==> known_nodes(net, (#[trigger] self.nodes@[g])@) } }
pub open spec fn aggs_known(net: &Network) -> bool { forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> (#[trigger] net.aggregated_nodes@[k]).known(net) }
impl VirtualStorageNode {
    pub open spec fn npairs(&self) -> int { if self.nodes@.len() <= self.factors@.len() { self.nodes@.len() as int } else { self.factors@.len() as int } }
}
pub open spec fn agg_indexed(net: &Network) -> bool { forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> (#[trigger] net.aggregated_nodes@[k]).meta.index.0 == k }
pub open spec fn node_indexed(net: &Network) -> bool { forall|k: int| 0 <= k < net.nodes@.len() ==> (#[trigger] net.nodes@[k]).idx().0 == k }
impl Network {
    pub open spec fn has_edge(&self, e: EdgeIndex) -> bool { e.0 < self.edges@.len() }
    pub open spec fn from(&self, e: EdgeIndex) -> Node { self.node(self.edges@[e.0 as int].from_node_index) }
    pub open spec fn to(&self, e: EdgeIndex) -> Node { self.node(self.edges@[e.0 as int].to_node_index) }
}
/// what the edge says of its ends
pub open spec fn edge_ok(net: &Network, k: int) -> bool {
    let e = net.edges@[k];
    e.index.0 == k && net.has_node(e.from_node_index) && net.has_node(e.to_node_index) && e.from_node_index != e.to_node_index
}
/// what a link says of its edges
pub open spec fn link_ok(net: &Network, k: int) -> bool {
    let n = net.nodes@[k];
    &&& n.ins().len() > 0 && n.outs().len() > 0
    &&& forall|m: int| 0 <= m < n.ins().len() ==> net.has_edge(#[trigger] n.ins()[m]) && net.edges@[n.ins()[m].0 as int].to_node_index.0 == k
    &&& forall|m: int| 0 <= m < n.outs().len() ==> net.has_edge(#[trigger] n.outs()[m]) && net.edges@[n.outs()[m].0 as int].from_node_index.0 == k
    &&& forall|m: int, l: int| 0 <= m < l < n.ins().len() ==> #[trigger] n.ins()[m] != #[trigger] n.ins()[l]
    &&& forall|m: int, l: int| 0 <= m < l < n.outs().len() ==> #[trigger] n.outs()[m] != #[trigger] n.outs()[l]
}
pub open spec fn links_ok(net: &Network) -> bool {
    &&& node_indexed(net)
    &&& forall|k: int| 0 <= k < net.edges@.len() ==> #[trigger] edge_ok(net, k)
    &&& forall|k: int| 0 <= k < net.nodes@.len() && net.nodes@[k] is Link ==> #[trigger] link_ok(net, k)
    &&& forall|k: int| 0 <= k < net.edges@.len() && net.node((#[trigger] net.edges@[k]).from_node_index) is Link ==> net.node(net.edges@[k].from_node_index).outs().contains(EdgeIndex(k as usize))
}
pub open spec fn net_ok(net: &Network) -> bool {
    &&& links_ok(net) && aggs_known(net) && agg_indexed(net)
    &&& forall|k: int, j: int| 0 <= k < net.virtual_storage_nodes@.len() && 0 <= j < net.virtual_storage_nodes@[k].npairs() ==> net.has_node(#[trigger] net.virtual_storage_nodes@[k].nodes@[j])
}
/// every edge of a node is an edge of the network
pub open spec fn ends_known(net: &Network) -> bool {
    forall|k: int| 0 <= k < net.nodes@.len() ==> edges_known(net, (#[trigger] net.nodes@[k]).ins()) && edges_known(net, net.nodes@[k].outs())
}
pub open spec fn edges_known(net: &Network, es: Seq<EdgeIndex>) -> bool { forall|m: int| 0 <= m < es.len() ==> net.has_edge(#[trigger] es[m]) }
