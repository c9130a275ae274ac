// A network that was built is one the linear programme can be written for.
pub proof fn lemma_edges_to(es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, n: NodeIndex, c: int)
    requires 0 <= c <= es.len() <= usize::MAX
    ensures forall|i: int| 0 <= i < edges_to(es, m, n, c).len() ==> (#[trigger] edges_to(es, m, n, c)[i]).0 < c && found(m, es[edges_to(es, m, n, c)[i].0 as int].to, n),
        forall|i: int, j: int| 0 <= i < j < edges_to(es, m, n, c).len() ==> (#[trigger] edges_to(es, m, n, c)[i]).0 < (#[trigger] edges_to(es, m, n, c)[j]).0,
    decreases c
{ if c > 0 { lemma_edges_to(es, m, n, c - 1); } }
pub proof fn lemma_edges_from(es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, n: NodeIndex, c: int)
    requires 0 <= c <= es.len() <= usize::MAX
    ensures forall|i: int| 0 <= i < edges_from(es, m, n, c).len() ==> (#[trigger] edges_from(es, m, n, c)[i]).0 < c && found(m, es[edges_from(es, m, n, c)[i].0 as int].from, n),
        forall|i: int, j: int| 0 <= i < j < edges_from(es, m, n, c).len() ==> (#[trigger] edges_from(es, m, n, c)[i]).0 < (#[trigger] edges_from(es, m, n, c)[j]).0,
    decreases c
{ if c > 0 { lemma_edges_from(es, m, n, c - 1); } }
/// every edge that starts at a node is in its list
pub proof fn lemma_edge_listed(es: Seq<UnresolvedEdge>, m: Map<NK, NodeIndex>, n: NodeIndex, c: int, k: int)
    requires 0 <= k < c <= es.len() <= usize::MAX, found(m, es[k].from, n)
    ensures edges_from(es, m, n, c).contains(EdgeIndex(k as usize))
    decreases c
{
    let l = edges_from(es, m, n, c);
    if k == c - 1 { assert(l[l.len() - 1] == EdgeIndex(k as usize)); }
    else {
        lemma_edge_listed(es, m, n, c - 1, k);
        let p = edges_from(es, m, n, c - 1);
        let i = choose|i: int| 0 <= i < p.len() && p[i] == EdgeIndex(k as usize);
        assert(l[i] == p[i]);
    }
}
impl NetworkBuilder {
    pub proof fn lemma_node(&self, net: &Network, maps: &ResolutionMaps, k: int)
        requires self.built(net, maps), 0 <= k < self.nodes@.len(), self.edges@.len() <= usize::MAX
        ensures net.nodes@[k].idx().0 == k, net.nodes@[k].idx() == maps.nodes@[self.nodes@[k].name.key()],
            net.nodes@[k].ins() == edges_to(self.edges@, maps.nodes@, net.nodes@[k].idx(), self.edges@.len() as int),
            net.nodes@[k].outs() == edges_from(self.edges@, maps.nodes@, net.nodes@[k].idx(), self.edges@.len() as int),
            edges_known(net, net.nodes@[k].ins()), edges_known(net, net.nodes@[k].outs()),
            net.nodes@[k] is Link ==> link_ok(net, k)
    {
        let n = net.nodes@[k];
        let b = self.nodes@[k];
        let c = self.edges@.len() as int;
        assert(b.describes(n, maps));
        let _key = self.node_key()(k);
        assert(n.idx() == n.meta_().index);
        let _i = listed(maps.incoming_edges@, n.idx());
        let _o = listed(maps.outgoing_edges@, n.idx());
        lemma_edges_to(self.edges@, maps.nodes@, n.idx(), c);
        lemma_edges_from(self.edges@, maps.nodes@, n.idx(), c);
        assert forall|m: int| 0 <= m < n.ins().len() implies net.has_edge(#[trigger] n.ins()[m]) && net.edges@[n.ins()[m].0 as int].to_node_index.0 == k by {
            let e = n.ins()[m].0 as int;
            assert(self.joined(net.edges@[e], e, maps.nodes@));
        }
        assert forall|m: int| 0 <= m < n.outs().len() implies net.has_edge(#[trigger] n.outs()[m]) && net.edges@[n.outs()[m].0 as int].from_node_index.0 == k by {
            let e = n.outs()[m].0 as int;
            assert(self.joined(net.edges@[e], e, maps.nodes@));
        }
    }
    pub proof fn lemma_known(&self, net: &Network, maps: &ResolutionMaps, us: Seq<UnresolvedNode>, ns: Seq<NodeIndex>)
        requires self.built(net, maps), named(us, ns, maps.nodes@, us.len() as int)
        ensures known_nodes(net, ns)
    {
        assert forall|k: int| 0 <= k < ns.len() implies net.has_node(#[trigger] ns[k]) by { assert(found(maps.nodes@, us[k], ns[k])); assert(maps.nodes@.contains_key(us[k].key())); }
    }
    /// what the unit of the linear programme assumes of a network holds of every network that is built
    pub proof fn lemma_built(&self, net: &Network, maps: &ResolutionMaps)
        requires self.built(net, maps), self.edges@.len() <= usize::MAX
        ensures net_ok(net), ends_known(net)
    {
        let m = maps.nodes@;
        assert forall|k: int| 0 <= k < net.nodes@.len() implies (#[trigger] net.nodes@[k]).idx().0 == k && edges_known(net, net.nodes@[k].ins()) && edges_known(net, net.nodes@[k].outs()) by { self.lemma_node(net, maps, k); }
        assert forall|k: int| 0 <= k < net.nodes@.len() && net.nodes@[k] is Link implies #[trigger] link_ok(net, k) by { self.lemma_node(net, maps, k); }
        assert forall|k: int| 0 <= k < net.edges@.len() implies #[trigger] edge_ok(net, k) by {
            assert(self.joined(net.edges@[k], k, m));
            assert(joins(self.edges@[k], m));
            assert(m.contains_key(self.edges@[k].from.key()) && m.contains_key(self.edges@[k].to.key()));
        }
        assert forall|k: int| 0 <= k < net.edges@.len() && net.node((#[trigger] net.edges@[k]).from_node_index) is Link implies net.node(net.edges@[k].from_node_index).outs().contains(EdgeIndex(k as usize)) by {
            let f = net.edges@[k].from_node_index;
            assert(self.joined(net.edges@[k], k, m));
            assert(edge_ok(net, k));
            self.lemma_node(net, maps, f.0 as int);
            lemma_edge_listed(self.edges@, m, f, self.edges@.len() as int, k);
        }
        assert forall|k: int| 0 <= k < net.aggregated_nodes@.len() implies (#[trigger] net.aggregated_nodes@[k]).known(net) && net.aggregated_nodes@[k].meta.index.0 == k by {
            let a = net.aggregated_nodes@[k];
            let b = self.aggregated_nodes@[k];
            assert(b.describes(a, maps));
            let _key = self.agg_key()(k);
            assert forall|g: int| 0 <= g < a.nodes@.len() implies known_nodes(net, (#[trigger] a.nodes@[g])@) by { self.lemma_known(net, maps, b.nodes@[g]@, a.nodes@[g]@); }
        }
        assert forall|k: int, j: int| 0 <= k < net.virtual_storage_nodes@.len() && 0 <= j < net.virtual_storage_nodes@[k].npairs() implies net.has_node(#[trigger] net.virtual_storage_nodes@[k].nodes@[j]) by {
            self.lemma_known(net, maps, self.virtual_storage_nodes@[k].nodes@, net.virtual_storage_nodes@[k].nodes@);
        }
    }
}
