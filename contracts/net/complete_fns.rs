// What a time-step leaves behind. Proved in unit `state`.
/// the amount a virtual storage counts: each member's flow times its factor
pub open spec fn use_of(v: &VirtualStorageNode, n: &Network, x: NS, i: int) -> real decreases i {
    if i <= 0 { 0real } else { use_of(v, n, x, i - 1) + v.factors@[i - 1]@ * n.node(v.nodes@[i - 1]).used(x.nd(v.nodes@[i - 1])) }
}
pub open spec fn pairs(v: &VirtualStorageNode) -> int { if v.nodes@.len() <= v.factors@.len() { v.nodes@.len() as int } else { v.factors@.len() as int } }
pub open spec fn members_ok(v: &VirtualStorageNode, n: &Network, x: NS) -> bool { forall|k: int| 0 <= k < pairs(v) ==> x.has_node(#[trigger] v.nodes@[k]) && n.has_node(v.nodes@[k]) }
/// some active virtual storage counts a storage node
pub open spec fn counts_store(n: &Network, t: &Timestep) -> bool {
    exists|j: int, k: int| 0 <= j < n.virtual_storage_nodes@.len() && n.virtual_storage_nodes@[j].active(t) && 0 <= k < pairs(&n.virtual_storage_nodes@[j])
        && n.has_node(n.virtual_storage_nodes@[j].nodes@[k]) && n.node(#[trigger] n.virtual_storage_nodes@[j].nodes@[k]) is Storage
}
/// the virtual storages once the flows are known
pub open spec fn derived(x: NS, n: &Network, t: &Timestep) -> NS {
    NS { v: Seq::new(x.v.len(), |j: int| if j < n.virtual_storage_nodes@.len() && n.virtual_storage_nodes@[j].active(t) { x.v[j].used(use_of(&n.virtual_storage_nodes@[j], n, x, pairs(&n.virtual_storage_nodes@[j])), t.dy()) } else { x.v[j] }), ..x }
}
pub open spec fn counted(x: NS, n: &Network) -> int { if x.v.len() <= n.virtual_storage_nodes@.len() { x.v.len() as int } else { n.virtual_storage_nodes@.len() as int } }
pub open spec fn can_derive(x: NS, n: &Network, t: &Timestep) -> bool { forall|j: int| 0 <= j < counted(x, n) && (#[trigger] n.virtual_storage_nodes@[j]).active(t) ==> members_ok(&n.virtual_storage_nodes@[j], n, x) }
//@ extract pywr-core/src/state/mod.rs impl NetworkState::update_derived_states
//@| stop counts_store(model, timestep)
//@| ensures
//@|     r is Ok == can_derive(old(self).ns(), model, timestep),
//@|     r is Ok ==> final(self).ns() =~~= derived(old(self).ns(), model, timestep)
//@| loop 0 invariant
//@|     _i0 <= _n0, _n0 == counted(old(self).ns(), model), self.node_states == old(self).node_states, self.edge_states == old(self).edge_states, self.virtual_storage_states@.len() == old(self).ns().v.len(),
//@|     forall|k: int| 0 <= k < self.virtual_storage_states@.len() ==> (#[trigger] self.virtual_storage_states@[k]).vv() == (if k < _i0 { derived(old(self).ns(), model, timestep).v[k] } else { old(self).ns().v[k] }),
//@|     forall|k: int| 0 <= k < _i0 && (#[trigger] model.virtual_storage_nodes@[k]).active(timestep) ==> members_ok(&model.virtual_storage_nodes@[k], model, old(self).ns())
//@| at loop0.top
//@|     proof { let _v = model.virtual_storage_nodes@[_i0 as int - 1].active(timestep); let _w = self.virtual_storage_states@[_i0 as int - 1].vv(); }
//@| loop 1 invariant
//@|     _i1 <= _n1, _n1 == pairs(&model.virtual_storage_nodes@[_i0 as int - 1]),
//@|     _acc1@ == use_of(&model.virtual_storage_nodes@[_i0 as int - 1], model, old(self).ns(), _i1 as int),
//@|     forall|k: int| 0 <= k < _i1 ==> old(self).ns().has_node(#[trigger] model.virtual_storage_nodes@[_i0 as int - 1].nodes@[k]) && model.has_node(model.virtual_storage_nodes@[_i0 as int - 1].nodes@[k])
/// the first storages held within their bounds
pub open spec fn stores_held(x: NS, n: &Network, c: PV, s: PV, i: int) -> NS decreases i {
    if i <= 0 { x } else {
        let p = stores_held(x, n, c, s, i - 1); let a = n.nodes@[i - 1];
        if a is Storage { p.with_node(a.idx().0 as int, p.nd(a.idx()).held(a.sc().lo(c, s), a.sc().hi(c, s))) } else { p }
    }
}
pub open spec fn vs_held(x: NS, n: &Network, c: PV, s: PV, i: int) -> NS decreases i {
    if i <= 0 { x } else {
        let p = vs_held(x, n, c, s, i - 1); let a = n.virtual_storage_nodes@[i - 1];
        p.with_vs(a.vi().0 as int, VV { s: p.vs(a.vi()).s.held(a.storage_constraints.lo(c, s), a.storage_constraints.hi(c, s)), ..p.vs(a.vi()) })
    }
}
pub open spec fn bounded_(k: StorageConstraints, c: PV, s: PV) -> bool { k.has_lo(c, s) && k.has_hi(c, s) }
pub open spec fn store_ok(n: &Network, x: NS, c: PV, s: PV, k: int) -> bool { n.nodes@[k] is Storage ==> bounded_(n.nodes@[k].sc(), c, s) && x.has_node(n.nodes@[k].idx()) }
pub open spec fn vs_ok(n: &Network, x: NS, c: PV, s: PV, k: int) -> bool { bounded_(n.virtual_storage_nodes@[k].storage_constraints, c, s) && x.has_vs(n.virtual_storage_nodes@[k].vi()) }
pub open spec fn can_complete(x: NS, n: &Network, t: &Timestep, c: PV, s: PV) -> bool {
    (forall|k: int| 0 <= k < n.nodes@.len() ==> #[trigger] store_ok(n, x, c, s, k)) && can_derive(x, n, t) && (forall|k: int| 0 <= k < n.virtual_storage_nodes@.len() ==> #[trigger] vs_ok(n, x, c, s, k))
}
/// the state after a time-step's flows: storages within bounds, virtual storages counted and within bounds
pub open spec fn completed(x: NS, n: &Network, t: &Timestep, c: PV, s: PV) -> NS {
    vs_held(derived(stores_held(x, n, c, s, n.nodes@.len() as int), n, t), n, c, s, n.virtual_storage_nodes@.len() as int)
}
pub proof fn stores_same(x: NS, n: &Network, c: PV, s: PV, i: int)
    ensures stores_held(x, n, c, s, i).n.len() == x.n.len(), stores_held(x, n, c, s, i).e == x.e, stores_held(x, n, c, s, i).v == x.v
    decreases i { if i > 0 { stores_same(x, n, c, s, i - 1); } }
pub proof fn vs_same(x: NS, n: &Network, c: PV, s: PV, i: int)
    ensures vs_held(x, n, c, s, i).v.len() == x.v.len(), vs_held(x, n, c, s, i).e == x.e, vs_held(x, n, c, s, i).n == x.n
    decreases i { if i > 0 { vs_same(x, n, c, s, i - 1); } }
//@ extract pywr-core/src/state/mod.rs impl State::complete
//@| requires
//@|     forall|k: int| 0 <= k < model.nodes@.len() && #[trigger] model.nodes@[k] is Storage && bounded_(model.nodes@[k].sc(), old(self).cpv(), old(self).spv()) ==> model.nodes@[k].sc().min(old(self)) <= model.nodes@[k].sc().max(old(self)),
//@|     forall|k: int| 0 <= k < model.virtual_storage_nodes@.len() && bounded_((#[trigger] model.virtual_storage_nodes@[k]).storage_constraints, old(self).cpv(), old(self).spv()) ==> model.virtual_storage_nodes@[k].storage_constraints.min(old(self)) <= model.virtual_storage_nodes@[k].storage_constraints.max(old(self))
//@| ensures
//@|     r is Ok == can_complete(old(self).network.ns(), model, timestep, old(self).cpv(), old(self).spv()),
//@|     r is Ok ==> final(self).network.ns() =~~= completed(old(self).network.ns(), model, timestep, old(self).cpv(), old(self).spv()),
//@|     final(self).same_values(old(self))
//@| loop 0 invariant
//@|     _n0 == model.nodes@.len(), self.same_values(old(self)),
//@|     self.network.ns() =~~= stores_held(old(self).network.ns(), model, old(self).cpv(), old(self).spv(), _i0 as int),
//@|     forall|k: int| 0 <= k < _i0 ==> #[trigger] store_ok(model, old(self).network.ns(), old(self).cpv(), old(self).spv(), k)
//@| at loop0.top
//@|     proof { let _v = store_ok(model, old(self).network.ns(), old(self).cpv(), old(self).spv(), _i0 as int - 1); stores_same(old(self).network.ns(), model, old(self).cpv(), old(self).spv(), _i0 as int - 1); let _w = model.nodes@[_i0 as int - 1] is Storage; }
//@| at loop0.after
//@|     proof { stores_same(old(self).network.ns(), model, old(self).cpv(), old(self).spv(), _n0 as int); }
//@| loop 1 invariant
//@|     _n1 == model.virtual_storage_nodes@.len(), self.same_values(old(self)), can_derive(old(self).network.ns(), model, timestep),
//@|     forall|k: int| 0 <= k < model.nodes@.len() ==> #[trigger] store_ok(model, old(self).network.ns(), old(self).cpv(), old(self).spv(), k),
//@|     self.network.ns() =~~= vs_held(derived(stores_held(old(self).network.ns(), model, old(self).cpv(), old(self).spv(), model.nodes@.len() as int), model, timestep), model, old(self).cpv(), old(self).spv(), _i1 as int),
//@|     forall|k: int| 0 <= k < _i1 ==> #[trigger] vs_ok(model, old(self).network.ns(), old(self).cpv(), old(self).spv(), k)
//@| at loop1.top
//@|     proof { let _v = vs_ok(model, old(self).network.ns(), old(self).cpv(), old(self).spv(), _i1 as int - 1); stores_same(old(self).network.ns(), model, old(self).cpv(), old(self).spv(), model.nodes@.len() as int); vs_same(derived(stores_held(old(self).network.ns(), model, old(self).cpv(), old(self).spv(), model.nodes@.len() as int), model, timestep), model, old(self).cpv(), old(self).spv(), _i1 as int - 1); }
// ---- what follows for a whole time-step: reset, then the flow of every edge added, then complete
pub open spec fn zero_nv(v: NV) -> bool { v.i == 0real && v.o == 0real }
pub open spec fn edges_ok(x: NS, es: Seq<Edge>) -> bool { forall|k: int| 0 <= k < es.len() ==> x.has_edge(&#[trigger] es[k]) }
/// the state once the flows of the first edges are added
pub open spec fn after_flows(x: NS, es: Seq<Edge>, q: Seq<real>, d: real, i: int) -> NS decreases i { if i <= 0 { x } else { after_flows(x, es, q, d, i - 1).flowed(&es[i - 1], q[i - 1], d) } }
/// the flow of the first edges into (out of) a node
pub open spec fn into(es: Seq<Edge>, q: Seq<real>, j: int, i: int) -> real decreases i { if i <= 0 { 0real } else { into(es, q, j, i - 1) + if es[i - 1].to_node_index.0 == j { q[i - 1] } else { 0real } } }
pub open spec fn outof(es: Seq<Edge>, q: Seq<real>, j: int, i: int) -> real decreases i { if i <= 0 { 0real } else { outof(es, q, j, i - 1) + if es[i - 1].from_node_index.0 == j { q[i - 1] } else { 0real } } }
/// every node's in-flow (out-flow) is the total over its edges; a storage changes by exactly the difference over the days of the time-step
pub proof fn node_balance(x: NS, es: Seq<Edge>, q: Seq<real>, d: real, i: int, j: int)
    requires 0 <= i <= es.len(), q.len() == es.len(), 0 <= j < x.n.len(), edges_ok(x, es), zero_nv(x.n[j])
    ensures
        after_flows(x, es, q, d, i).n.len() == x.n.len(), after_flows(x, es, q, d, i).e.len() == x.e.len(), after_flows(x, es, q, d, i).v == x.v,
        after_flows(x, es, q, d, i).n[j].i == into(es, q, j, i), after_flows(x, es, q, d, i).n[j].o == outof(es, q, j, i),
        after_flows(x, es, q, d, i).n[j].st == x.n[j].st, after_flows(x, es, q, d, i).n[j].mx == x.n[j].mx,
        x.n[j].st ==> after_flows(x, es, q, d, i).n[j].v == x.n[j].v + d * (into(es, q, j, i) - outof(es, q, j, i)),
    decreases i
{
    if i > 0 {
        node_balance(x, es, q, d, i - 1, j);
        let a = into(es, q, j, i - 1); let b = outof(es, q, j, i - 1); let w = q[i - 1]; let e = es[i - 1]; let v = x.n[j].v;
        assert(x.has_edge(&es[i - 1]));
        assert(v + d * (a - b) + w * d == v + d * (a + w - b)) by (nonlinear_arith);
        assert(v + d * (a - b) - w * d == v + d * (a - (b + w))) by (nonlinear_arith);
        assert(v + d * (a - b) - w * d + w * d == v + d * (a + w - (b + w))) by (nonlinear_arith);
    } else { assert(d * (0real - 0real) == 0real) by (nonlinear_arith); }
}
/// every edge carries exactly the flow it was given
pub proof fn edge_balance(x: NS, es: Seq<Edge>, q: Seq<real>, d: real, i: int)
    requires 0 <= i <= es.len(), q.len() == es.len(), edges_ok(x, es), x.e.len() == es.len(), forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).index.0 == k, forall|k: int| 0 <= k < x.e.len() ==> #[trigger] x.e[k] == 0real
    ensures after_flows(x, es, q, d, i).e.len() == es.len(), forall|k: int| 0 <= k < es.len() ==> #[trigger] after_flows(x, es, q, d, i).e[k] == (if k < i { q[k] } else { 0real })
    decreases i
{ if i > 0 { edge_balance(x, es, q, d, i - 1); assert(x.has_edge(&es[i - 1])); assert(es[i - 1].index.0 == i - 1); } }
pub open spec fn indexed(n: &Network) -> bool { (forall|k: int| 0 <= k < n.nodes@.len() ==> (#[trigger] n.nodes@[k]).idx().0 == k) && (forall|k: int| 0 <= k < n.virtual_storage_nodes@.len() ==> (#[trigger] n.virtual_storage_nodes@[k]).vi().0 == k) }
/// completing a time-step holds each storage within its own bounds and leaves every flow alone
pub proof fn store_completed(x: NS, n: &Network, c: PV, s: PV, i: int, j: int)
    requires indexed(n), 0 <= i <= n.nodes@.len(), 0 <= j < n.nodes@.len(), x.n.len() == n.nodes@.len()
    ensures stores_held(x, n, c, s, i).n.len() == x.n.len(), stores_held(x, n, c, s, i).n[j] == (if n.nodes@[j] is Storage && j < i { x.n[j].held(n.nodes@[j].sc().lo(c, s), n.nodes@[j].sc().hi(c, s)) } else { x.n[j] })
    decreases i
{ if i > 0 { store_completed(x, n, c, s, i - 1, j); assert(n.nodes@[i - 1].idx().0 == i - 1); } }
/// the volume of a storage after a time-step: what it held, plus the days times in-flow less out-flow, within its bounds
pub proof fn volume_accounted(x: NS, n: &Network, t: &Timestep, es: Seq<Edge>, q: Seq<real>, c: PV, s: PV, j: int)
    requires indexed(n), 0 <= j < n.nodes@.len(), x.n.len() == n.nodes@.len(), edges_ok(x.zeroed(), es), q.len() == es.len(), n.nodes@[j] is Storage, x.n[j].st
    ensures ({
        let y = completed(after_flows(x.zeroed(), es, q, t.dy(), es.len() as int), n, t, c, s); let l = es.len() as int;
        &&& y.n[j].i == into(es, q, j, l) && y.n[j].o == outof(es, q, j, l)
        &&& y.n[j].v == rmin(rmax(x.n[j].v + t.dy() * (into(es, q, j, l) - outof(es, q, j, l)), n.nodes@[j].sc().lo(c, s)), n.nodes@[j].sc().hi(c, s))
        &&& y.n[j].mx == n.nodes@[j].sc().hi(c, s)
    })
{
    let a = after_flows(x.zeroed(), es, q, t.dy(), es.len() as int);
    node_balance(x.zeroed(), es, q, t.dy(), es.len() as int, j);
    store_completed(a, n, c, s, n.nodes@.len() as int, j);
    vs_same(derived(stores_held(a, n, c, s, n.nodes@.len() as int), n, t), n, c, s, n.virtual_storage_nodes@.len() as int);
}
/// the volume of an active virtual storage after a time-step: less its members' flows times their factors and the days, within its bounds
pub proof fn vs_accounted(x: NS, n: &Network, t: &Timestep, c: PV, s: PV, i: int, j: int)
    requires indexed(n), 0 <= i <= n.virtual_storage_nodes@.len(), 0 <= j < n.virtual_storage_nodes@.len(), x.v.len() == n.virtual_storage_nodes@.len()
    ensures vs_held(x, n, c, s, i).v.len() == x.v.len(), vs_held(x, n, c, s, i).v[j] == (if j < i { VV { s: x.v[j].s.held(n.virtual_storage_nodes@[j].storage_constraints.lo(c, s), n.virtual_storage_nodes@[j].storage_constraints.hi(c, s)), ..x.v[j] } } else { x.v[j] })
    decreases i
{ if i > 0 { vs_accounted(x, n, t, c, s, i - 1, j); assert(n.virtual_storage_nodes@[i - 1].vi().0 == i - 1); } }
