// The linear programme of a time-step (nothing here is code of pywr-next).
/// v is within bounds that may be absent
pub open spec fn bounded(v: real, lo: real, hi: real, mn: R, mx: R) -> bool { (lo <= mn@ || lo <= v) && (hi >= mx@ || v <= hi) }
impl Lp {
    pub open spec fn bound_holds(self, i: int, v: Flows) -> bool { bounded(v(i), self.row_lower@[i]@, self.row_upper@[i]@, self.f64_neg_max, self.f64_max) }
    /// the bounds that are set at each step hold for the values v of the rows
    pub open spec fn bounds_hold(self, v: Flows) -> bool { forall|i: int| 0 <= i < self.nrows() && self.row_mask@[i] == 1 ==> #[trigger] self.bound_holds(i, v) }
    pub open spec fn same_fixed(self, o: Lp) -> bool {
        self.nrows() == o.nrows() && forall|i: int| 0 <= i < o.nrows() && o.row_mask@[i] != 1 ==> #[trigger] self.row_lower@[i] == o.row_lower@[i] && self.row_upper@[i] == o.row_upper@[i]
    }
    /// only bounds that are set at each step may differ
    pub open spec fn more_bounds(self, o: Lp) -> bool { self == (Lp { row_lower: self.row_lower, row_upper: self.row_upper, ..o }) && self.wf() && self.same_fixed(o) }
    /// and the new coefficients
    pub open spec fn more_coefs(self, o: Lp) -> bool { self == (Lp { row_lower: self.row_lower, row_upper: self.row_upper, coefficients_to_update: self.coefficients_to_update, ..o }) && self.wf() && self.same_fixed(o) }
    /// row r has bounds that are set at each step
    pub open spec fn settable(self, r: int) -> bool { 0 <= r < self.nrows() && self.row_mask@[r] == 1 }
}
/// bounds are only ever made tighter
pub proof fn tighter(a: Lp, b: Lp, r: int, lb: real, ub: real)
    requires
        a.wf(), a.settable(r), b.more_coefs(a),
        b.row_lower@[r]@ == rmax(a.row_lower@[r]@, lb), b.row_upper@[r]@ == rmin(a.row_upper@[r]@, ub),
        forall|i: int| 0 <= i < a.nrows() && i != r ==> #[trigger] b.row_lower@[i] == a.row_lower@[i],
        forall|i: int| 0 <= i < a.nrows() && i != r ==> #[trigger] b.row_upper@[i] == a.row_upper@[i],
    ensures forall|v: Flows| #[trigger] b.bounds_hold(v) <==> a.bounds_hold(v) && bounded(v(r), lb, ub, a.f64_neg_max, a.f64_max)
{
    assert forall|v: Flows| #[trigger] b.bounds_hold(v) <==> a.bounds_hold(v) && bounded(v(r), lb, ub, a.f64_neg_max, a.f64_max) by {
        let both = a.bound_holds(r, v) && bounded(v(r), lb, ub, a.f64_neg_max, a.f64_max);
        assert(b.bound_holds(r, v) <==> both);
        if b.bounds_hold(v) { assert forall|i: int| 0 <= i < a.nrows() && a.row_mask@[i] == 1 implies #[trigger] a.bound_holds(i, v) by { assert(b.bound_holds(i, v)); } }
        if a.bounds_hold(v) && both { assert forall|i: int| 0 <= i < b.nrows() && b.row_mask@[i] == 1 implies #[trigger] b.bound_holds(i, v) by { assert(a.bound_holds(i, v)); } }
    }
}
/// no bounds: anything holds
pub proof fn no_bounds(a: Lp, b: Lp)
    requires
        a.wf(), b.more_bounds(a),
        forall|i: int| 0 <= i < a.nrows() && a.row_mask@[i] == 1 ==> #[trigger] b.row_lower@[i] == a.f64_neg_max && b.row_upper@[i] == a.f64_max,
    ensures forall|v: Flows| #[trigger] b.bounds_hold(v)
{ assert forall|v: Flows| #[trigger] b.bounds_hold(v) by { assert forall|i: int| 0 <= i < b.nrows() && b.row_mask@[i] == 1 implies #[trigger] b.bound_holds(i, v) by { let _k = b.row_lower@[i]; } } }

// ---- nodes
impl Node {
    pub open spec fn has_step(&self, net: &Network, s: &State) -> bool { if self is Storage { self.sc().has_min(s) && self.sc().has_max(s) && s.network.ns().is_store(self.idx()) } else { self.fc().has_min(net, s) && self.fc().has_max(net, s) } }
    /// the bounds of the flow of a node in a step of dt days: for a storage, what can be taken and what can be added
    pub open spec fn step_lo(&self, net: &Network, s: &State, dt: real) -> real { if self is Storage { -(s.network.ns().nd(self.idx()).v - self.sc().min(s)) / dt } else { self.fc().min(net, s) } }
    pub open spec fn step_hi(&self, net: &Network, s: &State, dt: real) -> real { if self is Storage { (self.sc().max(s) - s.network.ns().nd(self.idx()).v) / dt } else { self.fc().max(net, s) } }
}
pub open spec fn id_holds(i: NodeRowId, net: &Network, s: &State, dt: real, mn: R, mx: R, v: Flows) -> bool {
    let q = v(i.row_id as int);
    match i.row_type { NodeRowType::Continuous => bounded(q, net.node(i.node_idx).step_lo(net, s, dt), net.node(i.node_idx).step_hi(net, s, dt), mn, mx), _ => bounded(q, 0real, mx@, mn, mx) }
}
pub open spec fn ids_hold(ids: Seq<NodeRowId>, net: &Network, s: &State, dt: real, mn: R, mx: R, v: Flows, n: int) -> bool { forall|j: int| 0 <= j < n && j < ids.len() ==> id_holds(#[trigger] ids[j], net, s, dt, mn, mx, v) }
impl NodeRowId {
    pub open spec fn binary(self) -> bool { !(self.row_type is Continuous) }
    pub open spec fn bin(self) -> usize { match self.row_type { NodeRowType::Continuous => 0, NodeRowType::BinaryUpperBound { bin_col_id } => bin_col_id, NodeRowType::BinaryLowerBound { bin_col_id } => bin_col_id } }
    /// the coefficient of the binary column
    pub open spec fn bin_coef(self, net: &Network, s: &State, dt: real) -> real { if self.row_type is BinaryUpperBound { rmin(net.node(self.node_idx).step_hi(net, s, dt), BIG()) } else { -net.node(self.node_idx).step_lo(net, s, dt) } }
}
pub type Upd = Seq<(usize, usize, R)>;
/// row i has one new coefficient
pub open spec fn one_coef(u: Upd, i: NodeRowId, net: &Network, s: &State, dt: real) -> bool { let m = ucols(u, i.row_id); (forall|c: usize| #[trigger] m.contains_key(c) <==> c == i.bin()) && m[i.bin()]@ == i.bin_coef(net, s, dt) }
pub open spec fn ids_coefs(u: Upd, ids: Seq<NodeRowId>, net: &Network, s: &State, dt: real, n: int) -> bool { forall|j: int| 0 <= j < n && j < ids.len() && (#[trigger] ids[j]).binary() ==> one_coef(u, ids[j], net, s, dt) }
pub open spec fn bin_row(ids: Seq<NodeRowId>, r: usize, n: int) -> bool { exists|j: int| 0 <= j < n && j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r }
pub open spec fn only_bins(u: Upd, ids: Seq<NodeRowId>, n: int) -> bool { forall|r: usize| !bin_row(ids, r, n) ==> #[trigger] ucols(u, r) == Map::<usize, R>::empty() }
pub open spec fn ids_ok(ids: Seq<NodeRowId>, net: &Network, lp: Lp) -> bool { forall|j: int| 0 <= j < ids.len() ==> net.has_node((#[trigger] ids[j]).node_idx) && lp.settable(ids[j].row_id as int) }
pub open spec fn ids_known(ids: Seq<NodeRowId>, net: &Network, s: &State) -> bool { forall|j: int| 0 <= j < ids.len() ==> net.node((#[trigger] ids[j]).node_idx).has_step(net, s) }
/// one more coefficient, in a row that has none
pub proof fn one_more(u: Upd, ids: Seq<NodeRowId>, net: &Network, s: &State, dt: real, n: int, x: R)
    requires
        own_rows(ids), 0 <= n < ids.len(), ids[n].binary(), once(u), ids_coefs(u, ids, net, s, dt, n), only_bins(u, ids, n),
        x@ == ids[n].bin_coef(net, s, dt),
    ensures once(u.push((ids[n].row_id, ids[n].bin(), x))), ids_coefs(u.push((ids[n].row_id, ids[n].bin(), x)), ids, net, s, dt, n + 1), only_bins(u.push((ids[n].row_id, ids[n].bin(), x)), ids, n + 1)
{
    let t = u.push((ids[n].row_id, ids[n].bin(), x)); let r = ids[n].row_id;
    assert(t.drop_last() =~= u);
    assert(!bin_row(ids, r, n)) by { if bin_row(ids, r, n) { let j = choose|j: int| 0 <= j < n && j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r; assert(ids[j].row_id != ids[n].row_id); } }
    assert(ucols(u, r) == Map::<usize, R>::empty());
    assert(once(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies !((#[trigger] t[i]).0 == (#[trigger] t[j]).0 && t[i].1 == t[j].1) by {
            if j == u.len() { if t[i].0 == r && t[i].1 == t[j].1 { assert(u[i] == t[i]); ucols_key(u, r, u[i].1); assert(ucols(u, r).contains_key(u[i].1)); } } else { let _k = (u[i], u[j]); }
        }
    }
    assert forall|j: int| 0 <= j < n + 1 && j < ids.len() && (#[trigger] ids[j]).binary() implies one_coef(t, ids[j], net, s, dt) by {
        if j < n { assert(one_coef(u, ids[j], net, s, dt)); assert(ids[j].row_id != r); assert(ucols(t, ids[j].row_id) == ucols(u, ids[j].row_id)); }
        else { assert(ucols(t, r) == ucols(u, r).insert(ids[n].bin(), x)); }
    }
    assert forall|q: usize| !bin_row(ids, q, n + 1) implies #[trigger] ucols(t, q) == Map::<usize, R>::empty() by {
        if q == r { assert(ids[n].binary()); assert(bin_row(ids, q, n + 1)); }
        if bin_row(ids, q, n) { let j = choose|j: int| 0 <= j < n && j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == q; assert(ids[j].binary()); assert(bin_row(ids, q, n + 1)); }
        assert(ucols(t, q) == ucols(u, q));
    }
}
pub proof fn no_more(u: Upd, ids: Seq<NodeRowId>, net: &Network, s: &State, dt: real, n: int)
    requires 0 <= n < ids.len(), !ids[n].binary(), ids_coefs(u, ids, net, s, dt, n), only_bins(u, ids, n)
    ensures ids_coefs(u, ids, net, s, dt, n + 1), only_bins(u, ids, n + 1)
{
    assert forall|q: usize| !bin_row(ids, q, n + 1) implies #[trigger] ucols(u, q) == Map::<usize, R>::empty() by {
        if bin_row(ids, q, n) { let j = choose|j: int| 0 <= j < n && j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == q; assert(ids[j].binary()); assert(bin_row(ids, q, n + 1)); }
    }
}
pub proof fn ids_hold_step(ids: Seq<NodeRowId>, net: &Network, s: &State, dt: real, mn: R, mx: R, n: int)
    requires 0 <= n < ids.len()
    ensures forall|v: Flows| #[trigger] ids_hold(ids, net, s, dt, mn, mx, v, n + 1) <==> ids_hold(ids, net, s, dt, mn, mx, v, n) && id_holds(ids[n], net, s, dt, mn, mx, v)
{
    assert forall|v: Flows| #[trigger] ids_hold(ids, net, s, dt, mn, mx, v, n + 1) <==> ids_hold(ids, net, s, dt, mn, mx, v, n) && id_holds(ids[n], net, s, dt, mn, mx, v) by {
        if ids_hold(ids, net, s, dt, mn, mx, v, n + 1) { assert forall|j: int| 0 <= j < n && j < ids.len() implies id_holds(#[trigger] ids[j], net, s, dt, mn, mx, v) by {} }
    }
}

// ---- aggregated nodes and virtual storage
pub open spec fn agg_holds(a: &AggregatedNode, net: &Network, s: &State, q: real, mn: R, mx: R) -> bool { bounded(q, a.flow_constraints.min(net, s), a.flow_constraints.max(net, s), mn, mx) }
pub open spec fn aggs_hold(ids: Seq<usize>, net: &Network, s: &State, mn: R, mx: R, v: Flows, n: int) -> bool { forall|k: int| 0 <= k < n && k < ids.len() && k < net.aggregated_nodes@.len() ==> agg_holds(&#[trigger] net.aggregated_nodes@[k], net, s, v(ids[k] as int), mn, mx) }
pub open spec fn aggs_have(net: &Network, s: &State) -> bool { forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> (#[trigger] net.aggregated_nodes@[k]).flow_constraints.has_min(net, s) && net.aggregated_nodes@[k].flow_constraints.has_max(net, s) }
impl VirtualStorageNode {
    pub open spec fn has_room(&self, s: &State) -> bool { self.storage_constraints.has_min(s) && self.storage_constraints.has_max(s) && s.network.ns().has_vs(self.vi()) }
    /// what can be taken out and put in
    pub open spec fn avail(&self, s: &State) -> real { rmax(s.network.ns().vs(self.vi()).s.v - self.storage_constraints.min(s), 0real) }
    pub open spec fn missing(&self, s: &State) -> real { rmax(self.mx(s) - s.network.ns().vs(self.vi()).s.v, 0real) }
}
pub open spec fn vs_holds(a: &VirtualStorageNode, t: &Timestep, s: &State, q: real, mn: R, mx: R) -> bool { a.active(t) ==> bounded(q, -a.avail(s) / t.dy(), a.missing(s) / t.dy(), mn, mx) }
pub open spec fn vss_hold(ids: Seq<usize>, net: &Network, t: &Timestep, s: &State, mn: R, mx: R, v: Flows, n: int) -> bool { forall|k: int| 0 <= k < n && k < ids.len() && k < net.virtual_storage_nodes@.len() ==> vs_holds(&#[trigger] net.virtual_storage_nodes@[k], t, s, v(ids[k] as int), mn, mx) }
pub open spec fn vss_have(net: &Network, t: &Timestep, s: &State) -> bool { forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() && (#[trigger] net.virtual_storage_nodes@[k]).active(t) ==> net.virtual_storage_nodes@[k].has_room(s) }
pub open spec fn rows_settable(ids: Seq<usize>, lp: Lp) -> bool { forall|k: int| 0 <= k < ids.len() ==> lp.settable(#[trigger] ids[k] as int) }
pub proof fn aggs_hold_step(ids: Seq<usize>, net: &Network, s: &State, mn: R, mx: R, n: int)
    requires 0 <= n < ids.len(), n < net.aggregated_nodes@.len()
    ensures forall|v: Flows| #[trigger] aggs_hold(ids, net, s, mn, mx, v, n + 1) <==> aggs_hold(ids, net, s, mn, mx, v, n) && agg_holds(&net.aggregated_nodes@[n], net, s, v(ids[n] as int), mn, mx)
{
    assert forall|v: Flows| #[trigger] aggs_hold(ids, net, s, mn, mx, v, n + 1) <==> aggs_hold(ids, net, s, mn, mx, v, n) && agg_holds(&net.aggregated_nodes@[n], net, s, v(ids[n] as int), mn, mx) by {
        if aggs_hold(ids, net, s, mn, mx, v, n + 1) { assert forall|k: int| 0 <= k < n && k < ids.len() && k < net.aggregated_nodes@.len() implies agg_holds(&#[trigger] net.aggregated_nodes@[k], net, s, v(ids[k] as int), mn, mx) by {} let _k = net.aggregated_nodes@[n]; }
    }
}
pub proof fn vss_hold_step(ids: Seq<usize>, net: &Network, t: &Timestep, s: &State, mn: R, mx: R, n: int)
    requires 0 <= n < ids.len(), n < net.virtual_storage_nodes@.len()
    ensures forall|v: Flows| #[trigger] vss_hold(ids, net, t, s, mn, mx, v, n + 1) <==> vss_hold(ids, net, t, s, mn, mx, v, n) && vs_holds(&net.virtual_storage_nodes@[n], t, s, v(ids[n] as int), mn, mx)
{
    assert forall|v: Flows| #[trigger] vss_hold(ids, net, t, s, mn, mx, v, n + 1) <==> vss_hold(ids, net, t, s, mn, mx, v, n) && vs_holds(&net.virtual_storage_nodes@[n], t, s, v(ids[n] as int), mn, mx) by {
        if vss_hold(ids, net, t, s, mn, mx, v, n + 1) { assert forall|k: int| 0 <= k < n && k < ids.len() && k < net.virtual_storage_nodes@.len() implies vs_holds(&#[trigger] net.virtual_storage_nodes@[k], t, s, v(ids[k] as int), mn, mx) by {} let _k = net.virtual_storage_nodes@[n]; }
    }
}

// ---- the objective
pub open spec fn objsum(o: Seq<R>, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { objsum(o, x, n - 1) + o[n - 1]@ * x(n - 1) } }
pub open spec fn edge_cost(net: &Network, s: &State, e: Edge) -> real { net.node(e.from_node_index).out_cost(net, s) + net.node(e.to_node_index).in_cost(net, s) }
pub open spec fn has_cost(net: &Network, s: &State, e: Edge) -> bool { net.node(e.from_node_index).nc().has(net, s) && net.node(e.to_node_index).nc().has(net, s) }
/// the cost of the flows through the first n edges
pub open spec fn cost_of(net: &Network, s: &State, col: Cols, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { cost_of(net, s, col, x, n - 1) + edge_cost(net, s, net.edges@[n - 1]) * x(col[net.edges@[n - 1].index] as int) } }
pub proof fn objsum_add(a: Seq<R>, b: Seq<R>, c: int, w: real, x: Flows, n: int)
    requires 0 <= c < a.len(), b.len() == a.len(), n <= a.len(), b[c]@ == a[c]@ + w, forall|i: int| 0 <= i < a.len() && i != c ==> #[trigger] b[i] == a[i]
    ensures objsum(b, x, n) == objsum(a, x, n) + (if c < n { w * x(c) } else { 0real })
    decreases n
{
    if n > 0 {
        objsum_add(a, b, c, w, x, n - 1);
        if c == n - 1 { let (p, q, y) = (a[c]@, w, x(c)); assert((p + q) * y == p * y + q * y) by (nonlinear_arith); } else { let _k = b[n - 1]; }
    }
}
pub proof fn objsum_zero(a: Seq<R>, x: Flows, n: int)
    requires n <= a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == 0real
    ensures objsum(a, x, n) == 0real
    decreases n
{ if n > 0 { objsum_zero(a, x, n - 1); let y = x(n - 1); let _k = a[n - 1]; assert(0real * y == 0real) by (nonlinear_arith); } }

// ---- factors
impl AggregatedNode { pub open spec fn spair(&self, net: &Network, s: &State, k: int) -> FP { self.factors()->Some_0.pairs(self.nodes@, net, s)[k] } }
/// equation k of the node of f
pub open spec fn fac(f: AggNodeFactorRow, net: &Network, s: &State, k: int) -> FP { net.agg(f.agg_node_idx).spair(net, s, k) }
pub open spec fn fdone(j: int, k: int, n: int, m: int) -> bool { j < n || j == n && k < m }
/// row r has the coefficients of an equation
pub open spec fn fcoef(u: Upd, r: usize, e: FP, net: &Network, col: Cols) -> bool { (forall|x: Flows| #[trigger] ulin(u, r, x) == fp_flow(e, net, col, x)) && forall|q: usize| #[trigger] ucols(u, r).contains_key(q) <==> pair_uses(e, net, col, q) }
pub open spec fn facs_coefs(u: Upd, ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, col: Cols, n: int, m: int) -> bool {
    forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] is Some ==> fcoef(u, ids[j].row_indices@[k]->Some_0, fac(ids[j], net, s, k), net, col)
}
pub open spec fn facs_hold(ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, mn: R, mx: R, v: Flows, n: int, m: int) -> bool {
    forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] is Some ==> bounded(v(ids[j].row_indices@[k]->Some_0 as int), fac(ids[j], net, s, k).rhs, fac(ids[j], net, s, k).rhs, mn, mx)
}
pub open spec fn frow(ids: Seq<AggNodeFactorRow>, r: usize, n: int, m: int) -> bool {
    exists|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] == Some(r)
}
pub open spec fn others_same(u0: Upd, u: Upd, ids: Seq<AggNodeFactorRow>, n: int, m: int) -> bool { forall|r: usize| !frow(ids, r, n, m) ==> #[trigger] ucols(u, r) == ucols(u0, r) }
/// the node of a factor row has as many equations
pub open spec fn frow_ok(f: AggNodeFactorRow, net: &Network, lp: Lp) -> bool {
    let a = net.agg(f.agg_node_idx);
    &&& f.agg_node_idx.0 < net.aggregated_nodes@.len() && a.factors() is Some && a.known(net) && a.nodes@.len() > 0
    &&& f.row_indices@.len() == (if a.factors()->Some_0 is Coefficients { 1 } else { a.nodes@.len() - 1 })
    &&& later_rows(f.row_indices@)
    &&& forall|k: int| 0 <= k < f.row_indices@.len() && #[trigger] f.row_indices@[k] is Some ==> lp.settable(f.row_indices@[k]->Some_0 as int)
}
pub open spec fn facs_ok(ids: Seq<AggNodeFactorRow>, net: &Network, lp: Lp) -> bool { later_nodes(ids) && forall|j: int| 0 <= j < ids.len() ==> frow_ok(#[trigger] ids[j], net, lp) }
pub open spec fn facs_nonzero(ids: Seq<AggNodeFactorRow>, net: &Network, s: &State) -> bool { forall|j: int| 0 <= j < ids.len() ==> net.agg((#[trigger] ids[j]).agg_node_idx).factors()->Some_0.nonzero(net, s) }
pub open spec fn facs_accepted(ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, n: int) -> bool { forall|j: int| 0 <= j < n && j < ids.len() ==> net.agg((#[trigger] ids[j]).agg_node_idx).factors()->Some_0.accepted(net.agg(ids[j].agg_node_idx).nodes@.len(), net, s) }
/// rows of factors have no other new coefficients
pub open spec fn facs_free(u: Upd, ids: Seq<AggNodeFactorRow>) -> bool {
    forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && #[trigger] ids[j].row_indices@[k] is Some ==> ucols(u, ids[j].row_indices@[k]->Some_0) == Map::<usize, R>::empty()
}
/// the groups of an equation
pub proof fn spair_groups(a: &AggregatedNode, net: &Network, s: &State, k: int)
    requires a.factors() is Some, a.factors()->Some_0.accepted(a.nodes@.len(), net, s), a.nodes@.len() > 0, 0 <= k < a.factors()->Some_0.pairs(a.nodes@, net, s).len()
    ensures k + 1 < a.nodes@.len(), a.spair(net, s, k).a == a.nodes@[0]@, a.spair(net, s, k).b == a.nodes@[k + 1]@
{}
pub proof fn frow_apart(ids: Seq<AggNodeFactorRow>, n: int, m: int)
    requires later_nodes(ids), 0 <= n < ids.len(), 0 <= m < ids[n].row_indices@.len(), later_rows(ids[n].row_indices@), ids[n].row_indices@[m] is Some
    ensures !frow(ids, ids[n].row_indices@[m]->Some_0, n, m)
{
    let r = ids[n].row_indices@[m]->Some_0;
    if frow(ids, r, n, m) {
        let (j, k) = choose|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] == Some(r);
        let (a, b) = (ids[j].row_indices@[k], ids[n].row_indices@[m]);
        if j < n { assert(a->Some_0 < b->Some_0); } else { assert(ids[n].row_indices@[k]->Some_0 < b->Some_0); }
    }
}
/// equation m of node n has its row
pub proof fn fac_step(u0: Upd, u1: Upd, u2: Upd, ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, col: Cols, n: int, m: int)
    requires
        later_nodes(ids), 0 <= n < ids.len(), 0 <= m < ids[n].row_indices@.len(), later_rows(ids[n].row_indices@),
        facs_coefs(u1, ids, net, s, col, n, m), others_same(u0, u1, ids, n, m),
        match ids[n].row_indices@[m] { None => u2 == u1, Some(r) => fcoef(u2, r, fac(ids[n], net, s, m), net, col) && forall|q: usize| q != r ==> #[trigger] ucols(u2, q) == ucols(u1, q) },
    ensures facs_coefs(u2, ids, net, s, col, n, m + 1), others_same(u0, u2, ids, n, m + 1)
{
    if ids[n].row_indices@[m] is Some { frow_apart(ids, n, m); }
    assert forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m + 1) && #[trigger] ids[j].row_indices@[k] is Some implies fcoef(u2, ids[j].row_indices@[k]->Some_0, fac(ids[j], net, s, k), net, col) by {
        if fdone(j, k, n, m) {
            let q = ids[j].row_indices@[k]->Some_0; let e = fac(ids[j], net, s, k);
            assert(fcoef(u1, q, e, net, col));
            assert(ids[j].row_indices@[k] == Some(q)); assert(frow(ids, q, n, m));
            assert(ucols(u2, q) == ucols(u1, q));
            assert forall|x: Flows| #[trigger] ulin(u2, q, x) == fp_flow(e, net, col, x) by { let _k = ulin(u1, q, x); }
            assert forall|c: usize| #[trigger] ucols(u2, q).contains_key(c) <==> pair_uses(e, net, col, c) by { let _k = ucols(u1, q).contains_key(c); }
        }
    }
    assert forall|q: usize| !frow(ids, q, n, m + 1) implies #[trigger] ucols(u2, q) == ucols(u0, q) by {
        if frow(ids, q, n, m) { let (j, k) = choose|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] == Some(q); assert(ids[j].row_indices@[k] == Some(q)); assert(fdone(j, k, n, m + 1)); assert(frow(ids, q, n, m + 1)); }
        if ids[n].row_indices@[m] == Some(q) { assert(fdone(n, m, n, m + 1)); assert(frow(ids, q, n, m + 1)); }
        assert(ucols(u1, q) == ucols(u0, q)); assert(ucols(u2, q) == ucols(u1, q));
    }
}
pub proof fn fac_next(u0: Upd, u: Upd, ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, col: Cols, n: int)
    requires 0 <= n < ids.len(), facs_coefs(u, ids, net, s, col, n, ids[n].row_indices@.len() as int), others_same(u0, u, ids, n, ids[n].row_indices@.len() as int)
    ensures facs_coefs(u, ids, net, s, col, n + 1, 0), others_same(u0, u, ids, n + 1, 0)
{
    let m = ids[n].row_indices@.len() as int;
    assert forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n + 1, 0) && #[trigger] ids[j].row_indices@[k] is Some implies fcoef(u, ids[j].row_indices@[k]->Some_0, fac(ids[j], net, s, k), net, col) by { assert(fdone(j, k, n, m)); }
    assert forall|q: usize| !frow(ids, q, n + 1, 0) implies #[trigger] ucols(u, q) == ucols(u0, q) by {
        if frow(ids, q, n, m) { let (j, k) = choose|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] == Some(q); assert(fdone(j, k, n + 1, 0)); assert(frow(ids, q, n + 1, 0)); }
    }
}
pub proof fn fac_hold_step(ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, mn: R, mx: R, n: int, m: int)
    requires 0 <= n < ids.len(), 0 <= m < ids[n].row_indices@.len()
    ensures forall|v: Flows| #[trigger] facs_hold(ids, net, s, mn, mx, v, n, m + 1) <==> facs_hold(ids, net, s, mn, mx, v, n, m) && (ids[n].row_indices@[m] is Some ==> bounded(v(ids[n].row_indices@[m]->Some_0 as int), fac(ids[n], net, s, m).rhs, fac(ids[n], net, s, m).rhs, mn, mx))
{
    assert forall|v: Flows| #[trigger] facs_hold(ids, net, s, mn, mx, v, n, m + 1) <==> facs_hold(ids, net, s, mn, mx, v, n, m) && (ids[n].row_indices@[m] is Some ==> bounded(v(ids[n].row_indices@[m]->Some_0 as int), fac(ids[n], net, s, m).rhs, fac(ids[n], net, s, m).rhs, mn, mx)) by {
        if facs_hold(ids, net, s, mn, mx, v, n, m + 1) {
            assert(fdone(n, m, n, m + 1)); let _k = ids[n].row_indices@[m] is Some;
            assert forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] is Some implies bounded(v(ids[j].row_indices@[k]->Some_0 as int), fac(ids[j], net, s, k).rhs, fac(ids[j], net, s, k).rhs, mn, mx) by { assert(fdone(j, k, n, m + 1)); }
        }
    }
}
pub proof fn fac_hold_next(ids: Seq<AggNodeFactorRow>, net: &Network, s: &State, mn: R, mx: R, n: int)
    requires 0 <= n < ids.len()
    ensures forall|v: Flows| #[trigger] facs_hold(ids, net, s, mn, mx, v, n + 1, 0) <==> facs_hold(ids, net, s, mn, mx, v, n, ids[n].row_indices@.len() as int)
{
    let m = ids[n].row_indices@.len() as int;
    assert forall|v: Flows| #[trigger] facs_hold(ids, net, s, mn, mx, v, n + 1, 0) <==> facs_hold(ids, net, s, mn, mx, v, n, m) by {
        assert forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() implies fdone(j, k, n + 1, 0) == #[trigger] fdone(j, k, n, m) by {}
        if facs_hold(ids, net, s, mn, mx, v, n + 1, 0) { assert forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n, m) && #[trigger] ids[j].row_indices@[k] is Some implies bounded(v(ids[j].row_indices@[k]->Some_0 as int), fac(ids[j], net, s, k).rhs, fac(ids[j], net, s, k).rhs, mn, mx) by {} }
        if facs_hold(ids, net, s, mn, mx, v, n, m) { assert forall|j: int, k: int| 0 <= j < ids.len() && 0 <= k < ids[j].row_indices@.len() && fdone(j, k, n + 1, 0) && #[trigger] ids[j].row_indices@[k] is Some implies bounded(v(ids[j].row_indices@[k]->Some_0 as int), fac(ids[j], net, s, k).rhs, fac(ids[j], net, s, k).rhs, mn, mx) by { assert(fdone(j, k, n, m)); } }
    }
}

// ---- the new coefficients put into the matrix
pub open spec fn in_row(s: SP, r: int, c: usize) -> bool { exists|k: int| s.st[r] <= k < s.st[r + 1] && #[trigger] s.cs[k] == c }
/// each new coefficient has a place
pub open spec fn placed(u: Upd, s: SP) -> bool { forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).0 < s.n() && in_row(s, u[i].0 as int, u[i].1) }
#[verifier::opaque] pub open spec fn changed(a: SP, b: SP, u: Upd) -> bool {
    &&& b == (SP { es: b.es, ..a }) && b.es.len() == a.es.len()
    &&& forall|i: int, m: Map<usize, R>| 0 <= i < a.n() && #[trigger] a.entries(i, m) ==> b.entries(i, m.union_prefer_right(ucols(u, i as usize)))
}
pub proof fn span_update(cs: Seq<usize>, es: Seq<R>, k: int, v: R, x: Flows, a: int, b: int)
    requires 0 <= a, b <= cs.len(), cs.len() == es.len(), 0 <= k < es.len()
    ensures span(cs, es.update(k, v), x, a, b) == span(cs, es, x, a, b) + (if a <= k < b { (v@ - es[k]@) * x(cs[k] as int) } else { 0real })
    decreases b - a
{
    if b > a {
        span_update(cs, es, k, v, x, a, b - 1);
        if k == b - 1 { let (p, q, y) = (v@, es[k]@, x(cs[k] as int)); assert((p - q) * y == p * y - q * y) by (nonlinear_arith); }
    }
}
pub proof fn changed_none(a: SP)
    ensures changed(a, a, Seq::<(usize, usize, R)>::empty())
{
    reveal(changed);
    assert forall|i: int, m: Map<usize, R>| 0 <= i < a.n() && #[trigger] a.entries(i, m) implies a.entries(i, m.union_prefer_right(ucols(Seq::<(usize, usize, R)>::empty(), i as usize))) by { assert(m.union_prefer_right(Map::<usize, R>::empty()) =~= m); }
}
pub proof fn changed_step(a: SP, b: SP, u: Upd, n: int, k: int)
    requires
        a.wf(), a.n() <= usize::MAX, 0 <= n < u.len(), changed(a, b, u.take(n)), u[n].0 < a.n(), a.st[u[n].0 as int] <= k < a.st[u[n].0 + 1], a.cs[k] == u[n].1,
    ensures changed(a, SP { es: b.es.update(k, u[n].2), ..b }, u.take(n + 1))
{
    reveal(changed);
    let t = SP { es: b.es.update(k, u[n].2), ..b }; let (r, c, v) = u[n];
    assert(u.take(n + 1).drop_last() =~= u.take(n));
    assert(a.st[r as int] <= a.st[r + 1] && a.st[r + 1] <= a.st[a.n()]);
    assert forall|i: int, m: Map<usize, R>| 0 <= i < a.n() && #[trigger] a.entries(i, m) implies t.entries(i, m.union_prefer_right(ucols(u.take(n + 1), i as usize))) by {
        let m1 = m.union_prefer_right(ucols(u.take(n), i as usize)); let m2 = m.union_prefer_right(ucols(u.take(n + 1), i as usize));
        assert(b.entries(i, m1));
        assert(a.st[i] <= a.st[i + 1] && a.st[i + 1] <= a.st[a.n()]);
        if i == r {
            assert(m2 =~= m1.insert(c, v));
            assert(m1.contains_key(b.cs[k]) && b.es[k] == m1[c]);
            assert forall|x: Flows| #[trigger] t.row(i, x) == lin(m2, x) by { let _k = b.row(i, x); lin_insert(m1, c, v, x); span_update(b.cs, b.es, k, v, x, b.st[i] as int, b.st[i + 1] as int); }
            assert forall|d: usize| #[trigger] m2.contains_key(d) implies exists|l: int| t.st[i] <= l < t.st[i + 1] && #[trigger] t.cs[l] == d by { assert(m1.contains_key(d) || d == c); if d == c { assert(t.cs[k] == c); } else { let l = choose|l: int| b.st[i] <= l < b.st[i + 1] && #[trigger] b.cs[l] == d; assert(t.cs[l] == d); } }
            assert forall|l: int| t.st[i] <= l < t.st[i + 1] implies m2.contains_key(#[trigger] t.cs[l]) && t.es[l] == m2[t.cs[l]] by { assert(m1.contains_key(b.cs[l])); if l < k { assert(b.cs[l] < b.cs[k]); } else if l > k { assert(b.cs[k] < b.cs[l]); } }
            assert forall|l: int, o: int| t.st[i] <= l < o < t.st[i + 1] implies (#[trigger] t.cs[l]) < (#[trigger] t.cs[o]) by { assert(b.cs[l] < b.cs[o]); }
        } else {
            assert(m2 == m1);
            assert(!(a.st[i] <= k < a.st[i + 1])) by { if i < r { assert(a.st[i + 1] <= a.st[r as int]); } else { assert(a.st[r + 1] <= a.st[i]); } }
            assert forall|x: Flows| #[trigger] t.row(i, x) == lin(m2, x) by { let _k = b.row(i, x); span_update(b.cs, b.es, k, v, x, b.st[i] as int, b.st[i + 1] as int); }
            assert forall|d: usize| #[trigger] m2.contains_key(d) implies exists|l: int| t.st[i] <= l < t.st[i + 1] && #[trigger] t.cs[l] == d by { let l = choose|l: int| b.st[i] <= l < b.st[i + 1] && #[trigger] b.cs[l] == d; assert(t.cs[l] == d); }
            assert forall|l: int| t.st[i] <= l < t.st[i + 1] implies m2.contains_key(#[trigger] t.cs[l]) && t.es[l] == m2[t.cs[l]] by { assert(m1.contains_key(b.cs[l])); }
            assert forall|l: int, o: int| t.st[i] <= l < o < t.st[i + 1] implies (#[trigger] t.cs[l]) < (#[trigger] t.cs[o]) by { assert(b.cs[l] < b.cs[o]); }
        }
    }
}

// ---- the whole step
/// what a step needs of the built solver
pub open spec fn step_ok(b: BuiltSolver, net: &Network, s: &State) -> bool {
    &&& b.builder.wf() && cols_below(b.col(), b.builder.col_obj_coef@.len() as int) && forall|k: int| 0 <= k < net.edges@.len() ==> #[trigger] edge_ok(net, k)
    &&& ids_ok(b.node_constraints_row_ids@, net, b.builder) && own_rows(b.node_constraints_row_ids@)
    &&& facs_ok(b.agg_node_factor_constraint_row_ids@, net, b.builder) && facs_nonzero(b.agg_node_factor_constraint_row_ids@, net, s) && bins_apart(b.node_constraints_row_ids@, b.agg_node_factor_constraint_row_ids@)
    &&& rows_settable(b.agg_node_constraint_row_ids@, b.builder) && b.agg_node_constraint_row_ids@.len() == net.aggregated_nodes@.len()
    &&& rows_settable(b.virtual_storage_constraint_row_ids@, b.builder) && b.virtual_storage_constraint_row_ids@.len() == net.virtual_storage_nodes@.len()
}
/// rows with a binary column are not rows of factors
pub open spec fn bins_apart(ids: Seq<NodeRowId>, fs: Seq<AggNodeFactorRow>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i < ids.len() && (#[trigger] ids[i]).binary() && 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && #[trigger] fs[j].row_indices@[k] is Some ==> ids[i].row_id != fs[j].row_indices@[k]->Some_0
}
pub open spec fn can_step(b: BuiltSolver, net: &Network, t: &Timestep, s: &State) -> bool {
    &&& forall|k: int| 0 <= k < net.edges@.len() ==> has_cost(net, s, #[trigger] net.edges@[k])
    &&& ids_known(b.node_constraints_row_ids@, net, s) && facs_accepted(b.agg_node_factor_constraint_row_ids@, net, s, b.agg_node_factor_constraint_row_ids@.len() as int) && aggs_have(net, s) && vss_have(net, t, s)
}
/// all bounds of a step hold for the values v of the rows
pub open spec fn bounds_of_step(b: BuiltSolver, net: &Network, t: &Timestep, s: &State, v: Flows) -> bool {
    let (mn, mx) = (b.builder.f64_neg_max, b.builder.f64_max);
    &&& ids_hold(b.node_constraints_row_ids@, net, s, t.dy(), mn, mx, v, b.node_constraints_row_ids@.len() as int)
    &&& facs_hold(b.agg_node_factor_constraint_row_ids@, net, s, mn, mx, v, b.agg_node_factor_constraint_row_ids@.len() as int, 0)
    &&& aggs_hold(b.agg_node_constraint_row_ids@, net, s, mn, mx, v, b.agg_node_constraint_row_ids@.len() as int)
    &&& vss_hold(b.virtual_storage_constraint_row_ids@, net, t, s, mn, mx, v, b.virtual_storage_constraint_row_ids@.len() as int)
}
/// the new coefficients of a step
pub open spec fn coefs_of_step(b: BuiltSolver, net: &Network, t: &Timestep, s: &State) -> bool {
    let u = b.builder.coefficients_to_update@; let ids = b.node_constraints_row_ids@; let fs = b.agg_node_factor_constraint_row_ids@;
    &&& ids_coefs(u, ids, net, s, t.dy(), ids.len() as int) && facs_coefs(u, fs, net, s, b.col(), fs.len() as int, 0)
    &&& forall|r: usize| !bin_row(ids, r, ids.len() as int) && !frow(fs, r, fs.len() as int, 0) ==> #[trigger] ucols(u, r) == Map::<usize, R>::empty()
}
/// the bounds, coefficients and costs are those of the step
pub open spec fn stepped(b: BuiltSolver, net: &Network, t: &Timestep, s: &State) -> bool {
    &&& forall|v: Flows| #[trigger] b.builder.bounds_hold(v) <==> bounds_of_step(b, net, t, s, v)
    &&& once(b.builder.coefficients_to_update@) && coefs_of_step(b, net, t, s)
    &&& forall|x: Flows| #[trigger] objsum(b.builder.col_obj_coef@, x, b.builder.col_obj_coef@.len() as int) == cost_of(net, s, b.col(), x, net.edges@.len() as int)
}
/// rows of factors have no coefficients yet
pub proof fn bins_free(u: Upd, ids: Seq<NodeRowId>, fs: Seq<AggNodeFactorRow>)
    requires bins_apart(ids, fs), only_bins(u, ids, ids.len() as int)
    ensures facs_free(u, fs)
{
    assert forall|j: int, k: int| 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && #[trigger] fs[j].row_indices@[k] is Some implies ucols(u, fs[j].row_indices@[k]->Some_0) == Map::<usize, R>::empty() by {
        let r = fs[j].row_indices@[k]->Some_0;
        if bin_row(ids, r, ids.len() as int) { let i = choose|i: int| 0 <= i < ids.len() && (#[trigger] ids[i]).binary() && ids[i].row_id == r; assert(ids[i].row_id != r); }
    }
}
/// the coefficients of the binary columns stay when those of the factors are added
pub proof fn coefs_join(u0: Upd, u: Upd, ids: Seq<NodeRowId>, fs: Seq<AggNodeFactorRow>, net: &Network, s: &State, dt: real)
    requires bins_apart(ids, fs), ids_coefs(u0, ids, net, s, dt, ids.len() as int), only_bins(u0, ids, ids.len() as int), others_same(u0, u, fs, fs.len() as int, 0)
    ensures ids_coefs(u, ids, net, s, dt, ids.len() as int), forall|r: usize| !bin_row(ids, r, ids.len() as int) && !frow(fs, r, fs.len() as int, 0) ==> #[trigger] ucols(u, r) == Map::<usize, R>::empty()
{
    let n = fs.len() as int;
    assert forall|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).binary() implies one_coef(u, ids[j], net, s, dt) by {
        let r = ids[j].row_id; assert(one_coef(u0, ids[j], net, s, dt));
        if frow(fs, r, n, 0) { let (i, k) = choose|i: int, k: int| 0 <= i < fs.len() && 0 <= k < fs[i].row_indices@.len() && fdone(i, k, n, 0) && #[trigger] fs[i].row_indices@[k] == Some(r); assert(ids[j].row_id != fs[i].row_indices@[k]->Some_0); }
        assert(ucols(u, r) == ucols(u0, r));
    }
    assert forall|r: usize| !bin_row(ids, r, ids.len() as int) && !frow(fs, r, n, 0) implies #[trigger] ucols(u, r) == Map::<usize, R>::empty() by { assert(ucols(u, r) == ucols(u0, r)); }
}
