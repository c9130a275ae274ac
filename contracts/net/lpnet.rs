// The linear programme of a network (nothing here is code of pywr-next).
pub type Cols = Map<EdgeIndex, usize>;
/// the columns of the edges, from the map of a built solver
pub open spec fn smap(s: Seq<usize>) -> Cols decreases s.len() { if s.len() == 0 { Map::empty() } else { smap(s.drop_last()).insert(EdgeIndex((s.len() - 1) as usize), s.last()) } }
pub open spec fn mcol(m: ColumnEdgeMap) -> Cols { smap(m.edge_to_col@) }
pub proof fn smap_is(s: Seq<usize>, e: EdgeIndex)
    requires s.len() <= usize::MAX
    ensures smap(s).contains_key(e) <==> e.0 < s.len(), e.0 < s.len() ==> smap(s)[e] == s[e.0 as int]
    decreases s.len()
{ if s.len() > 0 { smap_is(s.drop_last(), e); let k = (s.len() - 1) as usize; if e.0 == k { assert(e == EdgeIndex(k)); } } }
pub broadcast proof fn mcol_is(m: ColumnEdgeMap, e: EdgeIndex)
    ensures #[trigger] mcol(m).contains_key(e) <==> e.0 < m.edge_to_col@.len(), e.0 < m.edge_to_col@.len() ==> mcol(m)[e] == m.edge_to_col@[e.0 as int]
{ assert(m.edge_to_col.len() == m.edge_to_col@.len()); smap_is(m.edge_to_col@, e); }
impl BuiltSolver { pub open spec fn col(&self) -> Cols { mcol(self.col_edge_map) } }
pub proof fn mcol_of(m: ColumnEdgeMap, col: Cols)
    requires forall|e: EdgeIndex| #[trigger] col.contains_key(e) <==> e.0 < m.edge_to_col@.len(), forall|e: EdgeIndex| #[trigger] col.contains_key(e) ==> m.edge_to_col@[e.0 as int] == col[e]
    ensures mcol(m) == col
{
    broadcast use mcol_is;
    assert forall|e: EdgeIndex| #[trigger] mcol(m).contains_key(e) == col.contains_key(e) && (col.contains_key(e) ==> mcol(m)[e] == col[e]) by { let _k = col.contains_key(e); }
    assert(mcol(m) =~= col);
}
/// the flow through the first n edges
pub open spec fn esum(es: Seq<EdgeIndex>, col: Cols, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { esum(es, col, x, n - 1) + x(col[es[n - 1]] as int) } }
pub open spec fn through(es: Seq<EdgeIndex>, col: Cols, x: Flows) -> real { esum(es, col, x, es.len() as int) }
impl Node {
    /// the flow of a node: what it supplies, takes, passes on, or stores
    pub open spec fn flow(&self, col: Cols, x: Flows) -> real {
        match self {
            Self::Output(_) => through(self.ins(), col, x),
            Self::Storage(_) => through(self.ins(), col, x) - through(self.outs(), col, x),
            _ => through(self.outs(), col, x),
        }
    }
}
/// whether c is a column of one of the first n edges
pub open spec fn ecol(es: Seq<EdgeIndex>, col: Cols, c: usize, n: int) -> bool { exists|k: int| 0 <= k < n && k < es.len() && #[trigger] col[es[k]] == c }
impl Node {
    /// whether the flow of a node depends on column c
    pub open spec fn uses(&self, col: Cols, c: usize) -> bool {
        match self {
            Self::Output(_) => ecol(self.ins(), col, c, self.ins().len() as int),
            Self::Storage(_) => ecol(self.ins(), col, c, self.ins().len() as int) || ecol(self.outs(), col, c, self.outs().len() as int),
            _ => ecol(self.outs(), col, c, self.outs().len() as int),
        }
    }
}
/// the sum of the flows of the first n nodes
pub open spec fn nsum(net: &Network, ns: Seq<NodeIndex>, col: Cols, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { nsum(net, ns, col, x, n - 1) + net.node(ns[n - 1]).flow(col, x) } }
pub open spec fn gflow(net: &Network, ns: Seq<NodeIndex>, col: Cols, x: Flows) -> real { nsum(net, ns, col, x, ns.len() as int) }
pub open spec fn gsum(net: &Network, gs: Seq<Vec<NodeIndex>>, col: Cols, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { gsum(net, gs, col, x, n - 1) + gflow(net, gs[n - 1]@, col, x) } }
impl AggregatedNode { pub open spec fn flow(&self, net: &Network, col: Cols, x: Flows) -> real { gsum(net, self.nodes@, col, x, self.nodes@.len() as int) } }

pub proof fn ecol_step(es: Seq<EdgeIndex>, col: Cols, n: int)
    requires 0 <= n < es.len()
    ensures forall|c: usize| #[trigger] ecol(es, col, c, n + 1) <==> ecol(es, col, c, n) || c == col[es[n]]
{
    assert forall|c: usize| #[trigger] ecol(es, col, c, n + 1) <==> ecol(es, col, c, n) || c == col[es[n]] by {
        if ecol(es, col, c, n + 1) { let k = choose|k: int| 0 <= k < n + 1 && k < es.len() && #[trigger] col[es[k]] == c; if k < n { assert(col[es[k]] == c); } }
        if ecol(es, col, c, n) { let k = choose|k: int| 0 <= k < n && k < es.len() && #[trigger] col[es[k]] == c; assert(col[es[k]] == c); }
        if c == col[es[n]] { assert(col[es[n]] == c); }
    }
}

// ---- rows
impl VirtualStorageNode {
    /// what the first n nodes take out of the storage
    pub open spec fn taken(&self, net: &Network, col: Cols, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { self.taken(net, col, x, n - 1) + self.factors@[n - 1]@ * net.node(self.nodes@[n - 1]).flow(col, x) } }
    /// the change of the volume
    pub open spec fn change(&self, net: &Network, col: Cols, x: Flows) -> real { -self.taken(net, col, x, self.npairs()) }
    pub open spec fn known(&self, net: &Network) -> bool { forall|k: int| 0 <= k < self.npairs() ==> net.has_node(#[trigger] self.nodes@[k]) && finiteq(self.factors@[k]) }
}
pub open spec fn vss_known(net: &Network) -> bool { forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() ==> (#[trigger] net.virtual_storage_nodes@[k]).known(net) }
/// a row without bounds
pub open spec fn open_row(b: RowBuilder) -> bool { b.lower@ == 0real && b.upper is None }
/// a is the start of b
pub open spec fn starts(a: Seq<RowBuilder>, b: Seq<RowBuilder>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// only rows with bounds set later are new
pub open spec fn more_rows(a: LpBuilder, b: LpBuilder) -> bool { b.same_columns(a) && b.fixed_rows == a.fixed_rows && starts(a.rows@, b.rows@) }
/// row r of the builder is that of an aggregated node
pub open spec fn agg_row(b: LpBuilder, r: usize, a: &AggregatedNode, net: &Network, col: Cols) -> bool { r < b.rows@.len() && open_row(b.rows@[r as int]) && forall|x: Flows| #[trigger] b.rows@[r as int].at(x) == a.flow(net, col, x) }
pub open spec fn vs_row(b: LpBuilder, r: usize, v: &VirtualStorageNode, net: &Network, col: Cols) -> bool { r < b.rows@.len() && open_row(b.rows@[r as int]) && forall|x: Flows| #[trigger] b.rows@[r as int].at(x) == v.change(net, col, x) }

// ---- rows whose bounds do not change
/// x satisfies a row; mx stands for no upper bound
pub open spec fn within(v: real, lo: real, hi: real, mx: R) -> bool { lo <= v && (hi >= mx@ || v <= hi) }
pub open spec fn row_holds(b: RowBuilder, mx: R, x: Flows) -> bool { within(b.at(x), b.lower@, b.hi(mx), mx) }
pub open spec fn all_hold(rows: Seq<RowBuilder>, mx: R, x: Flows) -> bool { forall|i: int| 0 <= i < rows.len() ==> row_holds(#[trigger] rows[i], mx, x) }
pub proof fn all_hold_push(rows: Seq<RowBuilder>, b: RowBuilder, mx: R)
    ensures forall|x: Flows| #[trigger] all_hold(rows.push(b), mx, x) <==> all_hold(rows, mx, x) && row_holds(b, mx, x)
{
    assert forall|x: Flows| #[trigger] all_hold(rows.push(b), mx, x) <==> all_hold(rows, mx, x) && row_holds(b, mx, x) by {
        let t = rows.push(b);
        if all_hold(t, mx, x) {
            assert forall|i: int| 0 <= i < rows.len() implies row_holds(#[trigger] rows[i], mx, x) by { assert(t[i] == rows[i]); }
            assert(t[rows.len() as int] == b);
        }
        if all_hold(rows, mx, x) && row_holds(b, mx, x) { assert forall|i: int| 0 <= i < t.len() implies row_holds(#[trigger] t[i], mx, x) by { if i < rows.len() { assert(t[i] == rows[i]); } } }
    }
}
/// only rows with fixed bounds are new
pub open spec fn more_fixed(a: LpBuilder, b: LpBuilder) -> bool { b.same_columns(a) && b.rows == a.rows && starts(a.fixed_rows@, b.fixed_rows@) }
/// the number of active ones of the first n groups
pub open spec fn active(bins: Map<Seq<NodeIndex>, usize>, gs: Seq<Vec<NodeIndex>>, x: Flows, n: int) -> real decreases n { if n <= 0 { 0real } else { active(bins, gs, x, n - 1) + x(bins[gs[n - 1]@] as int) } }
pub open spec fn excl_holds(a: &AggregatedNode, bins: Map<Seq<NodeIndex>, usize>, x: Flows) -> bool {
    a.exclusivity() is Some ==> a.exclusivity()->Some_0.min_active as real <= active(bins, a.nodes@, x, a.nodes@.len() as int) <= a.exclusivity()->Some_0.max_active as real
}
pub open spec fn excls_hold(net: &Network, bins: Map<Seq<NodeIndex>, usize>, x: Flows, n: int) -> bool { forall|k: int| 0 <= k < n && k < net.aggregated_nodes@.len() ==> excl_holds(&#[trigger] net.aggregated_nodes@[k], bins, x) }
/// every group of an exclusive node has a column
pub open spec fn has_bins(net: &Network, bins: Map<Seq<NodeIndex>, usize>) -> bool {
    forall|k: int, g: int| 0 <= k < net.aggregated_nodes@.len() && net.aggregated_nodes@[k].exclusivity() is Some && 0 <= g < net.aggregated_nodes@[k].nodes@.len() ==> bins.contains_key((#[trigger] net.aggregated_nodes@[k].nodes@[g])@)
}

// ---- factors
pub open spec fn fp_flow(e: FP, net: &Network, col: Cols, x: Flows) -> real { e.fa * gflow(net, e.a, col, x) + e.fb * gflow(net, e.b, col, x) }
pub open spec fn fp_holds(e: FP, net: &Network, col: Cols, mx: R, x: Flows) -> bool { within(fp_flow(e, net, col, x), e.rhs, e.rhs, mx) }
impl AggregatedNode {
    pub open spec fn cpair(&self, c: PV, k: int) -> FP { self.factors()->Some_0.const_pairs(self.nodes@, c)[k] }
    pub open spec fn npair(&self, c: PV) -> int { if self.factors() is Some { self.factors()->Some_0.const_pairs(self.nodes@, c).len() as int } else { 0 } }
    /// the first n equations that are known at setup hold
    pub open spec fn known_hold(&self, net: &Network, c: PV, col: Cols, mx: R, x: Flows, n: int) -> bool {
        forall|k: int| 0 <= k < n && k < self.npair(c) && self.factors()->Some_0.const_known(k) ==> fp_holds(#[trigger] self.cpair(c, k), net, col, mx, x)
    }
    pub open spec fn factors_ok(&self, c: PV) -> bool { self.nodes@.len() > 0 && (self.factors() is Some ==> self.factors()->Some_0.const_nonzero(c)) }
}
pub open spec fn known_factors_hold(net: &Network, c: PV, col: Cols, mx: R, x: Flows, n: int) -> bool {
    forall|j: int| 0 <= j < n && j < net.aggregated_nodes@.len() ==> (#[trigger] net.aggregated_nodes@[j]).known_hold(net, c, col, mx, x, net.aggregated_nodes@[j].npair(c))
}
/// whether the flow of one of the first n nodes depends on column c
pub open spec fn guses(net: &Network, ns: Seq<NodeIndex>, col: Cols, c: usize, n: int) -> bool { exists|k: int| 0 <= k < n && k < ns.len() && #[trigger] net.node(ns[k]).uses(col, c) }
pub open spec fn pair_uses(e: FP, net: &Network, col: Cols, c: usize) -> bool { guses(net, e.a, col, c, e.a.len() as int) || guses(net, e.b, col, c, e.b.len() as int) }
pub proof fn guses_step(net: &Network, ns: Seq<NodeIndex>, col: Cols, n: int)
    requires 0 <= n < ns.len()
    ensures forall|c: usize| #[trigger] guses(net, ns, col, c, n + 1) <==> guses(net, ns, col, c, n) || net.node(ns[n]).uses(col, c)
{
    assert forall|c: usize| #[trigger] guses(net, ns, col, c, n + 1) <==> guses(net, ns, col, c, n) || net.node(ns[n]).uses(col, c) by {
        if guses(net, ns, col, c, n + 1) { let k = choose|k: int| 0 <= k < n + 1 && k < ns.len() && #[trigger] net.node(ns[k]).uses(col, c); if k < n { assert(net.node(ns[k]).uses(col, c)); } }
        if guses(net, ns, col, c, n) { let k = choose|k: int| 0 <= k < n && k < ns.len() && #[trigger] net.node(ns[k]).uses(col, c); assert(net.node(ns[k]).uses(col, c)); }
        if net.node(ns[n]).uses(col, c) { assert(net.node(ns[n]).uses(col, c)); }
    }
}
/// the row of equation k, when it is not known at setup
pub open spec fn factor_row(b: LpBuilder, r: Option<usize>, a: &AggregatedNode, k: int, net: &Network, c: PV, col: Cols) -> bool {
    &&& r is None == a.factors()->Some_0.const_known(k)
    &&& r is Some ==> r->Some_0 < b.rows@.len() && b.rows@[r->Some_0 as int].upper is Some && forall|q: usize| #[trigger] b.rows@[r->Some_0 as int].columns@.contains_key(q) <==> pair_uses(a.cpair(c, k), net, col, q)
}
pub open spec fn factor_rows(b: LpBuilder, f: AggNodeFactorRow, net: &Network, c: PV, col: Cols) -> bool {
    let a = net.agg(f.agg_node_idx);
    &&& f.agg_node_idx.0 < net.aggregated_nodes@.len() && a.factors() is Some && f.row_indices@.len() == a.npair(c)
    &&& forall|k: int| 0 <= k < f.row_indices@.len() ==> factor_row(b, #[trigger] f.row_indices@[k], &a, k, net, c, col)
    &&& later_rows(f.row_indices@)
}
/// later equations have later rows
pub open spec fn later_rows(ri: Seq<Option<usize>>) -> bool { forall|k: int, l: int| 0 <= k < l < ri.len() && #[trigger] ri[k] is Some && #[trigger] ri[l] is Some ==> ri[k]->Some_0 < ri[l]->Some_0 }
pub open spec fn later_nodes(ids: Seq<AggNodeFactorRow>) -> bool {
    forall|i: int, j: int, k: int, l: int| 0 <= i < j < ids.len() && 0 <= k < ids[i].row_indices@.len() && 0 <= l < ids[j].row_indices@.len() && #[trigger] ids[i].row_indices@[k] is Some && #[trigger] ids[j].row_indices@[l] is Some ==> ids[i].row_indices@[k]->Some_0 < ids[j].row_indices@[l]->Some_0
}
/// rows added since keep what is known of a row
pub proof fn factor_rows_more(a: LpBuilder, b: LpBuilder, f: AggNodeFactorRow, net: &Network, c: PV, col: Cols)
    requires factor_rows(a, f, net, c, col), starts(a.rows@, b.rows@)
    ensures factor_rows(b, f, net, c, col)
{
    let g = net.agg(f.agg_node_idx);
    assert forall|k: int| 0 <= k < f.row_indices@.len() implies factor_row(b, #[trigger] f.row_indices@[k], &g, k, net, c, col) by { assert(factor_row(a, f.row_indices@[k], &g, k, net, c, col)); if f.row_indices@[k] is Some { let _r = b.rows@[f.row_indices@[k]->Some_0 as int]; } }
}
/// the groups of an equation
pub proof fn pair_groups(a: &AggregatedNode, c: PV, k: int)
    requires a.factors() is Some, a.factors()->Some_0.const_accepted(a.nodes@.len(), c), 0 <= k < a.npair(c), a.nodes@.len() > 0
    ensures k + 1 < a.nodes@.len(), a.cpair(c, k).a == a.nodes@[0]@, a.cpair(c, k).b == a.nodes@[k + 1]@
{}

// ---- nodes
pub type Bins = Map<NodeIndex, Seq<usize>>;
pub open spec fn const_val(m: Option<MetricF64>, c: PV, dflt: real) -> real { match m { None => dflt, Some(m) => m->Simple_0->Constant_0.val(c) } }
pub open spec fn BIG() -> real { 1000000real }
impl Node {
    /// whether the bounds may change over time
    pub open spec fn varying(&self) -> bool { self is Storage || self.fc().varies() }
    pub open spec fn cmin(&self, c: PV) -> real { const_val(self.fc().min_flow, c, 0real) }
    pub open spec fn cmax(&self, c: PV) -> real { const_val(self.fc().max_flow, c, f64_max()) }
    /// the constant bounds of a node hold, when the binary columns say whether it is active
    pub open spec fn const_holds(&self, c: PV, bins: Bins, col: Cols, mx: R, x: Flows) -> bool {
        if bins.contains_key(self.idx()) { forall|m: int| 0 <= m < bins[self.idx()].len() ==> bin_holds(self.flow(col, x), self.cmin(c), self.cmax(c), #[trigger] bins[self.idx()][m], mx, x) }
        else { within(self.flow(col, x), self.cmin(c), self.cmax(c), mx) }
    }
}
/// at most the maximum (limited) when active, none when not, and at least the minimum when active
pub open spec fn bin_holds(q: real, lo: real, hi: real, b: usize, mx: R, x: Flows) -> bool {
    &&& q <= rmin(hi, BIG()) * x(b as int)
    &&& lo != 0real ==> q >= rmax(lo, 1real / BIG()) * x(b as int)
}
pub open spec fn const_bounds_hold(net: &Network, c: PV, bins: Bins, col: Cols, mx: R, x: Flows, n: int) -> bool {
    forall|k: int| 0 <= k < n && k < net.nodes@.len() && !net.nodes@[k].varying() ==> (#[trigger] net.nodes@[k]).const_holds(c, bins, col, mx, x)
}
pub open spec fn bins_hold(node: &Node, c: PV, bs: Seq<usize>, col: Cols, mx: R, x: Flows, n: int) -> bool { forall|m: int| 0 <= m < n && m < bs.len() ==> bin_holds(node.flow(col, x), node.cmin(c), node.cmax(c), #[trigger] bs[m], mx, x) }
/// a row whose bounds or coefficients follow those of a node
pub open spec fn node_row(b: LpBuilder, i: NodeRowId, net: &Network, bins: Bins, col: Cols) -> bool {
    let node = net.node(i.node_idx);
    let row = b.rows@[i.row_id as int];
    &&& net.has_node(i.node_idx) && node.varying() && i.row_id < b.rows@.len() && open_row(row)
    &&& match i.row_type {
        NodeRowType::Continuous => !bins.contains_key(i.node_idx) && forall|x: Flows| #[trigger] row.at(x) == node.flow(col, x),
        NodeRowType::BinaryUpperBound { bin_col_id } => bins.contains_key(i.node_idx) && bins[i.node_idx].contains(bin_col_id) && row.columns@.contains_key(bin_col_id) && forall|x: Flows| #[trigger] row.at(x) == x(bin_col_id as int) - node.flow(col, x),
        NodeRowType::BinaryLowerBound { bin_col_id } => bins.contains_key(i.node_idx) && bins[i.node_idx].contains(bin_col_id) && row.columns@.contains_key(bin_col_id) && forall|x: Flows| #[trigger] row.at(x) == node.flow(col, x) - x(bin_col_id as int),
    }
}
pub open spec fn has_id(ids: Seq<NodeRowId>, k: NodeIndex, t: NodeRowType) -> bool { exists|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).node_idx == k && ids[j].row_type == t }
/// the rows of the first n of the binary columns of a node are there
pub open spec fn bin_rows(ids: Seq<NodeRowId>, k: NodeIndex, bs: Seq<usize>, n: int) -> bool {
    forall|m: int| 0 <= m < n && m < bs.len() ==> has_id(ids, k, NodeRowType::BinaryUpperBound { bin_col_id: #[trigger] bs[m] }) && has_id(ids, k, NodeRowType::BinaryLowerBound { bin_col_id: bs[m] })
}
pub open spec fn node_rows(ids: Seq<NodeRowId>, k: NodeIndex, bins: Bins) -> bool {
    if bins.contains_key(k) { bin_rows(ids, k, bins[k], bins[k].len() as int) } else { has_id(ids, k, NodeRowType::Continuous) }
}
/// binary columns are in rows of their own
pub open spec fn own_rows(ids: Seq<NodeRowId>) -> bool { forall|i: int, j: int| 0 <= i < j < ids.len() && !((#[trigger] ids[i]).row_type is Continuous) && !((#[trigger] ids[j]).row_type is Continuous) ==> ids[i].row_id != ids[j].row_id }
pub open spec fn starts_ids(a: Seq<NodeRowId>, b: Seq<NodeRowId>) -> bool { a.len() <= b.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] b[j] == a[j] }
pub proof fn has_id_more(a: Seq<NodeRowId>, b: Seq<NodeRowId>, k: NodeIndex, t: NodeRowType)
    requires has_id(a, k, t), starts_ids(a, b)
    ensures has_id(b, k, t)
{ let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).node_idx == k && a[j].row_type == t; assert(b[j] == a[j]); }
pub proof fn bin_rows_more(a: Seq<NodeRowId>, b: Seq<NodeRowId>, k: NodeIndex, bs: Seq<usize>, n: int)
    requires bin_rows(a, k, bs, n), starts_ids(a, b)
    ensures bin_rows(b, k, bs, n)
{
    assert forall|m: int| 0 <= m < n && m < bs.len() implies has_id(b, k, NodeRowType::BinaryUpperBound { bin_col_id: #[trigger] bs[m] }) && has_id(b, k, NodeRowType::BinaryLowerBound { bin_col_id: bs[m] }) by {
        has_id_more(a, b, k, NodeRowType::BinaryUpperBound { bin_col_id: bs[m] }); has_id_more(a, b, k, NodeRowType::BinaryLowerBound { bin_col_id: bs[m] });
    }
}
pub proof fn node_rows_more(a: Seq<NodeRowId>, b: Seq<NodeRowId>, k: NodeIndex, bins: Bins)
    requires node_rows(a, k, bins), starts_ids(a, b)
    ensures node_rows(b, k, bins)
{ if bins.contains_key(k) { bin_rows_more(a, b, k, bins[k], bins[k].len() as int); } else { has_id_more(a, b, k, NodeRowType::Continuous); } }
pub proof fn all_hold_push2(rows: Seq<RowBuilder>, a: RowBuilder, b: RowBuilder, mx: R)
    ensures forall|x: Flows| #[trigger] all_hold(rows.push(a).push(b), mx, x) <==> all_hold(rows, mx, x) && row_holds(a, mx, x) && row_holds(b, mx, x)
{
    all_hold_push(rows, a, mx); all_hold_push(rows.push(a), b, mx);
    assert forall|x: Flows| #[trigger] all_hold(rows.push(a).push(b), mx, x) <==> all_hold(rows, mx, x) && row_holds(a, mx, x) && row_holds(b, mx, x) by { let _h = all_hold(rows.push(a), mx, x); }
}

// ---- mass balance and merged columns
impl Node {
    /// a link with one way in and one way out
    pub open spec fn one_one(&self) -> bool { self is Link && self.ins().len() == 1 && self.outs().len() == 1 }
    pub open spec fn balanced(&self, col: Cols, x: Flows) -> bool { through(self.ins(), col, x) == through(self.outs(), col, x) }
}
/// the next edge after a link with one way out, and the one before
pub open spec fn goes_on(net: &Network, col: Cols, e: EdgeIndex) -> bool { net.to(e).one_one() && col.contains_key(net.to(e).outs()[0]) && col[net.to(e).outs()[0]] == col[e] }
pub open spec fn comes_on(net: &Network, col: Cols, e: EdgeIndex) -> bool { net.from(e).one_one() && col.contains_key(net.from(e).ins()[0]) && col[net.from(e).ins()[0]] == col[e] }
/// only the edges of a chain of links with one way in and one way out share a column
pub open spec fn chains(net: &Network, col: Cols) -> bool {
    forall|a: EdgeIndex, b: EdgeIndex| a != b && #[trigger] col.contains_key(a) && #[trigger] col.contains_key(b) && col[a] == col[b] ==>
        (goes_on(net, col, a) || goes_on(net, col, b)) && (comes_on(net, col, a) || comes_on(net, col, b))
}
pub open spec fn cols_known(net: &Network, col: Cols) -> bool { forall|e: EdgeIndex| #[trigger] col.contains_key(e) ==> net.has_edge(e) }
/// flows that balance at the links with one way in and one way out
pub open spec fn even(net: &Network, f: spec_fn(EdgeIndex) -> real) -> bool { forall|k: int| 0 <= k < net.nodes@.len() && (#[trigger] net.nodes@[k]).one_one() ==> f(net.nodes@[k].ins()[0]) == f(net.nodes@[k].outs()[0]) }
/// such flows can be written with one value per column
pub open spec fn agrees(net: &Network, col: Cols, f: spec_fn(EdgeIndex) -> real) -> bool { even(net, f) ==> forall|a: EdgeIndex, b: EdgeIndex| #[trigger] col.contains_key(a) && #[trigger] col.contains_key(b) && col[a] == col[b] ==> f(a) == f(b) }
/// the links among the first n nodes pass on what they take
pub open spec fn balance_holds(net: &Network, col: Cols, x: Flows, n: int) -> bool { forall|k: int| 0 <= k < n && #[trigger] net.nodes@[k] is Link ==> net.nodes@[k].balanced(col, x) }
/// a link whose edges all share a column has one way in and one way out
pub proof fn one_column(net: &Network, col: Cols, k: int, c: usize)
    requires
        links_ok(net), chains(net, col), 0 <= k < net.nodes@.len(), net.nodes@[k] is Link,
        forall|m: int| 0 <= m < net.nodes@[k].ins().len() ==> col.contains_key(#[trigger] net.nodes@[k].ins()[m]) && col[net.nodes@[k].ins()[m]] == c,
        forall|m: int| 0 <= m < net.nodes@[k].outs().len() ==> col.contains_key(#[trigger] net.nodes@[k].outs()[m]) && col[net.nodes@[k].outs()[m]] == c,
    ensures forall|x: Flows| #[trigger] net.nodes@[k].balanced(col, x)
{
    let n = net.nodes@[k]; assert(link_ok(net, k));
    if n.ins().len() > 1 { let (a, b) = (n.ins()[0], n.ins()[1]); assert(a != b && col.contains_key(a) && col.contains_key(b)); assert(net.to(a) == n && net.to(b) == n); }
    if n.outs().len() > 1 { let (a, b) = (n.outs()[0], n.outs()[1]); assert(a != b && col.contains_key(a) && col.contains_key(b)); assert(net.from(a) == n && net.from(b) == n); }
    assert forall|x: Flows| #[trigger] n.balanced(col, x) by { reveal_with_fuel(esum, 2); let _k = (n.ins()[0], n.outs()[0]); }
}

/// each edge has a column, and columns are shared only where the flows must be equal
pub open spec fn cols_below(col: Cols, n: int) -> bool { forall|e: EdgeIndex| #[trigger] col.contains_key(e) ==> col[e] < n }
pub open spec fn cols_ok(net: &Network, col: Cols, n: int) -> bool { cols_known(net, col) && chains(net, col) && cols_below(col, n) && forall|f: spec_fn(EdgeIndex) -> real| #[trigger] agrees(net, col, f) }
pub open spec fn sub_cols(a: Cols, b: Cols) -> bool { forall|e: EdgeIndex| #[trigger] a.contains_key(e) ==> b.contains_key(e) && b[e] == a[e] }
pub proof fn goes_on_more(net: &Network, c1: Cols, c2: Cols, e: EdgeIndex)
    requires sub_cols(c1, c2), c1.contains_key(e)
    ensures goes_on(net, c1, e) ==> goes_on(net, c2, e), comes_on(net, c1, e) ==> comes_on(net, c2, e)
{ let _k = (c1.contains_key(net.to(e).outs()[0]), c1.contains_key(net.from(e).ins()[0])); assert(c1[e] == c2[e]); }
pub proof fn cols_new(net: &Network, col: Cols, n: usize, e: EdgeIndex)
    requires cols_ok(net, col, n as int), !col.contains_key(e), net.has_edge(e)
    ensures cols_ok(net, col.insert(e, n), n + 1)
{
    let c = col.insert(e, n);
    assert forall|a: EdgeIndex, b: EdgeIndex| a != b && #[trigger] c.contains_key(a) && #[trigger] c.contains_key(b) && c[a] == c[b] implies
        (goes_on(net, c, a) || goes_on(net, c, b)) && (comes_on(net, c, a) || comes_on(net, c, b)) by {
        if a != e { let _k = col.contains_key(a); } if b != e { let _k = col.contains_key(b); }
        if a != e && b != e { goes_on_more(net, col, c, a); goes_on_more(net, col, c, b); }
    }
    assert forall|x: EdgeIndex| #[trigger] c.contains_key(x) implies c[x] < n + 1 && net.has_edge(x) by { if x != e { let _k = col.contains_key(x); } }
    assert forall|f: spec_fn(EdgeIndex) -> real| #[trigger] agrees(net, c, f) by {
        assert(agrees(net, col, f));
        if even(net, f) { assert forall|a: EdgeIndex, b: EdgeIndex| #[trigger] c.contains_key(a) && #[trigger] c.contains_key(b) && c[a] == c[b] implies f(a) == f(b) by { if a != e { let _k = col.contains_key(a); } if b != e { let _k = col.contains_key(b); } } }
    }
}
/// e follows d across a link with one way in and one way out
pub open spec fn follows(net: &Network, d: EdgeIndex, e: EdgeIndex) -> bool {
    &&& net.has_edge(d) && net.has_edge(e) && d != e && net.from(e) == net.to(d) && net.from(e).one_one() && net.from(e).ins()[0] == d && net.from(e).outs()[0] == e
    &&& exists|k: int| 0 <= k < net.nodes@.len() && #[trigger] net.nodes@[k] == net.from(e)
}
pub proof fn cols_equal(net: &Network, col: Cols, n: usize, e: EdgeIndex, d: EdgeIndex)
    requires cols_ok(net, col, n as int), follows(net, d, e)
    ensures cols_ok(net, equal_edges(col, n as nat, e, d), if col.contains_key(e) || col.contains_key(d) { n as int } else { n + 1 })
{
    let c = equal_edges(col, n as nat, e, d);
    assert(sub_cols(col, c));
    let _k = (col.contains_key(e), col.contains_key(d));
    assert(c.contains_key(e) && c.contains_key(d));
    let both = col.contains_key(e) && col.contains_key(d);
    if !both { assert(c[e] == c[d]); assert(goes_on(net, c, d)); assert(comes_on(net, c, e)); }
    assert forall|a: EdgeIndex, b: EdgeIndex| a != b && #[trigger] c.contains_key(a) && #[trigger] c.contains_key(b) && c[a] == c[b] implies
        (goes_on(net, c, a) || goes_on(net, c, b)) && (comes_on(net, c, a) || comes_on(net, c, b)) by {
        let (ka, kb) = (col.contains_key(a), col.contains_key(b));
        if ka { goes_on_more(net, col, c, a); } if kb { goes_on_more(net, col, c, b); }
        if col.contains_key(d) { goes_on_more(net, col, c, d); } if col.contains_key(e) { goes_on_more(net, col, c, e); }
    }
    assert forall|f: spec_fn(EdgeIndex) -> real| #[trigger] agrees(net, c, f) by {
        assert(agrees(net, col, f));
        if even(net, f) {
            assert(f(d) == f(e));
            assert forall|a: EdgeIndex, b: EdgeIndex| #[trigger] c.contains_key(a) && #[trigger] c.contains_key(b) && c[a] == c[b] implies f(a) == f(b) by {
                let (ka, kb) = (col.contains_key(a), col.contains_key(b));
            }
        }
    }
}

// ---- columns
/// the first nc columns are flows, the others binary
pub open spec fn columns_ok(b: LpBuilder, nc: int) -> bool {
    &&& b.wf() && nc <= b.col_lower@.len()
    &&& forall|j: int| 0 <= j < b.col_lower@.len() ==> (#[trigger] b.col_lower@[j])@ == 0real
    &&& forall|j: int| 0 <= j < b.col_lower@.len() ==> (#[trigger] b.col_obj_coef@[j])@ == 0real
    &&& forall|j: int| 0 <= j < b.col_lower@.len() ==> (#[trigger] b.col_upper@[j])@ == (if j < nc { b.f64_max@ } else { 1real })
    &&& forall|j: int| 0 <= j < b.col_lower@.len() ==> #[trigger] b.col_type@[j] == (if j < nc { ColType::Continuous } else { ColType::Integer })
}
pub open spec fn is_group(gs: Seq<Vec<NodeIndex>>, s: Seq<NodeIndex>, n: int) -> bool { exists|g: int| 0 <= g < n && g < gs.len() && (#[trigger] gs[g])@ == s }
/// s is a group of one of the first n aggregated nodes and exclusive there
pub open spec fn is_excl(net: &Network, s: Seq<NodeIndex>, n: int) -> bool { exists|k: int| 0 <= k < n && k < net.aggregated_nodes@.len() && (#[trigger] net.aggregated_nodes@[k]).exclusivity() is Some && is_group(net.aggregated_nodes@[k].nodes@, s, net.aggregated_nodes@[k].nodes@.len() as int) }
pub open spec fn excl(net: &Network, s: Seq<NodeIndex>) -> bool { is_excl(net, s, net.aggregated_nodes@.len() as int) }
/// one binary column per exclusive group
pub open spec fn group_cols(net: &Network, sm: Map<Seq<NodeIndex>, usize>, nc: int, n: int) -> bool {
    &&& forall|s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) <==> excl(net, s)
    &&& forall|s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) ==> nc <= sm[s] < n
    &&& forall|s: Seq<NodeIndex>, t: Seq<NodeIndex>| #[trigger] sm.contains_key(s) && #[trigger] sm.contains_key(t) && sm[s] == sm[t] ==> s == t
}
pub open spec fn has_group(sm: Map<Seq<NodeIndex>, usize>, n: NodeIndex, c: usize) -> bool { exists|s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) && s.contains(n) && sm[s] == c }
/// the columns of a node are those of the exclusive groups it is in
pub open spec fn node_cols(bins: Bins, sm: Map<Seq<NodeIndex>, usize>) -> bool {
    &&& forall|n: NodeIndex| #[trigger] bins.contains_key(n) ==> bins[n].len() > 0
    &&& forall|n: NodeIndex, l: int| #[trigger] bins.contains_key(n) && 0 <= l < bins[n].len() ==> has_group(sm, n, #[trigger] bins[n][l])
    &&& forall|n: NodeIndex, s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) && #[trigger] s.contains(n) ==> bins.contains_key(n) && bins[n].contains(sm[s])
}
// while the columns are created: groups v, the first i of them done, and the first m nodes of the next
pub open spec fn before(s: Seq<NodeIndex>, n: NodeIndex, m: int) -> bool { exists|l: int| 0 <= l < m && l < s.len() && #[trigger] s[l] == n }
pub open spec fn takes(v: Seq<&[NodeIndex]>, n: NodeIndex, j: int, i: int, m: int) -> bool { 0 <= j < v.len() && (j < i && v[j]@.contains(n) || j == i && before(v[i]@, n, m)) }
pub open spec fn bins_upto(bins: Bins, v: Seq<&[NodeIndex]>, nc: int, i: int, m: int) -> bool {
    &&& forall|n: NodeIndex| #[trigger] bins.contains_key(n) ==> bins[n].len() > 0
    &&& forall|n: NodeIndex, l: int| #[trigger] bins.contains_key(n) && 0 <= l < bins[n].len() ==> takes(v, n, #[trigger] bins[n][l] - nc, i, m)
    &&& forall|n: NodeIndex, j: int| #[trigger] takes(v, n, j, i, m) ==> bins.contains_key(n) && bins[n].contains((nc + j) as usize)
}
pub open spec fn sets_upto(sm: Map<Seq<NodeIndex>, usize>, v: Seq<&[NodeIndex]>, nc: int, i: int) -> bool {
    &&& forall|j: int| 0 <= j < i && j < v.len() ==> sm.contains_key((#[trigger] v[j])@) && sm[v[j]@] == nc + j
    &&& forall|s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) ==> nc <= sm[s] < nc + i && v[sm[s] - nc]@ == s
}
pub open spec fn pushed(bins: Bins, n: NodeIndex, c: usize) -> Bins { bins.insert(n, (if bins.contains_key(n) { bins[n] } else { Seq::<usize>::empty() }).push(c)) }
pub proof fn takes_step(v: Seq<&[NodeIndex]>, i: int, m: int)
    requires 0 <= i < v.len(), 0 <= m < v[i]@.len()
    ensures forall|n: NodeIndex, j: int| #[trigger] takes(v, n, j, i, m + 1) <==> takes(v, n, j, i, m) || (j == i && n == v[i]@[m])
{
    assert forall|n: NodeIndex, j: int| #[trigger] takes(v, n, j, i, m + 1) <==> takes(v, n, j, i, m) || (j == i && n == v[i]@[m]) by {
        let s = v[i]@;
        if before(s, n, m) { let l = choose|l: int| 0 <= l < m && l < s.len() && #[trigger] s[l] == n; assert(s[l] == n); }
        if before(s, n, m + 1) { let l = choose|l: int| 0 <= l < m + 1 && l < s.len() && #[trigger] s[l] == n; if l < m { assert(s[l] == n); } }
        if n == s[m] { assert(s[m] == n); assert(before(s, n, m + 1)); }
    }
}
pub proof fn bins_step(b0: Bins, b1: Bins, v: Seq<&[NodeIndex]>, nc: int, i: int, m: int, c: usize)
    requires bins_upto(b0, v, nc, i, m), 0 <= i < v.len(), 0 <= m < v[i]@.len(), c == nc + i, b1 == pushed(b0, v[i]@[m], c)
    ensures bins_upto(b1, v, nc, i, m + 1)
{
    takes_step(v, i, m);
    let w = v[i]@[m]; let s0 = if b0.contains_key(w) { b0[w] } else { Seq::<usize>::empty() };
    assert(b1[w] == s0.push(c)); assert(b1[w].last() == c); assert(b1[w].contains(c));
    assert forall|n: NodeIndex, l: int| #[trigger] b1.contains_key(n) && 0 <= l < b1[n].len() implies takes(v, n, #[trigger] b1[n][l] - nc, i, m + 1) by {
        if n == w { if l < s0.len() { assert(b1[w][l] == s0[l]); assert(takes(v, n, b0[n][l] - nc, i, m)); } else { assert(b1[w][l] == c); } }
        else { assert(b0.contains_key(n)); assert(takes(v, n, b0[n][l] - nc, i, m)); }
    }
    assert forall|n: NodeIndex, j: int| #[trigger] takes(v, n, j, i, m + 1) implies b1.contains_key(n) && b1[n].contains((nc + j) as usize) by {
        if takes(v, n, j, i, m) {
            assert(b0[n].contains((nc + j) as usize));
            if n == w { let l = choose|l: int| 0 <= l < b0[n].len() && b0[n][l] == (nc + j) as usize; assert(b1[n][l] == b0[n][l]); }
        }
    }
}
pub proof fn bins_next(b: Bins, v: Seq<&[NodeIndex]>, nc: int, i: int)
    requires bins_upto(b, v, nc, i, v[i]@.len() as int), 0 <= i < v.len()
    ensures bins_upto(b, v, nc, i + 1, 0)
{
    let m = v[i]@.len() as int;
    assert forall|n: NodeIndex, j: int| #[trigger] takes(v, n, j, i + 1, 0) <==> takes(v, n, j, i, m) by {
        let s = v[i]@;
        if s.contains(n) { let l = choose|l: int| 0 <= l < s.len() && s[l] == n; assert(s[l] == n); assert(before(s, n, m)); }
        if before(s, n, m) { let l = choose|l: int| 0 <= l < m && l < s.len() && #[trigger] s[l] == n; assert(s.contains(s[l])); }
    }
    assert forall|n: NodeIndex, l: int| #[trigger] b.contains_key(n) && 0 <= l < b[n].len() implies takes(v, n, #[trigger] b[n][l] - nc, i + 1, 0) by { assert(takes(v, n, b[n][l] - nc, i, m)); }
}
pub proof fn sets_step(s0: Map<Seq<NodeIndex>, usize>, v: Seq<&[NodeIndex]>, nc: int, i: int, c: usize)
    requires sets_upto(s0, v, nc, i), 0 <= i < v.len(), c == nc + i, forall|j: int, k: int| 0 <= j < k < v.len() ==> (#[trigger] v[j])@ != (#[trigger] v[k])@
    ensures sets_upto(s0.insert(v[i]@, c), v, nc, i + 1)
{
    let s1 = s0.insert(v[i]@, c);
    assert forall|j: int| 0 <= j < i + 1 && j < v.len() implies s1.contains_key((#[trigger] v[j])@) && s1[v[j]@] == nc + j by {}
    assert forall|s: Seq<NodeIndex>| #[trigger] s1.contains_key(s) implies nc <= s1[s] < nc + i + 1 && v[s1[s] - nc]@ == s by { if s != v[i]@ { assert(s0.contains_key(s)); } }
}
/// all groups are done
pub proof fn all_groups(net: &Network, sm: Map<Seq<NodeIndex>, usize>, bins: Bins, v: Seq<&[NodeIndex]>, es: Set<Seq<NodeIndex>>, nc: int)
    requires
        sets_upto(sm, v, nc, v.len() as int), bins_upto(bins, v, nc, v.len() as int, 0),
        forall|s: Seq<NodeIndex>| #[trigger] es.contains(s) <==> excl(net, s),
        forall|i: int| 0 <= i < v.len() ==> es.contains((#[trigger] v[i])@), forall|s: Seq<NodeIndex>| #[trigger] es.contains(s) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s,
    ensures group_cols(net, sm, nc, nc + v.len()), node_cols(bins, sm)
{
    let n = v.len() as int;
    assert forall|s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) <==> excl(net, s) by {
        if sm.contains_key(s) { assert(es.contains(v[sm[s] - nc]@)); }
        if excl(net, s) { assert(es.contains(s)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s; assert(sm.contains_key(v[i]@)); }
    }
    assert forall|n0: NodeIndex, l: int| #[trigger] bins.contains_key(n0) && 0 <= l < bins[n0].len() implies has_group(sm, n0, #[trigger] bins[n0][l]) by {
        let j = bins[n0][l] - nc; assert(takes(v, n0, j, n, 0)); let s = v[j]@; assert(sm.contains_key(s) && s.contains(n0) && sm[s] == bins[n0][l]);
    }
    assert forall|n0: NodeIndex, s: Seq<NodeIndex>| #[trigger] sm.contains_key(s) && #[trigger] s.contains(n0) implies bins.contains_key(n0) && bins[n0].contains(sm[s]) by {
        let j = sm[s] - nc; assert(v[j]@ == s); assert(takes(v, n0, j, n, 0));
    }
}

// ---- the whole
/// what is known at setup and holds at every step
pub open spec fn known_hold(net: &Network, c: PV, bins: Bins, sm: Map<Seq<NodeIndex>, usize>, col: Cols, mx: R, x: Flows) -> bool {
    &&& balance_holds(net, col, x, net.nodes@.len() as int)
    &&& const_bounds_hold(net, c, bins, col, mx, x, net.nodes@.len() as int)
    &&& known_factors_hold(net, c, col, mx, x, net.aggregated_nodes@.len() as int)
    &&& excls_hold(net, sm, x, net.aggregated_nodes@.len() as int)
}
/// what is laid down at setup and never changes: b are the rows, in the order of the matrix
pub open spec fn laid(net: &Network, c: PV, s: BuiltSolver, b: LpBuilder, bins: Bins, sm: Map<Seq<NodeIndex>, usize>, col: Cols, nc: int) -> bool {
    // columns
    &&& columns_ok(b, nc) && cols_ok(net, col, nc) && group_cols(net, sm, nc, b.col_lower@.len() as int) && node_cols(bins, sm) && s.col() == col
    &&& forall|k: int| 0 <= k < net.edges@.len() ==> col.contains_key(#[trigger] net.edges@[k].index)
    // rows whose bounds are set at every step
    &&& forall|j: int| 0 <= j < s.node_constraints_row_ids@.len() ==> node_row(b, #[trigger] s.node_constraints_row_ids@[j], net, bins, col)
    &&& forall|k: int| 0 <= k < net.nodes@.len() && (#[trigger] net.nodes@[k]).varying() ==> node_rows(s.node_constraints_row_ids@, net.nodes@[k].idx(), bins)
    &&& own_rows(s.node_constraints_row_ids@) && later_nodes(s.agg_node_factor_constraint_row_ids@)
    &&& s.agg_node_constraint_row_ids@.len() == net.aggregated_nodes@.len()
    &&& forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> agg_row(b, #[trigger] s.agg_node_constraint_row_ids@[k], &net.aggregated_nodes@[k], net, col)
    &&& s.virtual_storage_constraint_row_ids@.len() == net.virtual_storage_nodes@.len()
    &&& forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() ==> vs_row(b, #[trigger] s.virtual_storage_constraint_row_ids@[k], &net.virtual_storage_nodes@[k], net, col)
    &&& forall|j: int| 0 <= j < s.agg_node_factor_constraint_row_ids@.len() ==> factor_rows(b, #[trigger] s.agg_node_factor_constraint_row_ids@[j], net, c, col)
    &&& forall|k: int| 0 <= k < net.aggregated_nodes@.len() && (#[trigger] net.aggregated_nodes@[k]).factors() is Some ==> net.aggregated_nodes@[k].factors()->Some_0.const_accepted(net.aggregated_nodes@[k].nodes@.len(), c) && exists|j: int| 0 <= j < s.agg_node_factor_constraint_row_ids@.len() && (#[trigger] s.agg_node_factor_constraint_row_ids@[j]).agg_node_idx.0 == k
    // rows whose bounds never change
    &&& forall|x: Flows| #[trigger] all_hold(b.fixed_rows@, b.f64_max, x) <==> known_hold(net, c, bins, sm, col, b.f64_max, x)
}
/// the matrix as built
pub open spec fn fresh_matrix(s: BuiltSolver, b: LpBuilder) -> bool {
    &&& s.builder.wf() && s.builder.sp().rows_are(b.rows@ + b.fixed_rows@, b.f64_max, b.rows@.len() as int) && s.builder.coefficients_to_update@.len() == 0
    &&& s.builder.f64_max == b.f64_max && s.builder.f64_neg_max == b.f64_neg_max && s.builder.col_lower == b.col_lower && s.builder.col_upper == b.col_upper && s.builder.col_obj_coef == b.col_obj_coef && s.builder.col_type == b.col_type
}
/// what a built linear programme is
pub open spec fn built(net: &Network, c: PV, s: BuiltSolver, b: LpBuilder, bins: Bins, sm: Map<Seq<NodeIndex>, usize>, col: Cols, nc: int) -> bool { laid(net, c, s, b, bins, sm, col, nc) && fresh_matrix(s, b) }
pub broadcast proof fn node_row_more(a: LpBuilder, b: LpBuilder, i: NodeRowId, net: &Network, bins: Bins, col: Cols)
    requires #[trigger] node_row(a, i, net, bins, col), #[trigger] starts(a.rows@, b.rows@)
    ensures node_row(b, i, net, bins, col)
{ let _r = b.rows@[i.row_id as int]; }
pub broadcast proof fn agg_row_more(a: LpBuilder, b: LpBuilder, r: usize, g: &AggregatedNode, net: &Network, col: Cols)
    requires #[trigger] agg_row(a, r, g, net, col), #[trigger] starts(a.rows@, b.rows@)
    ensures agg_row(b, r, g, net, col)
{ let _r = b.rows@[r as int]; }
pub broadcast proof fn vs_row_more(a: LpBuilder, b: LpBuilder, r: usize, v: &VirtualStorageNode, net: &Network, col: Cols)
    requires #[trigger] vs_row(a, r, v, net, col), #[trigger] starts(a.rows@, b.rows@)
    ensures vs_row(b, r, v, net, col)
{ let _r = b.rows@[r as int]; }
pub broadcast proof fn factor_rows_more_b(a: LpBuilder, b: LpBuilder, f: AggNodeFactorRow, net: &Network, c: PV, col: Cols)
    requires #[trigger] factor_rows(a, f, net, c, col), #[trigger] starts(a.rows@, b.rows@)
    ensures factor_rows(b, f, net, c, col)
{ factor_rows_more(a, b, f, net, c, col); }
pub broadcast proof fn groups_have_bins(net: &Network, sm: Map<Seq<NodeIndex>, usize>, nc: int, n: int)
    requires #[trigger] group_cols(net, sm, nc, n)
    ensures has_bins(net, sm)
{
    assert forall|k: int, g: int| 0 <= k < net.aggregated_nodes@.len() && net.aggregated_nodes@[k].exclusivity() is Some && 0 <= g < net.aggregated_nodes@[k].nodes@.len() implies sm.contains_key((#[trigger] net.aggregated_nodes@[k].nodes@[g])@) by {
        let s = net.aggregated_nodes@[k].nodes@[g]@; assert(net.aggregated_nodes@[k].nodes@[g]@ == s); assert(is_group(net.aggregated_nodes@[k].nodes@, s, net.aggregated_nodes@[k].nodes@.len() as int));
        assert(net.aggregated_nodes@[k].exclusivity() is Some); assert(excl(net, s));
    }
}
