// What the linear programme of a time-step means (nothing here is code of pywr-next).
// ---- the coefficient of one column
pub open spec fn unit(c: int) -> Flows { |k: int| if k == c { 1real } else { 0real } }
pub proof fn lin_n_unit(m: Map<usize, R>, c: usize, n: nat)
    requires n <= all_cols()
    ensures lin_n(m, unit(c as int), n) == (if c < n { coef(m, c) } else { 0real })
    decreases n
{
    if n > 0 {
        lin_n_unit(m, c, (n - 1) as nat);
        let d = (n - 1) as usize;
        if m.contains_key(d) { let a = m[d]@; assert(a * 0real == 0real && a * 1real == a) by (nonlinear_arith); }
    }
}
pub proof fn lin_unit(m: Map<usize, R>, c: usize)
    ensures lin(m, unit(c as int)) == coef(m, c)
{ lin_n_unit(m, c, all_cols()); }
/// flows are columns below nc
pub open spec fn flow_cols(net: &Network, col: Cols, nc: int) -> bool { cols_below(col, nc) && forall|e: EdgeIndex| net.has_edge(e) ==> #[trigger] col.contains_key(e) }
pub proof fn esum_unit(net: &Network, es: Seq<EdgeIndex>, col: Cols, nc: int, c: int, n: int)
    requires flow_cols(net, col, nc), edges_known(net, es), c >= nc, n <= es.len()
    ensures esum(es, col, unit(c), n) == 0real
    decreases n
{ if n > 0 { esum_unit(net, es, col, nc, c, n - 1); assert(net.has_edge(es[n - 1])); assert(col.contains_key(es[n - 1])); } }
pub proof fn flow_unit(net: &Network, k: NodeIndex, col: Cols, nc: int, c: int)
    requires flow_cols(net, col, nc), ends_known(net), c >= nc, net.has_node(k)
    ensures net.node(k).flow(col, unit(c)) == 0real
{
    let n = net.nodes@[k.0 as int]; assert(edges_known(net, n.ins()) && edges_known(net, n.outs()));
    esum_unit(net, n.ins(), col, nc, c, n.ins().len() as int); esum_unit(net, n.outs(), col, nc, c, n.outs().len() as int);
}
pub proof fn nsum_unit(net: &Network, ns: Seq<NodeIndex>, col: Cols, nc: int, c: int, n: int)
    requires flow_cols(net, col, nc), ends_known(net), c >= nc, known_nodes(net, ns), n <= ns.len()
    ensures nsum(net, ns, col, unit(c), n) == 0real
    decreases n
{ if n > 0 { nsum_unit(net, ns, col, nc, c, n - 1); assert(net.has_node(ns[n - 1])); flow_unit(net, ns[n - 1], col, nc, c); } }
pub proof fn gsum_unit(net: &Network, gs: Seq<Vec<NodeIndex>>, col: Cols, nc: int, c: int, n: int)
    requires flow_cols(net, col, nc), ends_known(net), c >= nc, forall|g: int| 0 <= g < gs.len() ==> known_nodes(net, (#[trigger] gs[g])@), n <= gs.len()
    ensures gsum(net, gs, col, unit(c), n) == 0real
    decreases n
{ if n > 0 { gsum_unit(net, gs, col, nc, c, n - 1); assert(known_nodes(net, gs[n - 1]@)); nsum_unit(net, gs[n - 1]@, col, nc, c, gs[n - 1]@.len() as int); } }
pub proof fn taken_unit(net: &Network, v: &VirtualStorageNode, col: Cols, nc: int, c: int, n: int)
    requires flow_cols(net, col, nc), ends_known(net), c >= nc, forall|j: int| 0 <= j < v.npairs() ==> net.has_node(#[trigger] v.nodes@[j]), n <= v.npairs()
    ensures v.taken(net, col, unit(c), n) == 0real
    decreases n
{ if n > 0 { taken_unit(net, v, col, nc, c, n - 1); assert(net.has_node(v.nodes@[n - 1])); flow_unit(net, v.nodes@[n - 1], col, nc, c); let f = v.factors@[n - 1]@; assert(f * 0real == 0real) by (nonlinear_arith); } }

// ---- the matrix between steps
/// the coefficients that are written at each step
pub open spec fn place(s: BuiltSolver, r: usize, c: usize) -> bool { bin_place(s.node_constraints_row_ids@, r, c) || frow(s.agg_node_factor_constraint_row_ids@, r, s.agg_node_factor_constraint_row_ids@.len() as int, 0) }
pub open spec fn bin_place(ids: Seq<NodeRowId>, r: usize, c: usize) -> bool { exists|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r && ids[j].bin() == c }
pub open spec fn entry_ok(s: BuiltSolver, row: RowBuilder, m: Map<usize, R>, r: int) -> bool {
    &&& forall|c: usize| #[trigger] m.contains_key(c) <==> row.columns@.contains_key(c)
    &&& forall|c: usize| #[trigger] m.contains_key(c) && !place(s, r as usize, c) ==> m[c]@ == row.columns@[c]@
}
/// ms are the entries of the rows: those of b but for the coefficients that are written at each step
pub open spec fn ready(s: BuiltSolver, b: LpBuilder, ms: Seq<Map<usize, R>>) -> bool {
    let rows = b.rows@ + b.fixed_rows@;
    &&& s.builder.wf() && s.builder.nrows() == rows.len() && ms.len() == rows.len() && s.builder.coefficients_to_update@.len() == 0
    &&& forall|i: int| 0 <= i < rows.len() ==> s.builder.sp().entries(i, #[trigger] ms[i])
    &&& forall|i: int| 0 <= i < rows.len() ==> entry_ok(s, rows[i], #[trigger] ms[i], i)
    &&& forall|i: int| 0 <= i < rows.len() ==> #[trigger] s.builder.row_mask@[i] == (if i < b.rows@.len() { 1usize } else { 0usize })
    &&& forall|i: int| b.rows@.len() <= i < rows.len() ==> (#[trigger] s.builder.row_lower@[i])@ == rows[i].lower@ && s.builder.row_upper@[i]@ == rows[i].hi(b.f64_max)
    &&& s.builder.f64_max == b.f64_max && s.builder.f64_neg_max == b.f64_neg_max && s.builder.col_lower == b.col_lower && s.builder.col_upper == b.col_upper && s.builder.col_type == b.col_type
}
pub proof fn fresh_ready(s: BuiltSolver, b: LpBuilder)
    requires fresh_matrix(s, b)
    ensures exists|ms: Seq<Map<usize, R>>| #[trigger] ready(s, b, ms)
{
    let rows = b.rows@ + b.fixed_rows@;
    let ms = Seq::new(rows.len(), |i: int| rows[i].columns@);
    assert forall|i: int| 0 <= i < rows.len() implies s.builder.sp().entries(i, #[trigger] ms[i]) by { assert(s.builder.sp().row_is(i, rows[i], b.f64_max)); }
    assert forall|i: int| b.rows@.len() <= i < rows.len() implies (#[trigger] s.builder.row_lower@[i])@ == rows[i].lower@ && s.builder.row_upper@[i]@ == rows[i].hi(b.f64_max) by { assert(s.builder.sp().row_is(i, rows[i], b.f64_max)); }
    assert forall|i: int| 0 <= i < rows.len() implies #[trigger] s.builder.row_mask@[i] == (if i < b.rows@.len() { 1usize } else { 0usize }) by { assert(s.builder.sp().mask[i] == s.builder.row_mask@[i]); }
    assert forall|i: int| 0 <= i < rows.len() implies entry_ok(s, rows[i], #[trigger] ms[i], i) by { assert(ms[i] == rows[i].columns@); }
    assert(s.builder.nrows() == s.builder.sp().n());
    assert(ready(s, b, ms));
}

/// all that is laid down for a network
pub struct Plan { pub b: LpBuilder, pub bins: Bins, pub sm: Map<Seq<NodeIndex>, usize>, pub col: Cols, pub nc: int, pub c: PV }
pub open spec fn planned(net: &Network, s: BuiltSolver, p: Plan) -> bool { laid(net, p.c, s, p.b, p.bins, p.sm, p.col, p.nc) && net_ok(net) && ends_known(net) && forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> (#[trigger] net.aggregated_nodes@[k]).nodes@.len() > 0 }
pub proof fn planned_cols(net: &Network, s: BuiltSolver, p: Plan)
    requires planned(net, s, p)
    ensures flow_cols(net, p.col, p.nc)
{
    assert forall|e: EdgeIndex| net.has_edge(e) implies #[trigger] p.col.contains_key(e) by { let k = e.0 as int; assert(edge_ok(net, k)); assert(p.col.contains_key(net.edges@[k].index)); assert(net.edges@[k].index == e); }
}
/// binary columns are not those of flows
pub proof fn bin_is(net: &Network, s: BuiltSolver, p: Plan, j: int)
    requires planned(net, s, p), 0 <= j < s.node_constraints_row_ids@.len(), s.node_constraints_row_ids@[j].binary()
    ensures s.node_constraints_row_ids@[j].bin() >= p.nc, node_row(p.b, s.node_constraints_row_ids@[j], net, p.bins, p.col)
{
    let i = s.node_constraints_row_ids@[j]; assert(node_row(p.b, i, net, p.bins, p.col));
    let bs = p.bins[i.node_idx]; let l = choose|l: int| 0 <= l < bs.len() && bs[l] == i.bin();
    assert(has_group(p.sm, i.node_idx, bs[l]));
    let g = choose|g: Seq<NodeIndex>| #[trigger] p.sm.contains_key(g) && g.contains(i.node_idx) && p.sm[g] == bs[l];
    assert(p.sm.contains_key(g));
}
/// a factor row is one of the rows with an upper bound
pub proof fn frow_is(net: &Network, s: BuiltSolver, p: Plan, r: usize)
    requires planned(net, s, p), frow(s.agg_node_factor_constraint_row_ids@, r, s.agg_node_factor_constraint_row_ids@.len() as int, 0)
    ensures r < p.b.rows@.len(), p.b.rows@[r as int].upper is Some
{
    let fs = s.agg_node_factor_constraint_row_ids@;
    let (j, k) = choose|j: int, k: int| 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && fdone(j, k, fs.len() as int, 0) && #[trigger] fs[j].row_indices@[k] == Some(r);
    assert(factor_rows(p.b, fs[j], net, p.c, p.col));
    let a = net.agg(fs[j].agg_node_idx); assert(factor_row(p.b, fs[j].row_indices@[k], &a, k, net, p.c, p.col));
}
/// a row of flows without bounds
pub open spec fn plain(p: Plan, r: int) -> bool { 0 <= r < p.b.rows@.len() && open_row(p.b.rows@[r]) && forall|c: int| c >= p.nc ==> p.b.rows@[r].at(#[trigger] unit(c)) == 0real }
pub proof fn plain_is(net: &Network, s: BuiltSolver, p: Plan, r: usize)
    requires planned(net, s, p), plain(p, r as int)
    ensures !bin_row(s.node_constraints_row_ids@, r, s.node_constraints_row_ids@.len() as int), !frow(s.agg_node_factor_constraint_row_ids@, r, s.agg_node_factor_constraint_row_ids@.len() as int, 0)
{
    let ids = s.node_constraints_row_ids@;
    if frow(s.agg_node_factor_constraint_row_ids@, r, s.agg_node_factor_constraint_row_ids@.len() as int, 0) { frow_is(net, s, p, r); }
    if bin_row(ids, r, ids.len() as int) {
        let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r;
        bin_is(net, s, p, j); planned_cols(net, s, p);
        let x = unit(ids[j].bin() as int); flow_unit(net, ids[j].node_idx, p.col, p.nc, ids[j].bin() as int);
        let _k = p.b.rows@[r as int].at(x);
    }
}
pub proof fn planned_step_ok(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, st: &State)
    requires planned(net, s, p), ready(s, p.b, ms), facs_nonzero(s.agg_node_factor_constraint_row_ids@, net, st)
    ensures step_ok(s, net, st)
{
    let ids = s.node_constraints_row_ids@; let fs = s.agg_node_factor_constraint_row_ids@; let lp = s.builder;
    assert forall|j: int| 0 <= j < ids.len() implies net.has_node((#[trigger] ids[j]).node_idx) && lp.settable(ids[j].row_id as int) by { assert(node_row(p.b, ids[j], net, p.bins, p.col)); }
    assert forall|j: int| 0 <= j < fs.len() implies frow_ok(#[trigger] fs[j], net, lp) by {
        let f = fs[j]; assert(factor_rows(p.b, f, net, p.c, p.col)); let a = net.agg(f.agg_node_idx); let k = f.agg_node_idx.0 as int;
        assert(net.aggregated_nodes@[k].known(net)); assert(net.aggregated_nodes@[k].nodes@.len() > 0);
        assert(a.factors()->Some_0.const_accepted(a.nodes@.len(), p.c)) by { assert(net.aggregated_nodes@[k].factors() is Some); }
        assert forall|m: int| 0 <= m < f.row_indices@.len() && #[trigger] f.row_indices@[m] is Some implies lp.settable(f.row_indices@[m]->Some_0 as int) by { assert(factor_row(p.b, f.row_indices@[m], &a, m, net, p.c, p.col)); }
    }
    assert forall|i: int, j: int, k: int| 0 <= i < ids.len() && (#[trigger] ids[i]).binary() && 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && #[trigger] fs[j].row_indices@[k] is Some implies ids[i].row_id != fs[j].row_indices@[k]->Some_0 by {
        assert(node_row(p.b, ids[i], net, p.bins, p.col)); assert(factor_rows(p.b, fs[j], net, p.c, p.col)); let a = net.agg(fs[j].agg_node_idx); assert(factor_row(p.b, fs[j].row_indices@[k], &a, k, net, p.c, p.col));
    }
    assert forall|k: int| 0 <= k < s.agg_node_constraint_row_ids@.len() implies lp.settable(#[trigger] s.agg_node_constraint_row_ids@[k] as int) by { assert(agg_row(p.b, s.agg_node_constraint_row_ids@[k], &net.aggregated_nodes@[k], net, p.col)); }
    assert forall|k: int| 0 <= k < s.virtual_storage_constraint_row_ids@.len() implies lp.settable(#[trigger] s.virtual_storage_constraint_row_ids@[k] as int) by { assert(vs_row(p.b, s.virtual_storage_constraint_row_ids@[k], &net.virtual_storage_nodes@[k], net, p.col)); }
}

// ---- the rows of a step
/// the entries after the step
pub open spec fn entries_after(ms: Seq<Map<usize, R>>, u: Upd) -> Seq<Map<usize, R>> { Seq::new(ms.len(), |i: int| ms[i].union_prefer_right(ucols(u, i as usize))) }
/// what is added to a row is in one of its places
pub proof fn adds_in_place(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State, r: usize, q: usize)
    requires planned(net, s, p), can_step(s, net, t, st), coefs_of_step(s, net, t, st), ucols(s.builder.coefficients_to_update@, r).contains_key(q)
    ensures place(s, r, q), r < p.b.rows@.len(), p.b.rows@[r as int].columns@.contains_key(q)
{
    let u = s.builder.coefficients_to_update@; let ids = s.node_constraints_row_ids@; let fs = s.agg_node_factor_constraint_row_ids@;
    if bin_row(ids, r, ids.len() as int) {
        let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r;
        assert(one_coef(u, ids[j], net, st, t.dy())); bin_is(net, s, p, j);
        assert(q == ids[j].bin()); assert(bin_place(ids, r, q));
    } else if frow(fs, r, fs.len() as int, 0) {
        let (j, k) = choose|j: int, k: int| 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && fdone(j, k, fs.len() as int, 0) && #[trigger] fs[j].row_indices@[k] == Some(r);
        assert(fs[j].row_indices@[k] is Some);
        factor_is(net, s, p, t, st, j, k);
    }
}
/// the row of an equation has the columns of its flows
pub proof fn factor_is(net: &Network, s: BuiltSolver, p: Plan, t: &Timestep, st: &State, j: int, k: int)
    requires
        planned(net, s, p), can_step(s, net, t, st), coefs_of_step(s, net, t, st),
        0 <= j < s.agg_node_factor_constraint_row_ids@.len(), 0 <= k < s.agg_node_factor_constraint_row_ids@[j].row_indices@.len(), s.agg_node_factor_constraint_row_ids@[j].row_indices@[k] is Some,
    ensures ({
        let f = s.agg_node_factor_constraint_row_ids@[j]; let r = f.row_indices@[k]->Some_0; let m = ucols(s.builder.coefficients_to_update@, r);
        &&& r < p.b.rows@.len() && forall|q: usize| #[trigger] m.contains_key(q) <==> p.b.rows@[r as int].columns@.contains_key(q)
        &&& forall|x: Flows| #[trigger] lin(m, x) == fp_flow(fac(f, net, st, k), net, p.col, x)
    })
{
    let fs = s.agg_node_factor_constraint_row_ids@; let f = fs[j]; let r = f.row_indices@[k]->Some_0; let u = s.builder.coefficients_to_update@; let m = ucols(u, r);
    assert(factor_rows(p.b, f, net, p.c, p.col)); let a = net.agg(f.agg_node_idx); let g = f.agg_node_idx.0 as int;
    assert(factor_row(p.b, f.row_indices@[k], &a, k, net, p.c, p.col));
    assert(net.aggregated_nodes@[g].nodes@.len() > 0);
    assert(a.factors()->Some_0.const_accepted(a.nodes@.len(), p.c)) by { assert(net.aggregated_nodes@[g].factors() is Some); }
    pair_groups(&a, p.c, k);
    assert(a.factors()->Some_0.accepted(a.nodes@.len(), net, st)) by { let _k = fs[j].agg_node_idx; }
    spair_groups(&a, net, st, k);
    assert(fdone(j, k, fs.len() as int, 0)); let e = fac(f, net, st, k);
    assert(fcoef(u, r, e, net, s.col()));
    assert forall|q: usize| #[trigger] m.contains_key(q) <==> p.b.rows@[r as int].columns@.contains_key(q) by { let _k = pair_uses(a.cpair(p.c, k), net, p.col, q); }
    assert forall|x: Flows| #[trigger] lin(m, x) == fp_flow(e, net, p.col, x) by { let _k = ulin(u, r, x); }
}
pub proof fn step_placed(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State)
    requires planned(net, s, p), can_step(s, net, t, st), coefs_of_step(s, net, t, st), s.builder.wf(), ms.len() == (p.b.rows@ + p.b.fixed_rows@).len(), s.builder.nrows() == ms.len(),
        forall|i: int| 0 <= i < ms.len() ==> s.builder.sp().entries(i, #[trigger] ms[i]),
        forall|i: int| 0 <= i < ms.len() ==> entry_ok(s, (p.b.rows@ + p.b.fixed_rows@)[i], #[trigger] ms[i], i),
    ensures placed(s.builder.coefficients_to_update@, s.builder.sp())
{
    let u = s.builder.coefficients_to_update@; let sp = s.builder.sp(); let rows = p.b.rows@ + p.b.fixed_rows@;
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).0 < sp.n() && in_row(sp, u[i].0 as int, u[i].1) by {
        let (r, c) = (u[i].0, u[i].1);
        ucols_key(u, r, c); assert(ucols(u, r).contains_key(c));
        adds_in_place(net, s, p, ms, t, st, r, c);
        assert(rows[r as int] == p.b.rows@[r as int]); let m = ms[r as int]; assert(m.contains_key(c)); assert(sp.entries(r as int, m));
    }
}
pub proof fn step_ready(net: &Network, s0: BuiltSolver, s1: BuiltSolver, s2: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State)
    requires
        planned(net, s0, p), ready(s0, p.b, ms), can_step(s0, net, t, st), coefs_of_step(s1, net, t, st), updated(s0, s1), applied(s1, s2),
    ensures ready(s2, p.b, entries_after(ms, s1.builder.coefficients_to_update@))
{
    reveal(changed);
    let u = s1.builder.coefficients_to_update@; let rows = p.b.rows@ + p.b.fixed_rows@; let a = s1.builder.sp(); let b = s2.builder.sp(); let m2 = entries_after(ms, u);
    assert(planned(net, s1, p)); assert(can_step(s1, net, t, st));
    assert forall|i: int| 0 <= i < rows.len() implies b.entries(i, #[trigger] m2[i]) by {
        assert(s0.builder.sp().entries(i, ms[i])); let z = s0.builder.sp();
        assert(a.entries(i, ms[i])) by { assert forall|x: Flows| #[trigger] a.row(i, x) == lin(ms[i], x) by { let _k = z.row(i, x); } }
    }
    assert forall|i: int| 0 <= i < rows.len() implies entry_ok(s2, rows[i], #[trigger] m2[i], i) by {
        assert(entry_ok(s0, rows[i], ms[i], i)); assert(s0.builder.row_lower.len() == s0.builder.row_lower@.len()); let r = i as usize;
        assert forall|q: usize| #[trigger] m2[i].contains_key(q) <==> rows[i].columns@.contains_key(q) by { let _k = ms[i].contains_key(q); if ucols(u, r).contains_key(q) { adds_in_place(net, s1, p, ms, t, st, r, q); } }
        assert forall|q: usize| #[trigger] m2[i].contains_key(q) && !place(s2, r, q) implies m2[i][q]@ == rows[i].columns@[q]@ by {
            if ucols(u, r).contains_key(q) { adds_in_place(net, s1, p, ms, t, st, r, q); assert(place(s2, r, q)); } else { assert(ms[i].contains_key(q)); assert(!place(s0, r, q)); }
        }
    }
    assert forall|i: int| 0 <= i < rows.len() implies #[trigger] s2.builder.row_mask@[i] == (if i < p.b.rows@.len() { 1usize } else { 0usize }) by { let _k = s0.builder.row_mask@[i]; }
    assert forall|i: int| p.b.rows@.len() <= i < rows.len() implies (#[trigger] s2.builder.row_lower@[i])@ == rows[i].lower@ && s2.builder.row_upper@[i]@ == rows[i].hi(p.b.f64_max) by { let _k = (s0.builder.row_mask@[i], s0.builder.row_lower@[i], s1.builder.row_lower@[i]); }
    assert(s2.builder.nrows() == rows.len() && m2.len() == rows.len() && s2.builder.wf() && s2.builder.coefficients_to_update@.len() == 0);
    assert(s2.builder.f64_max == p.b.f64_max && s2.builder.f64_neg_max == p.b.f64_neg_max && s2.builder.col_lower == p.b.col_lower && s2.builder.col_upper == p.b.col_upper && s2.builder.col_type == p.b.col_type);
    assert(ready(s2, p.b, m2));
}
/// what update and apply_updated_coefficients leave alone
pub open spec fn updated(s0: BuiltSolver, s1: BuiltSolver) -> bool {
    &&& s1 == (BuiltSolver { builder: s1.builder, ..s0 }) && s1.builder.wf() && s1.builder.same_fixed(s0.builder)
    &&& s1.builder == (Lp { row_lower: s1.builder.row_lower, row_upper: s1.builder.row_upper, col_obj_coef: s1.builder.col_obj_coef, coefficients_to_update: s1.builder.coefficients_to_update, ..s0.builder })
}
pub open spec fn applied(s1: BuiltSolver, s2: BuiltSolver) -> bool {
    &&& s2 == (BuiltSolver { builder: Lp { elements: s2.builder.elements, coefficients_to_update: s2.builder.coefficients_to_update, ..s1.builder }, ..s1 }) && s2.builder.wf() && s2.builder.coefficients_to_update@.len() == 0
    &&& changed(s1.builder.sp(), s2.builder.sp(), s1.builder.coefficients_to_update@)
}

// ---- what the rows of a step mean
impl Node {
    /// the bounds of a node that may change hold in a step, when the binary columns say whether it is active
    pub open spec fn step_holds(&self, net: &Network, s: &State, dt: real, bins: Bins, col: Cols, mn: R, mx: R, x: Flows) -> bool {
        if bins.contains_key(self.idx()) { forall|m: int| 0 <= m < bins[self.idx()].len() ==> bin_step(self.flow(col, x), self.step_lo(net, s, dt), self.step_hi(net, s, dt), #[trigger] bins[self.idx()][m], x) }
        else { bounded(self.flow(col, x), self.step_lo(net, s, dt), self.step_hi(net, s, dt), mn, mx) }
    }
}
/// at most the maximum (limited) when active, none when not, and at least the minimum when active
pub open spec fn bin_step(q: real, lo: real, hi: real, b: usize, x: Flows) -> bool { q <= rmin(hi, BIG()) * x(b as int) && q >= lo * x(b as int) }
impl AggregatedNode {
    /// the equations that are not known at setup hold in a step
    pub open spec fn step_eqs(&self, net: &Network, s: &State, c: PV, col: Cols, mn: R, mx: R, x: Flows) -> bool {
        forall|k: int| 0 <= k < self.npair(c) && !self.factors()->Some_0.const_known(k) ==> fp_step(#[trigger] self.spair(net, s, k), net, col, mn, mx, x)
    }
}
pub open spec fn fp_step(e: FP, net: &Network, col: Cols, mn: R, mx: R, x: Flows) -> bool { bounded(fp_flow(e, net, col, x), e.rhs, e.rhs, mn, mx) }
/// what must hold in this step, besides what holds in every step
pub open spec fn step_hold(net: &Network, t: &Timestep, s: &State, p: Plan, x: Flows) -> bool {
    let (mn, mx) = (p.b.f64_neg_max, p.b.f64_max);
    &&& forall|k: int| 0 <= k < net.nodes@.len() && net.nodes@[k].varying() ==> (#[trigger] net.nodes@[k]).step_holds(net, s, t.dy(), p.bins, p.col, mn, mx, x)
    &&& forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> agg_holds(&net.aggregated_nodes@[k], net, s, #[trigger] net.aggregated_nodes@[k].flow(net, p.col, x), mn, mx)
    &&& forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() ==> vs_holds(&net.virtual_storage_nodes@[k], t, s, #[trigger] net.virtual_storage_nodes@[k].change(net, p.col, x), mn, mx)
    &&& forall|k: int| 0 <= k < net.aggregated_nodes@.len() && net.aggregated_nodes@[k].factors() is Some ==> (#[trigger] net.aggregated_nodes@[k]).step_eqs(net, s, p.c, p.col, mn, mx, x)
}
/// v are the values of the rows of a step at x
pub open spec fn values_of(net: &Network, s: BuiltSolver, p: Plan, t: &Timestep, st: &State, v: Flows, x: Flows) -> bool {
    &&& forall|j: int| 0 <= j < s.node_constraints_row_ids@.len() ==> id_value(#[trigger] s.node_constraints_row_ids@[j], net, p.col, st, t.dy(), v, x)
    &&& forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> v(#[trigger] s.agg_node_constraint_row_ids@[k] as int) == net.aggregated_nodes@[k].flow(net, p.col, x)
    &&& forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() ==> v(#[trigger] s.virtual_storage_constraint_row_ids@[k] as int) == net.virtual_storage_nodes@[k].change(net, p.col, x)
    &&& forall|j: int, k: int| 0 <= j < s.agg_node_factor_constraint_row_ids@.len() && 0 <= k < s.agg_node_factor_constraint_row_ids@[j].row_indices@.len() && #[trigger] s.agg_node_factor_constraint_row_ids@[j].row_indices@[k] is Some ==>
            v(s.agg_node_factor_constraint_row_ids@[j].row_indices@[k]->Some_0 as int) == fp_flow(fac(s.agg_node_factor_constraint_row_ids@[j], net, st, k), net, p.col, x)
}
pub open spec fn id_value(i: NodeRowId, net: &Network, col: Cols, st: &State, dt: real, v: Flows, x: Flows) -> bool {
    let q = net.node(i.node_idx).flow(col, x);
    v(i.row_id as int) == match i.row_type { NodeRowType::Continuous => q, NodeRowType::BinaryUpperBound { bin_col_id } => i.bin_coef(net, st, dt) * x(bin_col_id as int) - q, NodeRowType::BinaryLowerBound { bin_col_id } => q + i.bin_coef(net, st, dt) * x(bin_col_id as int) }
}
pub proof fn ids_mean(net: &Network, s: BuiltSolver, p: Plan, t: &Timestep, st: &State, v: Flows, x: Flows)
    requires planned(net, s, p), values_of(net, s, p, t, st, v, x), p.b.f64_neg_max@ < 0real
    ensures ids_hold(s.node_constraints_row_ids@, net, st, t.dy(), p.b.f64_neg_max, p.b.f64_max, v, s.node_constraints_row_ids@.len() as int)
        <==> forall|k: int| 0 <= k < net.nodes@.len() && net.nodes@[k].varying() ==> (#[trigger] net.nodes@[k]).step_holds(net, st, t.dy(), p.bins, p.col, p.b.f64_neg_max, p.b.f64_max, x)
{
    let ids = s.node_constraints_row_ids@; let n = ids.len() as int; let (mn, mx) = (p.b.f64_neg_max, p.b.f64_max); let dt = t.dy();
    if ids_hold(ids, net, st, dt, mn, mx, v, n) {
        assert forall|k: int| 0 <= k < net.nodes@.len() && net.nodes@[k].varying() implies (#[trigger] net.nodes@[k]).step_holds(net, st, dt, p.bins, p.col, mn, mx, x) by {
            let nd = net.nodes@[k]; let i = nd.idx(); assert(i.0 == k); assert(node_rows(ids, i, p.bins)); assert(net.node(i) == nd);
            if p.bins.contains_key(i) {
                let bs = p.bins[i];
                assert forall|m: int| 0 <= m < bs.len() implies bin_step(nd.flow(p.col, x), nd.step_lo(net, st, dt), nd.step_hi(net, st, dt), #[trigger] bs[m], x) by {
                    let b = bs[m];
                    assert(has_id(ids, i, NodeRowType::BinaryUpperBound { bin_col_id: b }) && has_id(ids, i, NodeRowType::BinaryLowerBound { bin_col_id: b }));
                    let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).node_idx == i && ids[j].row_type == NodeRowType::BinaryUpperBound { bin_col_id: b };
                    let l = choose|l: int| 0 <= l < ids.len() && (#[trigger] ids[l]).node_idx == i && ids[l].row_type == NodeRowType::BinaryLowerBound { bin_col_id: b };
                    assert(id_holds(ids[j], net, st, dt, mn, mx, v) && id_holds(ids[l], net, st, dt, mn, mx, v));
                    assert(id_value(ids[j], net, p.col, st, dt, v, x) && id_value(ids[l], net, p.col, st, dt, v, x));
                    let (lo, y) = (nd.step_lo(net, st, dt), x(b as int)); assert(-lo * y == -(lo * y)) by (nonlinear_arith);
                }
            } else {
                let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).node_idx == i && ids[j].row_type == NodeRowType::Continuous;
                assert(id_holds(ids[j], net, st, dt, mn, mx, v) && id_value(ids[j], net, p.col, st, dt, v, x));
            }
        }
    }
    if forall|k: int| 0 <= k < net.nodes@.len() && net.nodes@[k].varying() ==> (#[trigger] net.nodes@[k]).step_holds(net, st, dt, p.bins, p.col, mn, mx, x) {
        assert forall|j: int| 0 <= j < n && j < ids.len() implies id_holds(#[trigger] ids[j], net, st, dt, mn, mx, v) by {
            let i = ids[j]; assert(node_row(p.b, i, net, p.bins, p.col)); assert(id_value(i, net, p.col, st, dt, v, x));
            let nd = net.nodes@[i.node_idx.0 as int]; assert(nd.idx().0 == i.node_idx.0); assert(nd.idx() == i.node_idx); assert(nd.step_holds(net, st, dt, p.bins, p.col, mn, mx, x));
            if i.binary() {
                let bs = p.bins[i.node_idx]; let b = i.bin(); let m = choose|m: int| 0 <= m < bs.len() && bs[m] == b;
                assert(bin_step(nd.flow(p.col, x), nd.step_lo(net, st, dt), nd.step_hi(net, st, dt), bs[m], x));
                let (lo, y) = (nd.step_lo(net, st, dt), x(b as int)); assert(-lo * y == -(lo * y)) by (nonlinear_arith);
            }
        }
    }
}
pub proof fn facs_mean(net: &Network, s: BuiltSolver, p: Plan, t: &Timestep, st: &State, v: Flows, x: Flows)
    requires planned(net, s, p), values_of(net, s, p, t, st, v, x)
    ensures facs_hold(s.agg_node_factor_constraint_row_ids@, net, st, p.b.f64_neg_max, p.b.f64_max, v, s.agg_node_factor_constraint_row_ids@.len() as int, 0)
        <==> forall|k: int| 0 <= k < net.aggregated_nodes@.len() && net.aggregated_nodes@[k].factors() is Some ==> (#[trigger] net.aggregated_nodes@[k]).step_eqs(net, st, p.c, p.col, p.b.f64_neg_max, p.b.f64_max, x)
{
    let fs = s.agg_node_factor_constraint_row_ids@; let n = fs.len() as int; let (mn, mx) = (p.b.f64_neg_max, p.b.f64_max);
    if facs_hold(fs, net, st, mn, mx, v, n, 0) {
        assert forall|k: int| 0 <= k < net.aggregated_nodes@.len() && net.aggregated_nodes@[k].factors() is Some implies (#[trigger] net.aggregated_nodes@[k]).step_eqs(net, st, p.c, p.col, mn, mx, x) by {
            let a = net.aggregated_nodes@[k];
            let j = choose|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).agg_node_idx.0 == k;
            assert(factor_rows(p.b, fs[j], net, p.c, p.col));
            assert forall|m: int| 0 <= m < a.npair(p.c) && !a.factors()->Some_0.const_known(m) implies fp_step(#[trigger] a.spair(net, st, m), net, p.col, mn, mx, x) by {
                assert(factor_row(p.b, fs[j].row_indices@[m], &a, m, net, p.c, p.col)); assert(fdone(j, m, n, 0)); assert(fs[j].row_indices@[m] is Some);
            }
        }
    }
    if forall|k: int| 0 <= k < net.aggregated_nodes@.len() && net.aggregated_nodes@[k].factors() is Some ==> (#[trigger] net.aggregated_nodes@[k]).step_eqs(net, st, p.c, p.col, mn, mx, x) {
        assert forall|j: int, k: int| 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && fdone(j, k, n, 0) && #[trigger] fs[j].row_indices@[k] is Some implies bounded(v(fs[j].row_indices@[k]->Some_0 as int), fac(fs[j], net, st, k).rhs, fac(fs[j], net, st, k).rhs, mn, mx) by {
            assert(factor_rows(p.b, fs[j], net, p.c, p.col)); let a = net.aggregated_nodes@[fs[j].agg_node_idx.0 as int]; assert(factor_row(p.b, fs[j].row_indices@[k], &a, k, net, p.c, p.col));
            assert(a.step_eqs(net, st, p.c, p.col, mn, mx, x)); assert(fp_step(a.spair(net, st, k), net, p.col, mn, mx, x));
        }
    }
}
pub proof fn bounds_mean(net: &Network, s: BuiltSolver, p: Plan, t: &Timestep, st: &State, v: Flows, x: Flows)
    requires planned(net, s, p), values_of(net, s, p, t, st, v, x), p.b.f64_neg_max@ < 0real, s.builder.f64_neg_max == p.b.f64_neg_max, s.builder.f64_max == p.b.f64_max
    ensures bounds_of_step(s, net, t, st, v) <==> step_hold(net, t, st, p, x)
{
    ids_mean(net, s, p, t, st, v, x); facs_mean(net, s, p, t, st, v, x);
    let (mn, mx) = (p.b.f64_neg_max, p.b.f64_max); let ai = s.agg_node_constraint_row_ids@; let vi = s.virtual_storage_constraint_row_ids@;
    assert(aggs_hold(ai, net, st, mn, mx, v, ai.len() as int) <==> forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> agg_holds(&net.aggregated_nodes@[k], net, st, #[trigger] net.aggregated_nodes@[k].flow(net, p.col, x), mn, mx)) by {
        if aggs_hold(ai, net, st, mn, mx, v, ai.len() as int) { assert forall|k: int| 0 <= k < net.aggregated_nodes@.len() implies agg_holds(&net.aggregated_nodes@[k], net, st, #[trigger] net.aggregated_nodes@[k].flow(net, p.col, x), mn, mx) by { let _k = (net.aggregated_nodes@[k], ai[k]); } }
        if forall|k: int| 0 <= k < net.aggregated_nodes@.len() ==> agg_holds(&net.aggregated_nodes@[k], net, st, #[trigger] net.aggregated_nodes@[k].flow(net, p.col, x), mn, mx) { assert forall|k: int| 0 <= k < ai.len() && k < net.aggregated_nodes@.len() implies agg_holds(&#[trigger] net.aggregated_nodes@[k], net, st, v(ai[k] as int), mn, mx) by { let _k = (net.aggregated_nodes@[k].flow(net, p.col, x), ai[k]); } }
    }
    assert(vss_hold(vi, net, t, st, mn, mx, v, vi.len() as int) <==> forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() ==> vs_holds(&net.virtual_storage_nodes@[k], t, st, #[trigger] net.virtual_storage_nodes@[k].change(net, p.col, x), mn, mx)) by {
        if vss_hold(vi, net, t, st, mn, mx, v, vi.len() as int) { assert forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() implies vs_holds(&net.virtual_storage_nodes@[k], t, st, #[trigger] net.virtual_storage_nodes@[k].change(net, p.col, x), mn, mx) by { let _k = (net.virtual_storage_nodes@[k], vi[k]); } }
        if forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() ==> vs_holds(&net.virtual_storage_nodes@[k], t, st, #[trigger] net.virtual_storage_nodes@[k].change(net, p.col, x), mn, mx) { assert forall|k: int| 0 <= k < vi.len() && k < net.virtual_storage_nodes@.len() implies vs_holds(&#[trigger] net.virtual_storage_nodes@[k], t, st, v(vi[k] as int), mn, mx) by { let _k = (net.virtual_storage_nodes@[k].change(net, p.col, x), vi[k]); } }
    }
}
/// a row without new coefficients keeps its value
pub proof fn plain_value(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State, r: usize, x: Flows)
    requires planned(net, s, p), plain(p, r as int), coefs_of_step(s, net, t, st), r < ms.len(), entry_ok(s, p.b.rows@[r as int], ms[r as int], r as int)
    ensures lin(entries_after(ms, s.builder.coefficients_to_update@)[r as int], x) == p.b.rows@[r as int].at(x)
{
    broadcast use lin_same;
    plain_is(net, s, p, r);
    let u = s.builder.coefficients_to_update@; let m = entries_after(ms, u)[r as int]; let row = p.b.rows@[r as int].columns@;
    assert(ucols(u, r) == Map::<usize, R>::empty());
    assert(m =~= ms[r as int]);
    assert forall|c: usize| #[trigger] m.contains_key(c) implies m[c]@ == row[c]@ by {
        assert(ms[r as int].contains_key(c));
        if place(s, r, c) { let ids = s.node_constraints_row_ids@; let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r && ids[j].bin() == c; assert(ids[j].binary()); assert(bin_row(ids, r, ids.len() as int)); }
    }
    assert(same_cols(m, row));
}
/// a row with a binary column
pub proof fn bin_value(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State, j: int, x: Flows)
    requires
        planned(net, s, p), coefs_of_step(s, net, t, st), 0 <= j < s.node_constraints_row_ids@.len(), s.node_constraints_row_ids@[j].binary(),
        s.node_constraints_row_ids@[j].row_id < ms.len(), entry_ok(s, p.b.rows@[s.node_constraints_row_ids@[j].row_id as int], ms[s.node_constraints_row_ids@[j].row_id as int], s.node_constraints_row_ids@[j].row_id as int)
    ensures ({
        let i = s.node_constraints_row_ids@[j]; let q = net.node(i.node_idx).flow(p.col, x);
        lin(entries_after(ms, s.builder.coefficients_to_update@)[i.row_id as int], x) == (if i.row_type is BinaryUpperBound { i.bin_coef(net, st, t.dy()) * x(i.bin() as int) - q } else { q + i.bin_coef(net, st, t.dy()) * x(i.bin() as int) })
    })
{
    broadcast use lin_same;
    let u = s.builder.coefficients_to_update@; let ids = s.node_constraints_row_ids@; let i = ids[j]; let r = i.row_id; let m = entries_after(ms, u)[r as int]; let row = p.b.rows@[r as int].columns@;
    let b = i.bin(); let w = ucols(u, r); let fs = s.agg_node_factor_constraint_row_ids@;
    bin_is(net, s, p, j); planned_cols(net, s, p); flow_unit(net, i.node_idx, p.col, p.nc, b as int);
    assert(one_coef(u, i, net, st, t.dy()));
    let old_m = row.insert(b, w[b]);
    if frow(fs, r, fs.len() as int, 0) { frow_is(net, s, p, r); }
    assert forall|c: usize| #[trigger] m.contains_key(c) == old_m.contains_key(c) by { let _k = (ms[r as int].contains_key(c), w.contains_key(c)); }
    assert forall|c: usize| #[trigger] m.contains_key(c) implies m[c]@ == old_m[c]@ by {
        let _k = (ms[r as int].contains_key(c), w.contains_key(c));
        if c != b && place(s, r, c) { let l = choose|l: int| 0 <= l < ids.len() && (#[trigger] ids[l]).binary() && ids[l].row_id == r && ids[l].bin() == c; if l != j { if l < j { assert(ids[l].row_id != ids[j].row_id); } else { assert(ids[j].row_id != ids[l].row_id); } } }
    }
    assert(same_cols(m, old_m));
    lin_insert(row, b, w[b], x); lin_unit(row, b);
    let g = unit(b as int); let _k = (p.b.rows@[r as int].at(g), p.b.rows@[r as int].at(x));
    let (v, k, y) = (w[b]@, coef(row, b), x(b as int));
    if i.row_type is BinaryUpperBound { assert(k == 1real); assert((v - 1real) * y == v * y - y) by (nonlinear_arith); } else { assert(k == -1real); assert((v - -1real) * y == v * y + y) by (nonlinear_arith); }
}
/// the values of the rows of a step
pub proof fn rows_mean(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State, v: Flows, x: Flows)
    requires
        planned(net, s, p), can_step(s, net, t, st), coefs_of_step(s, net, t, st), ms.len() == (p.b.rows@ + p.b.fixed_rows@).len(),
        forall|i: int| 0 <= i < ms.len() ==> entry_ok(s, (p.b.rows@ + p.b.fixed_rows@)[i], #[trigger] ms[i], i),
        forall|i: int| 0 <= i < ms.len() ==> #[trigger] v(i) == lin(entries_after(ms, s.builder.coefficients_to_update@)[i], x),
    ensures values_of(net, s, p, t, st, v, x)
{
    let u = s.builder.coefficients_to_update@; let ids = s.node_constraints_row_ids@; let fs = s.agg_node_factor_constraint_row_ids@; let ai = s.agg_node_constraint_row_ids@; let vi = s.virtual_storage_constraint_row_ids@;
    let rows = p.b.rows@ + p.b.fixed_rows@;
    planned_cols(net, s, p);
    assert forall|i: int| 0 <= i < p.b.rows@.len() implies entry_ok(s, #[trigger] p.b.rows@[i], ms[i], i) by { assert(rows[i] == p.b.rows@[i]); let _k = ms[i]; }
    assert forall|j: int| 0 <= j < ids.len() implies id_value(#[trigger] ids[j], net, p.col, st, t.dy(), v, x) by {
        let i = ids[j]; assert(node_row(p.b, i, net, p.bins, p.col)); let r = i.row_id; let _k = p.b.rows@[r as int]; let _v = v(r as int);
        if i.binary() { bin_value(net, s, p, ms, t, st, j, x); }
        else {
            assert forall|c: int| c >= p.nc implies p.b.rows@[r as int].at(#[trigger] unit(c)) == 0real by { flow_unit(net, i.node_idx, p.col, p.nc, c); let _a = p.b.rows@[r as int].at(unit(c)); }
            plain_value(net, s, p, ms, t, st, r, x); let _a = p.b.rows@[r as int].at(x);
        }
    }
    assert forall|k: int| 0 <= k < net.aggregated_nodes@.len() implies v(#[trigger] ai[k] as int) == net.aggregated_nodes@[k].flow(net, p.col, x) by {
        let r = ai[k]; let a = &net.aggregated_nodes@[k]; assert(agg_row(p.b, r, a, net, p.col)); let _k = p.b.rows@[r as int]; let _v = v(r as int);
        assert(net.aggregated_nodes@[k].known(net));
        assert forall|c: int| c >= p.nc implies p.b.rows@[r as int].at(#[trigger] unit(c)) == 0real by { gsum_unit(net, a.nodes@, p.col, p.nc, c, a.nodes@.len() as int); let _a = p.b.rows@[r as int].at(unit(c)); }
        plain_value(net, s, p, ms, t, st, r, x); let _a = p.b.rows@[r as int].at(x);
    }
    assert forall|k: int| 0 <= k < net.virtual_storage_nodes@.len() implies v(#[trigger] vi[k] as int) == net.virtual_storage_nodes@[k].change(net, p.col, x) by {
        let r = vi[k]; let a = &net.virtual_storage_nodes@[k]; assert(vs_row(p.b, r, a, net, p.col)); let _k = p.b.rows@[r as int]; let _v = v(r as int);
        assert forall|c: int| c >= p.nc implies p.b.rows@[r as int].at(#[trigger] unit(c)) == 0real by { taken_unit(net, a, p.col, p.nc, c, a.npairs()); let _a = p.b.rows@[r as int].at(unit(c)); }
        plain_value(net, s, p, ms, t, st, r, x); let _a = p.b.rows@[r as int].at(x);
    }
    assert forall|j: int, k: int| 0 <= j < fs.len() && 0 <= k < fs[j].row_indices@.len() && #[trigger] fs[j].row_indices@[k] is Some implies v(fs[j].row_indices@[k]->Some_0 as int) == fp_flow(fac(fs[j], net, st, k), net, p.col, x) by {
        factor_is(net, s, p, t, st, j, k);
        let r = fs[j].row_indices@[k]->Some_0; let w = ucols(u, r); let _k = p.b.rows@[r as int]; let _v = v(r as int);
        let m = entries_after(ms, u)[r as int];
        assert forall|q: usize| #[trigger] m.contains_key(q) == w.contains_key(q) by { let _k = ms[r as int].contains_key(q); }
        assert(m =~= w);
    }
}
/// x satisfies all rows
pub open spec fn feasible(lp: Lp, x: Flows) -> bool { forall|i: int| 0 <= i < lp.nrows() ==> #[trigger] lp.row_ok(i, x) }
impl Lp {
    pub open spec fn row_ok(self, i: int, x: Flows) -> bool {
        let q = self.sp().row(i, x);
        if self.row_mask@[i] == 1 { bounded(q, self.row_lower@[i]@, self.row_upper@[i]@, self.f64_neg_max, self.f64_max) } else { within(q, self.row_lower@[i]@, self.row_upper@[i]@, self.f64_max) }
    }
}
/// a step: the flows that satisfy all rows are those that satisfy what is known at setup and what must hold in this step, and the objective is their cost
pub proof fn step_means(net: &Network, s0: BuiltSolver, s1: BuiltSolver, s2: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, t: &Timestep, st: &State)
    requires
        planned(net, s0, p), ready(s0, p.b, ms), can_step(s0, net, t, st), updated(s0, s1), stepped(s1, net, t, st), applied(s1, s2), p.b.f64_neg_max@ < 0real,
    ensures
        planned(net, s2, p), ready(s2, p.b, entries_after(ms, s1.builder.coefficients_to_update@)),
        forall|x: Flows| #[trigger] feasible(s2.builder, x) <==> known_hold(net, p.c, p.bins, p.sm, p.col, p.b.f64_max, x) && step_hold(net, t, st, p, x),
        forall|x: Flows| #[trigger] objsum(s2.builder.col_obj_coef@, x, s2.builder.col_obj_coef@.len() as int) == cost_of(net, st, p.col, x, net.edges@.len() as int),
{
    step_ready(net, s0, s1, s2, p, ms, t, st);
    let u = s1.builder.coefficients_to_update@; let m2 = entries_after(ms, u); let lp = s2.builder; let rows = p.b.rows@ + p.b.fixed_rows@; let nv = p.b.rows@.len() as int;
    assert forall|x: Flows| #[trigger] feasible(lp, x) <==> known_hold(net, p.c, p.bins, p.sm, p.col, p.b.f64_max, x) && step_hold(net, t, st, p, x) by {
        let v: Flows = |i: int| lp.sp().row(i, x);
        assert forall|i: int| 0 <= i < ms.len() implies #[trigger] v(i) == lin(m2[i], x) by { assert(lp.sp().entries(i, m2[i])); let _k = lp.sp().row(i, x); }
        assert forall|i: int| 0 <= i < ms.len() implies entry_ok(s1, rows[i], #[trigger] ms[i], i) by { assert(entry_ok(s0, rows[i], ms[i], i)); assert forall|c: usize| #[trigger] ms[i].contains_key(c) && !place(s1, i as usize, c) implies ms[i][c]@ == rows[i].columns@[c]@ by { assert(!place(s0, i as usize, c)); } }
        rows_mean(net, s1, p, ms, t, st, v, x);
        bounds_mean(net, s1, p, t, st, v, x);
        let _b = s1.builder.bounds_hold(v);
        fixed_mean(net, s2, p, m2, x);
        let _h = all_hold(p.b.fixed_rows@, p.b.f64_max, x);
        if feasible(lp, x) {
            assert forall|i: int| 0 <= i < s1.builder.nrows() && s1.builder.row_mask@[i] == 1 implies #[trigger] s1.builder.bound_holds(i, v) by { assert(lp.row_ok(i, x)); }
            assert forall|i: int| nv <= i < rows.len() implies #[trigger] lp.row_ok(i, x) by {}
        }
        if s1.builder.bounds_hold(v) && (forall|i: int| nv <= i < rows.len() ==> #[trigger] lp.row_ok(i, x)) {
            assert forall|i: int| 0 <= i < lp.nrows() implies #[trigger] lp.row_ok(i, x) by { if i < nv { assert(lp.row_mask@[i] == 1); assert(s1.builder.bound_holds(i, v)); } }
        }
    }
    assert forall|x: Flows| #[trigger] objsum(lp.col_obj_coef@, x, lp.col_obj_coef@.len() as int) == cost_of(net, st, p.col, x, net.edges@.len() as int) by { let _k = objsum(s1.builder.col_obj_coef@, x, s1.builder.col_obj_coef@.len() as int); }
}
/// the rows whose bounds never change
pub proof fn fixed_mean(net: &Network, s: BuiltSolver, p: Plan, ms: Seq<Map<usize, R>>, x: Flows)
    requires planned(net, s, p), ready(s, p.b, ms)
    ensures all_hold(p.b.fixed_rows@, p.b.f64_max, x) <==> forall|i: int| p.b.rows@.len() <= i < (p.b.rows@ + p.b.fixed_rows@).len() ==> #[trigger] s.builder.row_ok(i, x)
{
    broadcast use lin_same;
    let lp = s.builder; let rows = p.b.rows@ + p.b.fixed_rows@; let nv = p.b.rows@.len() as int; let ids = s.node_constraints_row_ids@; let fs = s.agg_node_factor_constraint_row_ids@;
    assert(lp.row_lower.len() == lp.row_lower@.len());
    assert forall|i: int| nv <= i < rows.len() implies #[trigger] lp.row_ok(i, x) == row_holds(p.b.fixed_rows@[i - nv], p.b.f64_max, x) by {
        let row = rows[i]; let m = ms[i]; assert(row == p.b.fixed_rows@[i - nv]); let r = i as usize;
        assert forall|c: usize| #[trigger] m.contains_key(c) implies m[c]@ == row.columns@[c]@ by {
            if bin_place(ids, r, c) { let j = choose|j: int| 0 <= j < ids.len() && (#[trigger] ids[j]).binary() && ids[j].row_id == r && ids[j].bin() == c; assert(node_row(p.b, ids[j], net, p.bins, p.col)); }
            if frow(fs, r, fs.len() as int, 0) { frow_is(net, s, p, r); }
            assert(!place(s, r, c));
        }
        assert(same_cols(m, row.columns@)); assert(lp.sp().entries(i, m)); let _k = (lp.sp().row(i, x), row.at(x)); let _b = lp.row_mask@[i]; let _l = lp.row_lower@[i];
    }
    if all_hold(p.b.fixed_rows@, p.b.f64_max, x) { assert forall|i: int| nv <= i < rows.len() implies #[trigger] lp.row_ok(i, x) by { let _k = p.b.fixed_rows@[i - nv]; } }
    if forall|i: int| nv <= i < rows.len() ==> #[trigger] lp.row_ok(i, x) { assert forall|i: int| 0 <= i < p.b.fixed_rows@.len() implies row_holds(#[trigger] p.b.fixed_rows@[i], p.b.f64_max, x) by { assert(lp.row_ok(i + nv, x)); } }
}
