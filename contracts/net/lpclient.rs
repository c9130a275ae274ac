// A use of the contracts (not code of pywr-next): a step of a solver that updates its matrix in place.
pub fn one_step(b: &mut BuiltSolver, network: &Network, timestep: &Timestep, state: &State, timings: &mut SolverTimings, Ghost(p): Ghost<Plan>, Ghost(ms): Ghost<Seq<Map<usize, R>>>) -> (r: Result<(), E_>)
    requires planned(network, *old(b), p), ready(*old(b), p.b, ms), facs_nonzero(old(b).agg_node_factor_constraint_row_ids@, network, state), timestep.dy() > 0real, p.b.f64_neg_max@ < 0real
    ensures
        r is Ok == can_step(*old(b), network, timestep, state),
        r is Ok ==> planned(network, *final(b), p) && exists|m2: Seq<Map<usize, R>>| #[trigger] ready(*final(b), p.b, m2),
        r is Ok ==> forall|x: Flows| #[trigger] feasible(final(b).builder, x) <==> known_hold(network, p.c, p.bins, p.sm, p.col, p.b.f64_max, x) && step_hold(network, timestep, state, p, x),
        r is Ok ==> forall|x: Flows| #[trigger] objsum(final(b).builder.col_obj_coef@, x, final(b).builder.col_obj_coef@.len() as int) == cost_of(network, state, p.col, x, network.edges@.len() as int),
{
    proof { planned_step_ok(network, *b, p, ms, state); }
    let ghost s0 = *b;
    b.update(network, timestep, state, timings)?;
    let ghost s1 = *b;
    proof {
        assert(updated(s0, s1)); assert(planned(network, s1, p)); let rows = p.b.rows@ + p.b.fixed_rows@;
        assert forall|i: int| 0 <= i < ms.len() implies s1.builder.sp().entries(i, #[trigger] ms[i]) by { assert(s0.builder.sp().entries(i, ms[i])); let z = s0.builder.sp(); assert forall|x: Flows| #[trigger] s1.builder.sp().row(i, x) == lin(ms[i], x) by { let _k = z.row(i, x); } }
        assert forall|i: int| 0 <= i < ms.len() implies entry_ok(s1, rows[i], #[trigger] ms[i], i) by { assert(entry_ok(s0, rows[i], ms[i], i)); assert forall|c: usize| #[trigger] ms[i].contains_key(c) && !place(s1, i as usize, c) implies ms[i][c]@ == rows[i].columns@[c]@ by { assert(!place(s0, i as usize, c)); } }
        step_placed(network, s1, p, ms, timestep, state);
    }
    b.apply_updated_coefficients();
    proof { assert(applied(s1, *b)); step_means(network, s0, s1, *b, p, ms, timestep, state); }
    Ok(())
}
