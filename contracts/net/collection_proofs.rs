// What a run through the schedules of a collection amounts to: every parameter is evaluated once, what it gives is in its place
// for all that is evaluated later, and its own state is one step further. Lemmas over the contracts of units `evaluation` and `collection`.
proof fn lemma_still_bf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, a: int, b: int)
    requires before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_before_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.bf()[k]) is Some ==> c.bf()[k]->Some_0.p != i
    ensures tr[b].is.gf()[i] == tr[a].is.gf()[i]
    decreases b - a
{ reveal(qbf); if a < b { lemma_still_bf(c, ts, sc, net, tr, i, a, b - 1); let e = c.general_before_order@[b - 1]; assert(c.bf()[b - 1] == pbf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_bf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, out: int, a: int, b: int)
    requires before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_before_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.bf()[k]) is Some ==> c.bf()[k]->Some_0.out != Some(out)
    ensures tr[b].st.bpv().v[out] == tr[a].st.bpv().v[out]
    decreases b - a
{ reveal(qbf); if a < b { lemma_left_bf(c, ts, sc, net, tr, out, a, b - 1); let e = c.general_before_order@[b - 1]; assert(c.bf()[b - 1] == pbf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_bf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.general_before_order@.len() && match c.general_before_order@[k] { GeneralBeforeScheduleEntry::F64 { index, parameter, output } => index.0 == i && c.general_f64@[i].before == Some(parameter) && parameter.before_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gf()[i], tr.last().is.gf()[i], tr.last().st.bpv().v[output.0 as int]) && (forall|j: int| k < j <= c.general_before_order@.len() ==> (#[trigger] tr[j]).st.bpv().v[output.0 as int] == tr.last().st.bpv().v[output.0 as int]), _ => false } && forall|l: int| 0 <= l < c.general_before_order@.len() && (#[trigger] c.bf()[l]) is Some && c.bf()[l]->Some_0.p == i ==> l == k
}
proof fn theorem_bf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= i < c.general_f64@.len(), c.general_f64@[i].before is Some
    ensures once_bf(c, ts, sc, net, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qbf);
    let s = c.bf(); let n = c.general_before_order@.len() as int; let _h = has_b(c.general_f64@)[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.general_before_order@[k]; assert(s[k] == pbf(e));
    lemma_still_bf(c, ts, sc, net, tr, i, 0, k); lemma_still_bf(c, ts, sc, net, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.bpv().v[out] == tr.last().st.bpv().v[out] by { lemma_left_bf(c, ts, sc, net, tr, out, j, n); }
        lemma_left_bf(c, ts, sc, net, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_bu(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, a: int, b: int)
    requires before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_before_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.bu()[k]) is Some ==> c.bu()[k]->Some_0.p != i
    ensures tr[b].is.gu()[i] == tr[a].is.gu()[i]
    decreases b - a
{ reveal(qbu); if a < b { lemma_still_bu(c, ts, sc, net, tr, i, a, b - 1); let e = c.general_before_order@[b - 1]; assert(c.bu()[b - 1] == pbu(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_bu(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, out: int, a: int, b: int)
    requires before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_before_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.bu()[k]) is Some ==> c.bu()[k]->Some_0.out != Some(out)
    ensures tr[b].st.bpv().i[out] == tr[a].st.bpv().i[out]
    decreases b - a
{ reveal(qbu); if a < b { lemma_left_bu(c, ts, sc, net, tr, out, a, b - 1); let e = c.general_before_order@[b - 1]; assert(c.bu()[b - 1] == pbu(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_bu(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.general_before_order@.len() && match c.general_before_order@[k] { GeneralBeforeScheduleEntry::U64 { index, parameter, output } => index.0 == i && c.general_u64@[i].before == Some(parameter) && parameter.before_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gu()[i], tr.last().is.gu()[i], tr.last().st.bpv().i[output.0 as int]) && (forall|j: int| k < j <= c.general_before_order@.len() ==> (#[trigger] tr[j]).st.bpv().i[output.0 as int] == tr.last().st.bpv().i[output.0 as int]), _ => false } && forall|l: int| 0 <= l < c.general_before_order@.len() && (#[trigger] c.bu()[l]) is Some && c.bu()[l]->Some_0.p == i ==> l == k
}
proof fn theorem_bu(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= i < c.general_u64@.len(), c.general_u64@[i].before is Some
    ensures once_bu(c, ts, sc, net, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qbu);
    let s = c.bu(); let n = c.general_before_order@.len() as int; let _h = has_b(c.general_u64@)[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.general_before_order@[k]; assert(s[k] == pbu(e));
    lemma_still_bu(c, ts, sc, net, tr, i, 0, k); lemma_still_bu(c, ts, sc, net, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.bpv().i[out] == tr.last().st.bpv().i[out] by { lemma_left_bu(c, ts, sc, net, tr, out, j, n); }
        lemma_left_bu(c, ts, sc, net, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_bm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, a: int, b: int)
    requires before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_before_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.bm()[k]) is Some ==> c.bm()[k]->Some_0.p != i
    ensures tr[b].is.gm()[i] == tr[a].is.gm()[i]
    decreases b - a
{ reveal(qbm); if a < b { lemma_still_bm(c, ts, sc, net, tr, i, a, b - 1); let e = c.general_before_order@[b - 1]; assert(c.bm()[b - 1] == pbm(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_bm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, out: int, a: int, b: int)
    requires before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_before_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.bm()[k]) is Some ==> c.bm()[k]->Some_0.out != Some(out)
    ensures tr[b].st.bpv().m[out] == tr[a].st.bpv().m[out]
    decreases b - a
{ reveal(qbm); if a < b { lemma_left_bm(c, ts, sc, net, tr, out, a, b - 1); let e = c.general_before_order@[b - 1]; assert(c.bm()[b - 1] == pbm(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_bm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.general_before_order@.len() && match c.general_before_order@[k] { GeneralBeforeScheduleEntry::Multi { index, parameter, output } => index.0 == i && c.general_multi@[i].before == Some(parameter) && parameter.before_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gm()[i], tr.last().is.gm()[i], tr.last().st.bpv().m[output.0 as int]) && (forall|j: int| k < j <= c.general_before_order@.len() ==> (#[trigger] tr[j]).st.bpv().m[output.0 as int] == tr.last().st.bpv().m[output.0 as int]), _ => false } && forall|l: int| 0 <= l < c.general_before_order@.len() && (#[trigger] c.bm()[l]) is Some && c.bm()[l]->Some_0.p == i ==> l == k
}
proof fn theorem_bm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), before_run(c, c.general_before_order@.len() as int, ts, sc, net, tr), 0 <= i < c.general_multi@.len(), c.general_multi@[i].before is Some
    ensures once_bm(c, ts, sc, net, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qbm);
    let s = c.bm(); let n = c.general_before_order@.len() as int; let _h = has_b(c.general_multi@)[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.general_before_order@[k]; assert(s[k] == pbm(e));
    lemma_still_bm(c, ts, sc, net, tr, i, 0, k); lemma_still_bm(c, ts, sc, net, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.bpv().m[out] == tr.last().st.bpv().m[out] by { lemma_left_bm(c, ts, sc, net, tr, out, j, n); }
        lemma_left_bm(c, ts, sc, net, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_af(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, a: int, b: int)
    requires after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_after_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.af()[k]) is Some ==> c.af()[k]->Some_0.p != i
    ensures tr[b].is.gf()[i] == tr[a].is.gf()[i]
    decreases b - a
{ reveal(qaf); if a < b { lemma_still_af(c, ts, sc, net, tr, i, a, b - 1); let e = c.general_after_order@[b - 1]; assert(c.af()[b - 1] == paf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_af(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, out: int, a: int, b: int)
    requires after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_after_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.af()[k]) is Some ==> c.af()[k]->Some_0.out != Some(out)
    ensures tr[b].st.apv().v[out] == tr[a].st.apv().v[out]
    decreases b - a
{ reveal(qaf); if a < b { lemma_left_af(c, ts, sc, net, tr, out, a, b - 1); let e = c.general_after_order@[b - 1]; assert(c.af()[b - 1] == paf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_af(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.general_after_order@.len() && match c.general_after_order@[k] { GeneralAfterScheduleEntry::F64 { index, op } => index.0 == i && match op {
            GeneralAfterScheduleOperation::Value { parameter, output } => c.general_f64@[i].after->Some_0 == GeneralAfterOperation::Value(parameter) && parameter.after_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gf()[i], tr.last().is.gf()[i], tr.last().st.apv().v[output.0 as int]) && (forall|j: int| k < j <= c.general_after_order@.len() ==> (#[trigger] tr[j]).st.apv().v[output.0 as int] == tr.last().st.apv().v[output.0 as int]),
            GeneralAfterScheduleOperation::Hook { parameter } => c.general_f64@[i].after->Some_0 == GeneralAfterOperation::Hook(parameter) && parameter.hook_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gf()[i], tr.last().is.gf()[i]) }, _ => false } && forall|l: int| 0 <= l < c.general_after_order@.len() && (#[trigger] c.af()[l]) is Some && c.af()[l]->Some_0.p == i ==> l == k
}
proof fn theorem_af(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= i < c.general_f64@.len(), c.general_f64@[i].after is Some
    ensures once_af(c, ts, sc, net, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qaf);
    let s = c.af(); let n = c.general_after_order@.len() as int; let _h = has_a(c.general_f64@)[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.general_after_order@[k]; assert(s[k] == paf(e));
    lemma_still_af(c, ts, sc, net, tr, i, 0, k); lemma_still_af(c, ts, sc, net, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.apv().v[out] == tr.last().st.apv().v[out] by { lemma_left_af(c, ts, sc, net, tr, out, j, n); }
        lemma_left_af(c, ts, sc, net, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_au(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, a: int, b: int)
    requires after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_after_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.au()[k]) is Some ==> c.au()[k]->Some_0.p != i
    ensures tr[b].is.gu()[i] == tr[a].is.gu()[i]
    decreases b - a
{ reveal(qau); if a < b { lemma_still_au(c, ts, sc, net, tr, i, a, b - 1); let e = c.general_after_order@[b - 1]; assert(c.au()[b - 1] == pau(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_au(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, out: int, a: int, b: int)
    requires after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_after_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.au()[k]) is Some ==> c.au()[k]->Some_0.out != Some(out)
    ensures tr[b].st.apv().i[out] == tr[a].st.apv().i[out]
    decreases b - a
{ reveal(qau); if a < b { lemma_left_au(c, ts, sc, net, tr, out, a, b - 1); let e = c.general_after_order@[b - 1]; assert(c.au()[b - 1] == pau(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_au(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.general_after_order@.len() && match c.general_after_order@[k] { GeneralAfterScheduleEntry::U64 { index, op } => index.0 == i && match op {
            GeneralAfterScheduleOperation::Value { parameter, output } => c.general_u64@[i].after->Some_0 == GeneralAfterOperation::Value(parameter) && parameter.after_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gu()[i], tr.last().is.gu()[i], tr.last().st.apv().i[output.0 as int]) && (forall|j: int| k < j <= c.general_after_order@.len() ==> (#[trigger] tr[j]).st.apv().i[output.0 as int] == tr.last().st.apv().i[output.0 as int]),
            GeneralAfterScheduleOperation::Hook { parameter } => c.general_u64@[i].after->Some_0 == GeneralAfterOperation::Hook(parameter) && parameter.hook_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gu()[i], tr.last().is.gu()[i]) }, _ => false } && forall|l: int| 0 <= l < c.general_after_order@.len() && (#[trigger] c.au()[l]) is Some && c.au()[l]->Some_0.p == i ==> l == k
}
proof fn theorem_au(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= i < c.general_u64@.len(), c.general_u64@[i].after is Some
    ensures once_au(c, ts, sc, net, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qau);
    let s = c.au(); let n = c.general_after_order@.len() as int; let _h = has_a(c.general_u64@)[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.general_after_order@[k]; assert(s[k] == pau(e));
    lemma_still_au(c, ts, sc, net, tr, i, 0, k); lemma_still_au(c, ts, sc, net, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.apv().i[out] == tr.last().st.apv().i[out] by { lemma_left_au(c, ts, sc, net, tr, out, j, n); }
        lemma_left_au(c, ts, sc, net, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_am(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, a: int, b: int)
    requires after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_after_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.am()[k]) is Some ==> c.am()[k]->Some_0.p != i
    ensures tr[b].is.gm()[i] == tr[a].is.gm()[i]
    decreases b - a
{ reveal(qam); if a < b { lemma_still_am(c, ts, sc, net, tr, i, a, b - 1); let e = c.general_after_order@[b - 1]; assert(c.am()[b - 1] == pam(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_am(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, out: int, a: int, b: int)
    requires after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= a <= b <= c.general_after_order@.len(), forall|k: int| a <= k < b && (#[trigger] c.am()[k]) is Some ==> c.am()[k]->Some_0.out != Some(out)
    ensures tr[b].st.apv().m[out] == tr[a].st.apv().m[out]
    decreases b - a
{ reveal(qam); if a < b { lemma_left_am(c, ts, sc, net, tr, out, a, b - 1); let e = c.general_after_order@[b - 1]; assert(c.am()[b - 1] == pam(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_am(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.general_after_order@.len() && match c.general_after_order@[k] { GeneralAfterScheduleEntry::Multi { index, op } => index.0 == i && match op {
            GeneralAfterScheduleOperation::Value { parameter, output } => c.general_multi@[i].after->Some_0 == GeneralAfterOperation::Value(parameter) && parameter.after_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gm()[i], tr.last().is.gm()[i], tr.last().st.apv().m[output.0 as int]) && (forall|j: int| k < j <= c.general_after_order@.len() ==> (#[trigger] tr[j]).st.apv().m[output.0 as int] == tr.last().st.apv().m[output.0 as int]),
            GeneralAfterScheduleOperation::Hook { parameter } => c.general_multi@[i].after->Some_0 == GeneralAfterOperation::Hook(parameter) && parameter.hook_step(gctx(ts, sc, net, &tr[k].st), tr[0].is.gm()[i], tr.last().is.gm()[i]) }, _ => false } && forall|l: int| 0 <= l < c.general_after_order@.len() && (#[trigger] c.am()[l]) is Some && c.am()[l]->Some_0.p == i ==> l == k
}
proof fn theorem_am(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), after_run(c, c.general_after_order@.len() as int, ts, sc, net, tr), 0 <= i < c.general_multi@.len(), c.general_multi@[i].after is Some
    ensures once_am(c, ts, sc, net, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qam);
    let s = c.am(); let n = c.general_after_order@.len() as int; let _h = has_a(c.general_multi@)[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.general_after_order@[k]; assert(s[k] == pam(e));
    lemma_still_am(c, ts, sc, net, tr, i, 0, k); lemma_still_am(c, ts, sc, net, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.apv().m[out] == tr.last().st.apv().m[out] by { lemma_left_am(c, ts, sc, net, tr, out, j, n); }
        lemma_left_am(c, ts, sc, net, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_sf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, a: int, b: int)
    requires simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= a <= b <= c.simple_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qsf(c.simple_resolve_order@)[k]) is Some ==> qsf(c.simple_resolve_order@)[k]->Some_0.p != i
    ensures tr[b].is.sf()[i] == tr[a].is.sf()[i]
    decreases b - a
{ reveal(qsf); if a < b { lemma_still_sf(c, ts, sc, tr, i, a, b - 1); let e = c.simple_resolve_order@[b - 1]; assert(qsf(c.simple_resolve_order@)[b - 1] == psf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_sf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, out: int, a: int, b: int)
    requires simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= a <= b <= c.simple_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qsf(c.simple_resolve_order@)[k]) is Some ==> qsf(c.simple_resolve_order@)[k]->Some_0.out != Some(out)
    ensures tr[b].st.spv().v[out] == tr[a].st.spv().v[out]
    decreases b - a
{ reveal(qsf); if a < b { lemma_left_sf(c, ts, sc, tr, out, a, b - 1); let e = c.simple_resolve_order@[b - 1]; assert(qsf(c.simple_resolve_order@)[b - 1] == psf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_sf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.simple_resolve_order@.len() && match c.simple_resolve_order@[k] { SimpleParameterType::Parameter(n) => n.0 == i && c.simple_f64@[i].simple_step(*ts, *sc, tr[k].st.cpv(), tr[k].st.spv(), tr[0].is.sf()[i], tr.last().is.sf()[i], tr.last().st.spv().v[i]) && (forall|j: int| k < j <= c.simple_resolve_order@.len() ==> (#[trigger] tr[j]).st.spv().v[i] == tr.last().st.spv().v[i]), _ => false } && forall|l: int| 0 <= l < c.simple_resolve_order@.len() && (#[trigger] qsf(c.simple_resolve_order@)[l]) is Some && qsf(c.simple_resolve_order@)[l]->Some_0.p == i ==> l == k
}
proof fn theorem_sf(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= i < c.simple_f64@.len(), true
    ensures once_sf(c, ts, sc, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qsf);
    let s = qsf(c.simple_resolve_order@); let n = c.simple_resolve_order@.len() as int; let _h = has_all(c.simple_f64@.len())[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.simple_resolve_order@[k]; assert(s[k] == psf(e));
    lemma_still_sf(c, ts, sc, tr, i, 0, k); lemma_still_sf(c, ts, sc, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.spv().v[out] == tr.last().st.spv().v[out] by { lemma_left_sf(c, ts, sc, tr, out, j, n); }
        lemma_left_sf(c, ts, sc, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_su(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, a: int, b: int)
    requires simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= a <= b <= c.simple_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qsu(c.simple_resolve_order@)[k]) is Some ==> qsu(c.simple_resolve_order@)[k]->Some_0.p != i
    ensures tr[b].is.su()[i] == tr[a].is.su()[i]
    decreases b - a
{ reveal(qsu); if a < b { lemma_still_su(c, ts, sc, tr, i, a, b - 1); let e = c.simple_resolve_order@[b - 1]; assert(qsu(c.simple_resolve_order@)[b - 1] == psu(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_su(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, out: int, a: int, b: int)
    requires simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= a <= b <= c.simple_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qsu(c.simple_resolve_order@)[k]) is Some ==> qsu(c.simple_resolve_order@)[k]->Some_0.out != Some(out)
    ensures tr[b].st.spv().i[out] == tr[a].st.spv().i[out]
    decreases b - a
{ reveal(qsu); if a < b { lemma_left_su(c, ts, sc, tr, out, a, b - 1); let e = c.simple_resolve_order@[b - 1]; assert(qsu(c.simple_resolve_order@)[b - 1] == psu(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_su(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.simple_resolve_order@.len() && match c.simple_resolve_order@[k] { SimpleParameterType::Index(n) => n.0 == i && c.simple_u64@[i].simple_step(*ts, *sc, tr[k].st.cpv(), tr[k].st.spv(), tr[0].is.su()[i], tr.last().is.su()[i], tr.last().st.spv().i[i]) && (forall|j: int| k < j <= c.simple_resolve_order@.len() ==> (#[trigger] tr[j]).st.spv().i[i] == tr.last().st.spv().i[i]), _ => false } && forall|l: int| 0 <= l < c.simple_resolve_order@.len() && (#[trigger] qsu(c.simple_resolve_order@)[l]) is Some && qsu(c.simple_resolve_order@)[l]->Some_0.p == i ==> l == k
}
proof fn theorem_su(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= i < c.simple_u64@.len(), true
    ensures once_su(c, ts, sc, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qsu);
    let s = qsu(c.simple_resolve_order@); let n = c.simple_resolve_order@.len() as int; let _h = has_all(c.simple_u64@.len())[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.simple_resolve_order@[k]; assert(s[k] == psu(e));
    lemma_still_su(c, ts, sc, tr, i, 0, k); lemma_still_su(c, ts, sc, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.spv().i[out] == tr.last().st.spv().i[out] by { lemma_left_su(c, ts, sc, tr, out, j, n); }
        lemma_left_su(c, ts, sc, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_sm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, a: int, b: int)
    requires simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= a <= b <= c.simple_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qsm(c.simple_resolve_order@)[k]) is Some ==> qsm(c.simple_resolve_order@)[k]->Some_0.p != i
    ensures tr[b].is.sm()[i] == tr[a].is.sm()[i]
    decreases b - a
{ reveal(qsm); if a < b { lemma_still_sm(c, ts, sc, tr, i, a, b - 1); let e = c.simple_resolve_order@[b - 1]; assert(qsm(c.simple_resolve_order@)[b - 1] == psm(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_sm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, out: int, a: int, b: int)
    requires simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= a <= b <= c.simple_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qsm(c.simple_resolve_order@)[k]) is Some ==> qsm(c.simple_resolve_order@)[k]->Some_0.out != Some(out)
    ensures tr[b].st.spv().m[out] == tr[a].st.spv().m[out]
    decreases b - a
{ reveal(qsm); if a < b { lemma_left_sm(c, ts, sc, tr, out, a, b - 1); let e = c.simple_resolve_order@[b - 1]; assert(qsm(c.simple_resolve_order@)[b - 1] == psm(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_sm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.simple_resolve_order@.len() && match c.simple_resolve_order@[k] { SimpleParameterType::Multi(n) => n.0 == i && c.simple_multi@[i].simple_step(*ts, *sc, tr[k].st.cpv(), tr[k].st.spv(), tr[0].is.sm()[i], tr.last().is.sm()[i], tr.last().st.spv().m[i]) && (forall|j: int| k < j <= c.simple_resolve_order@.len() ==> (#[trigger] tr[j]).st.spv().m[i] == tr.last().st.spv().m[i]), _ => false } && forall|l: int| 0 <= l < c.simple_resolve_order@.len() && (#[trigger] qsm(c.simple_resolve_order@)[l]) is Some && qsm(c.simple_resolve_order@)[l]->Some_0.p == i ==> l == k
}
proof fn theorem_sm(c: ParameterCollection, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), simple_run(c, c.simple_resolve_order@.len() as int, ts, sc, tr), 0 <= i < c.simple_multi@.len(), true
    ensures once_sm(c, ts, sc, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qsm);
    let s = qsm(c.simple_resolve_order@); let n = c.simple_resolve_order@.len() as int; let _h = has_all(c.simple_multi@.len())[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.simple_resolve_order@[k]; assert(s[k] == psm(e));
    lemma_still_sm(c, ts, sc, tr, i, 0, k); lemma_still_sm(c, ts, sc, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.spv().m[out] == tr.last().st.spv().m[out] by { lemma_left_sm(c, ts, sc, tr, out, j, n); }
        lemma_left_sm(c, ts, sc, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_cf(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, a: int, b: int)
    requires const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= a <= b <= c.constant_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qcf(c.constant_resolve_order@)[k]) is Some ==> qcf(c.constant_resolve_order@)[k]->Some_0.p != i
    ensures tr[b].is.cf()[i] == tr[a].is.cf()[i]
    decreases b - a
{ reveal(qcf); if a < b { lemma_still_cf(c, sc, tr, i, a, b - 1); let e = c.constant_resolve_order@[b - 1]; assert(qcf(c.constant_resolve_order@)[b - 1] == pcf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_cf(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, out: int, a: int, b: int)
    requires const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= a <= b <= c.constant_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qcf(c.constant_resolve_order@)[k]) is Some ==> qcf(c.constant_resolve_order@)[k]->Some_0.out != Some(out)
    ensures tr[b].st.cpv().v[out] == tr[a].st.cpv().v[out]
    decreases b - a
{ reveal(qcf); if a < b { lemma_left_cf(c, sc, tr, out, a, b - 1); let e = c.constant_resolve_order@[b - 1]; assert(qcf(c.constant_resolve_order@)[b - 1] == pcf(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_cf(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.constant_resolve_order@.len() && match c.constant_resolve_order@[k] { ConstParameterType::Parameter(n) => n.0 == i && c.constant_f64@[i].const_step(*sc, tr[k].st.cpv(), tr[0].is.cf()[i], tr.last().is.cf()[i], tr.last().st.cpv().v[i]) && (forall|j: int| k < j <= c.constant_resolve_order@.len() ==> (#[trigger] tr[j]).st.cpv().v[i] == tr.last().st.cpv().v[i]), _ => false } && forall|l: int| 0 <= l < c.constant_resolve_order@.len() && (#[trigger] qcf(c.constant_resolve_order@)[l]) is Some && qcf(c.constant_resolve_order@)[l]->Some_0.p == i ==> l == k
}
proof fn theorem_cf(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= i < c.constant_f64@.len(), true
    ensures once_cf(c, sc, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qcf);
    let s = qcf(c.constant_resolve_order@); let n = c.constant_resolve_order@.len() as int; let _h = has_all(c.constant_f64@.len())[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.constant_resolve_order@[k]; assert(s[k] == pcf(e));
    lemma_still_cf(c, sc, tr, i, 0, k); lemma_still_cf(c, sc, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.cpv().v[out] == tr.last().st.cpv().v[out] by { lemma_left_cf(c, sc, tr, out, j, n); }
        lemma_left_cf(c, sc, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_cu(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, a: int, b: int)
    requires const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= a <= b <= c.constant_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qcu(c.constant_resolve_order@)[k]) is Some ==> qcu(c.constant_resolve_order@)[k]->Some_0.p != i
    ensures tr[b].is.cu()[i] == tr[a].is.cu()[i]
    decreases b - a
{ reveal(qcu); if a < b { lemma_still_cu(c, sc, tr, i, a, b - 1); let e = c.constant_resolve_order@[b - 1]; assert(qcu(c.constant_resolve_order@)[b - 1] == pcu(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_cu(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, out: int, a: int, b: int)
    requires const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= a <= b <= c.constant_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qcu(c.constant_resolve_order@)[k]) is Some ==> qcu(c.constant_resolve_order@)[k]->Some_0.out != Some(out)
    ensures tr[b].st.cpv().i[out] == tr[a].st.cpv().i[out]
    decreases b - a
{ reveal(qcu); if a < b { lemma_left_cu(c, sc, tr, out, a, b - 1); let e = c.constant_resolve_order@[b - 1]; assert(qcu(c.constant_resolve_order@)[b - 1] == pcu(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_cu(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.constant_resolve_order@.len() && match c.constant_resolve_order@[k] { ConstParameterType::Index(n) => n.0 == i && c.constant_u64@[i].const_step(*sc, tr[k].st.cpv(), tr[0].is.cu()[i], tr.last().is.cu()[i], tr.last().st.cpv().i[i]) && (forall|j: int| k < j <= c.constant_resolve_order@.len() ==> (#[trigger] tr[j]).st.cpv().i[i] == tr.last().st.cpv().i[i]), _ => false } && forall|l: int| 0 <= l < c.constant_resolve_order@.len() && (#[trigger] qcu(c.constant_resolve_order@)[l]) is Some && qcu(c.constant_resolve_order@)[l]->Some_0.p == i ==> l == k
}
proof fn theorem_cu(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= i < c.constant_u64@.len(), true
    ensures once_cu(c, sc, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qcu);
    let s = qcu(c.constant_resolve_order@); let n = c.constant_resolve_order@.len() as int; let _h = has_all(c.constant_u64@.len())[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.constant_resolve_order@[k]; assert(s[k] == pcu(e));
    lemma_still_cu(c, sc, tr, i, 0, k); lemma_still_cu(c, sc, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.cpv().i[out] == tr.last().st.cpv().i[out] by { lemma_left_cu(c, sc, tr, out, j, n); }
        lemma_left_cu(c, sc, tr, out, k + 1, n);
    }
    k
}
proof fn lemma_still_cm(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, a: int, b: int)
    requires const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= a <= b <= c.constant_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qcm(c.constant_resolve_order@)[k]) is Some ==> qcm(c.constant_resolve_order@)[k]->Some_0.p != i
    ensures tr[b].is.cm()[i] == tr[a].is.cm()[i]
    decreases b - a
{ reveal(qcm); if a < b { lemma_still_cm(c, sc, tr, i, a, b - 1); let e = c.constant_resolve_order@[b - 1]; assert(qcm(c.constant_resolve_order@)[b - 1] == pcm(e)); assert(tr[b - 1 + 1] == tr[b]); } }
proof fn lemma_left_cm(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, out: int, a: int, b: int)
    requires const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= a <= b <= c.constant_resolve_order@.len(), forall|k: int| a <= k < b && (#[trigger] qcm(c.constant_resolve_order@)[k]) is Some ==> qcm(c.constant_resolve_order@)[k]->Some_0.out != Some(out)
    ensures tr[b].st.cpv().m[out] == tr[a].st.cpv().m[out]
    decreases b - a
{ reveal(qcm); if a < b { lemma_left_cm(c, sc, tr, out, a, b - 1); let e = c.constant_resolve_order@[b - 1]; assert(qcm(c.constant_resolve_order@)[b - 1] == pcm(e)); assert(tr[b - 1 + 1] == tr[b]); } }
/// the parameter `i` is evaluated at the place `k` of the schedule and nowhere else; what comes out of it stays
pub open spec fn once_cm(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int, k: int) -> bool {
    0 <= k < c.constant_resolve_order@.len() && match c.constant_resolve_order@[k] { ConstParameterType::Multi(n) => n.0 == i && c.constant_multi@[i].const_step(*sc, tr[k].st.cpv(), tr[0].is.cm()[i], tr.last().is.cm()[i], tr.last().st.cpv().m[i]) && (forall|j: int| k < j <= c.constant_resolve_order@.len() ==> (#[trigger] tr[j]).st.cpv().m[i] == tr.last().st.cpv().m[i]), _ => false } && forall|l: int| 0 <= l < c.constant_resolve_order@.len() && (#[trigger] qcm(c.constant_resolve_order@)[l]) is Some && qcm(c.constant_resolve_order@)[l]->Some_0.p == i ==> l == k
}
proof fn theorem_cm(c: ParameterCollection, sc: &ScenarioIndex, tr: Seq<Sit>, i: int) -> (k: int)
    requires c.scheduled(), const_run(c, c.constant_resolve_order@.len() as int, sc, tr), 0 <= i < c.constant_multi@.len(), true
    ensures once_cm(c, sc, tr, i, k)
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all); reveal(qcm);
    let s = qcm(c.constant_resolve_order@); let n = c.constant_resolve_order@.len() as int; let _h = has_all(c.constant_multi@.len())[i];
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some && s[k]->Some_0.p == i;
    let e = c.constant_resolve_order@[k]; assert(s[k] == pcm(e));
    lemma_still_cm(c, sc, tr, i, 0, k); lemma_still_cm(c, sc, tr, i, k + 1, n);
    assert(tr.last() == tr[n]);
    if s[k]->Some_0.out is Some {
        let out = s[k]->Some_0.out->Some_0;
        assert forall|j: int| k < j <= n implies (#[trigger] tr[j]).st.cpv().m[out] == tr.last().st.cpv().m[out] by { lemma_left_cm(c, sc, tr, out, j, n); }
        lemma_left_cm(c, sc, tr, out, k + 1, n);
    }
    k
}
