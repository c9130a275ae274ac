// What one evaluation does, and what evaluating a whole schedule does. Proved in unit `evaluation`.
pub ghost struct Sit { pub st: State, pub is: ParameterStates }
pub open spec fn gctx<'a>(ts: &'a Timestep, sc: &'a ScenarioIndex, net: &'a Network, st: &'a State) -> GeneralParameterContext<'a> { GeneralParameterContext { timestep: ts, scenario_index: sc, network: net, state: st } }
impl ParameterStates {
    // every list of internal states, and that nothing but the k-th of one list differs
    pub open spec fn gf(&self) -> Seq<IS> { self.general.f64@ }
    pub open spec fn gu(&self) -> Seq<IS> { self.general.u64@ }
    pub open spec fn gm(&self) -> Seq<IS> { self.general.multi@ }
    pub open spec fn sf(&self) -> Seq<IS> { self.simple.f64@ }
    pub open spec fn su(&self) -> Seq<IS> { self.simple.u64@ }
    pub open spec fn sm(&self) -> Seq<IS> { self.simple.multi@ }
    pub open spec fn cf(&self) -> Seq<IS> { self.constant.f64@ }
    pub open spec fn cu(&self) -> Seq<IS> { self.constant.u64@ }
    pub open spec fn cm(&self) -> Seq<IS> { self.constant.multi@ }
    pub open spec fn same_g(&self, o: ParameterStates) -> bool { self.gf() == o.gf() && self.gu() == o.gu() && self.gm() == o.gm() }
    pub open spec fn same_s(&self, o: ParameterStates) -> bool { self.sf() == o.sf() && self.su() == o.su() && self.sm() == o.sm() }
    pub open spec fn same_c(&self, o: ParameterStates) -> bool { self.cf() == o.cf() && self.cu() == o.cu() && self.cm() == o.cm() }
}
/// only the k-th internal state differs
pub open spec fn one(a: Seq<IS>, b: Seq<IS>, k: int) -> bool { 0 <= k < a.len() && b == a.update(k, b[k]) }
impl State {
    pub open spec fn rest_b(&self, o: State) -> bool { self.cpv() == o.cpv() && self.spv() == o.spv() && self.apv() == o.apv() && self.inter_network_values@ == o.inter_network_values@ && self.network == o.network }
    pub open spec fn rest_a(&self, o: State) -> bool { self.cpv() == o.cpv() && self.spv() == o.spv() && self.bpv() == o.bpv() && self.inter_network_values@ == o.inter_network_values@ && self.network == o.network }
    pub open spec fn rest_s(&self, o: State) -> bool { self.cpv() == o.cpv() && self.bpv() == o.bpv() && self.apv() == o.apv() && self.inter_network_values@ == o.inter_network_values@ && self.network == o.network }
    pub open spec fn rest_c(&self, o: State) -> bool { self.spv() == o.spv() && self.bpv() == o.bpv() && self.apv() == o.apv() && self.inter_network_values@ == o.inter_network_values@ && self.network == o.network }
}
// the values differ in one place only
pub open spec fn putf(a: PV, b: PV, k: int) -> bool { 0 <= k < a.v.len() && b == (PV { v: a.v.update(k, b.v[k]), ..a }) && !nanq(b.v[k]) }
pub open spec fn putu(a: PV, b: PV, k: int) -> bool { 0 <= k < a.i.len() && b == (PV { i: a.i.update(k, b.i[k]), ..a }) }
pub open spec fn putm(a: PV, b: PV, k: int) -> bool { 0 <= k < a.m.len() && b == (PV { m: a.m.update(k, b.m[k]), ..a }) }

/// one entry of the schedule before the network is solved
pub open spec fn before_entry(e: GeneralBeforeScheduleEntry, ts: &Timestep, sc: &ScenarioIndex, net: &Network, a: Sit, b: Sit) -> bool {
    b.st.rest_b(a.st) && b.is.same_s(a.is) && b.is.same_c(a.is) && match e {
        GeneralBeforeScheduleEntry::F64 { index, parameter, output } => one(a.is.gf(), b.is.gf(), index.0 as int) && b.is.gu() == a.is.gu() && b.is.gm() == a.is.gm()
            && putf(a.st.bpv(), b.st.bpv(), output.0 as int) && parameter.before_step(gctx(ts, sc, net, &a.st), a.is.gf()[index.0 as int], b.is.gf()[index.0 as int], b.st.bpv().v[output.0 as int]),
        GeneralBeforeScheduleEntry::U64 { index, parameter, output } => one(a.is.gu(), b.is.gu(), index.0 as int) && b.is.gf() == a.is.gf() && b.is.gm() == a.is.gm()
            && putu(a.st.bpv(), b.st.bpv(), output.0 as int) && parameter.before_step(gctx(ts, sc, net, &a.st), a.is.gu()[index.0 as int], b.is.gu()[index.0 as int], b.st.bpv().i[output.0 as int]),
        GeneralBeforeScheduleEntry::Multi { index, parameter, output } => one(a.is.gm(), b.is.gm(), index.0 as int) && b.is.gf() == a.is.gf() && b.is.gu() == a.is.gu()
            && putm(a.st.bpv(), b.st.bpv(), output.0 as int) && parameter.before_step(gctx(ts, sc, net, &a.st), a.is.gm()[index.0 as int], b.is.gm()[index.0 as int], b.st.bpv().m[output.0 as int]),
    }
}
/// one entry of the schedule after the network is solved
pub open spec fn after_entry(e: GeneralAfterScheduleEntry, ts: &Timestep, sc: &ScenarioIndex, net: &Network, a: Sit, b: Sit) -> bool {
    b.st.rest_a(a.st) && b.is.same_s(a.is) && b.is.same_c(a.is) && match e {
        GeneralAfterScheduleEntry::F64 { index, op } => one(a.is.gf(), b.is.gf(), index.0 as int) && b.is.gu() == a.is.gu() && b.is.gm() == a.is.gm() && match op {
            GeneralAfterScheduleOperation::Value { parameter, output } => putf(a.st.apv(), b.st.apv(), output.0 as int) && parameter.after_step(gctx(ts, sc, net, &a.st), a.is.gf()[index.0 as int], b.is.gf()[index.0 as int], b.st.apv().v[output.0 as int]),
            GeneralAfterScheduleOperation::Hook { parameter } => b.st == a.st && parameter.hook_step(gctx(ts, sc, net, &a.st), a.is.gf()[index.0 as int], b.is.gf()[index.0 as int]),
        },
        GeneralAfterScheduleEntry::U64 { index, op } => one(a.is.gu(), b.is.gu(), index.0 as int) && b.is.gf() == a.is.gf() && b.is.gm() == a.is.gm() && match op {
            GeneralAfterScheduleOperation::Value { parameter, output } => putu(a.st.apv(), b.st.apv(), output.0 as int) && parameter.after_step(gctx(ts, sc, net, &a.st), a.is.gu()[index.0 as int], b.is.gu()[index.0 as int], b.st.apv().i[output.0 as int]),
            GeneralAfterScheduleOperation::Hook { parameter } => b.st == a.st && parameter.hook_step(gctx(ts, sc, net, &a.st), a.is.gu()[index.0 as int], b.is.gu()[index.0 as int]),
        },
        GeneralAfterScheduleEntry::Multi { index, op } => one(a.is.gm(), b.is.gm(), index.0 as int) && b.is.gf() == a.is.gf() && b.is.gu() == a.is.gu() && match op {
            GeneralAfterScheduleOperation::Value { parameter, output } => putm(a.st.apv(), b.st.apv(), output.0 as int) && parameter.after_step(gctx(ts, sc, net, &a.st), a.is.gm()[index.0 as int], b.is.gm()[index.0 as int], b.st.apv().m[output.0 as int]),
            GeneralAfterScheduleOperation::Hook { parameter } => b.st == a.st && parameter.hook_step(gctx(ts, sc, net, &a.st), a.is.gm()[index.0 as int], b.is.gm()[index.0 as int]),
        },
    }
}
/// one simple parameter
pub open spec fn simple_entry(c: ParameterCollection, e: SimpleParameterType, ts: &Timestep, sc: &ScenarioIndex, a: Sit, b: Sit) -> bool {
    b.st.rest_s(a.st) && b.is.same_g(a.is) && b.is.same_c(a.is) && match e {
        SimpleParameterType::Parameter(i) => i.0 < c.simple_f64@.len() && one(a.is.sf(), b.is.sf(), i.0 as int) && b.is.su() == a.is.su() && b.is.sm() == a.is.sm() && putf(a.st.spv(), b.st.spv(), i.0 as int)
            && c.simple_f64@[i.0 as int].simple_step(*ts, *sc, a.st.cpv(), a.st.spv(), a.is.sf()[i.0 as int], b.is.sf()[i.0 as int], b.st.spv().v[i.0 as int]),
        SimpleParameterType::Index(i) => i.0 < c.simple_u64@.len() && one(a.is.su(), b.is.su(), i.0 as int) && b.is.sf() == a.is.sf() && b.is.sm() == a.is.sm() && putu(a.st.spv(), b.st.spv(), i.0 as int)
            && c.simple_u64@[i.0 as int].simple_step(*ts, *sc, a.st.cpv(), a.st.spv(), a.is.su()[i.0 as int], b.is.su()[i.0 as int], b.st.spv().i[i.0 as int]),
        SimpleParameterType::Multi(i) => i.0 < c.simple_multi@.len() && one(a.is.sm(), b.is.sm(), i.0 as int) && b.is.sf() == a.is.sf() && b.is.su() == a.is.su() && putm(a.st.spv(), b.st.spv(), i.0 as int)
            && c.simple_multi@[i.0 as int].simple_step(*ts, *sc, a.st.cpv(), a.st.spv(), a.is.sm()[i.0 as int], b.is.sm()[i.0 as int], b.st.spv().m[i.0 as int]),
    }
}
/// one constant parameter
pub open spec fn const_entry(c: ParameterCollection, e: ConstParameterType, sc: &ScenarioIndex, a: Sit, b: Sit) -> bool {
    b.st.rest_c(a.st) && b.is.same_g(a.is) && b.is.same_s(a.is) && match e {
        ConstParameterType::Parameter(i) => i.0 < c.constant_f64@.len() && one(a.is.cf(), b.is.cf(), i.0 as int) && b.is.cu() == a.is.cu() && b.is.cm() == a.is.cm() && putf(a.st.cpv(), b.st.cpv(), i.0 as int)
            && c.constant_f64@[i.0 as int].const_step(*sc, a.st.cpv(), a.is.cf()[i.0 as int], b.is.cf()[i.0 as int], b.st.cpv().v[i.0 as int]),
        ConstParameterType::Index(i) => i.0 < c.constant_u64@.len() && one(a.is.cu(), b.is.cu(), i.0 as int) && b.is.cf() == a.is.cf() && b.is.cm() == a.is.cm() && putu(a.st.cpv(), b.st.cpv(), i.0 as int)
            && c.constant_u64@[i.0 as int].const_step(*sc, a.st.cpv(), a.is.cu()[i.0 as int], b.is.cu()[i.0 as int], b.st.cpv().i[i.0 as int]),
        ConstParameterType::Multi(i) => i.0 < c.constant_multi@.len() && one(a.is.cm(), b.is.cm(), i.0 as int) && b.is.cf() == a.is.cf() && b.is.cu() == a.is.cu() && putm(a.st.cpv(), b.st.cpv(), i.0 as int)
            && c.constant_multi@[i.0 as int].const_step(*sc, a.st.cpv(), a.is.cm()[i.0 as int], b.is.cm()[i.0 as int], b.st.cpv().m[i.0 as int]),
    }
}
/// a run through the first n entries of a schedule
pub open spec fn before_run(c: ParameterCollection, n: int, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>) -> bool {
    tr.len() == n + 1 && forall|k: int| 0 <= k < n ==> before_entry(#[trigger] c.general_before_order@[k], ts, sc, net, tr[k], tr[k + 1])
}
pub open spec fn after_run(c: ParameterCollection, n: int, ts: &Timestep, sc: &ScenarioIndex, net: &Network, tr: Seq<Sit>) -> bool {
    tr.len() == n + 1 && forall|k: int| 0 <= k < n ==> after_entry(#[trigger] c.general_after_order@[k], ts, sc, net, tr[k], tr[k + 1])
}
pub open spec fn simple_run(c: ParameterCollection, n: int, ts: &Timestep, sc: &ScenarioIndex, tr: Seq<Sit>) -> bool {
    tr.len() == n + 1 && forall|k: int| 0 <= k < n ==> simple_entry(c, #[trigger] c.simple_resolve_order@[k], ts, sc, tr[k], tr[k + 1])
}
pub open spec fn const_run(c: ParameterCollection, n: int, sc: &ScenarioIndex, tr: Seq<Sit>) -> bool {
    tr.len() == n + 1 && forall|k: int| 0 <= k < n ==> const_entry(c, #[trigger] c.constant_resolve_order@[k], sc, tr[k], tr[k + 1])
}
pub open spec fn ends(tr: Seq<Sit>, s0: State, i0: ParameterStates, s1: State, i1: ParameterStates) -> bool { tr.len() > 0 && tr[0] == (Sit { st: s0, is: i0 }) && tr.last() == (Sit { st: s1, is: i1 }) }

