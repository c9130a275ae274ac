// The collection of the parameters: what is scheduled where, and how it is put together. Proved in unit `collection`.
pub type GeneralParameterIndex = VIdx; pub type GeneralBeforeValueIndex = VIdx; pub type GeneralAfterValueIndex = VIdx; pub type SimpleParameterIndex = VIdx; pub type ConstParameterIndex = VIdx;
pub type K3 = (int, Option<int>, Option<int>);
/// derived Clone
#[verifier::external_body] pub fn clone_op<T>(o: &Option<GeneralAfterOperation<T>>) -> (r: Option<GeneralAfterOperation<T>>) ensures r == *o { unimplemented!() }
pub fn clone_before<T>(o: &Option<Arc<dyn GeneralBeforeParameter<T>>>) -> (r: Option<Arc<dyn GeneralBeforeParameter<T>>>) ensures r == *o { match o { Some(p) => Some(p.clone()), None => None } }
impl VIdx { pub fn new(i: usize) -> (r: VIdx) ensures r.0 == i { VIdx(i) } }
/// a place in a schedule: which parameter, and where its value goes
pub ghost struct Slot { pub p: int, pub out: Option<int> }
/// every place is that of a parameter that has one (`has`), parameters are in the order they were added, their values
/// have places of their own below `n`, and every parameter that has a place is there
#[verifier::opaque] pub open spec fn schedule(o: Seq<Option<Slot>>, has: Seq<bool>, n: int) -> bool {
    &&& n >= 0
    &&& forall|k: int| 0 <= k < o.len() && (#[trigger] o[k]) is Some ==> 0 <= o[k]->Some_0.p < has.len() && has[o[k]->Some_0.p] && (o[k]->Some_0.out is Some ==> 0 <= o[k]->Some_0.out->Some_0 < n)
    &&& forall|j: int, k: int| 0 <= j < k < o.len() && (#[trigger] o[j]) is Some && (#[trigger] o[k]) is Some ==> o[j]->Some_0.p < o[k]->Some_0.p && (o[j]->Some_0.out is Some && o[k]->Some_0.out is Some ==> o[j]->Some_0.out->Some_0 < o[k]->Some_0.out->Some_0)
    &&& forall|i: int| 0 <= i < has.len() && #[trigger] has[i] ==> exists|k: int| 0 <= k < o.len() && (#[trigger] o[k]) is Some && o[k]->Some_0.p == i
}
/// the parameter `p` has the place of its value at `out` (None: it has none)
pub open spec fn at_slot(o: Seq<Option<Slot>>, p: int, out: Option<VIdx>) -> bool { out is Some ==> exists|k: int| 0 <= k < o.len() && #[trigger] o[k] == Some(Slot { p, out: Some(out->Some_0.0 as int) }) }
/// one step of growth: nothing, a place of another kind, a parameter without a place, or a parameter with the next place
pub open spec fn grown(o: Seq<Option<Slot>>, has: Seq<bool>, n: int, o1: Seq<Option<Slot>>, has1: Seq<bool>, n1: int) -> bool {
    n <= n1 && {
        ||| o1 =~= o && has1 =~= has
        ||| o1 =~= o.push(None) && has1 =~= has
        ||| o1 =~= o && has1 =~= has.push(false)
        ||| o1.len() == o.len() + 1 && o1 =~= o.push(o1.last()) && has1 =~= has.push(true) && o1.last() is Some && o1.last()->Some_0.p == has.len() && (o1.last()->Some_0.out is Some ==> n <= o1.last()->Some_0.out->Some_0 < n1)
    }
}
proof fn lemma_grown(o: Seq<Option<Slot>>, has: Seq<bool>, n: int, o1: Seq<Option<Slot>>, has1: Seq<bool>, n1: int)
    requires schedule(o, has, n), grown(o, has, n, o1, has1, n1)
    ensures schedule(o1, has1, n1)
{
    reveal(schedule);
    assert forall|k: int| 0 <= k < o1.len() && (#[trigger] o1[k]) is Some implies 0 <= o1[k]->Some_0.p < has1.len() && has1[o1[k]->Some_0.p] && (o1[k]->Some_0.out is Some ==> 0 <= o1[k]->Some_0.out->Some_0 < n1) by { if k < o.len() { assert(o1[k] == o[k]); } }
    assert forall|j: int, k: int| 0 <= j < k < o1.len() && (#[trigger] o1[j]) is Some && (#[trigger] o1[k]) is Some implies o1[j]->Some_0.p < o1[k]->Some_0.p && (o1[j]->Some_0.out is Some && o1[k]->Some_0.out is Some ==> o1[j]->Some_0.out->Some_0 < o1[k]->Some_0.out->Some_0) by { assert(o1[j] == o[j]); if k < o.len() { assert(o1[k] == o[k]); } }
    assert forall|i: int| 0 <= i < has1.len() && #[trigger] has1[i] implies exists|k: int| 0 <= k < o1.len() && (#[trigger] o1[k]) is Some && o1[k]->Some_0.p == i by {
        if i < has.len() { assert(has[i]); let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]) is Some && o[k]->Some_0.p == i; assert(o1[k] == o[k]); } else { assert(o1[o1.len() - 1] is Some); }
    }
}
pub open spec fn pbf(e: GeneralBeforeScheduleEntry) -> Option<Slot> { match e { GeneralBeforeScheduleEntry::F64 { index, output, .. } => Some(Slot { p: index.0 as int, out: Some(output.0 as int) }), _ => None } }
pub open spec fn paf(e: GeneralAfterScheduleEntry) -> Option<Slot> { match e { GeneralAfterScheduleEntry::F64 { index, op } => Some(Slot { p: index.0 as int, out: match op { GeneralAfterScheduleOperation::Value { output, .. } => Some(output.0 as int), GeneralAfterScheduleOperation::Hook { .. } => None } }), _ => None } }
pub open spec fn psf(e: SimpleParameterType) -> Option<Slot> { match e { SimpleParameterType::Parameter(i) => Some(Slot { p: i.0 as int, out: Some(i.0 as int) }), _ => None } }
pub open spec fn pcf(e: ConstParameterType) -> Option<Slot> { match e { ConstParameterType::Parameter(i) => Some(Slot { p: i.0 as int, out: Some(i.0 as int) }), _ => None } }
#[verifier::opaque] pub open spec fn qbf(o: Seq<GeneralBeforeScheduleEntry>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pbf(o[k])) }
#[verifier::opaque] pub open spec fn qaf(o: Seq<GeneralAfterScheduleEntry>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| paf(o[k])) }
#[verifier::opaque] pub open spec fn qsf(o: Seq<SimpleParameterType>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| psf(o[k])) }
#[verifier::opaque] pub open spec fn qcf(o: Seq<ConstParameterType>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pcf(o[k])) }
pub open spec fn pbu(e: GeneralBeforeScheduleEntry) -> Option<Slot> { match e { GeneralBeforeScheduleEntry::U64 { index, output, .. } => Some(Slot { p: index.0 as int, out: Some(output.0 as int) }), _ => None } }
pub open spec fn pau(e: GeneralAfterScheduleEntry) -> Option<Slot> { match e { GeneralAfterScheduleEntry::U64 { index, op } => Some(Slot { p: index.0 as int, out: match op { GeneralAfterScheduleOperation::Value { output, .. } => Some(output.0 as int), GeneralAfterScheduleOperation::Hook { .. } => None } }), _ => None } }
pub open spec fn psu(e: SimpleParameterType) -> Option<Slot> { match e { SimpleParameterType::Index(i) => Some(Slot { p: i.0 as int, out: Some(i.0 as int) }), _ => None } }
pub open spec fn pcu(e: ConstParameterType) -> Option<Slot> { match e { ConstParameterType::Index(i) => Some(Slot { p: i.0 as int, out: Some(i.0 as int) }), _ => None } }
#[verifier::opaque] pub open spec fn qbu(o: Seq<GeneralBeforeScheduleEntry>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pbu(o[k])) }
#[verifier::opaque] pub open spec fn qau(o: Seq<GeneralAfterScheduleEntry>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pau(o[k])) }
#[verifier::opaque] pub open spec fn qsu(o: Seq<SimpleParameterType>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| psu(o[k])) }
#[verifier::opaque] pub open spec fn qcu(o: Seq<ConstParameterType>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pcu(o[k])) }
pub open spec fn pbm(e: GeneralBeforeScheduleEntry) -> Option<Slot> { match e { GeneralBeforeScheduleEntry::Multi { index, output, .. } => Some(Slot { p: index.0 as int, out: Some(output.0 as int) }), _ => None } }
pub open spec fn pam(e: GeneralAfterScheduleEntry) -> Option<Slot> { match e { GeneralAfterScheduleEntry::Multi { index, op } => Some(Slot { p: index.0 as int, out: match op { GeneralAfterScheduleOperation::Value { output, .. } => Some(output.0 as int), GeneralAfterScheduleOperation::Hook { .. } => None } }), _ => None } }
pub open spec fn psm(e: SimpleParameterType) -> Option<Slot> { match e { SimpleParameterType::Multi(i) => Some(Slot { p: i.0 as int, out: Some(i.0 as int) }), _ => None } }
pub open spec fn pcm(e: ConstParameterType) -> Option<Slot> { match e { ConstParameterType::Multi(i) => Some(Slot { p: i.0 as int, out: Some(i.0 as int) }), _ => None } }
#[verifier::opaque] pub open spec fn qbm(o: Seq<GeneralBeforeScheduleEntry>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pbm(o[k])) }
#[verifier::opaque] pub open spec fn qam(o: Seq<GeneralAfterScheduleEntry>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pam(o[k])) }
#[verifier::opaque] pub open spec fn qsm(o: Seq<SimpleParameterType>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| psm(o[k])) }
#[verifier::opaque] pub open spec fn qcm(o: Seq<ConstParameterType>) -> Seq<Option<Slot>> { Seq::new(o.len(), |k: int| pcm(o[k])) }
#[verifier::opaque] pub open spec fn has_b<T>(g: Seq<GeneralParameterEntry<T>>) -> Seq<bool> { Seq::new(g.len(), |i: int| g[i].before is Some) }
#[verifier::opaque] pub open spec fn has_a<T>(g: Seq<GeneralParameterEntry<T>>) -> Seq<bool> { Seq::new(g.len(), |i: int| g[i].after is Some) }
#[verifier::opaque] pub open spec fn has_all(n: nat) -> Seq<bool> { Seq::new(n, |i: int| true) }
proof fn lemma_qb(o: Seq<GeneralBeforeScheduleEntry>, e: GeneralBeforeScheduleEntry) ensures qbf(o.push(e)) == qbf(o).push(pbf(e)), qbu(o.push(e)) == qbu(o).push(pbu(e)), qbm(o.push(e)) == qbm(o).push(pbm(e)) {
    reveal(qbf); assert(qbf(o.push(e)) =~= qbf(o).push(pbf(e)));
    reveal(qbu); assert(qbu(o.push(e)) =~= qbu(o).push(pbu(e)));
    reveal(qbm); assert(qbm(o.push(e)) =~= qbm(o).push(pbm(e)));
}
proof fn lemma_qa(o: Seq<GeneralAfterScheduleEntry>, e: GeneralAfterScheduleEntry) ensures qaf(o.push(e)) == qaf(o).push(paf(e)), qau(o.push(e)) == qau(o).push(pau(e)), qam(o.push(e)) == qam(o).push(pam(e)) {
    reveal(qaf); assert(qaf(o.push(e)) =~= qaf(o).push(paf(e)));
    reveal(qau); assert(qau(o.push(e)) =~= qau(o).push(pau(e)));
    reveal(qam); assert(qam(o.push(e)) =~= qam(o).push(pam(e)));
}
proof fn lemma_qs(o: Seq<SimpleParameterType>, e: SimpleParameterType) ensures qsf(o.push(e)) == qsf(o).push(psf(e)), qsu(o.push(e)) == qsu(o).push(psu(e)), qsm(o.push(e)) == qsm(o).push(psm(e)) {
    reveal(qsf); assert(qsf(o.push(e)) =~= qsf(o).push(psf(e)));
    reveal(qsu); assert(qsu(o.push(e)) =~= qsu(o).push(psu(e)));
    reveal(qsm); assert(qsm(o.push(e)) =~= qsm(o).push(psm(e)));
}
proof fn lemma_qc(o: Seq<ConstParameterType>, e: ConstParameterType) ensures qcf(o.push(e)) == qcf(o).push(pcf(e)), qcu(o.push(e)) == qcu(o).push(pcu(e)), qcm(o.push(e)) == qcm(o).push(pcm(e)) {
    reveal(qcf); assert(qcf(o.push(e)) =~= qcf(o).push(pcf(e)));
    reveal(qcu); assert(qcu(o.push(e)) =~= qcu(o).push(pcu(e)));
    reveal(qcm); assert(qcm(o.push(e)) =~= qcm(o).push(pcm(e)));
}
proof fn lemma_has<T>(g: Seq<GeneralParameterEntry<T>>, e: GeneralParameterEntry<T>) ensures has_b(g.push(e)) == has_b(g).push(e.before is Some), has_a(g.push(e)) == has_a(g).push(e.after is Some), has_b(g).len() == g.len(), has_a(g).len() == g.len() {
    reveal(has_b); reveal(has_a); assert(has_b(g.push(e)) =~= has_b(g).push(e.before is Some)); assert(has_a(g.push(e)) =~= has_a(g).push(e.after is Some));
}
proof fn lemma_has_all(n: nat) ensures has_all(n + 1) == has_all(n).push(true), has_all(n).len() == n { reveal(has_all); assert(has_all(n + 1) =~= has_all(n).push(true)); }
/// what is evaluated at a place is what the parameter was described with
#[verifier::opaque] pub open spec fn own_b(o: Seq<GeneralBeforeScheduleEntry>, f: Seq<GeneralParameterEntry<R>>, u: Seq<GeneralParameterEntry<u64>>, m: Seq<GeneralParameterEntry<MultiValue>>) -> bool {
    forall|k: int| 0 <= k < o.len() ==> match #[trigger] o[k] {
        GeneralBeforeScheduleEntry::F64 { index, parameter, .. } => index.0 < f.len() && f[index.0 as int].before == Some(parameter),
        GeneralBeforeScheduleEntry::U64 { index, parameter, .. } => index.0 < u.len() && u[index.0 as int].before == Some(parameter),
        GeneralBeforeScheduleEntry::Multi { index, parameter, .. } => index.0 < m.len() && m[index.0 as int].before == Some(parameter),
    }
}
#[verifier::opaque] pub open spec fn own_a(o: Seq<GeneralAfterScheduleEntry>, f: Seq<GeneralParameterEntry<R>>, u: Seq<GeneralParameterEntry<u64>>, m: Seq<GeneralParameterEntry<MultiValue>>) -> bool {
    forall|k: int| 0 <= k < o.len() ==> match #[trigger] o[k] {
        GeneralAfterScheduleEntry::F64 { index, op } => index.0 < f.len() && f[index.0 as int].after is Some && match op { GeneralAfterScheduleOperation::Value { parameter, .. } => f[index.0 as int].after->Some_0 == GeneralAfterOperation::Value(parameter), GeneralAfterScheduleOperation::Hook { parameter } => f[index.0 as int].after->Some_0 == GeneralAfterOperation::Hook(parameter) },
        GeneralAfterScheduleEntry::U64 { index, op } => index.0 < u.len() && u[index.0 as int].after is Some && match op { GeneralAfterScheduleOperation::Value { parameter, .. } => u[index.0 as int].after->Some_0 == GeneralAfterOperation::Value(parameter), GeneralAfterScheduleOperation::Hook { parameter } => u[index.0 as int].after->Some_0 == GeneralAfterOperation::Hook(parameter) },
        GeneralAfterScheduleEntry::Multi { index, op } => index.0 < m.len() && m[index.0 as int].after is Some && match op { GeneralAfterScheduleOperation::Value { parameter, .. } => m[index.0 as int].after->Some_0 == GeneralAfterOperation::Value(parameter), GeneralAfterScheduleOperation::Hook { parameter } => m[index.0 as int].after->Some_0 == GeneralAfterOperation::Hook(parameter) },
    }
}
impl ParameterCollection {
    pub open spec fn bf(&self) -> Seq<Option<Slot>> { qbf(self.general_before_order@) }
    pub open spec fn af(&self) -> Seq<Option<Slot>> { qaf(self.general_after_order@) }
    pub open spec fn sched_f(&self) -> bool {
        &&& schedule(self.bf(), has_b(self.general_f64@), self.num_general_before_f64 as int) && schedule(self.af(), has_a(self.general_f64@), self.num_general_after_f64 as int)
        &&& schedule(qsf(self.simple_resolve_order@), has_all(self.simple_f64@.len()), self.simple_f64@.len() as int) && schedule(qcf(self.constant_resolve_order@), has_all(self.constant_f64@.len()), self.constant_f64@.len() as int)
    }
    /// the collection has what the index names
    pub open spec fn knows_f(&self, x: ParameterIndex) -> bool { match x {
        ParameterIndex::General(g) => g.parameter.0 < self.general_f64@.len() && at_slot(self.bf(), g.parameter.0 as int, g.before) && at_slot(self.af(), g.parameter.0 as int, g.after),
        ParameterIndex::Simple(i) => i.0 < self.simple_f64@.len(), ParameterIndex::Const(i) => i.0 < self.constant_f64@.len() } }
    pub open spec fn bu(&self) -> Seq<Option<Slot>> { qbu(self.general_before_order@) }
    pub open spec fn au(&self) -> Seq<Option<Slot>> { qau(self.general_after_order@) }
    pub open spec fn sched_u(&self) -> bool {
        &&& schedule(self.bu(), has_b(self.general_u64@), self.num_general_before_u64 as int) && schedule(self.au(), has_a(self.general_u64@), self.num_general_after_u64 as int)
        &&& schedule(qsu(self.simple_resolve_order@), has_all(self.simple_u64@.len()), self.simple_u64@.len() as int) && schedule(qcu(self.constant_resolve_order@), has_all(self.constant_u64@.len()), self.constant_u64@.len() as int)
    }
    /// the collection has what the index names
    pub open spec fn knows_u(&self, x: ParameterIndex) -> bool { match x {
        ParameterIndex::General(g) => g.parameter.0 < self.general_u64@.len() && at_slot(self.bu(), g.parameter.0 as int, g.before) && at_slot(self.au(), g.parameter.0 as int, g.after),
        ParameterIndex::Simple(i) => i.0 < self.simple_u64@.len(), ParameterIndex::Const(i) => i.0 < self.constant_u64@.len() } }
    pub open spec fn bm(&self) -> Seq<Option<Slot>> { qbm(self.general_before_order@) }
    pub open spec fn am(&self) -> Seq<Option<Slot>> { qam(self.general_after_order@) }
    pub open spec fn sched_m(&self) -> bool {
        &&& schedule(self.bm(), has_b(self.general_multi@), self.num_general_before_multi as int) && schedule(self.am(), has_a(self.general_multi@), self.num_general_after_multi as int)
        &&& schedule(qsm(self.simple_resolve_order@), has_all(self.simple_multi@.len()), self.simple_multi@.len() as int) && schedule(qcm(self.constant_resolve_order@), has_all(self.constant_multi@.len()), self.constant_multi@.len() as int)
    }
    /// the collection has what the index names
    pub open spec fn knows_m(&self, x: ParameterIndex) -> bool { match x {
        ParameterIndex::General(g) => g.parameter.0 < self.general_multi@.len() && at_slot(self.bm(), g.parameter.0 as int, g.before) && at_slot(self.am(), g.parameter.0 as int, g.after),
        ParameterIndex::Simple(i) => i.0 < self.simple_multi@.len(), ParameterIndex::Const(i) => i.0 < self.constant_multi@.len() } }
    /// the schedules and the parameters of each kind belong together
    pub open spec fn scheduled(&self) -> bool {
        self.sched_f() && self.sched_u() && self.sched_m() && own_b(self.general_before_order@, self.general_f64@, self.general_u64@, self.general_multi@) && own_a(self.general_after_order@, self.general_f64@, self.general_u64@, self.general_multi@)
    }
    pub open spec fn same_f(&self, o: ParameterCollection) -> bool { self.general_f64@ == o.general_f64@ && self.simple_f64@ == o.simple_f64@ && self.constant_f64@ == o.constant_f64@ && self.num_general_before_f64 == o.num_general_before_f64 && self.num_general_after_f64 == o.num_general_after_f64 }
    pub open spec fn same_u(&self, o: ParameterCollection) -> bool { self.general_u64@ == o.general_u64@ && self.simple_u64@ == o.simple_u64@ && self.constant_u64@ == o.constant_u64@ && self.num_general_before_u64 == o.num_general_before_u64 && self.num_general_after_u64 == o.num_general_after_u64 }
    pub open spec fn same_m(&self, o: ParameterCollection) -> bool { self.general_multi@ == o.general_multi@ && self.simple_multi@ == o.simple_multi@ && self.constant_multi@ == o.constant_multi@ && self.num_general_before_multi == o.num_general_before_multi && self.num_general_after_multi == o.num_general_after_multi }
    pub open spec fn same_orders(&self, o: ParameterCollection, b: bool, a: bool, s: bool, c: bool) -> bool { (b ==> self.general_before_order@ == o.general_before_order@) && (a ==> self.general_after_order@ == o.general_after_order@) && (s ==> self.simple_resolve_order@ == o.simple_resolve_order@) && (c ==> self.constant_resolve_order@ == o.constant_resolve_order@) && self.id == o.id }
    /// everything of `o`, in its place, and maybe more after it
    pub open spec fn extends(&self, o: ParameterCollection) -> bool {
        &&& o.general_before_order@.is_prefix_of(self.general_before_order@) && o.general_after_order@.is_prefix_of(self.general_after_order@) && o.simple_resolve_order@.is_prefix_of(self.simple_resolve_order@) && o.constant_resolve_order@.is_prefix_of(self.constant_resolve_order@)
        &&& o.general_f64@.is_prefix_of(self.general_f64@) && o.simple_f64@.is_prefix_of(self.simple_f64@) && o.constant_f64@.is_prefix_of(self.constant_f64@)
        &&& o.general_u64@.is_prefix_of(self.general_u64@) && o.simple_u64@.is_prefix_of(self.simple_u64@) && o.constant_u64@.is_prefix_of(self.constant_u64@)
        &&& o.general_multi@.is_prefix_of(self.general_multi@) && o.simple_multi@.is_prefix_of(self.simple_multi@) && o.constant_multi@.is_prefix_of(self.constant_multi@)
    }
    /// one more parameter of the name `k`, registered as `r`
    pub open spec fn added_f(&self, o: ParameterCollection, k: K3, r: ParameterIndex) -> bool {
        self.extends(o) && self.total_f() == o.total_f() + 1 && self.num_general_before_f64 <= o.num_general_before_f64 + 1 && self.num_general_after_f64 <= o.num_general_after_f64 + 1 && self.same_u(o) && self.same_m(o) && self.whole_f(r) && self.key_f(r) == k
    }
    /// `self` is `o` with one more parameter, at the end of every list it belongs in
    pub open spec fn pushed_f(&self, o: ParameterCollection, e: GeneralParameterEntry<R>, r: ParameterIndex) -> bool {
        let i = VIdx(o.general_f64@.len() as usize); let b = VIdx(o.num_general_before_f64); let a = VIdx(o.num_general_after_f64); let val = e.after is Some && e.after->Some_0 is Value;
        &&& self.same_u(o) && self.same_m(o) && self.same_orders(o, e.before is None, e.after is None, true, true) && self.general_f64@ == o.general_f64@.push(e) && self.simple_f64@ == o.simple_f64@ && self.constant_f64@ == o.constant_f64@
        &&& e.before is Some ==> self.general_before_order@ == o.general_before_order@.push(GeneralBeforeScheduleEntry::F64 { index: i, parameter: e.before->Some_0, output: b })
        &&& self.num_general_before_f64 == o.num_general_before_f64 + (if e.before is Some { 1int } else { 0 }) && self.num_general_after_f64 == o.num_general_after_f64 + (if val { 1int } else { 0 })
        &&& e.after is Some ==> self.general_after_order@ == o.general_after_order@.push(GeneralAfterScheduleEntry::F64 { index: i, op: match e.after->Some_0 { GeneralAfterOperation::Value(parameter) => GeneralAfterScheduleOperation::Value { parameter, output: a }, GeneralAfterOperation::Hook(parameter) => GeneralAfterScheduleOperation::Hook { parameter } } })
        &&& r == ParameterIndex::General(GeneralParameterRegistration { parameter: i, before: if e.before is Some { Some(b) } else { None }, after: if val { Some(a) } else { None } })
    }
    pub open spec fn pushed_simple_f(&self, o: ParameterCollection, p: Box<dyn SimpleParameter<R>>, r: ParameterIndex) -> bool {
        let i = VIdx(o.simple_f64@.len() as usize);
        &&& self.same_u(o) && self.same_m(o) && self.same_orders(o, true, true, false, true) && self.general_f64@ == o.general_f64@ && self.constant_f64@ == o.constant_f64@ && self.num_general_before_f64 == o.num_general_before_f64 && self.num_general_after_f64 == o.num_general_after_f64
        &&& self.simple_f64@ == o.simple_f64@.push(p) && self.simple_resolve_order@ == o.simple_resolve_order@.push(SimpleParameterType::Parameter(i)) && r == ParameterIndex::Simple(i)
    }
    pub open spec fn pushed_const_f(&self, o: ParameterCollection, p: Box<dyn ConstParameter<R>>, r: ParameterIndex) -> bool {
        let i = VIdx(o.constant_f64@.len() as usize);
        &&& self.same_u(o) && self.same_m(o) && self.same_orders(o, true, true, true, false) && self.general_f64@ == o.general_f64@ && self.simple_f64@ == o.simple_f64@ && self.num_general_before_f64 == o.num_general_before_f64 && self.num_general_after_f64 == o.num_general_after_f64
        &&& self.constant_f64@ == o.constant_f64@.push(p) && self.constant_resolve_order@ == o.constant_resolve_order@.push(ConstParameterType::Parameter(i)) && r == ParameterIndex::Const(i)
    }
    /// one more parameter of the name `k`, registered as `r`
    pub open spec fn added_u(&self, o: ParameterCollection, k: K3, r: ParameterIndex) -> bool {
        self.extends(o) && self.total_u() == o.total_u() + 1 && self.num_general_before_u64 <= o.num_general_before_u64 + 1 && self.num_general_after_u64 <= o.num_general_after_u64 + 1 && self.same_f(o) && self.same_m(o) && self.whole_u(r) && self.key_u(r) == k
    }
    /// `self` is `o` with one more parameter, at the end of every list it belongs in
    pub open spec fn pushed_u(&self, o: ParameterCollection, e: GeneralParameterEntry<u64>, r: ParameterIndex) -> bool {
        let i = VIdx(o.general_u64@.len() as usize); let b = VIdx(o.num_general_before_u64); let a = VIdx(o.num_general_after_u64); let val = e.after is Some && e.after->Some_0 is Value;
        &&& self.same_f(o) && self.same_m(o) && self.same_orders(o, e.before is None, e.after is None, true, true) && self.general_u64@ == o.general_u64@.push(e) && self.simple_u64@ == o.simple_u64@ && self.constant_u64@ == o.constant_u64@
        &&& e.before is Some ==> self.general_before_order@ == o.general_before_order@.push(GeneralBeforeScheduleEntry::U64 { index: i, parameter: e.before->Some_0, output: b })
        &&& self.num_general_before_u64 == o.num_general_before_u64 + (if e.before is Some { 1int } else { 0 }) && self.num_general_after_u64 == o.num_general_after_u64 + (if val { 1int } else { 0 })
        &&& e.after is Some ==> self.general_after_order@ == o.general_after_order@.push(GeneralAfterScheduleEntry::U64 { index: i, op: match e.after->Some_0 { GeneralAfterOperation::Value(parameter) => GeneralAfterScheduleOperation::Value { parameter, output: a }, GeneralAfterOperation::Hook(parameter) => GeneralAfterScheduleOperation::Hook { parameter } } })
        &&& r == ParameterIndex::General(GeneralParameterRegistration { parameter: i, before: if e.before is Some { Some(b) } else { None }, after: if val { Some(a) } else { None } })
    }
    pub open spec fn pushed_simple_u(&self, o: ParameterCollection, p: Box<dyn SimpleParameter<u64>>, r: ParameterIndex) -> bool {
        let i = VIdx(o.simple_u64@.len() as usize);
        &&& self.same_f(o) && self.same_m(o) && self.same_orders(o, true, true, false, true) && self.general_u64@ == o.general_u64@ && self.constant_u64@ == o.constant_u64@ && self.num_general_before_u64 == o.num_general_before_u64 && self.num_general_after_u64 == o.num_general_after_u64
        &&& self.simple_u64@ == o.simple_u64@.push(p) && self.simple_resolve_order@ == o.simple_resolve_order@.push(SimpleParameterType::Index(i)) && r == ParameterIndex::Simple(i)
    }
    pub open spec fn pushed_const_u(&self, o: ParameterCollection, p: Box<dyn ConstParameter<u64>>, r: ParameterIndex) -> bool {
        let i = VIdx(o.constant_u64@.len() as usize);
        &&& self.same_f(o) && self.same_m(o) && self.same_orders(o, true, true, true, false) && self.general_u64@ == o.general_u64@ && self.simple_u64@ == o.simple_u64@ && self.num_general_before_u64 == o.num_general_before_u64 && self.num_general_after_u64 == o.num_general_after_u64
        &&& self.constant_u64@ == o.constant_u64@.push(p) && self.constant_resolve_order@ == o.constant_resolve_order@.push(ConstParameterType::Index(i)) && r == ParameterIndex::Const(i)
    }
    /// one more parameter of the name `k`, registered as `r`
    pub open spec fn added_m(&self, o: ParameterCollection, k: K3, r: ParameterIndex) -> bool {
        self.extends(o) && self.total_m() == o.total_m() + 1 && self.num_general_before_multi <= o.num_general_before_multi + 1 && self.num_general_after_multi <= o.num_general_after_multi + 1 && self.same_f(o) && self.same_u(o) && self.whole_m(r) && self.key_m(r) == k
    }
    /// `self` is `o` with one more parameter, at the end of every list it belongs in
    pub open spec fn pushed_m(&self, o: ParameterCollection, e: GeneralParameterEntry<MultiValue>, r: ParameterIndex) -> bool {
        let i = VIdx(o.general_multi@.len() as usize); let b = VIdx(o.num_general_before_multi); let a = VIdx(o.num_general_after_multi); let val = e.after is Some && e.after->Some_0 is Value;
        &&& self.same_f(o) && self.same_u(o) && self.same_orders(o, e.before is None, e.after is None, true, true) && self.general_multi@ == o.general_multi@.push(e) && self.simple_multi@ == o.simple_multi@ && self.constant_multi@ == o.constant_multi@
        &&& e.before is Some ==> self.general_before_order@ == o.general_before_order@.push(GeneralBeforeScheduleEntry::Multi { index: i, parameter: e.before->Some_0, output: b })
        &&& self.num_general_before_multi == o.num_general_before_multi + (if e.before is Some { 1int } else { 0 }) && self.num_general_after_multi == o.num_general_after_multi + (if val { 1int } else { 0 })
        &&& e.after is Some ==> self.general_after_order@ == o.general_after_order@.push(GeneralAfterScheduleEntry::Multi { index: i, op: match e.after->Some_0 { GeneralAfterOperation::Value(parameter) => GeneralAfterScheduleOperation::Value { parameter, output: a }, GeneralAfterOperation::Hook(parameter) => GeneralAfterScheduleOperation::Hook { parameter } } })
        &&& r == ParameterIndex::General(GeneralParameterRegistration { parameter: i, before: if e.before is Some { Some(b) } else { None }, after: if val { Some(a) } else { None } })
    }
    pub open spec fn pushed_simple_m(&self, o: ParameterCollection, p: Box<dyn SimpleParameter<MultiValue>>, r: ParameterIndex) -> bool {
        let i = VIdx(o.simple_multi@.len() as usize);
        &&& self.same_f(o) && self.same_u(o) && self.same_orders(o, true, true, false, true) && self.general_multi@ == o.general_multi@ && self.constant_multi@ == o.constant_multi@ && self.num_general_before_multi == o.num_general_before_multi && self.num_general_after_multi == o.num_general_after_multi
        &&& self.simple_multi@ == o.simple_multi@.push(p) && self.simple_resolve_order@ == o.simple_resolve_order@.push(SimpleParameterType::Multi(i)) && r == ParameterIndex::Simple(i)
    }
    pub open spec fn pushed_const_m(&self, o: ParameterCollection, p: Box<dyn ConstParameter<MultiValue>>, r: ParameterIndex) -> bool {
        let i = VIdx(o.constant_multi@.len() as usize);
        &&& self.same_f(o) && self.same_u(o) && self.same_orders(o, true, true, true, false) && self.general_multi@ == o.general_multi@ && self.simple_multi@ == o.simple_multi@ && self.num_general_before_multi == o.num_general_before_multi && self.num_general_after_multi == o.num_general_after_multi
        &&& self.constant_multi@ == o.constant_multi@.push(p) && self.constant_resolve_order@ == o.constant_resolve_order@.push(ConstParameterType::Multi(i)) && r == ParameterIndex::Const(i)
    }
}
proof fn lemma_pushed_f(c: ParameterCollection, o: ParameterCollection, e: GeneralParameterEntry<R>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_f(o, e, r), o.general_f64@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_f(r), c.added_f(o, e.parameter.nm().key(), r)
{
    let b = c.general_before_order@; let a = c.general_after_order@;
    if e.before is Some { lemma_qb(o.general_before_order@, b.last()); }
    if e.after is Some { lemma_qa(o.general_after_order@, a.last()); }
    lemma_has(o.general_f64@, e);
    lemma_grown(o.bf(), has_b(o.general_f64@), o.num_general_before_f64 as int, c.bf(), has_b(c.general_f64@), c.num_general_before_f64 as int);
    lemma_grown(o.af(), has_a(o.general_f64@), o.num_general_after_f64 as int, c.af(), has_a(c.general_f64@), c.num_general_after_f64 as int);
    lemma_grown(o.bu(), has_b(o.general_u64@), o.num_general_before_u64 as int, c.bu(), has_b(c.general_u64@), c.num_general_before_u64 as int);
    lemma_grown(o.au(), has_a(o.general_u64@), o.num_general_after_u64 as int, c.au(), has_a(c.general_u64@), c.num_general_after_u64 as int);
    lemma_grown(o.bm(), has_b(o.general_multi@), o.num_general_before_multi as int, c.bm(), has_b(c.general_multi@), c.num_general_before_multi as int);
    lemma_grown(o.am(), has_a(o.general_multi@), o.num_general_after_multi as int, c.am(), has_a(c.general_multi@), c.num_general_after_multi as int);
    reveal(own_b); reveal(own_a);
    if e.before is Some { let _k = c.bf()[o.bf().len() as int]; assert(c.bf()[o.bf().len() as int] == Some(Slot { p: o.general_f64@.len() as int, out: Some(o.num_general_before_f64 as int) })); }
    if e.after is Some && e.after->Some_0 is Value { assert(c.af()[o.af().len() as int] == Some(Slot { p: o.general_f64@.len() as int, out: Some(o.num_general_after_f64 as int) })); }
}
proof fn lemma_pushed_simple_f(c: ParameterCollection, o: ParameterCollection, p: Box<dyn SimpleParameter<R>>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_simple_f(o, p, r), o.simple_f64@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_f(r), c.added_f(o, p.nm().key(), r)
{
    lemma_qs(o.simple_resolve_order@, c.simple_resolve_order@.last()); lemma_has_all(o.simple_f64@.len());
    lemma_grown(qsf(o.simple_resolve_order@), has_all(o.simple_f64@.len()), o.simple_f64@.len() as int, qsf(c.simple_resolve_order@), has_all(c.simple_f64@.len()), c.simple_f64@.len() as int);
    lemma_grown(qsu(o.simple_resolve_order@), has_all(o.simple_u64@.len()), o.simple_u64@.len() as int, qsu(c.simple_resolve_order@), has_all(c.simple_u64@.len()), c.simple_u64@.len() as int);
    lemma_grown(qsm(o.simple_resolve_order@), has_all(o.simple_multi@.len()), o.simple_multi@.len() as int, qsm(c.simple_resolve_order@), has_all(c.simple_multi@.len()), c.simple_multi@.len() as int);
    reveal(own_b); reveal(own_a);
}
proof fn lemma_pushed_const_f(c: ParameterCollection, o: ParameterCollection, p: Box<dyn ConstParameter<R>>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_const_f(o, p, r), o.constant_f64@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_f(r), c.added_f(o, p.nm().key(), r)
{
    lemma_qc(o.constant_resolve_order@, c.constant_resolve_order@.last()); lemma_has_all(o.constant_f64@.len());
    lemma_grown(qcf(o.constant_resolve_order@), has_all(o.constant_f64@.len()), o.constant_f64@.len() as int, qcf(c.constant_resolve_order@), has_all(c.constant_f64@.len()), c.constant_f64@.len() as int);
    lemma_grown(qcu(o.constant_resolve_order@), has_all(o.constant_u64@.len()), o.constant_u64@.len() as int, qcu(c.constant_resolve_order@), has_all(c.constant_u64@.len()), c.constant_u64@.len() as int);
    lemma_grown(qcm(o.constant_resolve_order@), has_all(o.constant_multi@.len()), o.constant_multi@.len() as int, qcm(c.constant_resolve_order@), has_all(c.constant_multi@.len()), c.constant_multi@.len() as int);
    reveal(own_b); reveal(own_a);
}
proof fn lemma_pushed_u(c: ParameterCollection, o: ParameterCollection, e: GeneralParameterEntry<u64>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_u(o, e, r), o.general_u64@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_u(r), c.added_u(o, e.parameter.nm().key(), r)
{
    let b = c.general_before_order@; let a = c.general_after_order@;
    if e.before is Some { lemma_qb(o.general_before_order@, b.last()); }
    if e.after is Some { lemma_qa(o.general_after_order@, a.last()); }
    lemma_has(o.general_u64@, e);
    lemma_grown(o.bf(), has_b(o.general_f64@), o.num_general_before_f64 as int, c.bf(), has_b(c.general_f64@), c.num_general_before_f64 as int);
    lemma_grown(o.af(), has_a(o.general_f64@), o.num_general_after_f64 as int, c.af(), has_a(c.general_f64@), c.num_general_after_f64 as int);
    lemma_grown(o.bu(), has_b(o.general_u64@), o.num_general_before_u64 as int, c.bu(), has_b(c.general_u64@), c.num_general_before_u64 as int);
    lemma_grown(o.au(), has_a(o.general_u64@), o.num_general_after_u64 as int, c.au(), has_a(c.general_u64@), c.num_general_after_u64 as int);
    lemma_grown(o.bm(), has_b(o.general_multi@), o.num_general_before_multi as int, c.bm(), has_b(c.general_multi@), c.num_general_before_multi as int);
    lemma_grown(o.am(), has_a(o.general_multi@), o.num_general_after_multi as int, c.am(), has_a(c.general_multi@), c.num_general_after_multi as int);
    reveal(own_b); reveal(own_a);
    if e.before is Some { let _k = c.bu()[o.bu().len() as int]; assert(c.bu()[o.bu().len() as int] == Some(Slot { p: o.general_u64@.len() as int, out: Some(o.num_general_before_u64 as int) })); }
    if e.after is Some && e.after->Some_0 is Value { assert(c.au()[o.au().len() as int] == Some(Slot { p: o.general_u64@.len() as int, out: Some(o.num_general_after_u64 as int) })); }
}
proof fn lemma_pushed_simple_u(c: ParameterCollection, o: ParameterCollection, p: Box<dyn SimpleParameter<u64>>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_simple_u(o, p, r), o.simple_u64@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_u(r), c.added_u(o, p.nm().key(), r)
{
    lemma_qs(o.simple_resolve_order@, c.simple_resolve_order@.last()); lemma_has_all(o.simple_u64@.len());
    lemma_grown(qsf(o.simple_resolve_order@), has_all(o.simple_f64@.len()), o.simple_f64@.len() as int, qsf(c.simple_resolve_order@), has_all(c.simple_f64@.len()), c.simple_f64@.len() as int);
    lemma_grown(qsu(o.simple_resolve_order@), has_all(o.simple_u64@.len()), o.simple_u64@.len() as int, qsu(c.simple_resolve_order@), has_all(c.simple_u64@.len()), c.simple_u64@.len() as int);
    lemma_grown(qsm(o.simple_resolve_order@), has_all(o.simple_multi@.len()), o.simple_multi@.len() as int, qsm(c.simple_resolve_order@), has_all(c.simple_multi@.len()), c.simple_multi@.len() as int);
    reveal(own_b); reveal(own_a);
}
proof fn lemma_pushed_const_u(c: ParameterCollection, o: ParameterCollection, p: Box<dyn ConstParameter<u64>>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_const_u(o, p, r), o.constant_u64@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_u(r), c.added_u(o, p.nm().key(), r)
{
    lemma_qc(o.constant_resolve_order@, c.constant_resolve_order@.last()); lemma_has_all(o.constant_u64@.len());
    lemma_grown(qcf(o.constant_resolve_order@), has_all(o.constant_f64@.len()), o.constant_f64@.len() as int, qcf(c.constant_resolve_order@), has_all(c.constant_f64@.len()), c.constant_f64@.len() as int);
    lemma_grown(qcu(o.constant_resolve_order@), has_all(o.constant_u64@.len()), o.constant_u64@.len() as int, qcu(c.constant_resolve_order@), has_all(c.constant_u64@.len()), c.constant_u64@.len() as int);
    lemma_grown(qcm(o.constant_resolve_order@), has_all(o.constant_multi@.len()), o.constant_multi@.len() as int, qcm(c.constant_resolve_order@), has_all(c.constant_multi@.len()), c.constant_multi@.len() as int);
    reveal(own_b); reveal(own_a);
}
proof fn lemma_pushed_m(c: ParameterCollection, o: ParameterCollection, e: GeneralParameterEntry<MultiValue>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_m(o, e, r), o.general_multi@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_m(r), c.added_m(o, e.parameter.nm().key(), r)
{
    let b = c.general_before_order@; let a = c.general_after_order@;
    if e.before is Some { lemma_qb(o.general_before_order@, b.last()); }
    if e.after is Some { lemma_qa(o.general_after_order@, a.last()); }
    lemma_has(o.general_multi@, e);
    lemma_grown(o.bf(), has_b(o.general_f64@), o.num_general_before_f64 as int, c.bf(), has_b(c.general_f64@), c.num_general_before_f64 as int);
    lemma_grown(o.af(), has_a(o.general_f64@), o.num_general_after_f64 as int, c.af(), has_a(c.general_f64@), c.num_general_after_f64 as int);
    lemma_grown(o.bu(), has_b(o.general_u64@), o.num_general_before_u64 as int, c.bu(), has_b(c.general_u64@), c.num_general_before_u64 as int);
    lemma_grown(o.au(), has_a(o.general_u64@), o.num_general_after_u64 as int, c.au(), has_a(c.general_u64@), c.num_general_after_u64 as int);
    lemma_grown(o.bm(), has_b(o.general_multi@), o.num_general_before_multi as int, c.bm(), has_b(c.general_multi@), c.num_general_before_multi as int);
    lemma_grown(o.am(), has_a(o.general_multi@), o.num_general_after_multi as int, c.am(), has_a(c.general_multi@), c.num_general_after_multi as int);
    reveal(own_b); reveal(own_a);
    if e.before is Some { let _k = c.bm()[o.bm().len() as int]; assert(c.bm()[o.bm().len() as int] == Some(Slot { p: o.general_multi@.len() as int, out: Some(o.num_general_before_multi as int) })); }
    if e.after is Some && e.after->Some_0 is Value { assert(c.am()[o.am().len() as int] == Some(Slot { p: o.general_multi@.len() as int, out: Some(o.num_general_after_multi as int) })); }
}
proof fn lemma_pushed_simple_m(c: ParameterCollection, o: ParameterCollection, p: Box<dyn SimpleParameter<MultiValue>>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_simple_m(o, p, r), o.simple_multi@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_m(r), c.added_m(o, p.nm().key(), r)
{
    lemma_qs(o.simple_resolve_order@, c.simple_resolve_order@.last()); lemma_has_all(o.simple_multi@.len());
    lemma_grown(qsf(o.simple_resolve_order@), has_all(o.simple_f64@.len()), o.simple_f64@.len() as int, qsf(c.simple_resolve_order@), has_all(c.simple_f64@.len()), c.simple_f64@.len() as int);
    lemma_grown(qsu(o.simple_resolve_order@), has_all(o.simple_u64@.len()), o.simple_u64@.len() as int, qsu(c.simple_resolve_order@), has_all(c.simple_u64@.len()), c.simple_u64@.len() as int);
    lemma_grown(qsm(o.simple_resolve_order@), has_all(o.simple_multi@.len()), o.simple_multi@.len() as int, qsm(c.simple_resolve_order@), has_all(c.simple_multi@.len()), c.simple_multi@.len() as int);
    reveal(own_b); reveal(own_a);
}
proof fn lemma_pushed_const_m(c: ParameterCollection, o: ParameterCollection, p: Box<dyn ConstParameter<MultiValue>>, r: ParameterIndex)
    requires o.scheduled(), c.pushed_const_m(o, p, r), o.constant_multi@.len() <= usize::MAX
    ensures c.scheduled(), c.extends(o), c.knows_m(r), c.added_m(o, p.nm().key(), r)
{
    lemma_qc(o.constant_resolve_order@, c.constant_resolve_order@.last()); lemma_has_all(o.constant_multi@.len());
    lemma_grown(qcf(o.constant_resolve_order@), has_all(o.constant_f64@.len()), o.constant_f64@.len() as int, qcf(c.constant_resolve_order@), has_all(c.constant_f64@.len()), c.constant_f64@.len() as int);
    lemma_grown(qcu(o.constant_resolve_order@), has_all(o.constant_u64@.len()), o.constant_u64@.len() as int, qcu(c.constant_resolve_order@), has_all(c.constant_u64@.len()), c.constant_u64@.len() as int);
    lemma_grown(qcm(o.constant_resolve_order@), has_all(o.constant_multi@.len()), o.constant_multi@.len() as int, qcm(c.constant_resolve_order@), has_all(c.constant_multi@.len()), c.constant_multi@.len() as int);
    reveal(own_b); reveal(own_a);
}
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_general_f64
//@| sub `entry.before.clone()` => `clone_before(&entry.before)`
//@|     `entry.after.clone()` => `clone_op(&entry.after)`
//@| requires
//@|     old(self).scheduled(), old(self).num_general_before_f64 < usize::MAX, old(self).num_general_after_f64 < usize::MAX
//@| ensures
//@|     final(self).pushed_f(*old(self), entry, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_f(r), final(self).added_f(*old(self), entry.parameter.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = entry;
//@| at fn.end proof { lemma_pushed_f(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_simple_f64
//@| sub `index.into()` => `SimpleParameterType::Parameter(index)`
//@| requires
//@|     old(self).scheduled()
//@| ensures
//@|     final(self).pushed_simple_f(*old(self), parameter, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_f(r), final(self).added_f(*old(self), parameter.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = parameter;
//@| at fn.end proof { lemma_pushed_simple_f(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_const_f64
//@| sub `ConstParameterType::from(index)` => `ConstParameterType::Parameter(index)`
//@| requires
//@|     old(self).scheduled()
//@| ensures
//@|     final(self).pushed_const_f(*old(self), p, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_f(r), final(self).added_f(*old(self), p.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = p;
//@| at fn.end proof { lemma_pushed_const_f(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_general_u64
//@| sub `entry.before.clone()` => `clone_before(&entry.before)`
//@|     `entry.after.clone()` => `clone_op(&entry.after)`
//@| requires
//@|     old(self).scheduled(), old(self).num_general_before_u64 < usize::MAX, old(self).num_general_after_u64 < usize::MAX
//@| ensures
//@|     final(self).pushed_u(*old(self), entry, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_u(r), final(self).added_u(*old(self), entry.parameter.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = entry;
//@| at fn.end proof { lemma_pushed_u(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_simple_u64
//@| sub `index.into()` => `SimpleParameterType::Index(index)`
//@| requires
//@|     old(self).scheduled()
//@| ensures
//@|     final(self).pushed_simple_u(*old(self), parameter, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_u(r), final(self).added_u(*old(self), parameter.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = parameter;
//@| at fn.end proof { lemma_pushed_simple_u(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_const_u64
//@| sub `ConstParameterType::from(index)` => `ConstParameterType::Index(index)`
//@| requires
//@|     old(self).scheduled()
//@| ensures
//@|     final(self).pushed_const_u(*old(self), p, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_u(r), final(self).added_u(*old(self), p.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = p;
//@| at fn.end proof { lemma_pushed_const_u(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_general_multi
//@| sub `entry.before.clone()` => `clone_before(&entry.before)`
//@|     `entry.after.clone()` => `clone_op(&entry.after)`
//@| requires
//@|     old(self).scheduled(), old(self).num_general_before_multi < usize::MAX, old(self).num_general_after_multi < usize::MAX
//@| ensures
//@|     final(self).pushed_m(*old(self), entry, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_m(r), final(self).added_m(*old(self), entry.parameter.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = entry;
//@| at fn.end proof { lemma_pushed_m(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_simple_multi
//@| sub `index.into()` => `SimpleParameterType::Multi(index)`
//@| requires
//@|     old(self).scheduled()
//@| ensures
//@|     final(self).pushed_simple_m(*old(self), parameter, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_m(r), final(self).added_m(*old(self), parameter.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = parameter;
//@| at fn.end proof { lemma_pushed_simple_m(*self, _c0, _e0, _ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::push_const_multi
//@| sub `ConstParameterType::from(index)` => `ConstParameterType::Multi(index)`
//@| requires
//@|     old(self).scheduled()
//@| ensures
//@|     final(self).pushed_const_m(*old(self), p, r), final(self).scheduled(), final(self).extends(*old(self)), final(self).knows_m(r), final(self).added_m(*old(self), p.nm().key(), r)
//@| at fn.top let ghost _c0 = *self; let ghost _e0 = p;
//@| at fn.end proof { lemma_pushed_const_m(*self, _c0, _e0, _ret); }
