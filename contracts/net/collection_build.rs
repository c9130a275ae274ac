
// ---- names
impl PartialEqSpecImpl for ParameterName { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ParameterName) -> bool { self.key() == o.key() } }
impl PartialEq for ParameterName { #[verifier::external_body] fn eq(&self, o: &ParameterName) -> (r: bool) ensures r == (self.key() == o.key()) { unimplemented!() } }
impl PartialEqSpecImpl for VIdx { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &VIdx) -> bool { self.0 == o.0 } }
impl PartialEq for VIdx { fn eq(&self, o: &VIdx) -> (r: bool) ensures r == (self.0 == o.0) { self.0 == o.0 } }
/// HashSet<K> of keys compared by value
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HSet<K: Key> { k: Vec<K> }
impl<K: Key> View for HSet<K> { type V = Set<K::K>; uninterp spec fn view(&self) -> Set<K::K>; }
impl<K: Key> HSet<K> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<K::K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures r == !old(self)@.contains(k.key()), final(self)@ == old(self)@.insert(k.key()) { unimplemented!() }
}
//@ extract pywr-core/src/parameters/mod.rs impl GeneralParameterEntry::name
//@| implgen <T>
//@| selfty GeneralParameterEntry<T>
//@| ensures
//@|     *r == self.parameter.nm()
// a description that can be built: `name` of the trait, and `build`, which is called through the box that owns it
pub trait ParameterBuilder<T> {
    spec fn nm(&self) -> ParameterName;
    fn name(&self) -> (r: &ParameterName) ensures *r == self.nm();
}
//@ extract pywr-core/src/parameters/mod.rs enum BuiltParameter
//@| attr #[verifier::reject_recursive_types(T)]
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum MaybeBuiltParameter
//@| attr #[verifier::reject_recursive_types(T)]
//@| pub
pub open spec fn built_key<T>(b: BuiltParameter<T>) -> K3 { match b { BuiltParameter::General(e) => e.parameter.nm().key(), BuiltParameter::Simple(p) => p.nm().key(), BuiltParameter::Const(p) => p.nm().key() } }
pub trait BuildBoxed<T>: Sized { spec fn its_key(&self) -> K3; fn build(self, maps: &ResolutionMaps) -> (r: Result<MaybeBuiltParameter<T>, E_>) ensures match r { Ok(MaybeBuiltParameter::Built(b)) => built_key(b) == self.its_key(), Ok(MaybeBuiltParameter::Retry { builder, .. }) => builder.nm().key() == self.its_key(), _ => true }; }
impl<T> BuildBoxed<T> for Box<dyn ParameterBuilder<T>> {
    open spec fn its_key(&self) -> K3 { self.nm().key() }
    /// a builder builds a parameter of its own name, or gives itself back
    #[verifier::external_body] fn build(self, maps: &ResolutionMaps) -> (r: Result<MaybeBuiltParameter<T>, E_>) { unimplemented!() }
}
//@ extract pywr-core/src/parameters/mod.rs struct ParameterCollectionBuilder
//@| pub
impl ParameterCollection {
    pub open spec fn named_f(&self, k: K3) -> bool { (exists|i: int| 0 <= i < self.general_f64@.len() && (#[trigger] self.general_f64@[i]).parameter.nm().key() == k) || (exists|i: int| 0 <= i < self.simple_f64@.len() && (#[trigger] self.simple_f64@[i]).nm().key() == k) || (exists|i: int| 0 <= i < self.constant_f64@.len() && (#[trigger] self.constant_f64@[i]).nm().key() == k) }
    pub open spec fn key_f(&self, x: ParameterIndex) -> K3 { match x { ParameterIndex::General(g) => self.general_f64@[g.parameter.0 as int].parameter.nm().key(), ParameterIndex::Simple(i) => self.simple_f64@[i.0 as int].nm().key(), ParameterIndex::Const(i) => self.constant_f64@[i.0 as int].nm().key() } }
    /// an index that gives the places of both values of the parameter
    pub open spec fn whole_f(&self, x: ParameterIndex) -> bool { self.knows_f(x) && match x { ParameterIndex::General(g) => g.before is Some == self.general_f64@[g.parameter.0 as int].before is Some && g.after is Some == (self.general_f64@[g.parameter.0 as int].after is Some && self.general_f64@[g.parameter.0 as int].after->Some_0 is Value), _ => true } }
    pub open spec fn named_u(&self, k: K3) -> bool { (exists|i: int| 0 <= i < self.general_u64@.len() && (#[trigger] self.general_u64@[i]).parameter.nm().key() == k) || (exists|i: int| 0 <= i < self.simple_u64@.len() && (#[trigger] self.simple_u64@[i]).nm().key() == k) || (exists|i: int| 0 <= i < self.constant_u64@.len() && (#[trigger] self.constant_u64@[i]).nm().key() == k) }
    pub open spec fn key_u(&self, x: ParameterIndex) -> K3 { match x { ParameterIndex::General(g) => self.general_u64@[g.parameter.0 as int].parameter.nm().key(), ParameterIndex::Simple(i) => self.simple_u64@[i.0 as int].nm().key(), ParameterIndex::Const(i) => self.constant_u64@[i.0 as int].nm().key() } }
    /// an index that gives the places of both values of the parameter
    pub open spec fn whole_u(&self, x: ParameterIndex) -> bool { self.knows_u(x) && match x { ParameterIndex::General(g) => g.before is Some == self.general_u64@[g.parameter.0 as int].before is Some && g.after is Some == (self.general_u64@[g.parameter.0 as int].after is Some && self.general_u64@[g.parameter.0 as int].after->Some_0 is Value), _ => true } }
    pub open spec fn named_m(&self, k: K3) -> bool { (exists|i: int| 0 <= i < self.general_multi@.len() && (#[trigger] self.general_multi@[i]).parameter.nm().key() == k) || (exists|i: int| 0 <= i < self.simple_multi@.len() && (#[trigger] self.simple_multi@[i]).nm().key() == k) || (exists|i: int| 0 <= i < self.constant_multi@.len() && (#[trigger] self.constant_multi@[i]).nm().key() == k) }
    pub open spec fn key_m(&self, x: ParameterIndex) -> K3 { match x { ParameterIndex::General(g) => self.general_multi@[g.parameter.0 as int].parameter.nm().key(), ParameterIndex::Simple(i) => self.simple_multi@[i.0 as int].nm().key(), ParameterIndex::Const(i) => self.constant_multi@[i.0 as int].nm().key() } }
    /// an index that gives the places of both values of the parameter
    pub open spec fn whole_m(&self, x: ParameterIndex) -> bool { self.knows_m(x) && match x { ParameterIndex::General(g) => g.before is Some == self.general_multi@[g.parameter.0 as int].before is Some && g.after is Some == (self.general_multi@[g.parameter.0 as int].after is Some && self.general_multi@[g.parameter.0 as int].after->Some_0 is Value), _ => true } }
}
proof fn lemma_knows_f(c: ParameterCollection, o: ParameterCollection, x: ParameterIndex)
    requires c.extends(o), o.knows_f(x)
    ensures c.knows_f(x), c.key_f(x) == o.key_f(x), o.whole_f(x) ==> c.whole_f(x)
{
    reveal(qbf); reveal(qaf);
    if let ParameterIndex::General(g) = x {
        assert(c.general_f64@[g.parameter.0 as int] == o.general_f64@[g.parameter.0 as int]);
        if g.before is Some { let k = choose|k: int| 0 <= k < o.bf().len() && #[trigger] o.bf()[k] == Some(Slot { p: g.parameter.0 as int, out: Some(g.before->Some_0.0 as int) }); assert(c.general_before_order@[k] == o.general_before_order@[k]); assert(c.bf()[k] == o.bf()[k]); }
        if g.after is Some { let k = choose|k: int| 0 <= k < o.af().len() && #[trigger] o.af()[k] == Some(Slot { p: g.parameter.0 as int, out: Some(g.after->Some_0.0 as int) }); assert(c.general_after_order@[k] == o.general_after_order@[k]); assert(c.af()[k] == o.af()[k]); }
    }
}
proof fn lemma_whole_f(c: ParameterCollection, i: VIdx, before: Option<VIdx>, after: Option<VIdx>)
    requires c.scheduled(), i.0 < c.general_f64@.len(), at_slot(c.bf(), i.0 as int, before), at_slot(c.af(), i.0 as int, after),
        before is None ==> forall|k: int| 0 <= k < c.bf().len() && (#[trigger] c.bf()[k]) is Some ==> c.bf()[k]->Some_0.p != i.0,
        after is None ==> forall|k: int| 0 <= k < c.af().len() && (#[trigger] c.af()[k]) is Some && c.af()[k]->Some_0.p == i.0 ==> c.af()[k]->Some_0.out is None
    ensures c.whole_f(ParameterIndex::General(GeneralParameterRegistration { parameter: i, before, after }))
{
    reveal(schedule); reveal(has_b); reveal(has_a); reveal(own_a);
    let hb = has_b(c.general_f64@); let ha = has_a(c.general_f64@); let o = c.general_after_order@;
    let _b = hb[i.0 as int]; let _a = ha[i.0 as int];
    if before is Some { let k = choose|k: int| 0 <= k < c.bf().len() && #[trigger] c.bf()[k] == Some(Slot { p: i.0 as int, out: Some(before->Some_0.0 as int) }); assert(hb[c.bf()[k]->Some_0.p]); }
    if after is Some {
        let k = choose|k: int| 0 <= k < c.af().len() && #[trigger] c.af()[k] == Some(Slot { p: i.0 as int, out: Some(after->Some_0.0 as int) });
        reveal(qaf); let _o = o[k];
    } else if ha[i.0 as int] {
        let k = choose|k: int| 0 <= k < c.af().len() && (#[trigger] c.af()[k]) is Some && c.af()[k]->Some_0.p == i.0;
        reveal(qaf); let _o = o[k];
    }
}
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::get_f64_index_by_name
//@| sub `Some(reg.into())` => `Some(ParameterIndex::General(reg))`
//@|     `Some(idx.into())` => `Some(ParameterIndex::Simple(idx))`
//@|     `idx.into()` => `ParameterIndex::Const(idx)`
//@| requires
//@|     self.scheduled()
//@| ensures
//@|     r is Some == self.named_f(name.key()), r is Some ==> self.whole_f(r->Some_0) && self.key_f(r->Some_0) == name.key()
//@| at fn.top proof { reveal(qbf); reveal(qaf); }
//@| loop 0 invariant
//@|     _acc0 is None ==> forall|i: int| 0 <= i < _i0 ==> (#[trigger] self.general_f64@[i]).parameter.nm().key() != name.key(),
//@|     _acc0 is Some ==> _acc0->Some_0 < self.general_f64@.len() && self.general_f64@[_acc0->Some_0 as int].parameter.nm().key() == name.key()
//@| loop 1 invariant
//@|     _acc1 is None ==> forall|k: int| 0 <= k < _i1 && (#[trigger] self.bf()[k]) is Some ==> self.bf()[k]->Some_0.p != parameter_idx.0,
//@|     _acc1 is Some ==> at_slot(self.bf(), parameter_idx.0 as int, _acc1)
//@| loop 2 invariant
//@|     _acc2 is None ==> forall|k: int| 0 <= k < _i2 && (#[trigger] self.af()[k]) is Some && self.af()[k]->Some_0.p == parameter_idx.0 ==> self.af()[k]->Some_0.out is None,
//@|     _acc2 is Some ==> at_slot(self.af(), parameter_idx.0 as int, _acc2)
//@| loop 3 invariant
//@|     _acc3 is None ==> forall|i: int| 0 <= i < _i3 ==> (#[trigger] self.simple_f64@[i]).nm().key() != name.key(),
//@|     _acc3 is Some ==> _acc3->Some_0 < self.simple_f64@.len() && self.simple_f64@[_acc3->Some_0 as int].nm().key() == name.key()
//@| loop 4 invariant
//@|     _acc4 is None ==> forall|i: int| 0 <= i < _i4 ==> (#[trigger] self.constant_f64@[i]).nm().key() != name.key(),
//@|     _acc4 is Some ==> _acc4->Some_0 < self.constant_f64@.len() && self.constant_f64@[_acc4->Some_0 as int].nm().key() == name.key()
//@| at loop1.end proof { if _acc1 is Some { assert(self.bf()[_i1 - 1] == Some(Slot { p: parameter_idx.0 as int, out: Some(_acc1->Some_0.0 as int) })); } }
//@| at loop2.end proof { if _acc2 is Some { assert(self.af()[_i2 - 1] == Some(Slot { p: parameter_idx.0 as int, out: Some(_acc2->Some_0.0 as int) })); } }
//@| at loop2.after proof { lemma_whole_f(*self, parameter_idx, before, _acc2); }
proof fn lemma_knows_u(c: ParameterCollection, o: ParameterCollection, x: ParameterIndex)
    requires c.extends(o), o.knows_u(x)
    ensures c.knows_u(x), c.key_u(x) == o.key_u(x), o.whole_u(x) ==> c.whole_u(x)
{
    reveal(qbu); reveal(qau);
    if let ParameterIndex::General(g) = x {
        assert(c.general_u64@[g.parameter.0 as int] == o.general_u64@[g.parameter.0 as int]);
        if g.before is Some { let k = choose|k: int| 0 <= k < o.bu().len() && #[trigger] o.bu()[k] == Some(Slot { p: g.parameter.0 as int, out: Some(g.before->Some_0.0 as int) }); assert(c.general_before_order@[k] == o.general_before_order@[k]); assert(c.bu()[k] == o.bu()[k]); }
        if g.after is Some { let k = choose|k: int| 0 <= k < o.au().len() && #[trigger] o.au()[k] == Some(Slot { p: g.parameter.0 as int, out: Some(g.after->Some_0.0 as int) }); assert(c.general_after_order@[k] == o.general_after_order@[k]); assert(c.au()[k] == o.au()[k]); }
    }
}
proof fn lemma_whole_u(c: ParameterCollection, i: VIdx, before: Option<VIdx>, after: Option<VIdx>)
    requires c.scheduled(), i.0 < c.general_u64@.len(), at_slot(c.bu(), i.0 as int, before), at_slot(c.au(), i.0 as int, after),
        before is None ==> forall|k: int| 0 <= k < c.bu().len() && (#[trigger] c.bu()[k]) is Some ==> c.bu()[k]->Some_0.p != i.0,
        after is None ==> forall|k: int| 0 <= k < c.au().len() && (#[trigger] c.au()[k]) is Some && c.au()[k]->Some_0.p == i.0 ==> c.au()[k]->Some_0.out is None
    ensures c.whole_u(ParameterIndex::General(GeneralParameterRegistration { parameter: i, before, after }))
{
    reveal(schedule); reveal(has_b); reveal(has_a); reveal(own_a);
    let hb = has_b(c.general_u64@); let ha = has_a(c.general_u64@); let o = c.general_after_order@;
    let _b = hb[i.0 as int]; let _a = ha[i.0 as int];
    if before is Some { let k = choose|k: int| 0 <= k < c.bu().len() && #[trigger] c.bu()[k] == Some(Slot { p: i.0 as int, out: Some(before->Some_0.0 as int) }); assert(hb[c.bu()[k]->Some_0.p]); }
    if after is Some {
        let k = choose|k: int| 0 <= k < c.au().len() && #[trigger] c.au()[k] == Some(Slot { p: i.0 as int, out: Some(after->Some_0.0 as int) });
        reveal(qau); let _o = o[k];
    } else if ha[i.0 as int] {
        let k = choose|k: int| 0 <= k < c.au().len() && (#[trigger] c.au()[k]) is Some && c.au()[k]->Some_0.p == i.0;
        reveal(qau); let _o = o[k];
    }
}
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::get_u64_index_by_name
//@| sub `Some(reg.into())` => `Some(ParameterIndex::General(reg))`
//@|     `Some(idx.into())` => `Some(ParameterIndex::Simple(idx))`
//@|     `idx.into()` => `ParameterIndex::Const(idx)`
//@| requires
//@|     self.scheduled()
//@| ensures
//@|     r is Some == self.named_u(name.key()), r is Some ==> self.whole_u(r->Some_0) && self.key_u(r->Some_0) == name.key()
//@| at fn.top proof { reveal(qbu); reveal(qau); }
//@| loop 0 invariant
//@|     _acc0 is None ==> forall|i: int| 0 <= i < _i0 ==> (#[trigger] self.general_u64@[i]).parameter.nm().key() != name.key(),
//@|     _acc0 is Some ==> _acc0->Some_0 < self.general_u64@.len() && self.general_u64@[_acc0->Some_0 as int].parameter.nm().key() == name.key()
//@| loop 1 invariant
//@|     _acc1 is None ==> forall|k: int| 0 <= k < _i1 && (#[trigger] self.bu()[k]) is Some ==> self.bu()[k]->Some_0.p != parameter_idx.0,
//@|     _acc1 is Some ==> at_slot(self.bu(), parameter_idx.0 as int, _acc1)
//@| loop 2 invariant
//@|     _acc2 is None ==> forall|k: int| 0 <= k < _i2 && (#[trigger] self.au()[k]) is Some && self.au()[k]->Some_0.p == parameter_idx.0 ==> self.au()[k]->Some_0.out is None,
//@|     _acc2 is Some ==> at_slot(self.au(), parameter_idx.0 as int, _acc2)
//@| loop 3 invariant
//@|     _acc3 is None ==> forall|i: int| 0 <= i < _i3 ==> (#[trigger] self.simple_u64@[i]).nm().key() != name.key(),
//@|     _acc3 is Some ==> _acc3->Some_0 < self.simple_u64@.len() && self.simple_u64@[_acc3->Some_0 as int].nm().key() == name.key()
//@| loop 4 invariant
//@|     _acc4 is None ==> forall|i: int| 0 <= i < _i4 ==> (#[trigger] self.constant_u64@[i]).nm().key() != name.key(),
//@|     _acc4 is Some ==> _acc4->Some_0 < self.constant_u64@.len() && self.constant_u64@[_acc4->Some_0 as int].nm().key() == name.key()
//@| at loop1.end proof { if _acc1 is Some { assert(self.bu()[_i1 - 1] == Some(Slot { p: parameter_idx.0 as int, out: Some(_acc1->Some_0.0 as int) })); } }
//@| at loop2.end proof { if _acc2 is Some { assert(self.au()[_i2 - 1] == Some(Slot { p: parameter_idx.0 as int, out: Some(_acc2->Some_0.0 as int) })); } }
//@| at loop2.after proof { lemma_whole_u(*self, parameter_idx, before, _acc2); }
proof fn lemma_knows_m(c: ParameterCollection, o: ParameterCollection, x: ParameterIndex)
    requires c.extends(o), o.knows_m(x)
    ensures c.knows_m(x), c.key_m(x) == o.key_m(x), o.whole_m(x) ==> c.whole_m(x)
{
    reveal(qbm); reveal(qam);
    if let ParameterIndex::General(g) = x {
        assert(c.general_multi@[g.parameter.0 as int] == o.general_multi@[g.parameter.0 as int]);
        if g.before is Some { let k = choose|k: int| 0 <= k < o.bm().len() && #[trigger] o.bm()[k] == Some(Slot { p: g.parameter.0 as int, out: Some(g.before->Some_0.0 as int) }); assert(c.general_before_order@[k] == o.general_before_order@[k]); assert(c.bm()[k] == o.bm()[k]); }
        if g.after is Some { let k = choose|k: int| 0 <= k < o.am().len() && #[trigger] o.am()[k] == Some(Slot { p: g.parameter.0 as int, out: Some(g.after->Some_0.0 as int) }); assert(c.general_after_order@[k] == o.general_after_order@[k]); assert(c.am()[k] == o.am()[k]); }
    }
}
proof fn lemma_whole_m(c: ParameterCollection, i: VIdx, before: Option<VIdx>, after: Option<VIdx>)
    requires c.scheduled(), i.0 < c.general_multi@.len(), at_slot(c.bm(), i.0 as int, before), at_slot(c.am(), i.0 as int, after),
        before is None ==> forall|k: int| 0 <= k < c.bm().len() && (#[trigger] c.bm()[k]) is Some ==> c.bm()[k]->Some_0.p != i.0,
        after is None ==> forall|k: int| 0 <= k < c.am().len() && (#[trigger] c.am()[k]) is Some && c.am()[k]->Some_0.p == i.0 ==> c.am()[k]->Some_0.out is None
    ensures c.whole_m(ParameterIndex::General(GeneralParameterRegistration { parameter: i, before, after }))
{
    reveal(schedule); reveal(has_b); reveal(has_a); reveal(own_a);
    let hb = has_b(c.general_multi@); let ha = has_a(c.general_multi@); let o = c.general_after_order@;
    let _b = hb[i.0 as int]; let _a = ha[i.0 as int];
    if before is Some { let k = choose|k: int| 0 <= k < c.bm().len() && #[trigger] c.bm()[k] == Some(Slot { p: i.0 as int, out: Some(before->Some_0.0 as int) }); assert(hb[c.bm()[k]->Some_0.p]); }
    if after is Some {
        let k = choose|k: int| 0 <= k < c.am().len() && #[trigger] c.am()[k] == Some(Slot { p: i.0 as int, out: Some(after->Some_0.0 as int) });
        reveal(qam); let _o = o[k];
    } else if ha[i.0 as int] {
        let k = choose|k: int| 0 <= k < c.am().len() && (#[trigger] c.am()[k]) is Some && c.am()[k]->Some_0.p == i.0;
        reveal(qam); let _o = o[k];
    }
}
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::get_multi_index_by_name
//@| sub `Some(reg.into())` => `Some(ParameterIndex::General(reg))`
//@|     `Some(idx.into())` => `Some(ParameterIndex::Simple(idx))`
//@|     `idx.into()` => `ParameterIndex::Const(idx)`
//@| requires
//@|     self.scheduled()
//@| ensures
//@|     r is Some == self.named_m(name.key()), r is Some ==> self.whole_m(r->Some_0) && self.key_m(r->Some_0) == name.key()
//@| at fn.top proof { reveal(qbm); reveal(qam); }
//@| loop 0 invariant
//@|     _acc0 is None ==> forall|i: int| 0 <= i < _i0 ==> (#[trigger] self.general_multi@[i]).parameter.nm().key() != name.key(),
//@|     _acc0 is Some ==> _acc0->Some_0 < self.general_multi@.len() && self.general_multi@[_acc0->Some_0 as int].parameter.nm().key() == name.key()
//@| loop 1 invariant
//@|     _acc1 is None ==> forall|k: int| 0 <= k < _i1 && (#[trigger] self.bm()[k]) is Some ==> self.bm()[k]->Some_0.p != parameter_idx.0,
//@|     _acc1 is Some ==> at_slot(self.bm(), parameter_idx.0 as int, _acc1)
//@| loop 2 invariant
//@|     _acc2 is None ==> forall|k: int| 0 <= k < _i2 && (#[trigger] self.am()[k]) is Some && self.am()[k]->Some_0.p == parameter_idx.0 ==> self.am()[k]->Some_0.out is None,
//@|     _acc2 is Some ==> at_slot(self.am(), parameter_idx.0 as int, _acc2)
//@| loop 3 invariant
//@|     _acc3 is None ==> forall|i: int| 0 <= i < _i3 ==> (#[trigger] self.simple_multi@[i]).nm().key() != name.key(),
//@|     _acc3 is Some ==> _acc3->Some_0 < self.simple_multi@.len() && self.simple_multi@[_acc3->Some_0 as int].nm().key() == name.key()
//@| loop 4 invariant
//@|     _acc4 is None ==> forall|i: int| 0 <= i < _i4 ==> (#[trigger] self.constant_multi@[i]).nm().key() != name.key(),
//@|     _acc4 is Some ==> _acc4->Some_0 < self.constant_multi@.len() && self.constant_multi@[_acc4->Some_0 as int].nm().key() == name.key()
//@| at loop1.end proof { if _acc1 is Some { assert(self.bm()[_i1 - 1] == Some(Slot { p: parameter_idx.0 as int, out: Some(_acc1->Some_0.0 as int) })); } }
//@| at loop2.end proof { if _acc2 is Some { assert(self.am()[_i2 - 1] == Some(Slot { p: parameter_idx.0 as int, out: Some(_acc2->Some_0.0 as int) })); } }
//@| at loop2.after proof { lemma_whole_m(*self, parameter_idx, before, _acc2); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::has_name
//@| requires
//@|     self.scheduled()
//@| ensures
//@|     r == (self.named_f(name.key()) || self.named_u(name.key()) || self.named_m(name.key()))
