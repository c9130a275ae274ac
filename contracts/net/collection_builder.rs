// The builder of the collection: what it is given is what it builds. Proved in unit `collection`.
/// the number of the next collection
#[verifier::external_body] pub fn next_collection_id() -> u64 { unimplemented!() }
/// used only to say which error is returned
#[verifier::external_body] pub fn in_list(v: &Vec<ParameterName>, x: &ParameterName) -> bool { unimplemented!() }
pub open spec fn keys<T>(s: Seq<Box<dyn ParameterBuilder<T>>>) -> Seq<K3> { Seq::new(s.len(), |i: int| s[i].nm().key()) }
pub open spec fn fkeys<T>(s: Seq<(Box<dyn ParameterBuilder<T>>, ParameterName)>) -> Seq<K3> { Seq::new(s.len(), |i: int| s[i].0.nm().key()) }
/// the names described are those registered, those put off and those still to do
#[verifier::opaque] pub open spec fn cov(all: Seq<K3>, m: Map<K3, ParameterIndex>, failed: Seq<K3>, todo: Seq<K3>, i: int, total: int) -> bool {
    0 <= i <= todo.len() && total + failed.len() + todo.len() - i == all.len() && forall|k: K3| #![trigger all.contains(k)] #![trigger m.contains_key(k)] all.contains(k) <==> (m.contains_key(k) || failed.contains(k) || todo.skip(i).contains(k))
}
proof fn lemma_contains_push(s: Seq<K3>, x: K3, k: K3) ensures s.push(x).contains(k) <==> (s.contains(k) || k == x) {
    if s.contains(k) { let j = choose|j: int| 0 <= j < s.len() && s[j] == k; assert(s.push(x)[j] == k); }
    if k == x { assert(s.push(x)[s.len() as int] == k); }
    if s.push(x).contains(k) { let j = choose|j: int| 0 <= j < s.push(x).len() && s.push(x)[j] == k; if j < s.len() { assert(s[j] == k); } }
}
proof fn lemma_contains_skip(s: Seq<K3>, i: int, k: K3) requires 0 <= i < s.len() ensures s.skip(i).contains(k) <==> (s.skip(i + 1).contains(k) || k == s[i]) {
    let a = s.skip(i); let b = s.skip(i + 1);
    assert(a[0] == s[i]);
    if b.contains(k) { let j = choose|j: int| 0 <= j < b.len() && b[j] == k; assert(a[j + 1] == k); }
    if a.contains(k) { let j = choose|j: int| 0 <= j < a.len() && a[j] == k; if j > 0 { assert(b[j - 1] == k); } }
}
proof fn lemma_cov_built(all: Seq<K3>, m: Map<K3, ParameterIndex>, failed: Seq<K3>, todo: Seq<K3>, i: int, total: int, x: ParameterIndex)
    requires cov(all, m, failed, todo, i, total), i < todo.len() ensures cov(all, m.insert(todo[i], x), failed, todo, i + 1, total + 1)
{
    reveal(cov); let m1 = m.insert(todo[i], x);
    assert forall|k: K3| #![trigger all.contains(k)] #![trigger m1.contains_key(k)] all.contains(k) <==> (m1.contains_key(k) || failed.contains(k) || todo.skip(i + 1).contains(k)) by { lemma_contains_skip(todo, i, k); let _k = m.contains_key(k); }
}
proof fn lemma_cov_failed(all: Seq<K3>, m: Map<K3, ParameterIndex>, failed: Seq<K3>, todo: Seq<K3>, i: int, total: int)
    requires cov(all, m, failed, todo, i, total), i < todo.len() ensures cov(all, m, failed.push(todo[i]), todo, i + 1, total)
{
    reveal(cov);
    assert forall|k: K3| #![trigger all.contains(k)] #![trigger m.contains_key(k)] all.contains(k) <==> (m.contains_key(k) || failed.push(todo[i]).contains(k) || todo.skip(i + 1).contains(k)) by { lemma_contains_skip(todo, i, k); lemma_contains_push(failed, todo[i], k); }
}
proof fn lemma_cov_pass(all: Seq<K3>, m: Map<K3, ParameterIndex>, failed: Seq<K3>, todo: Seq<K3>, i: int, total: int)
    requires cov(all, m, failed, todo, i, total), i == todo.len() ensures cov(all, m, Seq::<K3>::empty(), failed, 0, total)
{
    reveal(cov); assert(failed.skip(0) =~= failed); assert(todo.skip(i) =~= Seq::<K3>::empty());
    assert forall|k: K3| #![trigger all.contains(k)] #![trigger m.contains_key(k)] all.contains(k) <==> (m.contains_key(k) || Seq::<K3>::empty().contains(k) || failed.skip(0).contains(k)) by { }
}
proof fn lemma_cov_start(all: Seq<K3>) ensures cov(all, Map::<K3, ParameterIndex>::empty(), Seq::<K3>::empty(), all, 0, 0) { reveal(cov); assert(all.skip(0) =~= all); }
proof fn lemma_cov_done(all: Seq<K3>, m: Map<K3, ParameterIndex>, failed: Seq<K3>, todo: Seq<K3>, total: int)
    requires cov(all, m, failed, todo, 0, total), failed.len() == 0, todo.len() == 0 ensures total == all.len(), forall|k: K3| all.contains(k) <==> #[trigger] m.contains_key(k)
{ reveal(cov); }
impl ParameterCollection {
    pub open spec fn total_f(&self) -> int { (self.general_f64@.len() + self.simple_f64@.len() + self.constant_f64@.len()) as int }
    /// each name is registered with the parameter of that name, and with all the places it has
    #[verifier::opaque] pub open spec fn reg_f(&self, m: Map<K3, ParameterIndex>) -> bool { forall|k: K3| #[trigger] m.contains_key(k) ==> self.whole_f(m[k]) && self.key_f(m[k]) == k }
    /// the parameters described are those there are, each once, and each is registered
    pub open spec fn complete_f(&self, m: Map<K3, ParameterIndex>, all: Seq<K3>) -> bool { self.reg_f(m) && self.total_f() == all.len() && forall|k: K3| all.contains(k) <==> #[trigger] m.contains_key(k) }
    #[verifier::opaque] pub open spec fn kept_f(&self, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int) -> bool {
        cov(all, m, failed, todo, i, self.total_f()) && self.reg_f(m) && self.num_general_before_f64 <= self.total_f() && self.num_general_after_f64 <= self.total_f() && all.len() <= usize::MAX
    }
    pub open spec fn total_u(&self) -> int { (self.general_u64@.len() + self.simple_u64@.len() + self.constant_u64@.len()) as int }
    /// each name is registered with the parameter of that name, and with all the places it has
    #[verifier::opaque] pub open spec fn reg_u(&self, m: Map<K3, ParameterIndex>) -> bool { forall|k: K3| #[trigger] m.contains_key(k) ==> self.whole_u(m[k]) && self.key_u(m[k]) == k }
    /// the parameters described are those there are, each once, and each is registered
    pub open spec fn complete_u(&self, m: Map<K3, ParameterIndex>, all: Seq<K3>) -> bool { self.reg_u(m) && self.total_u() == all.len() && forall|k: K3| all.contains(k) <==> #[trigger] m.contains_key(k) }
    #[verifier::opaque] pub open spec fn kept_u(&self, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int) -> bool {
        cov(all, m, failed, todo, i, self.total_u()) && self.reg_u(m) && self.num_general_before_u64 <= self.total_u() && self.num_general_after_u64 <= self.total_u() && all.len() <= usize::MAX
    }
    pub open spec fn total_m(&self) -> int { (self.general_multi@.len() + self.simple_multi@.len() + self.constant_multi@.len()) as int }
    /// each name is registered with the parameter of that name, and with all the places it has
    #[verifier::opaque] pub open spec fn reg_m(&self, m: Map<K3, ParameterIndex>) -> bool { forall|k: K3| #[trigger] m.contains_key(k) ==> self.whole_m(m[k]) && self.key_m(m[k]) == k }
    /// the parameters described are those there are, each once, and each is registered
    pub open spec fn complete_m(&self, m: Map<K3, ParameterIndex>, all: Seq<K3>) -> bool { self.reg_m(m) && self.total_m() == all.len() && forall|k: K3| all.contains(k) <==> #[trigger] m.contains_key(k) }
    #[verifier::opaque] pub open spec fn kept_m(&self, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int) -> bool {
        cov(all, m, failed, todo, i, self.total_m()) && self.reg_m(m) && self.num_general_before_multi <= self.total_m() && self.num_general_after_multi <= self.total_m() && all.len() <= usize::MAX
    }
}
proof fn lemma_room_f(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires c.kept_f(m, all, failed, todo, i), i < todo.len() ensures c.num_general_before_f64 < usize::MAX, c.num_general_after_f64 < usize::MAX { reveal(cov); reveal(ParameterCollection::kept_f); }
proof fn lemma_reg_f(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>)
    requires c.extends(o), o.reg_f(m) ensures c.reg_f(m)
{ reveal(ParameterCollection::reg_f); assert forall|k: K3| #[trigger] m.contains_key(k) implies c.whole_f(m[k]) && c.key_f(m[k]) == k by { lemma_knows_f(c, o, m[k]); } }
proof fn lemma_built_f(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>, m1: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires o.kept_f(m, all, failed, todo, i), 0 <= i < todo.len(), c.added_f(o, todo[i], m1[todo[i]]), m1 == m.insert(todo[i], m1[todo[i]])
    ensures c.kept_f(m1, all, failed, todo, i + 1)
{
    reveal(ParameterCollection::kept_f); lemma_cov_built(all, m, failed, todo, i, o.total_f(), m1[todo[i]]); lemma_reg_f(c, o, m); reveal(ParameterCollection::reg_f);
    assert forall|k: K3| #[trigger] m1.contains_key(k) implies c.whole_f(m1[k]) && c.key_f(m1[k]) == k by { if k != todo[i] { assert(m.contains_key(k)); } }
}
proof fn lemma_failed_f(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, failed1: Seq<K3>, todo: Seq<K3>, i: int)
    requires c.kept_f(m, all, failed, todo, i), 0 <= i < todo.len(), failed1 =~= failed.push(todo[i]) ensures c.kept_f(m, all, failed1, todo, i + 1)
{ reveal(ParameterCollection::kept_f); lemma_cov_failed(all, m, failed, todo, i, c.total_f()); }
proof fn lemma_other_f(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires o.kept_f(m, all, failed, todo, i), c.extends(o), c.same_f(o) ensures c.kept_f(m, all, failed, todo, i)
{ reveal(ParameterCollection::kept_f); lemma_reg_f(c, o, m); }
proof fn lemma_pass_f(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, todo1: Seq<K3>)
    requires c.kept_f(m, all, failed, todo, todo.len() as int), todo1 =~= failed ensures c.kept_f(m, all, Seq::<K3>::empty(), todo1, 0)
{ reveal(ParameterCollection::kept_f); lemma_cov_pass(all, m, failed, todo, todo.len() as int, c.total_f()); }
proof fn lemma_done_f(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, todo: Seq<K3>)
    requires c.kept_f(m, all, Seq::<K3>::empty(), todo, 0), todo.len() == 0 ensures c.complete_f(m, all)
{ reveal(ParameterCollection::kept_f); lemma_cov_done(all, m, Seq::<K3>::empty(), todo, c.total_f()); }
proof fn lemma_start_f(c: ParameterCollection, all: Seq<K3>)
    requires c.total_f() == 0, c.num_general_before_f64 == 0, c.num_general_after_f64 == 0, all.len() <= usize::MAX ensures c.kept_f(Map::<K3, ParameterIndex>::empty(), all, Seq::<K3>::empty(), all, 0)
{ reveal(ParameterCollection::kept_f); reveal(ParameterCollection::reg_f); lemma_cov_start(all); }
proof fn lemma_room_u(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires c.kept_u(m, all, failed, todo, i), i < todo.len() ensures c.num_general_before_u64 < usize::MAX, c.num_general_after_u64 < usize::MAX { reveal(cov); reveal(ParameterCollection::kept_u); }
proof fn lemma_reg_u(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>)
    requires c.extends(o), o.reg_u(m) ensures c.reg_u(m)
{ reveal(ParameterCollection::reg_u); assert forall|k: K3| #[trigger] m.contains_key(k) implies c.whole_u(m[k]) && c.key_u(m[k]) == k by { lemma_knows_u(c, o, m[k]); } }
proof fn lemma_built_u(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>, m1: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires o.kept_u(m, all, failed, todo, i), 0 <= i < todo.len(), c.added_u(o, todo[i], m1[todo[i]]), m1 == m.insert(todo[i], m1[todo[i]])
    ensures c.kept_u(m1, all, failed, todo, i + 1)
{
    reveal(ParameterCollection::kept_u); lemma_cov_built(all, m, failed, todo, i, o.total_u(), m1[todo[i]]); lemma_reg_u(c, o, m); reveal(ParameterCollection::reg_u);
    assert forall|k: K3| #[trigger] m1.contains_key(k) implies c.whole_u(m1[k]) && c.key_u(m1[k]) == k by { if k != todo[i] { assert(m.contains_key(k)); } }
}
proof fn lemma_failed_u(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, failed1: Seq<K3>, todo: Seq<K3>, i: int)
    requires c.kept_u(m, all, failed, todo, i), 0 <= i < todo.len(), failed1 =~= failed.push(todo[i]) ensures c.kept_u(m, all, failed1, todo, i + 1)
{ reveal(ParameterCollection::kept_u); lemma_cov_failed(all, m, failed, todo, i, c.total_u()); }
proof fn lemma_other_u(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires o.kept_u(m, all, failed, todo, i), c.extends(o), c.same_u(o) ensures c.kept_u(m, all, failed, todo, i)
{ reveal(ParameterCollection::kept_u); lemma_reg_u(c, o, m); }
proof fn lemma_pass_u(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, todo1: Seq<K3>)
    requires c.kept_u(m, all, failed, todo, todo.len() as int), todo1 =~= failed ensures c.kept_u(m, all, Seq::<K3>::empty(), todo1, 0)
{ reveal(ParameterCollection::kept_u); lemma_cov_pass(all, m, failed, todo, todo.len() as int, c.total_u()); }
proof fn lemma_done_u(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, todo: Seq<K3>)
    requires c.kept_u(m, all, Seq::<K3>::empty(), todo, 0), todo.len() == 0 ensures c.complete_u(m, all)
{ reveal(ParameterCollection::kept_u); lemma_cov_done(all, m, Seq::<K3>::empty(), todo, c.total_u()); }
proof fn lemma_start_u(c: ParameterCollection, all: Seq<K3>)
    requires c.total_u() == 0, c.num_general_before_u64 == 0, c.num_general_after_u64 == 0, all.len() <= usize::MAX ensures c.kept_u(Map::<K3, ParameterIndex>::empty(), all, Seq::<K3>::empty(), all, 0)
{ reveal(ParameterCollection::kept_u); reveal(ParameterCollection::reg_u); lemma_cov_start(all); }
proof fn lemma_room_m(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires c.kept_m(m, all, failed, todo, i), i < todo.len() ensures c.num_general_before_multi < usize::MAX, c.num_general_after_multi < usize::MAX { reveal(cov); reveal(ParameterCollection::kept_m); }
proof fn lemma_reg_m(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>)
    requires c.extends(o), o.reg_m(m) ensures c.reg_m(m)
{ reveal(ParameterCollection::reg_m); assert forall|k: K3| #[trigger] m.contains_key(k) implies c.whole_m(m[k]) && c.key_m(m[k]) == k by { lemma_knows_m(c, o, m[k]); } }
proof fn lemma_built_m(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>, m1: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires o.kept_m(m, all, failed, todo, i), 0 <= i < todo.len(), c.added_m(o, todo[i], m1[todo[i]]), m1 == m.insert(todo[i], m1[todo[i]])
    ensures c.kept_m(m1, all, failed, todo, i + 1)
{
    reveal(ParameterCollection::kept_m); lemma_cov_built(all, m, failed, todo, i, o.total_m(), m1[todo[i]]); lemma_reg_m(c, o, m); reveal(ParameterCollection::reg_m);
    assert forall|k: K3| #[trigger] m1.contains_key(k) implies c.whole_m(m1[k]) && c.key_m(m1[k]) == k by { if k != todo[i] { assert(m.contains_key(k)); } }
}
proof fn lemma_failed_m(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, failed1: Seq<K3>, todo: Seq<K3>, i: int)
    requires c.kept_m(m, all, failed, todo, i), 0 <= i < todo.len(), failed1 =~= failed.push(todo[i]) ensures c.kept_m(m, all, failed1, todo, i + 1)
{ reveal(ParameterCollection::kept_m); lemma_cov_failed(all, m, failed, todo, i, c.total_m()); }
proof fn lemma_other_m(c: ParameterCollection, o: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, i: int)
    requires o.kept_m(m, all, failed, todo, i), c.extends(o), c.same_m(o) ensures c.kept_m(m, all, failed, todo, i)
{ reveal(ParameterCollection::kept_m); lemma_reg_m(c, o, m); }
proof fn lemma_pass_m(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, failed: Seq<K3>, todo: Seq<K3>, todo1: Seq<K3>)
    requires c.kept_m(m, all, failed, todo, todo.len() as int), todo1 =~= failed ensures c.kept_m(m, all, Seq::<K3>::empty(), todo1, 0)
{ reveal(ParameterCollection::kept_m); lemma_cov_pass(all, m, failed, todo, todo.len() as int, c.total_m()); }
proof fn lemma_done_m(c: ParameterCollection, m: Map<K3, ParameterIndex>, all: Seq<K3>, todo: Seq<K3>)
    requires c.kept_m(m, all, Seq::<K3>::empty(), todo, 0), todo.len() == 0 ensures c.complete_m(m, all)
{ reveal(ParameterCollection::kept_m); lemma_cov_done(all, m, Seq::<K3>::empty(), todo, c.total_m()); }
proof fn lemma_start_m(c: ParameterCollection, all: Seq<K3>)
    requires c.total_m() == 0, c.num_general_before_multi == 0, c.num_general_after_multi == 0, all.len() <= usize::MAX ensures c.kept_m(Map::<K3, ParameterIndex>::empty(), all, Seq::<K3>::empty(), all, 0)
{ reveal(ParameterCollection::kept_m); reveal(ParameterCollection::reg_m); lemma_cov_start(all); }
proof fn lemma_empty_scheduled(c: ParameterCollection)
    requires c.general_before_order@.len() == 0, c.general_after_order@.len() == 0, c.simple_resolve_order@.len() == 0, c.constant_resolve_order@.len() == 0, c.total_f() == 0, c.total_u() == 0, c.total_m() == 0
    ensures c.scheduled()
{
    reveal(schedule); reveal(own_b); reveal(own_a); reveal(has_b); reveal(has_a); reveal(has_all);
    reveal(qbf); reveal(qaf); reveal(qsf); reveal(qcf); reveal(qbu); reveal(qau); reveal(qsu); reveal(qcu); reveal(qbm); reveal(qam); reveal(qsm); reveal(qcm);
}
//@ extract pywr-core/src/parameters/mod.rs impl Default for ParameterCollection::default
//@| sub `PARAMETER_COLLECTION_ID.fetch_add(1, Ordering::Relaxed)` => `next_collection_id()`
//@| ensures
//@|     r.scheduled(), r.total_f() == 0, r.total_u() == 0, r.total_m() == 0,
//@|     r.num_general_before_f64 == 0, r.num_general_after_f64 == 0, r.num_general_before_u64 == 0, r.num_general_after_u64 == 0, r.num_general_before_multi == 0, r.num_general_after_multi == 0
//@| at fn.end proof { lemma_empty_scheduled(_ret); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollectionBuilder::is_empty
//@| ensures
//@|     r == (self.f64@.len() == 0 && self.u64@.len() == 0 && self.multi@.len() == 0)
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollectionBuilder::len
//@| requires
//@|     self.f64@.len() + self.u64@.len() + self.multi@.len() <= usize::MAX
//@| ensures
//@|     r == self.f64@.len() + self.u64@.len() + self.multi@.len()
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollectionBuilder::contains_name
//@| ensures
//@|     r == (keys(self.f64@).contains(name.key()) || keys(self.u64@).contains(name.key()) || keys(self.multi@).contains(name.key()))
//@| loop 0 invariant
//@|     !_acc0 ==> forall|j: int| 0 <= j < _i0 ==> keys(self.f64@)[j] != name.key(),
//@|     _acc0 ==> keys(self.f64@).contains(name.key())
//@| at loop0.end proof { if _acc0 { assert(keys(self.f64@)[_i0 - 1] == name.key()); } }
//@| loop 1 invariant
//@|     !_acc1 ==> forall|j: int| 0 <= j < _i1 ==> keys(self.u64@)[j] != name.key(),
//@|     _acc1 ==> keys(self.u64@).contains(name.key())
//@| at loop1.end proof { if _acc1 { assert(keys(self.u64@)[_i1 - 1] == name.key()); } }
//@| loop 2 invariant
//@|     !_acc2 ==> forall|j: int| 0 <= j < _i2 ==> keys(self.multi@)[j] != name.key(),
//@|     _acc2 ==> keys(self.multi@).contains(name.key())
//@| at loop2.end proof { if _acc2 { assert(keys(self.multi@)[_i2 - 1] == name.key()); } }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollectionBuilder::build
//@| moveout f64 u64 multi failed_f64 failed_u64 failed_multi missing_names
//@| acctype 1 &ParameterName
//@|     2 &ParameterName
//@|     15 Box<dyn ParameterBuilder<R>>
//@|     16 Box<dyn ParameterBuilder<u64>>
//@|     17 Box<dyn ParameterBuilder<MultiValue>>
//@| requires
//@|     self.f64@.len() + self.u64@.len() + self.multi@.len() <= usize::MAX,
//@|     old(resolution_maps).parameters_f64@ == Map::<K3, ParameterIndex>::empty(), old(resolution_maps).parameters_u64@ == Map::<K3, ParameterIndex>::empty(), old(resolution_maps).parameters_multi@ == Map::<K3, ParameterIndex>::empty()
//@| ensures
//@|     r is Ok ==> (keys(self.f64@) + keys(self.u64@) + keys(self.multi@)).no_duplicates() && r->Ok_0.scheduled() && same_network(*old(resolution_maps), *final(resolution_maps)),
//@|     r is Ok ==> r->Ok_0.complete_f(final(resolution_maps).parameters_f64@, keys(self.f64@)) && r->Ok_0.complete_u(final(resolution_maps).parameters_u64@, keys(self.u64@)) && r->Ok_0.complete_m(final(resolution_maps).parameters_multi@, keys(self.multi@))
//@| at fn.top let ghost _kf = keys(self.f64@); let ghost _ku = keys(self.u64@); let ghost _km = keys(self.multi@); let ghost _all = _kf + _ku + _km; let ghost _m0 = *resolution_maps; let ghost _no = Seq::<K3>::empty();
//@| loop 2 invariant
//@|     _chain2@.len() == _i2, forall|j: int| 0 <= j < _i2 ==> (#[trigger] _chain2@[j]).key() == _all[j]
//@| loop 3 invariant
//@|     _chain2@.len() == _kf.len() + _i3, forall|j: int| 0 <= j < _chain2@.len() ==> (#[trigger] _chain2@[j]).key() == _all[j]
//@| loop 1 invariant
//@|     _chain1@.len() == _i1, _chain2@.len() == _kf.len() + _ku.len(), forall|j: int| 0 <= j < _i1 ==> (#[trigger] _chain1@[j]).key() == _all[j]
//@| loop 4 invariant
//@|     _chain1@.len() == _kf.len() + _ku.len() + _i4, forall|j: int| 0 <= j < _chain1@.len() ==> (#[trigger] _chain1@[j]).key() == _all[j]
//@| loop 0 invariant
//@|     _chain1@.len() == _all.len(), forall|j: int| 0 <= j < _i0 ==> names@.contains(#[trigger] _all[j]),
//@|     forall|a: int, b: int| 0 <= a < b < _i0 ==> _all[a] != _all[b]
//@| loop 5 invariant
//@|     collection.scheduled(), same_network(_m0, *resolution_maps), num_unbuilt == self_.f64@.len() + self_.u64@.len() + self_.multi@.len(), self_.f64@.len() + self_.u64@.len() + self_.multi@.len() <= usize::MAX,
//@|     collection.kept_f(resolution_maps.parameters_f64@, _kf, _no, keys(self_.f64@), 0),
//@|     collection.kept_u(resolution_maps.parameters_u64@, _ku, _no, keys(self_.u64@), 0),
//@|     collection.kept_m(resolution_maps.parameters_multi@, _km, _no, keys(self_.multi@), 0)
//@| loop 5 decreases
//@|     num_unbuilt
//@| at loop5.before proof { lemma_start_f(collection, _kf); lemma_start_u(collection, _ku); lemma_start_m(collection, _km); }
//@| at loop5.top let ghost _tf = keys(self_.f64@); let ghost _tu = keys(self_.u64@); let ghost _tm = keys(self_.multi@);
//@| loop 6 invariant
//@|     collection.scheduled(), same_network(_m0, *resolution_maps),
//@|     failed_f64@.len() <= _i6,
//@|     collection.kept_f(resolution_maps.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _i6 as int),
//@|     collection.kept_u(resolution_maps.parameters_u64@, _ku, _no, _tu, 0),
//@|     collection.kept_m(resolution_maps.parameters_multi@, _km, _no, _tm, 0)
//@| at loop6.before proof { assert(fkeys(failed_f64@) =~= _no); }
//@| at loop6.top let ghost _c6 = collection; let ghost _m6 = *resolution_maps; let ghost _fl6 = failed_f64@; proof { lemma_room_f(collection, resolution_maps.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _i6 - 1); assert(_tf[_i6 - 1] == p.nm().key()); }
//@| at loop6.end proof {
//@|     if failed_f64@.len() > _fl6.len() { lemma_failed_f(collection, resolution_maps.parameters_f64@, _kf, fkeys(_fl6), fkeys(failed_f64@), _tf, _i6 - 1); }
//@|     else {
//@|         lemma_built_f(collection, _c6, _m6.parameters_f64@, resolution_maps.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _i6 - 1);
//@|         lemma_other_u(collection, _c6, _m6.parameters_u64@, _ku, _no, _tu, 0);
//@|         lemma_other_m(collection, _c6, _m6.parameters_multi@, _km, _no, _tm, 0);
//@|     }
//@|     }
//@| loop 7 invariant
//@|     collection.scheduled(), same_network(_m0, *resolution_maps),
//@|     failed_u64@.len() <= _i7,
//@|     collection.kept_f(resolution_maps.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _tf.len() as int),
//@|     collection.kept_u(resolution_maps.parameters_u64@, _ku, fkeys(failed_u64@), _tu, _i7 as int),
//@|     collection.kept_m(resolution_maps.parameters_multi@, _km, _no, _tm, 0)
//@| at loop7.before proof { assert(fkeys(failed_u64@) =~= _no); }
//@| at loop7.top let ghost _c7 = collection; let ghost _m7 = *resolution_maps; let ghost _fl7 = failed_u64@; proof { lemma_room_u(collection, resolution_maps.parameters_u64@, _ku, fkeys(failed_u64@), _tu, _i7 - 1); assert(_tu[_i7 - 1] == p.nm().key()); }
//@| at loop7.end proof {
//@|     if failed_u64@.len() > _fl7.len() { lemma_failed_u(collection, resolution_maps.parameters_u64@, _ku, fkeys(_fl7), fkeys(failed_u64@), _tu, _i7 - 1); }
//@|     else {
//@|         lemma_built_u(collection, _c7, _m7.parameters_u64@, resolution_maps.parameters_u64@, _ku, fkeys(failed_u64@), _tu, _i7 - 1);
//@|         lemma_other_f(collection, _c7, _m7.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _tf.len() as int);
//@|         lemma_other_m(collection, _c7, _m7.parameters_multi@, _km, _no, _tm, 0);
//@|     }
//@|     }
//@| loop 8 invariant
//@|     collection.scheduled(), same_network(_m0, *resolution_maps),
//@|     failed_multi@.len() <= _i8,
//@|     collection.kept_f(resolution_maps.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _tf.len() as int),
//@|     collection.kept_u(resolution_maps.parameters_u64@, _ku, fkeys(failed_u64@), _tu, _tu.len() as int),
//@|     collection.kept_m(resolution_maps.parameters_multi@, _km, fkeys(failed_multi@), _tm, _i8 as int)
//@| at loop8.before proof { assert(fkeys(failed_multi@) =~= _no); }
//@| at loop8.top let ghost _c8 = collection; let ghost _m8 = *resolution_maps; let ghost _fl8 = failed_multi@; proof { lemma_room_m(collection, resolution_maps.parameters_multi@, _km, fkeys(failed_multi@), _tm, _i8 - 1); assert(_tm[_i8 - 1] == p.nm().key()); }
//@| at loop8.end proof {
//@|     if failed_multi@.len() > _fl8.len() { lemma_failed_m(collection, resolution_maps.parameters_multi@, _km, fkeys(_fl8), fkeys(failed_multi@), _tm, _i8 - 1); }
//@|     else {
//@|         lemma_built_m(collection, _c8, _m8.parameters_multi@, resolution_maps.parameters_multi@, _km, fkeys(failed_multi@), _tm, _i8 - 1);
//@|         lemma_other_f(collection, _c8, _m8.parameters_f64@, _kf, fkeys(failed_f64@), _tf, _tf.len() as int);
//@|         lemma_other_u(collection, _c8, _m8.parameters_u64@, _ku, fkeys(failed_u64@), _tu, _tu.len() as int);
//@|     }
//@|     }
//@| loop 15 invariant
//@|     _acc15@.len() == _i15, forall|j: int| 0 <= j < _i15 ==> (#[trigger] _acc15@[j]).nm().key() == failed_f64@[j].0.nm().key()
//@| loop 16 invariant
//@|     _acc16@.len() == _i16, forall|j: int| 0 <= j < _i16 ==> (#[trigger] _acc16@[j]).nm().key() == failed_u64@[j].0.nm().key()
//@| loop 17 invariant
//@|     _acc17@.len() == _i17, forall|j: int| 0 <= j < _i17 ==> (#[trigger] _acc17@[j]).nm().key() == failed_multi@[j].0.nm().key()
//@| at loop5.end proof {
//@|     lemma_pass_f(collection, resolution_maps.parameters_f64@, _kf, fkeys(failed_f64@), _tf, keys(self_.f64@));
//@|     lemma_pass_u(collection, resolution_maps.parameters_u64@, _ku, fkeys(failed_u64@), _tu, keys(self_.u64@));
//@|     lemma_pass_m(collection, resolution_maps.parameters_multi@, _km, fkeys(failed_multi@), _tm, keys(self_.multi@));
//@|     }
//@| at fn.end proof { lemma_done_f(collection, resolution_maps.parameters_f64@, _kf, keys(self_.f64@)); lemma_done_u(collection, resolution_maps.parameters_u64@, _ku, keys(self_.u64@)); lemma_done_m(collection, resolution_maps.parameters_multi@, _km, keys(self_.multi@)); }
