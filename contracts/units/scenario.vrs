//@ include ../prelude.rs
//@ map String Str
//@ map str Str
//@ map BTreeSet USet
//@ mappath BTreeSet::new => USet::new
//@ map ScenarioGroupNotFound E_
//@ mappath Into::into => same
//@ mappath ScenarioIndices::default => ScenarioIndices::default_indices
//@ mappath ScenarioIndex::default => ScenarioIndex::default_index
//@ mappath ScenarioGroup::default => ScenarioGroup::default_group
//@ mappath ScenarioIndexBuilder::new => ScenarioIndexBuilder::new_index
//@ mappath .as_deref => & fn opt_slice
//@ mappath .to_string => fn decimal
//@ mappath .contains => & fn has_usize
verus! {
/// a string; only equality is observed
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Str { x: u8 }
impl Str { pub uninterp spec fn id(&self) -> int; }
impl PartialEqSpecImpl for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Str) -> bool { self.id() == o.id() } }
impl PartialEq for Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) ensures r == (self.id() == o.id()) { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a Str> for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a Str) -> bool { self.id() == o.id() } }
impl<'a> PartialEq<&'a Str> for Str { #[verifier::external_body] fn eq(&self, o: &&'a Str) -> (r: bool) ensures r == (self.id() == o.id()) { unimplemented!() } }
pub uninterp spec fn dec_id(n: int) -> int;
pub uninterp spec fn str_id(s: &str) -> int;
trait Dec: Sized { spec fn did(self) -> int; fn dec(self) -> (r: Str) ensures r.id() == self.did(); }
impl Dec for usize { spec fn did(self) -> int { dec_id(self as int) } #[verifier::external_body] fn dec(self) -> (r: Str) { unimplemented!() } }
impl<'a> Dec for &'a usize { spec fn did(self) -> int { dec_id(*self as int) } #[verifier::external_body] fn dec(self) -> (r: Str) { unimplemented!() } }
impl<'a> Dec for &'a str { spec fn did(self) -> int { str_id(self) } #[verifier::external_body] fn dec(self) -> (r: Str) { unimplemented!() } }
impl Str { #[verifier::external_body] fn parse(&self) -> (r: Result<usize, E_>) { unimplemented!() } }
fn same(x: Str) -> (r: Str) ensures r == x { x }
fn decimal<T: Dec>(n: T) -> (r: Str) ensures r.id() == n.did() { n.dec() }
fn has_usize(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x decreases v@.len() - i { if v[i] == *x { return true; } i = i + 1; }
    false
}
#[verifier::external_body] fn opt_slice<'a>(o: &'a Option<Vec<usize>>) -> (r: Option<&'a [usize]>) ensures match r { None => *o is None, Some(v) => *o is Some && v@ == o->Some_0@ } { unimplemented!() }
//@ include ../scenario.rs
//@ extract pywr-core/src/scenario.rs enum ScenarioGroupSubset
//@ extract pywr-core/src/scenario.rs struct ScenarioGroup
//@ extract pywr-core/src/scenario.rs enum ScenarioLabelOrIndex
//@ extract pywr-core/src/scenario.rs struct ScenarioDomainBuilder
//@ extract pywr-core/src/scenario.rs struct ScenarioIndexBuilder
//@ extract pywr-core/src/scenario.rs struct ScenarioDomain
//@ extract pywr-core/src/scenario.rs impl ScenarioIndices::new
//@| ensures
//@|     r.index == index, r.indices == indices
//@ extract pywr-core/src/scenario.rs impl ScenarioIndexBuilder::with_schema
//@| ensures
//@|     r.core == self.core, r.labels == self.labels, r.schema is Some, r.schema->Some_0.index == index, r.schema->Some_0.indices == indices
//@ extract pywr-core/src/scenario.rs impl ScenarioIndexBuilder::build
//@| ensures
//@|     r.core == self.core, r.labels == self.labels, r.schema == self.schema
//@ extract pywr-core/src/scenario.rs impl ScenarioGroup::label_position
//@| ensures
//@|     self.labels is None ==> r is Err,
//@|     r is Ok ==> 0 <= r->Ok_0 < self.labels->Some_0@.len() && self.labels->Some_0@[r->Ok_0 as int].id() == label.id() && forall|k: int| 0 <= k < r->Ok_0 ==> self.labels->Some_0@[k].id() != label.id(),
//@|     r is Err && self.labels is Some ==> forall|k: int| 0 <= k < self.labels->Some_0@.len() ==> self.labels->Some_0@[k].id() != label.id()
//@| loop 0 invariant
//@|     forall|k: int| 0 <= k < _i0 && (_acc0 is None || k < _acc0->Some_0) ==> labels@[k].id() != label.id(), _acc0 is Some ==> _acc0->Some_0 < _i0 && labels@[_acc0->Some_0 as int].id() == label.id()

//@ extract pywr-core/src/scenario.rs enum ScenarioGroupSubsetBuilder
//@ extract pywr-core/src/scenario.rs struct ScenarioGroupBuilder
spec fn group_ok(g: &ScenarioGroup) -> bool {
    (g.labels is Some ==> g.labels->Some_0@.len() == g.size)
    && (g.subset matches Some(ScenarioGroupSubset::Slice { start, end }) ==> start < end <= g.size)
}
//@ extract pywr-core/src/scenario.rs impl ScenarioGroupBuilder::build
//@| as build_group
//@| ensures
//@|     r is Ok ==> group_ok(&r->Ok_0) && r->Ok_0.size == self.size && r->Ok_0.name.id() == self.name.id() && r->Ok_0.labels == self.labels && (r->Ok_0.subset is Some <==> self.subset is Some),
//@|     r is Ok ==> (self.subset matches Some(ScenarioGroupSubsetBuilder::Slice { start, end }) ==> r->Ok_0.subset == Some(ScenarioGroupSubset::Slice { start, end })),
//@|     r is Ok ==> (self.subset matches Some(ScenarioGroupSubsetBuilder::Indices(v)) ==> r->Ok_0.subset == Some(ScenarioGroupSubset::Indices(v))),
//@|     r is Ok ==> (self.subset matches Some(ScenarioGroupSubsetBuilder::Labels(v)) ==> (r->Ok_0.subset matches Some(ScenarioGroupSubset::Indices(w)) && self.labels is Some && w@.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> 0 <= #[trigger] w@[k] < self.labels->Some_0@.len() && self.labels->Some_0@[w@[k] as int].id() == v@[k].id())),
//@|     self.subset matches Some(ScenarioGroupSubsetBuilder::Slice { start, end }) && start >= end ==> r is Err,
//@|     self.subset matches Some(ScenarioGroupSubsetBuilder::Slice { start, end }) && end > self.size ==> r is Err,
//@|     self.labels is Some && self.labels->Some_0@.len() != self.size ==> r is Err
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, forall|k: int| 0 <= k < _acc0@.len() ==> 0 <= #[trigger] _acc0@[k] < labels@.len() && labels@[_acc0@[k] as int].id() == subset_labels@[k].id()
//@| loop 1 invariant
//@|     _acc1 is Some ==> _acc1->Some_0 < _i1 && labels@[_acc1->Some_0 as int].id() == l.id()
//@ extract pywr-core/src/scenario.rs impl Default for ScenarioIndices::default
//@| as default_indices
//@| ensures
//@|     r.index == 0, r.indices@ == seq![0usize]
//@ extract pywr-core/src/scenario.rs impl Default for ScenarioIndex::default
//@| as default_index
//@| ensures
//@|     r.core.index == 0, r.core.indices@ == seq![0usize], r.schema is None
//@ extract pywr-core/src/scenario.rs impl Default for ScenarioGroup::default
//@| as default_group
//@| ensures
//@|     r.size == 1, r.subset is None, r.labels is None
//@ extract pywr-core/src/scenario.rs impl ScenarioIndexBuilder::new
//@| as new_index
//@| dropgenerics
//@| param
//@|     labels: Vec<Str>
//@| ensures
//@|     r.core.index == index, r.core.indices == indices, r.schema is None, r.labels@ == labels@
//@| loop 0 invariant
//@|     _acc0@ == labels@.take(_i0 as int)

//@ extract pywr-core/src/scenario.rs impl ScenarioDomainBuilder::with_group
//@| ensures
//@|     r is Ok ==> r->Ok_0.groups@ == self.groups@.push(group) && r->Ok_0.combinations == self.combinations,
//@|     r is Err <==> exists|k: int| 0 <= k < self.groups@.len() && (#[trigger] self.groups@[k]).name.id() == group.name.id()
//@| loop 0 invariant
//@|     self_ == self, forall|k: int| 0 <= k < _i0 ==> (#[trigger] self.groups@[k]).name.id() != group.name.id()
//@ extract pywr-core/src/scenario.rs impl ScenarioDomain::group_index
//@| ensures
//@|     r is Ok ==> 0 <= r->Ok_0 < self.groups@.len() && self.groups@[r->Ok_0 as int].name.id() == name.id(),
//@|     r is Err ==> forall|k: int| 0 <= k < self.groups@.len() ==> (#[trigger] self.groups@[k]).name.id() != name.id()
//@| loop 0 invariant
//@|     _acc0 is Some ==> _acc0->Some_0 < _i0 && self.groups@[_acc0->Some_0 as int].name.id() == name.id(), forall|k: int| 0 <= k < _i0 && _acc0 is None ==> (#[trigger] self.groups@[k]).name.id() != name.id()
//@ extract pywr-core/src/scenario.rs impl ScenarioDomain::group_size
//@| ensures
//@|     r is Ok ==> exists|k: int| 0 <= k < self.groups@.len() && (#[trigger] self.groups@[k]).name.id() == name.id() && self.groups@[k].size == r->Ok_0
//@ extract pywr-core/src/scenario.rs impl ScenarioDomain::group_scenario_subset
//@| requires
//@|     self.scenario_map@.len() == self.groups@.len()
//@| ensures
//@|     r is Ok ==> exists|k: int| 0 <= k < self.groups@.len() && (#[trigger] self.groups@[k]).name.id() == name.id() && (match r->Ok_0 { None => self.scenario_map@[k] is None, Some(v) => self.scenario_map@[k] is Some && v@ == self.scenario_map@[k]->Some_0@ })
//@ extract pywr-core/src/scenario.rs impl ScenarioDomain::len
//@| ensures
//@|     r == self.indices@.len()
//@ extract pywr-core/src/scenario.rs impl ScenarioGroup::size
//@| ensures
//@|     r == self.size
/// schema scenario i of a group is simulated
spec fn insub(g: &ScenarioGroup, i: int) -> bool {
    match g.subset { None => 0 <= i < g.size, Some(ScenarioGroupSubset::Slice { start, end }) => start <= i < end, Some(ScenarioGroupSubset::Indices(v)) => v@.contains(i as usize) && 0 <= i < g.size }
}
/// the list that maps simulation indices of a group to schema indices
spec fn mapped(g: &ScenarioGroup, m: Option<Vec<usize>>) -> bool {
    match g.subset { None => m is None,
        Some(ScenarioGroupSubset::Slice { start, end }) => m is Some && m->Some_0@.len() == end - start && forall|k: int| 0 <= k < end - start ==> m->Some_0@[k] == start + k,
        Some(ScenarioGroupSubset::Indices(v)) => m is Some && m->Some_0@ == v@ }
}
//@ extract pywr-core/src/scenario.rs impl ScenarioDomainBuilder::build_scenario_map_from_subsets
//@| requires
//@|     forall|k: int| 0 <= k < self.groups@.len() ==> group_ok(&#[trigger] self.groups@[k])
//@| ensures
//@|     r@.len() == self.groups@.len(), forall|k: int| 0 <= k < r@.len() ==> mapped(&self.groups@[k], #[trigger] r@[k])
//@| loop 0 invariant
//@|     scenario_map@.len() == self.groups@.len(), forall|k: int| 0 <= k < _i0 ==> mapped(&self.groups@[k], #[trigger] scenario_map@[k]), forall|k: int| _i0 <= k < self.groups@.len() ==> #[trigger] scenario_map@[k] is None
//@| loop 1 invariant
//@|     indices@.len() == _i1, forall|k: int| 0 <= k < _i1 ==> indices@[k] == *start + k

/// std's BTreeSet as the strictly increasing sequence of its elements
#[verifier::external_body] pub struct USet { x: u8 }
spec fn increasing(s: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a] < s[b] }
impl USet {
    pub uninterp spec fn view(&self) -> Seq<usize>;
    #[verifier::external_body] fn new() -> (r: USet) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self@.len(), increasing(self@) { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] fn nth(&self, k: usize) -> (r: usize) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, x: usize) -> (r: bool) ensures increasing(final(self)@), forall|y: usize| final(self)@.contains(y) <==> (old(self)@.contains(y) || y == x) { unimplemented!() }
}
impl Clone for USet { #[verifier::external_body] fn clone(&self) -> (r: USet) ensures r@ == self@ { unimplemented!() } }
spec fn column(cs: Seq<Vec<usize>>, g: int, n: int, x: usize) -> bool { exists|c: int| 0 <= c < n && (#[trigger] cs[c])@[g] == x }
/// the sorted list of the scenarios of group g that occur in a combination
spec fn comb_map(cs: Seq<Vec<usize>>, g: int, m: Option<Vec<usize>>) -> bool {
    match m { None => cs.len() == 0, Some(v) => increasing(v@) && forall|x: usize| #[trigger] v@.contains(x) <==> column(cs, g, cs.len() as int, x) }
}
//@ extract pywr-core/src/scenario.rs impl ScenarioDomainBuilder::build_scenario_map_from_combinations
//@| byval !combinations
//@| sub
//@|     `let _item = set[_i3];` => `let _item = set.nth(_i3);`
//@| requires
//@|     forall|c: int| 0 <= c < combinations@.len() ==> (#[trigger] combinations@[c])@.len() == self.groups@.len()
//@| ensures
//@|     r@.len() == self.groups@.len(), forall|g: int| 0 <= g < r@.len() ==> comb_map(combinations@, g, #[trigger] r@[g])
//@| loop 0 invariant
//@|     scenario_map@.len() == self.groups@.len(), forall|g: int, x: usize| 0 <= g < self.groups@.len() ==> (#[trigger] scenario_map@[g]@.contains(x) <==> column(combinations@, g, _i0 as int, x))
//@| loop 1 invariant
//@|     scenario_map@.len() == self.groups@.len(), forall|g: int, x: usize| 0 <= g < _i1 ==> (#[trigger] scenario_map@[g]@.contains(x) <==> column(combinations@, g, _i0 as int, x)), forall|g: int, x: usize| _i1 <= g < self.groups@.len() ==> (#[trigger] scenario_map@[g]@.contains(x) <==> column(combinations@, g, _i0 - 1, x))
//@| loop 2 invariant
//@|     _acc2@.len() == _i2, forall|g: int| 0 <= g < _i2 ==> comb_map(combinations@, g, #[trigger] _acc2@[g])
//@| loop 3 invariant
//@|     _acc3@ == set@.take(_i3 as int)
//@| at loop3.after
//@|     proof { assert(_acc3@ =~= set@); }
//@| at loop2.end
//@|     proof { let g = _i2 - 1; let s = scenario_map@[g]@; if combinations@.len() > 0 { assert(column(combinations@, g, combinations@.len() as int, combinations@[0]@[g])); assert(scenario_map@[g]@.contains(combinations@[0]@[g])); }
//@|         if _acc2@[g] is Some { assert(_acc2@[g]->Some_0@ == s); assert forall|x: usize| #[trigger] s.contains(x) <==> column(combinations@, g, combinations@.len() as int, x) by { assert(scenario_map@[g]@.contains(x) <==> column(combinations@, g, combinations@.len() as int, x)); } } }

spec fn lprod(gs: Seq<ScenarioGroup>, k: int) -> int decreases k { if k <= 0 { 1 } else { lprod(gs, k - 1) * gs[k - 1].size } }
//@ extract pywr-core/src/scenario.rs impl ScenarioDomainBuilder::schema_id
//@| requires
//@|     combination@.len() == self.groups@.len(), forall|g: int| 0 <= g < self.groups@.len() ==> #[trigger] combination@[g] < self.groups@[g].size,
//@|     forall|k: int| 0 <= k <= self.groups@.len() ==> #[trigger] lprod(self.groups@, k) <= usize::MAX
//@| loop 0 invariant
//@|     multiplier == lprod(self.groups@, _i0 as int), 0 <= id < multiplier
//@| at loop0.top
//@|     proof { let c = combination@[_i0 - 1] as int; let s = self.groups@[_i0 - 1].size as int; let m = multiplier as int; assert(c * m + m <= s * m && m * s == s * m && 0 <= c * m) by (nonlinear_arith) requires 0 <= c < s, 0 <= m; assert(lprod(self.groups@, _i0 as int) == m * s); }
proof fn lemma_pos(gs: Seq<ScenarioGroup>, n: int)
    requires 0 <= n <= gs.len(), lprod(gs, n) > 0
    ensures forall|g: int| 0 <= g < n ==> (#[trigger] gs[g]).size > 0
    decreases n
{
    if n > 0 { let a = lprod(gs, n - 1); let b = gs[n - 1].size as int; assert(a > 0 && b > 0 || a < 0) by (nonlinear_arith) requires a * b > 0, b >= 0; lemma_nonneg(gs, n - 1); lemma_pos(gs, n - 1); }
}
proof fn lemma_nonneg(gs: Seq<ScenarioGroup>, n: int)
    requires 0 <= n <= gs.len()
    ensures lprod(gs, n) >= 0
    decreases n
{
    if n > 0 { lemma_nonneg(gs, n - 1); let a = lprod(gs, n - 1); let b = gs[n - 1].size as int; assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
}
/// what is left of a scenario number after its last k digits
spec fn rem(gs: Seq<ScenarioGroup>, id: int, k: int) -> int decreases k { if k <= 0 { id } else { rem(gs, id, k - 1) / (gs[gs.len() - k].size as int) } }
/// the scenario of group g in the scenario numbered id of the full ensemble; the last group varies fastest
spec fn digit(gs: Seq<ScenarioGroup>, id: int, g: int) -> int { rem(gs, id, gs.len() - 1 - g) % (gs[g].size as int) }
spec fn included(gs: Seq<ScenarioGroup>, id: int) -> bool { forall|g: int| 0 <= g < gs.len() ==> insub(&gs[g], #[trigger] digit(gs, id, g)) }
/// the scenarios below num that every group's subset includes, in order
spec fn picked(gs: Seq<ScenarioGroup>, num: int) -> Seq<int> decreases num {
    if num <= 0 { Seq::empty() } else if included(gs, num - 1) { picked(gs, num - 1).push(num - 1) } else { picked(gs, num - 1) }
}
spec fn lab(g: &ScenarioGroup, i: int) -> int { match g.labels { Some(l) => l@[i].id(), None => dec_id(i) } }
/// simulation index i stands for schema index j
spec fn stands(m: Option<Vec<usize>>, i: int, j: int) -> bool { match m { None => i == j, Some(v) => 0 <= i < v@.len() && v@[i] == j } }
spec fn good(gs: Seq<ScenarioGroup>, map: Seq<Option<Vec<usize>>>, s: &ScenarioIndex, k: int) -> bool {
    s.core.index == k && s.core.indices@.len() == gs.len() && s.schema_indices().len() == gs.len() && s.labels@.len() == gs.len()
    && (forall|g: int| 0 <= g < gs.len() ==> (#[trigger] s.schema_indices()[g]) < gs[g].size)
    && (forall|g: int| 0 <= g < gs.len() ==> (#[trigger] s.labels@[g]).id() == lab(&gs[g], s.schema_indices()[g] as int))
    && (forall|g: int| 0 <= g < gs.len() ==> stands(map[g], #[trigger] s.core.indices@[g] as int, s.schema_indices()[g] as int))
}
spec fn is_id(gs: Seq<ScenarioGroup>, s: &ScenarioIndex, id: int) -> bool { forall|g: int| 0 <= g < gs.len() ==> (#[trigger] s.schema_indices()[g]) == digit(gs, id, g) }
/// scenario i of the group is meant by the user's label or index
spec fn resolved(c: ScenarioLabelOrIndex, g: &ScenarioGroup, i: int) -> bool {
    match c { ScenarioLabelOrIndex::Index(x) => i == x, ScenarioLabelOrIndex::Label(l) => g.labels is Some && 0 <= i < g.labels->Some_0@.len() && g.labels->Some_0@[i].id() == l.id() }
}
spec fn is_comb(gs: Seq<ScenarioGroup>, s: Seq<usize>, c: Seq<ScenarioLabelOrIndex>) -> bool {
    s.len() == gs.len() && forall|g: int| 0 <= g < gs.len() ==> resolved(c[g], &gs[g], #[trigger] s[g] as int) && s[g] < gs[g].size
}
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
//@ extract pywr-core/src/scenario.rs impl ScenarioDomainBuilder::build
//@| as build_domain
//@| noinline build_scenario_map_from_combinations build_scenario_map_from_subsets schema_id label_position
//@| attr #[verifier::allow_complex_invariants]
//@| sumtype usize
//@| acctype 3 Vec<usize>
//@| acctype 4 usize
//@| acctype 6 usize
//@| acctype 8 Str
//@| byval !combinations
//@| requires
//@|     forall|k: int| 0 <= k < self.groups@.len() ==> group_ok(&#[trigger] self.groups@[k]),
//@|     forall|k: int| 0 <= k <= self.groups@.len() ==> #[trigger] lprod(self.groups@, k) <= usize::MAX
//@| ensures
//@|     self.combinations is None || self.groups@.len() == 0 ==> r is Ok,
//@|     self.combinations is Some && (exists|g: int| 0 <= g < self.groups@.len() && (#[trigger] self.groups@[g]).subset is Some) ==> r is Err,
//@|     self.groups@.len() == 0 ==> r->Ok_0.indices@.len() == 1 && r->Ok_0.groups@.len() == 1 && r->Ok_0.groups@[0].size == 1 && r->Ok_0.scenario_map@.len() == 1 && r->Ok_0.scenario_map@[0] is None && r->Ok_0.indices@[0].core.index == 0 && r->Ok_0.indices@[0].core.indices@ == seq![0usize] && r->Ok_0.indices@[0].schema is None,
//@|     r is Ok && self.groups@.len() > 0 ==> r->Ok_0.groups@ == self.groups@ && r->Ok_0.scenario_map@.len() == self.groups@.len() && forall|k: int| 0 <= k < r->Ok_0.indices@.len() ==> good(self.groups@, r->Ok_0.scenario_map@, &#[trigger] r->Ok_0.indices@[k], k),
//@|     self.combinations is None && self.groups@.len() > 0 ==> r->Ok_0.indices@.len() == picked(self.groups@, lprod(self.groups@, self.groups@.len() as int)).len() && (forall|k: int| 0 <= k < r->Ok_0.indices@.len() ==> is_id(self.groups@, &#[trigger] r->Ok_0.indices@[k], picked(self.groups@, lprod(self.groups@, self.groups@.len() as int))[k])) && (forall|g: int| 0 <= g < self.groups@.len() ==> mapped(&self.groups@[g], #[trigger] r->Ok_0.scenario_map@[g])),
//@|     self.combinations matches Some(cs) ==> self.groups@.len() > 0 ==> (exists|c: int| 0 <= c < cs@.len() && ((#[trigger] cs@[c])@.len() != self.groups@.len() || exists|g: int| 0 <= g < self.groups@.len() && (#[trigger] cs@[c]@[g] matches ScenarioLabelOrIndex::Index(x) && x >= self.groups@[g].size))) ==> r is Err,
//@|     self.combinations matches Some(cs) ==> r is Ok && self.groups@.len() > 0 ==> r->Ok_0.indices@.len() == cs@.len() && forall|k: int| 0 <= k < cs@.len() ==> is_comb(self.groups@, #[trigger] r->Ok_0.indices@[k].schema_indices(), cs@[k]@)
//@| loop 0 invariant
//@|     _acc0 == lprod(self.groups@, _i0 as int)
//@| at loop0.top
//@|     proof { assert(lprod(self.groups@, _i0 as int) == _acc0 * self.groups@[_i0 - 1].size); assert(lprod(self.groups@, _i0 as int) <= usize::MAX); }
//@| loop 1 invariant
//@|     _acc1 <==> exists|g: int| 0 <= g < _i1 && (#[trigger] self.groups@[g]).subset is Some
//@| loop 2 invariant
//@|     forall|k: int| 0 <= k < _i2 ==> (#[trigger] combinations@[k])@.len() == self.groups@.len()
//@| loop 3 invariant
//@|     _acc3@.len() == _i3, forall|k: int| 0 <= k < _i3 ==> is_comb(self.groups@, #[trigger] _acc3@[k]@, combinations@[k]@), forall|k: int, g: int| 0 <= k < _i3 && 0 <= g < self.groups@.len() ==> (#[trigger] combinations@[k]@[g] matches ScenarioLabelOrIndex::Index(x) ==> x < self.groups@[g].size)
//@| loop 4 invariant
//@|     _err4 is None ==> _acc4@.len() == _i4, forall|g: int| 0 <= g < _acc4@.len() ==> resolved(combination@[g], &self.groups@[g], #[trigger] _acc4@[g] as int) && _acc4@[g] < self.groups@[g].size, _acc4@.len() <= self.groups@.len(), forall|g: int| 0 <= g < _acc4@.len() ==> (#[trigger] combination@[g] matches ScenarioLabelOrIndex::Index(x) ==> x < self.groups@[g].size)
//@| at loop4.top
//@|     proof { assert(group_ok(&self.groups@[_i4 - 1])); }
//@| loop 5 invariant
//@|     scenario_indices@.len() == _i5, forall|k: int| 0 <= k < _i5 ==> good(self.groups@, scenario_map_from_combinations@, &#[trigger] scenario_indices@[k], k) && scenario_indices@[k].schema_indices() == combinations@[k]@
//@| at loop5.top
//@|     proof { assert(is_comb(self.groups@, combination@, self.combinations->Some_0@[_i5 - 1]@)); assert forall|g: int| 0 <= g < self.groups@.len() implies (#[trigger] scenario_map_from_combinations@[g]) is Some && scenario_map_from_combinations@[g]->Some_0@.contains(combination@[g]) by {
//@|         assert(comb_map(combinations@, g, scenario_map_from_combinations@[g])); assert(column(combinations@, g, combinations@.len() as int, combination@[g])); }
//@|         assert forall|g: int| 0 <= g < self.groups@.len() implies group_ok(&#[trigger] self.groups@[g]) && (combination@[g] < self.groups@[g].size) by {} }
//@| loop 6 invariant
//@|     _acc6@.len() == _i6, forall|g: int| 0 <= g < _i6 ==> stands(scenario_map_from_combinations@[g], #[trigger] _acc6@[g] as int, combination@[g] as int)
//@| loop 7 invariant
//@|     forall|j: int| 0 <= j < _i7 && _acc7 is None ==> #[trigger] set@[j] != *c, _acc7 is Some ==> _acc7->Some_0 < _i7 && set@[_acc7->Some_0 as int] == *c
//@| loop 8 invariant
//@|     _acc8@.len() == _i8, forall|g: int| 0 <= g < _i8 ==> (#[trigger] _acc8@[g]).id() == lab(&self.groups@[g], combination@[g] as int)
//@| loop 9 invariant
//@|     _acc9 <==> exists|g: int| 0 <= g < _i9 && (#[trigger] scenario_map_from_slices@[g]) is Some
//@| loop 10 invariant
//@|     num == lprod(self.groups@, self.groups@.len() as int), scenario_indices@.len() == picked(self.groups@, _i10 as int).len(), forall|k: int| 0 <= k < scenario_indices@.len() ==> good(self.groups@, scenario_map_from_slices@, &#[trigger] scenario_indices@[k], k) && is_id(self.groups@, &scenario_indices@[k], picked(self.groups@, _i10 as int)[k])
//@| at loop10.top
//@|     proof { lemma_pos(self.groups@, self.groups@.len() as int); }
//@| at loop10.end
//@|     proof { if include_scenario { let s = scenario_indices@.last(); let n = self.groups@.len(); let id = scenario_id as int; assert(included(self.groups@, id));
//@|         assert(s.core.indices@.len() == n && s.labels@.len() == n && s.core.index == scenario_indices@.len() - 1);
//@|         assert forall|g: int| 0 <= g < n implies (#[trigger] s.core.indices@[g] as int) == digit(self.groups@, id, g) || is_sliced by { assert(insub(&self.groups@[g], digit(self.groups@, id, g))); assert(stands(scenario_map_from_slices@[g], s.core.indices@[g] as int, digit(self.groups@, id, g))); }
//@|         assert(s.schema_indices().len() == n);
//@|         assert(is_id(self.groups@, &s, id));
//@|         assert(good(self.groups@, scenario_map_from_slices@, &s, scenario_indices@.len() - 1)); } }
//@| loop 11 invariant
//@|     remaining == rem(self.groups@, scenario_id as int, _i11 as int), schema_indices@.len() == _i11, schema_labels@.len() == _i11, forall|j: int| 0 <= j < _i11 ==> #[trigger] schema_indices@[j] == digit(self.groups@, scenario_id as int, self.groups@.len() - 1 - j), forall|j: int| 0 <= j < _i11 ==> (#[trigger] schema_labels@[j]).id() == lab(&self.groups@[self.groups@.len() - 1 - j], digit(self.groups@, scenario_id as int, self.groups@.len() - 1 - j))
//@| loop 12 invariant
//@|     include_scenario ==> simulation_indices@.len() == _i12, forall|g: int| 0 <= g < _i12 && include_scenario ==> insub(&self.groups@[g], #[trigger] digit(self.groups@, scenario_id as int, g)) && stands(scenario_map_from_slices@[g], simulation_indices@[g] as int, digit(self.groups@, scenario_id as int, g)), !include_scenario ==> !included(self.groups@, scenario_id as int)
//@| loop 12 ensures
//@|     include_scenario ==> _i12 == _n12
//@| loop 13 invariant
//@|     forall|j: int| 0 <= j < _i13 && _acc13 is None ==> #[trigger] indices@[j] != schema_indices@[group_index as int], _acc13 is Some ==> _acc13->Some_0 < _i13 && indices@[_acc13->Some_0 as int] == schema_indices@[group_index as int]
} // verus!
fn main() {}
