// Sparse linear programmes. The index type `I` of the source is `usize` here; see DESIGN.md.
pub trait Key: Sized { spec fn key(self) -> int; }
impl Key for usize { open spec fn key(self) -> int { self as int } }
impl Key for EdgeIndex { open spec fn key(self) -> int { self.0 as int } }
impl Key for NodeIndex { open spec fn key(self) -> int { self.0 as int } }
/// std::collections::BTreeMap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
/// the keys in order
pub open spec fn sorted_keys<K: Key, V>(m: Map<K, V>, s: Seq<K>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key() < (#[trigger] s[j]).key()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i])
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> s.contains(k)
    &&& s.len() == m.dom().len()
}
impl<K: Key, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>) ensures r.key() == k, r.before() == old(self)@, r.after() == final(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Vec<K>) ensures sorted_keys(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> (r: Vec<V>)
        ensures exists|s: Seq<K>| #[trigger] sorted_keys(self@, s) && r@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> r@[i] == self@[#[trigger] s[i]] { unimplemented!() }
    #[verifier::external_body] pub fn pairs(&self) -> (r: Vec<(K, V)>)
        ensures r@.len() == self@.dom().len(), sorted_keys(self@, r@.map_values(|p: (K, V)| p.0)), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self@[r@[i].0] { unimplemented!() }
}
/// an entry of a map: what happens to the map when the entry is used
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct Entry<'a, K, V> { m: &'a mut Vec<(K, V)> }
impl<'a, K: Key, V> Entry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K;
    pub uninterp spec fn before(&self) -> Map<K, V>;
    pub uninterp spec fn after(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn or_insert(self, v: V) -> (r: &'a mut V) ensures *r == (if self.before().contains_key(self.key()) { self.before()[self.key()] } else { v }), self.after() == self.before().insert(self.key(), *final(r)) { unimplemented!() }
}
// conversions of the index type
pub fn idx_from(n: usize) -> (r: Option<usize>) ensures r == Some(n) { Some(n) }
pub fn idx_one() -> (r: usize) ensures r == 1 { 1 }
pub fn idx_zero() -> (r: usize) ensures r == 0 { 0 }
pub trait ToUsize { spec fn us(&self) -> usize; fn to_usize(&self) -> (r: Option<usize>) ensures r == Some(self.us()); }
impl ToUsize for usize { open spec fn us(&self) -> usize { *self } fn to_usize(&self) -> (r: Option<usize>) { Some(*self) } }

//@ extract pywr-core/src/solvers/builder.rs enum Bounds
//@| pub
//@ extract pywr-core/src/solvers/builder.rs enum ColType
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct RowBuilder
//@| dropgenerics
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct Lp
//@| dropgenerics
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct LpBuilder
//@| dropgenerics
//@| pub
//@ extract pywr-core/src/solvers/col_edge_map.rs struct ColumnEdgeMap
//@| dropgenerics
//@| pub
//@ extract pywr-core/src/solvers/col_edge_map.rs struct ColumnEdgeMapBuilder
//@| dropgenerics
//@| pub

// ---- meaning
pub type Flows = spec_fn(int) -> real;
/// the sum over the columns c < n of m[c] * x(c)
pub open spec fn lin_n(m: Map<usize, R>, x: Flows, n: nat) -> real decreases n {
    if n == 0 { 0real } else { lin_n(m, x, (n - 1) as nat) + (if m.contains_key((n - 1) as usize) { m[(n - 1) as usize]@ * x(n - 1) } else { 0real }) }
}
pub open spec fn all_cols() -> nat { (usize::MAX + 1) as nat }
/// the value of a row at x
pub closed spec fn lin(m: Map<usize, R>, x: Flows) -> real { lin_n(m, x, all_cols()) }
pub open spec fn coef(m: Map<usize, R>, c: usize) -> real { if m.contains_key(c) { m[c]@ } else { 0real } }
pub proof fn lin_n_empty(x: Flows, n: nat)
    ensures lin_n(Map::empty(), x, n) == 0real
    decreases n
{
    if n > 0 { lin_n_empty(x, (n - 1) as nat); }
}
pub broadcast proof fn lin_empty(x: Flows)
    ensures #[trigger] lin(Map::empty(), x) == 0real
{
    lin_n_empty(x, all_cols());
}
pub open spec fn same_cols(a: Map<usize, R>, b: Map<usize, R>) -> bool {
    &&& forall|c: usize| #[trigger] a.contains_key(c) == b.contains_key(c)
    &&& forall|c: usize| #[trigger] a.contains_key(c) ==> a[c]@ == b[c]@
}
pub proof fn lin_n_same(a: Map<usize, R>, b: Map<usize, R>, x: Flows, n: nat)
    requires same_cols(a, b), n <= all_cols()
    ensures lin_n(a, x, n) == lin_n(b, x, n)
    decreases n
{
    if n > 0 { lin_n_same(a, b, x, (n - 1) as nat); let _k = a.contains_key((n - 1) as usize); }
}
pub broadcast proof fn lin_same(a: Map<usize, R>, b: Map<usize, R>, x: Flows)
    requires #[trigger] same_cols(a, b)
    ensures #[trigger] lin(a, x) == lin(b, x)
{
    lin_n_same(a, b, x, all_cols());
}
/// rows that compare equal
pub open spec fn row_eq(a: RowBuilder, b: RowBuilder) -> bool {
    a.lower@ == b.lower@ && a.upper is Some == b.upper is Some && (a.upper is Some ==> a.upper->Some_0@ == b.upper->Some_0@) && same_cols(a.columns@, b.columns@)
}
impl PartialEqSpecImpl for RowBuilder { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &RowBuilder) -> bool { row_eq(*self, *o) } }
/// derived in the source
impl PartialEq for RowBuilder { #[verifier::external_body] fn eq(&self, o: &RowBuilder) -> (r: bool) { unimplemented!() } }

pub proof fn row_eq_same(a: RowBuilder, b: RowBuilder)
    requires row_eq(a, b)
    ensures forall|x: Flows| #[trigger] a.at(x) == b.at(x), forall|c: usize| #[trigger] a.columns@.contains_key(c) == b.columns@.contains_key(c)
{ broadcast use lin_same; }

/// the sum over positions a <= k < b of the sparse matrix
pub open spec fn span(columns: Seq<usize>, elements: Seq<R>, x: Flows, a: int, b: int) -> real decreases b - a {
    if b <= a { 0real } else { span(columns, elements, x, a, b - 1) + elements[b - 1]@ * x(columns[b - 1] as int) }
}
impl RowBuilder {
    pub open spec fn at(self, x: Flows) -> real { lin(self.columns@, x) }
    pub open spec fn hi(self, mx: R) -> real { match self.upper { Some(u) => u@, None => mx@ } }
    pub open spec fn empty_row(self) -> bool { self.lower@ == 0real && self.upper is None && self.columns@ == Map::<usize, R>::empty() }
}
/// the parts of a sparse matrix
pub struct SP { pub lo: Seq<R>, pub hi: Seq<R>, pub mask: Seq<usize>, pub st: Seq<usize>, pub cs: Seq<usize>, pub es: Seq<R> }
impl SP {
    pub open spec fn n(self) -> int { self.lo.len() as int }
    /// lengths agree and the rows cut the matrix up in order
    pub open spec fn wf(self) -> bool {
        &&& self.hi.len() == self.n() && self.mask.len() == self.n() && self.st.len() == self.n() + 1
        &&& self.cs.len() == self.es.len() && self.st[0] == 0 && self.st[self.n()] == self.cs.len()
        &&& forall|i: int, j: int| 0 <= i <= j <= self.n() ==> (#[trigger] self.st[i]) <= (#[trigger] self.st[j])
    }
    pub open spec fn row(self, i: int, x: Flows) -> real { span(self.cs, self.es, x, self.st[i] as int, self.st[i + 1] as int) }
    /// row i has the entries of m
    pub open spec fn entries(self, i: int, m: Map<usize, R>) -> bool {
        &&& forall|x: Flows| #[trigger] self.row(i, x) == lin(m, x)
        &&& forall|c: usize| #[trigger] m.contains_key(c) ==> exists|k: int| self.st[i] <= k < self.st[i + 1] && #[trigger] self.cs[k] == c
        &&& forall|k: int| self.st[i] <= k < self.st[i + 1] ==> m.contains_key(#[trigger] self.cs[k]) && self.es[k] == m[self.cs[k]]
        &&& forall|k: int, l: int| self.st[i] <= k < l < self.st[i + 1] ==> (#[trigger] self.cs[k]) < (#[trigger] self.cs[l])
    }
    pub open spec fn row_is(self, i: int, b: RowBuilder, mx: R) -> bool { self.lo[i] == b.lower && self.hi[i]@ == b.hi(mx) && self.entries(i, b.columns@) }
    pub open spec fn rows_are(self, rows: Seq<RowBuilder>, mx: R, nv: int) -> bool {
        &&& self.n() == rows.len() && self.wf()
        &&& forall|i: int| 0 <= i < rows.len() ==> #[trigger] self.row_is(i, rows[i], mx)
        &&& forall|i: int| 0 <= i < rows.len() ==> #[trigger] self.mask[i] == (if i < nv { 1usize } else { 0usize })
    }
    pub open spec fn plus(self, b: RowBuilder, hi: R, mask: usize, ps: Seq<(usize, R)>) -> SP {
        SP { lo: self.lo.push(b.lower), hi: self.hi.push(hi), mask: self.mask.push(mask), st: self.st.push((self.cs.len() + ps.len()) as usize), cs: self.cs + ps.map_values(|p: (usize, R)| p.0), es: self.es + ps.map_values(|p: (usize, R)| p.1) }
    }
}
/// the columns and elements of a linear programme that exists in memory can be counted
pub open spec fn nnz(rows: Seq<RowBuilder>) -> int decreases rows.len() { if rows.len() == 0 { 0 } else { nnz(rows.drop_last()) + rows.last().columns@.dom().len() } }
#[verifier::external_body] pub fn lp_fits(b: &LpBuilder) ensures nnz(b.rows@ + b.fixed_rows@) < usize::MAX { unimplemented!() }
impl Lp {
    pub open spec fn nrows(self) -> int { self.row_lower@.len() as int }
    pub open spec fn sp(self) -> SP { SP { lo: self.row_lower@, hi: self.row_upper@, mask: self.row_mask@, st: self.row_starts@, cs: self.columns@, es: self.elements@ } }
    pub open spec fn wf(self) -> bool {
        &&& self.sp().wf()
        &&& self.col_upper@.len() == self.col_lower@.len() && self.col_obj_coef@.len() == self.col_lower@.len() && self.col_type@.len() == self.col_lower@.len()
    }
}
impl LpBuilder {
    pub open spec fn same_rows(self, o: LpBuilder) -> bool { self.rows == o.rows && self.fixed_rows == o.fixed_rows && self.f64_max == o.f64_max && self.f64_neg_max == o.f64_neg_max }
    pub open spec fn same_columns(self, o: LpBuilder) -> bool {
        self.f64_max == o.f64_max && self.f64_neg_max == o.f64_neg_max && self.col_lower == o.col_lower && self.col_upper == o.col_upper && self.col_obj_coef == o.col_obj_coef && self.col_type == o.col_type
    }
    pub open spec fn wf(self) -> bool {
        self.col_upper@.len() == self.col_lower@.len() && self.col_obj_coef@.len() == self.col_lower@.len() && self.col_type@.len() == self.col_lower@.len()
    }
}
/// the new coefficients of row r
pub open spec fn ucols(s: Seq<(usize, usize, R)>, r: usize) -> Map<usize, R> decreases s.len() {
    if s.len() == 0 { Map::empty() } else if s.last().0 == r { ucols(s.drop_last(), r).insert(s.last().1, s.last().2) } else { ucols(s.drop_last(), r) }
}
pub open spec fn ulin(s: Seq<(usize, usize, R)>, r: usize, x: Flows) -> real { lin(ucols(s, r), x) }
/// each coefficient has one new value
pub open spec fn once(s: Seq<(usize, usize, R)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).0 == (#[trigger] s[j]).0 && s[i].1 == s[j].1)
}
#[verifier::external_body] pub fn vec_fill(v: &mut Vec<R>, x: R) ensures final(v)@ == Seq::new(old(v)@.len(), |i: int| x) { unimplemented!() }
/// the map of columns with the columns of two edges made equal
pub open spec fn equal_edges(m: Map<EdgeIndex, usize>, n: nat, a: EdgeIndex, b: EdgeIndex) -> Map<EdgeIndex, usize> {
    if m.contains_key(a) && m.contains_key(b) { m }
    else if m.contains_key(b) { m.insert(a, m[b]) }
    else if m.contains_key(a) { m.insert(b, m[a]) }
    else { m.insert(a, n as usize).insert(b, n as usize) }
}

