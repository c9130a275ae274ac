//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ map Date DateTime
//@ map String Str
//@ map str Str
//@ map GeneralBeforeValueIndex VIdx
//@ map GeneralAfterValueIndex VIdx
//@ map SimpleParameterIndex VIdx
//@ map ConstParameterIndex VIdx
//@ map I usize
//@ map Lp Lp
//@ map LpBuilder LpBuilder
//@ map RowBuilder RowBuilder
//@ map ColumnEdgeMap ColumnEdgeMap
//@ map ColumnEdgeMapBuilder ColumnEdgeMapBuilder
//@ map SolverBuilder SolverBuilder
//@ map BuiltSolver BuiltSolver
//@ map AggNodeFactorRow AggNodeFactorRow
//@ map NodeRowId NodeRowId
//@ map NodeRowType NodeRowType
//@ mappath I::from => idx_from
//@ mappath I::one => idx_one
//@ mappath I::zero => idx_zero
//@ mappath .fill => &mut fn vec_fill
//@ refcalls get_incoming_edges get_outgoing_edges nodes edges aggregated_nodes virtual_storage_nodes node0_indices node1_indices iter_nodes
//@ mappath .into => fn vec_to_deque
//@ mappath .contains => fn edges_contain
//@ mappath HashSet::new => SliceSet::new
//@ mappath HashMap::new => map_new
//@ float_const STORAGE_MASS_BALANCE_TOLERANCE
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/lib.rs const STORAGE_MASS_BALANCE_TOLERANCE
//@| pub
//@ include ../net/metric_set_opaque.rs
//@ include ../net/base.rs
//@ include ../net/specs.rs
//@ include-trusted ../net/values.rs metrics
//@ include-trusted ../net/state_fns.rs state
//@ include-trusted ../net/netstate_fns.rs state
//@ include-trusted ../net/statevals_fns.rs state
//@ include-trusted ../net/nodes_fns.rs nodes
//@ include-trusted ../net/vs_fns.rs vstorage
//@ include-trusted ../net/metric_fns.rs metrics
//@ include ../net/agg_specs.rs
//@ include-trusted ../net/agg_fns.rs aggnode
//@ include ../net/lpbase.rs
//@ include-trusted ../net/lp_fns.rs lp
//@ extract pywr-core/src/node.rs enum NodeType
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct SolverBuilder
//@| dropgenerics
//@| mapfield node_bin_col_map: BinMap
//@|     node_set_bin_col_map: SetMap
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct AggNodeFactorRow
//@| dropgenerics
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct NodeRowId
//@| dropgenerics
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/solvers/builder.rs enum NodeRowType
//@| dropgenerics
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/solvers/builder.rs struct BuiltSolver
//@| dropgenerics
//@| pub
pub trait NewMap: Sized { spec fn is_new(&self) -> bool; }
impl NewMap for BinMap { open spec fn is_new(&self) -> bool { self@ == Map::<NodeIndex, Seq<usize>>::empty() } }
impl NewMap for SetMap { open spec fn is_new(&self) -> bool { self@ == Map::<Seq<NodeIndex>, usize>::empty() } }
/// HashMap::new
#[verifier::external_body] pub fn map_new<T: NewMap>() -> (r: T) ensures r.is_new() { unimplemented!() }
/// HashMap<NodeIndex, Vec<usize>>
#[verifier::external_body] pub struct BinMap { x: u8 }
impl View for BinMap { type V = Map<NodeIndex, Seq<usize>>; uninterp spec fn view(&self) -> Map<NodeIndex, Seq<usize>>; }
impl BinMap {
    #[verifier::external_body] pub fn get(&self, k: &NodeIndex) -> (r: Option<&Vec<usize>>) ensures r is Some == self@.contains_key(*k), r is Some ==> r->Some_0@ == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, k: NodeIndex) -> (r: BinEntry<'a>) ensures r.key() == k, r.before() == old(self)@, r.after() == final(self)@ { unimplemented!() }
}
#[verifier::external_body] pub struct BinEntry<'a> { m: &'a mut Vec<u8> }
impl<'a> BinEntry<'a> {
    pub uninterp spec fn key(&self) -> NodeIndex;
    pub uninterp spec fn before(&self) -> Map<NodeIndex, Seq<usize>>;
    pub uninterp spec fn after(&self) -> Map<NodeIndex, Seq<usize>>;
    #[verifier::external_body] pub fn or_default(self) -> (r: &'a mut Vec<usize>) ensures r@ == (if self.before().contains_key(self.key()) { self.before()[self.key()] } else { Seq::<usize>::empty() }), self.after() == self.before().insert(self.key(), final(r)@) { unimplemented!() }
}
/// HashMap<Vec<NodeIndex>, usize>
#[verifier::external_body] pub struct SetMap { x: u8 }
impl View for SetMap { type V = Map<Seq<NodeIndex>, usize>; uninterp spec fn view(&self) -> Map<Seq<NodeIndex>, usize>; }
impl SetMap {
    #[verifier::external_body] pub fn get(&self, k: &[NodeIndex]) -> (r: Option<&usize>) ensures r is Some == self@.contains_key(k@), r is Some ==> *r->Some_0 == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<NodeIndex>, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
/// HashSet<&[NodeIndex]>; `pairs` stands for `into_iter`, in any order
#[verifier::external_body] pub struct SliceSet<'a> { x: &'a [NodeIndex] }
impl<'a> View for SliceSet<'a> { type V = Set<Seq<NodeIndex>>; uninterp spec fn view(&self) -> Set<Seq<NodeIndex>>; }
impl<'a> SliceSet<'a> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<NodeIndex>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &'a [NodeIndex]) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body] pub fn pairs(&self) -> (r: Vec<&'a [NodeIndex]>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i])@), forall|s: Seq<NodeIndex>| #[trigger] self@.contains(s) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == s,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@ { unimplemented!() }
}
/// EdgeIndex derives PartialEq
#[verifier::external_body] pub fn edges_contain(v: &Vec<EdgeIndex>, e: &EdgeIndex) -> (r: bool) ensures r == v@.contains(*e) { unimplemented!() }
//@ include ../net/netok.rs
//@ include ../net/lpnet.rs
impl SolverBuilder {
    pub open spec fn col(&self) -> Cols { self.col_edge_map.edge_to_col@ }
    /// the number of columns that are flows
    pub open spec fn ncols(&self) -> int { self.col_edge_map.col_to_edges@.len() as int }
    /// nothing is created yet
    pub open spec fn fresh(&self) -> bool {
        &&& self.col() == Map::<EdgeIndex, usize>::empty() && self.ncols() == 0 && self.node_bin_col_map@ == Map::<NodeIndex, Seq<usize>>::empty() && self.node_set_bin_col_map@ == Map::<Seq<NodeIndex>, usize>::empty()
        &&& self.builder.wf() && self.builder.col_lower@.len() == 0 && self.builder.rows@.len() == 0 && self.builder.fixed_rows@.len() == 0
    }
}
//@ include ../net/lpacc_fns.rs
//@ include ../net/lpbuild_fns.rs
}
fn main() {}
