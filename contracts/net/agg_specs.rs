// Factor relationships of aggregated nodes (nothing here is code of pywr-next).
//@ extract pywr-core/src/aggregated_node.rs struct NodeFactor
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/aggregated_node.rs struct NodeFactorPair
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/aggregated_node.rs struct NodeConstFactor
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/aggregated_node.rs struct NodeConstFactorPair
//@| derive Clone Copy
//@| pub
/// one equation between the flows of two groups of nodes: fa * flow(a) + fb * flow(b) = rhs
#[verifier::ext_equal] pub struct FP { pub a: Seq<NodeIndex>, pub fa: real, pub b: Seq<NodeIndex>, pub fb: real, pub rhs: real }
impl<'a> NodeFactorPair<'a> { pub open spec fn fp(&self) -> FP { FP { a: self.node0.indices@, fa: self.node0.factor@, b: self.node1.indices@, fb: self.node1.factor@, rhs: self.rhs@ } } }
impl<'a> NodeConstFactorPair<'a> {
    /// whether both factors are known
    pub open spec fn known(&self) -> bool { self.node0.factor is Some && self.node1.factor is Some }
    pub open spec fn fp(&self) -> FP { FP { a: self.node0.indices@, fa: self.node0.factor->Some_0@, b: self.node1.indices@, fb: self.node1.factor->Some_0@, rhs: self.rhs@ } }
}
pub open spec fn fps(s: Seq<NodeFactorPair<'_>>) -> Seq<FP> { s.map_values(|x: NodeFactorPair<'_>| x.fp()) }
/// the equations of proportions: the first group has the rest of the total
pub open spec fn prop_pairs(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>) -> Seq<FP> { Seq::new((nodes.len() - 1) as nat, |k: int| prop_pair(nodes, f, k)) }
pub open spec fn prop_pair(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>, k: int) -> FP { FP { a: nodes[0]@, fa: 1real, b: nodes[k + 1]@, fb: -(1real - tot(f)) / f[k], rhs: 0real } }
/// the equations of ratios
pub open spec fn ratio_pairs(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>) -> Seq<FP> { Seq::new((nodes.len() - 1) as nat, |k: int| ratio_pair(nodes, f, k)) }
pub open spec fn ratio_pair(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>, k: int) -> FP { FP { a: nodes[0]@, fa: 1real, b: nodes[k + 1]@, fb: -f[0] / f[k + 1], rhs: 0real } }
pub open spec fn coef_pair(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>, rhs: real) -> FP { FP { a: nodes[0]@, fa: f[0], b: nodes[1]@, fb: f[1], rhs: rhs } }

/// values of a list of metrics
pub open spec fn mhas(f: Seq<MetricF64>, n: &Network, s: &State) -> bool { forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).has(n, s) }
pub open spec fn mvals(f: Seq<MetricF64>, n: &Network, s: &State) -> Seq<real> { f.map_values(|m: MetricF64| m.val(n, s)) }
pub open spec fn mno_neg(f: Seq<MetricF64>, n: &Network, s: &State) -> bool { forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).val(n, s) >= 0real }
pub open spec fn mno_zero(f: Seq<MetricF64>, n: &Network, s: &State) -> bool { forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).val(n, s) != 0real }
pub open spec fn no_neg(f: Seq<real>) -> bool { forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]) >= 0real }
pub open spec fn no_zero(f: Seq<real>) -> bool { forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]) != 0real }
/// constants
pub open spec fn chas(f: MetricF64, c: PV) -> bool { !constant(f) || f->Simple_0->Constant_0.has(c) }
pub open spec fn cval(f: MetricF64, c: PV) -> real { f->Simple_0->Constant_0.val(c) }
pub open spec fn cvals(f: Seq<MetricF64>, c: PV) -> Seq<real> { f.map_values(|m: MetricF64| cval(m, c)) }
pub open spec fn all_const(f: Seq<MetricF64>) -> bool { forall|k: int| 0 <= k < f.len() ==> constant(#[trigger] f[k]) }
pub open spec fn all_chas(f: Seq<MetricF64>, c: PV) -> bool { forall|k: int| 0 <= k < f.len() ==> chas(#[trigger] f[k], c) }
pub open spec fn cno_neg(f: Seq<MetricF64>, c: PV) -> bool { forall|k: int| 0 <= k < f.len() ==> constant(#[trigger] f[k]) ==> cval(f[k], c) >= 0real }
pub open spec fn cno_zero(f: Seq<MetricF64>, c: PV) -> bool { forall|k: int| 0 <= k < f.len() ==> constant(#[trigger] f[k]) ==> cval(f[k], c) != 0real }

/// whether factors are accepted for g groups
pub open spec fn prop_ok(f: Seq<MetricF64>, g: nat, n: &Network, s: &State) -> bool { f.len() == g - 1 && mhas(f, n, s) && mno_neg(f, n, s) && tot(mvals(f, n, s)) < 1real }
pub open spec fn ratio_ok(f: Seq<MetricF64>, g: nat, n: &Network, s: &State) -> bool { f.len() == g && mhas(f, n, s) && mno_neg(f, n, s) }
pub open spec fn coef_ok(f: Seq<MetricF64>, rhs: Option<MetricF64>, g: nat, n: &Network, s: &State) -> bool { f.len() == g && g == 2 && mhas(f, n, s) && (rhs is Some ==> rhs->Some_0.has(n, s)) }
pub open spec fn coef_pairs(nodes: Seq<Vec<NodeIndex>>, f: Seq<MetricF64>, rhs: Option<MetricF64>, n: &Network, s: &State) -> Seq<FP> { seq![coef_pair(nodes, mvals(f, n, s), match rhs { None => 0real, Some(m) => m.val(n, s) })] }
pub open spec fn cprop_ok(f: Seq<MetricF64>, g: nat, c: PV) -> bool { f.len() == g - 1 && all_chas(f, c) && cno_neg(f, c) && (all_const(f) ==> tot(cvals(f, c)) < 1real) }
pub open spec fn cratio_ok(f: Seq<MetricF64>, g: nat, c: PV) -> bool { f.len() == g && all_chas(f, c) && cno_neg(f, c) }
pub open spec fn ccoef_ok(f: Seq<MetricF64>, rhs: Option<MetricF64>, g: nat, c: PV) -> bool { f.len() == g && g == 2 && all_chas(f, c) && (rhs is Some ==> chas(rhs->Some_0, c)) }
pub open spec fn ccoef_pairs(nodes: Seq<Vec<NodeIndex>>, f: Seq<MetricF64>, rhs: Option<MetricF64>, c: PV) -> Seq<FP> { seq![coef_pair(nodes, cvals(f, c), match rhs { None => 0real, Some(m) => cval(m, c) })] }

impl AggregatedNode {
    pub open spec fn factors(&self) -> Option<Factors> { match self.relationship { Some(Relationship::Factored(f)) => Some(f), _ => None } }
    pub open spec fn exclusivity(&self) -> Option<Exclusivity> { match self.relationship { Some(Relationship::Exclusive(e)) => Some(e), _ => None } }
}
impl Factors {
    /// a factor of zero divides by zero
    pub open spec fn nonzero(&self, n: &Network, s: &State) -> bool { match self { Self::Proportion { factors } => mno_zero(factors@, n, s), Self::Ratio { factors } => mno_zero(factors@, n, s), Self::Coefficients { factors, rhs } => true } }
    pub open spec fn const_nonzero(&self, c: PV) -> bool { match self { Self::Proportion { factors } => cno_zero(factors@, c), Self::Ratio { factors } => cno_zero(factors@, c), Self::Coefficients { factors, rhs } => true } }
    /// whether the factors are accepted
    pub open spec fn accepted(&self, g: nat, n: &Network, s: &State) -> bool {
        match self {
            Self::Proportion { factors } => prop_ok(factors@, g, n, s),
            Self::Ratio { factors } => ratio_ok(factors@, g, n, s),
            Self::Coefficients { factors, rhs } => coef_ok(factors@, *rhs, g, n, s),
        }
    }
    /// the equations of the relationship
    pub open spec fn pairs(&self, nodes: Seq<Vec<NodeIndex>>, n: &Network, s: &State) -> Seq<FP> {
        match self {
            Self::Proportion { factors } => prop_pairs(nodes, mvals(factors@, n, s)),
            Self::Ratio { factors } => ratio_pairs(nodes, mvals(factors@, n, s)),
            Self::Coefficients { factors, rhs } => coef_pairs(nodes, factors@, *rhs, n, s),
        }
    }
    /// what is refused already at setup
    pub open spec fn const_accepted(&self, g: nat, c: PV) -> bool {
        match self {
            Self::Proportion { factors } => cprop_ok(factors@, g, c),
            Self::Ratio { factors } => cratio_ok(factors@, g, c),
            Self::Coefficients { factors, rhs } => ccoef_ok(factors@, *rhs, g, c),
        }
    }
    /// whether equation k is known at setup
    pub open spec fn const_known(&self, k: int) -> bool {
        match self {
            Self::Proportion { factors } => all_const(factors@),
            Self::Ratio { factors } => constant(factors@[0]) && constant(factors@[k + 1]),
            Self::Coefficients { factors, rhs } => all_const(factors@) && (rhs is Some ==> constant(rhs->Some_0)),
        }
    }
    pub open spec fn const_pairs(&self, nodes: Seq<Vec<NodeIndex>>, c: PV) -> Seq<FP> {
        match self {
            Self::Proportion { factors } => prop_pairs(nodes, cvals(factors@, c)),
            Self::Ratio { factors } => ratio_pairs(nodes, cvals(factors@, c)),
            Self::Coefficients { factors, rhs } => ccoef_pairs(nodes, factors@, *rhs, c),
        }
    }
}
/// equations as known at setup: the groups are always there, the factors when they are known
pub open spec fn cpairs_ok(ps: Seq<NodeConstFactorPair<'_>>, e: Seq<FP>, known: spec_fn(int) -> bool) -> bool {
    ps.len() == e.len() && forall|k: int| 0 <= k < ps.len() ==> cpair_ok(#[trigger] ps[k], e[k], known(k))
}
/// a factor as known at setup
pub open spec fn ck(x: Option<R>, f: MetricF64, c: PV) -> bool { x is Some == constant(f) && (x is Some ==> x->Some_0@ == cval(f, c)) }
pub open spec fn own<T>(x: Option<&T>) -> Option<T> { match x { None => None, Some(y) => Some(*y) } }
pub open spec fn cpair_ok(p: NodeConstFactorPair<'_>, e: FP, known: bool) -> bool { p.known() == known && p.fp().a == e.a && p.fp().b == e.b && (known ==> p.fp() == e) }

// ---- what the equations mean
/// the flow q[k] of group k has the proportion f of the total
pub proof fn proportions_mean(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>, q: Seq<real>)
    requires nodes.len() == q.len(), q.len() == f.len() + 1, no_zero(f), no_neg(f), tot(f) < 1real,
        forall|k: int| 0 <= k < f.len() ==> q[0] * (#[trigger] prop_pair(nodes, f, k)).fa + q[k + 1] * prop_pair(nodes, f, k).fb == 0real
    ensures forall|k: int| 0 <= k < f.len() ==> (#[trigger] q[k + 1]) == f[k] * tot(q)
{
    let f0 = 1real - tot(f);
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] q[k + 1]) * f0 == f[k] * q[0] by {
        let p = prop_pair(nodes, f, k);
        let (a, b, c) = (q[0], q[k + 1], f[k]);
        assert(p.fb == -f0 / c);
        assert(a * 1real + b * (-f0 / c) == 0real);
        assert(b * f0 == c * a) by (nonlinear_arith) requires a * 1real + b * (-f0 / c) == 0real, c != 0real {}
    }
    tot_of_shares(f, q, f.len() as int, f0);
    let t = tot(q);
    assert(upto(q, q.len() as int) == q[0] + upto(q.skip(1), f.len() as int)) by { upto_skip(q, q.len() as int); }
    assert(q.skip(1).len() == f.len());
    let r = upto(q.skip(1), f.len() as int);
    assert(r * f0 == upto(f, f.len() as int) * q[0]);
    assert(t * f0 == q[0]) by (nonlinear_arith) requires t == q[0] + r, r * f0 == (1real - f0) * q[0] {}
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] q[k + 1]) == f[k] * tot(q) by {
        let (b, c, a) = (q[k + 1], f[k], q[0]);
        assert(b == c * t) by (nonlinear_arith) requires b * f0 == c * a, t * f0 == a, f0 > 0real {}
    }
}
proof fn tot_of_shares(f: Seq<real>, q: Seq<real>, n: int, f0: real)
    requires 0 <= n <= f.len(), q.len() == f.len() + 1, forall|k: int| 0 <= k < f.len() ==> (#[trigger] q[k + 1]) * f0 == f[k] * q[0]
    ensures upto(q.skip(1), n) * f0 == upto(f, n) * q[0]
    decreases n
{
    if n > 0 {
        tot_of_shares(f, q, n - 1, f0);
        let (a, b, c, d, e) = (upto(q.skip(1), n - 1), q[n - 1 + 1], upto(f, n - 1), f[n - 1], q[0]);
        assert(q.skip(1)[n - 1] == b);
        assert((a + b) * f0 == (c + d) * e) by (nonlinear_arith) requires a * f0 == c * e, b * f0 == d * e {}
    } else { assert(0real * f0 == 0real * q[0]) by (nonlinear_arith) {} }
}
proof fn upto_skip(q: Seq<real>, n: int) requires 1 <= n <= q.len() ensures upto(q, n) == q[0] + upto(q.skip(1), n - 1) decreases n
{ if n > 1 { upto_skip(q, n - 1); assert(q.skip(1)[n - 2] == q[n - 1]); } else { assert(upto(q, 1) == upto(q, 0) + q[0]); } }
/// the flows of any two groups have the ratio of their factors
pub proof fn ratios_mean(nodes: Seq<Vec<NodeIndex>>, f: Seq<real>, q: Seq<real>)
    requires nodes.len() == q.len(), q.len() == f.len(), f.len() >= 1, no_zero(f),
        forall|k: int| 0 <= k < f.len() - 1 ==> q[0] * (#[trigger] ratio_pair(nodes, f, k)).fa + q[k + 1] * ratio_pair(nodes, f, k).fb == 0real
    ensures forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() ==> #[trigger] q[i] * f[j] == #[trigger] q[j] * f[i]
{
    assert forall|i: int| 0 <= i < f.len() implies (#[trigger] q[i]) * f[0] == q[0] * f[i] by {
        if i > 0 {
            let p = ratio_pair(nodes, f, i - 1);
            let (a, b, c, d) = (q[0], q[i], f[0], f[i]);
            assert(p.fb == -c / d);
            assert(b * c == a * d) by (nonlinear_arith) requires a * 1real + b * (-c / d) == 0real, d != 0real {}
        }
    }
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() implies #[trigger] q[i] * f[j] == #[trigger] q[j] * f[i] by {
        let (a, b, c, d, e, g) = (q[i], q[j], f[i], f[j], q[0], f[0]);
        assert(f[0] != 0real);
        assert(a * g == e * c); assert(b * g == e * d);
        assert(a * d == b * c) by (nonlinear_arith) requires a * g == e * c, b * g == e * d, g != 0real {}
    }
}
