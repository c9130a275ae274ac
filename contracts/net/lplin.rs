// Lemmas about the value of a row.
pub proof fn lin_n_insert(m: Map<usize, R>, c: usize, v: R, x: Flows, n: nat)
    requires n <= all_cols()
    ensures lin_n(m.insert(c, v), x, n) == lin_n(m, x, n) + (if (c as nat) < n { (v@ - coef(m, c)) * x(c as int) } else { 0real })
    decreases n
{
    if n > 0 {
        lin_n_insert(m, c, v, x, (n - 1) as nat);
        if c as nat == n - 1 {
            let (a, b, y) = (v@, coef(m, c), x(c as int));
            assert((a - b) * y == a * y - b * y) by (nonlinear_arith);
            if !m.contains_key(c) { assert(0real * y == 0real) by (nonlinear_arith); }
        } else {
            assert(((n - 1) as usize) != c);
        }
    }
}
pub proof fn lin_insert(m: Map<usize, R>, c: usize, v: R, x: Flows)
    ensures lin(m.insert(c, v), x) == lin(m, x) + (v@ - coef(m, c)) * x(c as int)
{
    lin_n_insert(m, c, v, x, all_cols());
}
pub proof fn ucols_key(s: Seq<(usize, usize, R)>, r: usize, c: usize)
    ensures ucols(s, r).contains_key(c) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == r && s[i].1 == c
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); ucols_key(t, r, c);
        if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == r && t[i].1 == c { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == r && t[i].1 == c; assert(s[i].0 == r && s[i].1 == c); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == r && s[i].1 == c { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == r && s[i].1 == c; if i < t.len() { assert(t[i].0 == r && t[i].1 == c); } else { assert(s.last().0 == r && s.last().1 == c); } }
    }
}
