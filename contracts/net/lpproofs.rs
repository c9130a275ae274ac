// Lemmas about sparse rows, used by the proofs of unit `lp` only.
pub proof fn span_prefix(c1: Seq<usize>, e1: Seq<R>, c2: Seq<usize>, e2: Seq<R>, x: Flows, a: int, b: int)
    requires 0 <= a, forall|k: int| a <= k < b ==> #[trigger] c1[k] == c2[k] && e1[k] == e2[k]
    ensures span(c1, e1, x, a, b) == span(c2, e2, x, a, b)
    decreases b - a
{
    if b > a { span_prefix(c1, e1, c2, e2, x, a, b - 1); let _k = c1[b - 1]; }
}
/// no gaps matter between the keys of a row
pub proof fn lin_n_gap(m: Map<usize, R>, x: Flows, a: nat, b: nat)
    requires a <= b <= all_cols(), forall|c: usize| a <= c < b ==> !#[trigger] m.contains_key(c)
    ensures lin_n(m, x, a) == lin_n(m, x, b)
    decreases b - a
{
    if b > a { lin_n_gap(m, x, a, (b - 1) as nat); let _k = m.contains_key((b - 1) as usize); }
}
pub proof fn span_of_pairs(m: Map<usize, R>, ps: Seq<(usize, R)>, cs: Seq<usize>, es: Seq<R>, x: Flows, a: int, j: int)
    requires
        sorted_keys(m, ps.map_values(|p: (usize, R)| p.0)), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1 == m[ps[i].0],
        0 <= a, 0 <= j <= ps.len(), forall|k: int| 0 <= k < ps.len() ==> cs[a + k] == (#[trigger] ps[k]).0 && es[a + k] == ps[k].1
    ensures span(cs, es, x, a, a + j) == lin_n(m, x, (if j == 0 { 0 } else { ps[j - 1].0 + 1 }) as nat)
    decreases j
{
    let ks = ps.map_values(|p: (usize, R)| p.0);
    if j > 0 {
        span_of_pairs(m, ps, cs, es, x, a, j - 1);
        let _p = ps[j - 1];
        let lo = (if j == 1 { 0 } else { ps[j - 2].0 + 1 }) as nat;
        let c = ps[j - 1].0;
        assert(ks[j - 1] == c);
        if j > 1 { assert(ks[j - 2] == ps[j - 2].0); assert(ks[j - 2].key() < ks[j - 1].key()); }
        assert forall|d: usize| lo <= d < c implies !#[trigger] m.contains_key(d) by {
            if m.contains_key(d) {
                assert(ks.contains(d));
                let i = choose|i: int| 0 <= i < ks.len() && ks[i] == d;
                if i < j - 1 { if i < j - 2 { assert(ks[i].key() < ks[j - 2].key()); } } else if i > j - 1 { assert(ks[j - 1].key() < ks[i].key()); }
            }
        }
        lin_n_gap(m, x, lo, c as nat);
        assert(m.contains_key(ks[j - 1]));
    }
}
/// the rows so far stay
pub proof fn push_old(s: SP, rows: Seq<RowBuilder>, b: RowBuilder, mx: R, nv: int, hi: R, mask: usize, ps: Seq<(usize, R)>, i: int)
    requires
        s.rows_are(rows, mx, nv), s.cs.len() + ps.len() <= usize::MAX, hi@ == b.hi(mx), mask == (if rows.len() < nv { 1usize } else { 0usize }),
        sorted_keys(b.columns@, ps.map_values(|p: (usize, R)| p.0)), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1 == b.columns@[ps[i].0], 0 <= i < rows.len()
    ensures s.plus(b, hi, mask, ps).row_is(i, rows[i], mx)
{
    let t = s.plus(b, hi, mask, ps);
    let n = rows.len() as int;
    let ks = ps.map_values(|p: (usize, R)| p.0);
        assert(s.row_is(i, rows[i], mx));
        assert(s.st[i + 1] <= s.st[n] && s.st[i] <= s.st[i + 1]);
        assert forall|k: int| s.st[i] <= k < s.st[i + 1] implies #[trigger] t.cs[k] == s.cs[k] && t.es[k] == s.es[k] by {}
        assert forall|x: Flows| #[trigger] t.row(i, x) == rows[i].at(x) by {
            span_prefix(t.cs, t.es, s.cs, s.es, x, s.st[i] as int, s.st[i + 1] as int);
            let _r = s.row(i, x);
        }
        assert forall|c: usize| #[trigger] rows[i].columns@.contains_key(c) implies exists|k: int| t.st[i] <= k < t.st[i + 1] && #[trigger] t.cs[k] == c by {
            let k = choose|k: int| s.st[i] <= k < s.st[i + 1] && #[trigger] s.cs[k] == c;
            assert(t.cs[k] == c);
        }
}
/// and the new one is the last
pub proof fn push_new(s: SP, rows: Seq<RowBuilder>, b: RowBuilder, mx: R, nv: int, hi: R, mask: usize, ps: Seq<(usize, R)>)
    requires
        s.rows_are(rows, mx, nv), s.cs.len() + ps.len() <= usize::MAX, hi@ == b.hi(mx), mask == (if rows.len() < nv { 1usize } else { 0usize }),
        sorted_keys(b.columns@, ps.map_values(|p: (usize, R)| p.0)), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1 == b.columns@[ps[i].0]
    ensures s.plus(b, hi, mask, ps).row_is(rows.len() as int, b, mx)
{
    let t = s.plus(b, hi, mask, ps);
    let n = rows.len() as int;
    let ks = ps.map_values(|p: (usize, R)| p.0);
        let a = s.cs.len() as int;
        assert forall|k: int| 0 <= k < ps.len() implies t.cs[a + k] == (#[trigger] ps[k]).0 && t.es[a + k] == ps[k].1 by {}
        assert forall|x: Flows| #[trigger] t.row(n, x) == b.at(x) by {
            span_of_pairs(b.columns@, ps, t.cs, t.es, x, a, ps.len() as int);
            let lo = (if ps.len() == 0 { 0 } else { ps[ps.len() - 1].0 + 1 }) as nat;
            assert forall|c: usize| lo <= c < all_cols() implies !#[trigger] b.columns@.contains_key(c) by {
                if b.columns@.contains_key(c) {
                    assert(ks.contains(c));
                    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == c;
                    if i < ps.len() - 1 { assert(ks[i].key() < ks[ps.len() - 1].key()); }
                }
            }
            lin_n_gap(b.columns@, x, lo, all_cols());
        }
        assert forall|c: usize| #[trigger] b.columns@.contains_key(c) implies exists|k: int| t.st[n] <= k < t.st[n + 1] && #[trigger] t.cs[k] == c by {
            assert(ks.contains(c));
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == c;
            assert(t.cs[a + i] == c);
        }
        assert forall|k: int| t.st[n] <= k < t.st[n + 1] implies b.columns@.contains_key(#[trigger] t.cs[k]) by { assert(t.cs[k] == ks[k - a]); }
        assert forall|k: int, l: int| t.st[n] <= k < l < t.st[n + 1] implies (#[trigger] t.cs[k]) < (#[trigger] t.cs[l]) by {
            assert(t.cs[k] == ks[k - a] && t.cs[l] == ks[l - a]);
            assert(ks[k - a].key() < ks[l - a].key());
        }
}
pub proof fn parts_push(s: SP, rows: Seq<RowBuilder>, b: RowBuilder, mx: R, nv: int, hi: R, mask: usize, ps: Seq<(usize, R)>)
    requires
        s.rows_are(rows, mx, nv), s.cs.len() + ps.len() <= usize::MAX, hi@ == b.hi(mx), mask == (if rows.len() < nv { 1usize } else { 0usize }),
        sorted_keys(b.columns@, ps.map_values(|p: (usize, R)| p.0)), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1 == b.columns@[ps[i].0]
    ensures s.plus(b, hi, mask, ps).rows_are(rows.push(b), mx, nv)
{
    let t = s.plus(b, hi, mask, ps);
    let n = rows.len() as int;
    let ks = ps.map_values(|p: (usize, R)| p.0);
    assert(t.wf()) by {
        assert forall|i: int, j: int| 0 <= i <= j <= t.n() implies (#[trigger] t.st[i]) <= (#[trigger] t.st[j]) by {
            if j == t.n() { if i < j { assert(s.st[i] <= s.st[n]); } } else { assert(s.st[i] <= s.st[j]); }
        }
    }
    let all = rows.push(b);
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] t.row_is(i, all[i], mx) by { if i < n { push_old(s, rows, b, mx, nv, hi, mask, ps, i); } else { push_new(s, rows, b, mx, nv, hi, mask, ps); } }
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] t.mask[i] == (if i < nv { 1usize } else { 0usize }) by { if i < n { assert(t.mask[i] == s.mask[i]); } }
}
pub proof fn nnz_mono(rows: Seq<RowBuilder>, i: int)
    requires 0 <= i <= rows.len()
    ensures 0 <= nnz(rows.take(i)) <= nnz(rows)
    decreases rows.len()
{
    if rows.len() > 0 {
        if i < rows.len() { nnz_mono(rows.drop_last(), i); assert(rows.drop_last().take(i) =~= rows.take(i)); }
        else { nnz_mono(rows.drop_last(), rows.len() - 1); assert(rows.take(i) =~= rows); assert(rows.drop_last().take(rows.len() - 1) =~= rows.drop_last()); }
    }
}
pub proof fn nnz_step(rows: Seq<RowBuilder>, i: int)
    requires 0 <= i < rows.len()
    ensures rows.take(i + 1) =~= rows.take(i).push(rows[i]), nnz(rows.take(i + 1)) == nnz(rows.take(i)) + rows[i].columns@.dom().len(), 0 <= nnz(rows.take(i)), nnz(rows.take(i + 1)) <= nnz(rows)
{
    assert(rows.take(i + 1).drop_last() =~= rows.take(i));
    nnz_mono(rows, i);
    nnz_mono(rows, i + 1);
}
pub proof fn ucols_update(s: Seq<(usize, usize, R)>, i: int, v: R, r: usize)
    requires 0 <= i < s.len(), once(s)
    ensures
        ucols(s.update(i, (s[i].0, s[i].1, v)), r) == (if s[i].0 == r { ucols(s, r).insert(s[i].1, v) } else { ucols(s, r) }),
        s[i].0 == r ==> ucols(s, r).contains_key(s[i].1) && ucols(s, r)[s[i].1] == s[i].2
    decreases s.len()
{
    let t = s.update(i, (s[i].0, s[i].1, v)); let n = s.len() - 1;
    assert(s.last() == s[n]);
    if i == n { assert(t.drop_last() =~= s.drop_last()); assert(ucols(t, r) =~= (if s[i].0 == r { ucols(s, r).insert(s[i].1, v) } else { ucols(s, r) })); }
    else {
        assert(once(s.drop_last())) by { assert forall|a: int, b: int| 0 <= a < b < s.len() - 1 implies !((#[trigger] s.drop_last()[a]).0 == (#[trigger] s.drop_last()[b]).0 && s.drop_last()[a].1 == s.drop_last()[b].1) by { let _k = (s[a], s[b]); } }
        ucols_update(s.drop_last(), i, v, r);
        assert(t.drop_last() =~= s.drop_last().update(i, (s[i].0, s[i].1, v)));
        assert(t.last() == s.last());
        assert(!(s[i].0 == s[n].0 && s[i].1 == s[n].1));
        assert(ucols(t, r) =~= (if s[i].0 == r { ucols(s, r).insert(s[i].1, v) } else { ucols(s, r) }));
    }
}
pub proof fn dense_lo(s: Seq<EdgeIndex>, i: int)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key() < (#[trigger] s[j]).key(), 0 <= i < s.len()
    ensures s[i].0 >= i
    decreases i
{
    if i > 0 { dense_lo(s, i - 1); assert(s[i - 1].key() < s[i].key()); }
}
pub proof fn dense_hi(s: Seq<EdgeIndex>, i: int)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key() < (#[trigger] s[j]).key(), 0 <= i < s.len(), s.last().0 <= s.len() - 1
    ensures s[i].0 <= i
    decreases s.len() - i
{
    if i < s.len() - 1 { dense_hi(s, i + 1); assert(s[i].key() < s[i + 1].key()); }
}
/// sorted keys without a gap are the numbers below their count
pub proof fn dense(m: Map<EdgeIndex, usize>, s: Seq<EdgeIndex>)
    requires sorted_keys(m, s), s.len() > 0, s.last().0 == s.len() - 1
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == i, forall|e: EdgeIndex| #[trigger] m.contains_key(e) <==> e.0 < s.len()
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == i by { dense_lo(s, i); dense_hi(s, i); }
    assert forall|e: EdgeIndex| #[trigger] m.contains_key(e) <==> e.0 < s.len() by {
        if m.contains_key(e) { assert(s.contains(e)); }
        if e.0 < s.len() { assert(s[e.0 as int].0 == e.0); assert(s[e.0 as int] == e); assert(m.contains_key(s[e.0 as int])); }
    }
}
pub proof fn dense_again(m: Map<EdgeIndex, usize>, s: Seq<EdgeIndex>)
    requires sorted_keys(m, s), s.len() > 0, forall|e: EdgeIndex| #[trigger] m.contains_key(e) <==> e.0 < s.len()
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == i
{
    assert(m.contains_key(s[s.len() - 1]));
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == i by { dense_lo(s, i); dense_hi(s, i); }
}
