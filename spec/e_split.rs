// props: C05 C06 C23 SPLIT SSPLIT
// ---- the search as the code computes it ------------------------------------------------------------------------------
// sums over the first p pairs of a sorted column: labels, squared labels; and what is left of the totals
pub open spec fn psum(ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int) -> F decreases p { if p <= 0 { zero() } else { fadd(psum(ls, s, j, p - 1), ls[s[p - 1].1][j]) } }
pub open spec fn psq(ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int) -> F decreases p { if p <= 0 { zero() } else { fadd(psq(ls, s, j, p - 1), fmul(ls[s[p - 1].1][j], ls[s[p - 1].1][j])) } }
pub open spec fn rsum(t: F, ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int) -> F decreases p { if p <= 0 { t } else { fsub(rsum(t, ls, s, j, p - 1), ls[s[p - 1].1][j]) } }
pub open spec fn rsq(t: F, ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int) -> F decreases p { if p <= 0 { t } else { fsub(rsq(t, ls, s, j, p - 1), fmul(ls[s[p - 1].1][j], ls[s[p - 1].1][j])) } }
pub open spec fn colsq(m: Seq<Seq<F>>, j: int, k: int) -> F decreases k { if k <= 0 { zero() } else { fadd(colsq(m, j, k - 1), fmul(m[k - 1][j], m[k - 1][j])) } }
pub open spec fn ri(n: int) -> F { F::Fin(n as real) }
pub open spec fn fvar(q: F, s: F, n: F) -> F { fdiv(fsub(q, fmul(n, fmul(fdiv(s, n), fdiv(s, n)))), n) }
pub open spec fn fweighted(a: F, x: F, b: F, y: F) -> F { fadd(fmul(fdiv(a, fadd(a, b)), x), fmul(fdiv(b, fadd(a, b)), y)) }
pub open spec fn fcut(ls: Seq<Seq<F>>, s: Seq<(F, int)>, ts: Seq<F>, tq: Seq<F>, n: int, p: int, k: int) -> F decreases k {
    if k <= 0 { zero() } else { fadd(fcut(ls, s, ts, tq, n, p, k - 1), fweighted(ri(p), fvar(psq(ls, s, k - 1, p), psum(ls, s, k - 1, p), ri(p)), ri(n - p), fvar(rsq(tq[k - 1], ls, s, k - 1, p), rsum(ts[k - 1], ls, s, k - 1, p), ri(n - p)))) }
}
pub open spec fn vartot(q: Seq<F>, s: Seq<F>, n: int, k: int) -> F decreases k { if k <= 0 { zero() } else { fadd(vartot(q, s, n, k - 1), fvar(q[k - 1], s[k - 1], ri(n))) } }
// the values differ between position p-1 and p
pub open spec fn boundary(s: Seq<(F, int)>, p: int) -> bool { 0 < p < s.len() && fne(s[p].0, s[p - 1].0) }
pub open spec fn cuts_finite(ls: Seq<Seq<F>>, s: Seq<(F, int)>, ts: Seq<F>, tq: Seq<F>, n: int, nt: int) -> bool { forall|p: int| 0 < p < s.len() ==> (#[trigger] fcut(ls, s, ts, tq, n, p, nt)) is Fin }
// r is the cheapest boundary before position k
pub open spec fn best_cut(ls: Seq<Seq<F>>, s: Seq<(F, int)>, ts: Seq<F>, tq: Seq<F>, n: int, nt: int, r: BestThresholdResult, k: int) -> bool {
    (forall|p: int| #[trigger] boundary(s, p) && p < k ==> fle(r.loss, fcut(ls, s, ts, tq, n, p, nt)))
    && (r.loss is PInf || exists|p: int| #![trigger boundary(s, p)] #![trigger s[p]] boundary(s, p) && p < k && r.threshold_value == s[p].0 && r.loss == fcut(ls, s, ts, tq, n, p, nt))
}
// ---- what it means -----------------------------------------------------------------------------------------------------
// samples 0..n with label vectors ls; m says which of them belong
pub open spec fn msum(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { msum(ls, m, j, k - 1) + (if m(k - 1) { rv(ls[k - 1][j]) } else { 0real }) } }
pub open spec fn msq(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { msq(ls, m, j, k - 1) + (if m(k - 1) { rv(ls[k - 1][j]) * rv(ls[k - 1][j]) } else { 0real }) } }
pub open spec fn mcount(m: spec_fn(int) -> bool, k: int) -> int decreases k { if k <= 0 { 0 } else { mcount(m, k - 1) + (if m(k - 1) { 1int } else { 0int }) } }
pub open spec fn rvar(q: real, s: real, n: real) -> real { (q - (n * ((s / n) * (s / n)))) / n }
pub open spec fn rweighted(a: real, x: real, b: real, y: real) -> real { ((a / (a + b)) * x) + ((b / (a + b)) * y) }
// label variance summed over targets
pub open spec fn variance(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, n: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { variance(ls, m, n, k - 1) + rvar(msq(ls, m, k - 1, n), msum(ls, m, k - 1, n), mcount(m, n) as real) }
}
// the same for two parts, weighted by their share of rows
pub open spec fn parts_variance(ls: Seq<Seq<F>>, f: spec_fn(int) -> bool, t: spec_fn(int) -> bool, n: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { parts_variance(ls, f, t, n, k - 1) + rweighted(mcount(f, n) as real, rvar(msq(ls, f, k - 1, n), msum(ls, f, k - 1, n), mcount(f, n) as real), mcount(t, n) as real, rvar(msq(ls, t, k - 1, n), msum(ls, t, k - 1, n), mcount(t, n) as real)) }
}
// ---- facts about masked sums -----------------------------------------------------------------------------------------
pub open spec fn same_mask(a: spec_fn(int) -> bool, b: spec_fn(int) -> bool, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] a(i) == #[trigger] b(i) }
pub proof fn lemma_mask_eq(ls: Seq<Seq<F>>, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool, j: int, k: int)
    requires same_mask(a, b, k) ensures msum(ls, a, j, k) == msum(ls, b, j, k), msq(ls, a, j, k) == msq(ls, b, j, k), mcount(a, k) == mcount(b, k) decreases k
{ if k > 0 { assert(a(k - 1) == b(k - 1)); lemma_mask_eq(ls, a, b, j, k - 1); } }
// c is the disjoint union of a and b
pub open spec fn mask_union(a: spec_fn(int) -> bool, b: spec_fn(int) -> bool, c: spec_fn(int) -> bool, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] c(i) == (a(i) || b(i)) && !(a(i) && b(i)) }
pub proof fn lemma_mask_add(ls: Seq<Seq<F>>, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool, c: spec_fn(int) -> bool, j: int, k: int)
    requires mask_union(a, b, c, k) ensures msum(ls, c, j, k) == msum(ls, a, j, k) + msum(ls, b, j, k), msq(ls, c, j, k) == msq(ls, a, j, k) + msq(ls, b, j, k), mcount(c, k) == mcount(a, k) + mcount(b, k) decreases k
{ if k > 0 { assert(c(k - 1) == (a(k - 1) || b(k - 1))); lemma_mask_add(ls, a, b, c, j, k - 1); } }
pub open spec fn single(x: int) -> spec_fn(int) -> bool { |i: int| i == x }
pub proof fn lemma_mask_single(ls: Seq<Seq<F>>, x: int, j: int, k: int)
    ensures msum(ls, single(x), j, k) == (if 0 <= x < k { rv(ls[x][j]) } else { 0real }), msq(ls, single(x), j, k) == (if 0 <= x < k { rv(ls[x][j]) * rv(ls[x][j]) } else { 0real }), mcount(single(x), k) == (if 0 <= x < k { 1int } else { 0int }) decreases k
{ if k > 0 { lemma_mask_single(ls, x, j, k - 1); } }
pub proof fn lemma_mask_none(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, j: int, k: int)
    requires forall|i: int| 0 <= i < k ==> !#[trigger] m(i) ensures msum(ls, m, j, k) == 0real, msq(ls, m, j, k) == 0real, mcount(m, k) == 0 decreases k
{ if k > 0 { assert(!m(k - 1)); lemma_mask_none(ls, m, j, k - 1); } }
pub proof fn lemma_count(m: spec_fn(int) -> bool, k: int) ensures 0 <= mcount(m, k), k >= 0 ==> mcount(m, k) <= k, (exists|i: int| 0 <= i < k && #[trigger] m(i)) ==> mcount(m, k) > 0 decreases k
{ if k > 0 { lemma_count(m, k - 1); if exists|i: int| 0 <= i < k && #[trigger] m(i) { let i = choose|i: int| 0 <= i < k && #[trigger] m(i); if i < k - 1 { assert(m(i)); } else { assert(m(k - 1)); } } } }
// ---- sorted columns and masks ----------------------------------------------------------------------------------------
// a column sorted by value over distinct samples 0..n
pub open spec fn distinct(s: Seq<(F, int)>) -> bool { forall|p: int, q: int| 0 <= p < q < s.len() ==> (#[trigger] s[p]).1 != (#[trigger] s[q]).1 }
pub open spec fn in_range(s: Seq<(F, int)>, n: int) -> bool { forall|p: int| 0 <= p < s.len() ==> 0 <= (#[trigger] s[p]).1 < n }
pub open spec fn finite_labels(ls: Seq<Seq<F>>, nt: int) -> bool { forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < nt ==> (#[trigger] ls[i][j]) is Fin }
pub open spec fn pre(s: Seq<(F, int)>, p: int) -> spec_fn(int) -> bool { |i: int| in_col(s, p, i) }
pub open spec fn suf(s: Seq<(F, int)>, p: int) -> spec_fn(int) -> bool { |i: int| in_col(s, s.len() as int, i) && !in_col(s, p, i) }
pub proof fn lemma_prefix(ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int, nt: int)
    requires distinct(s), in_range(s, ls.len() as int), finite_labels(ls, nt), 0 <= j < nt, 0 <= p <= s.len()
    ensures psum(ls, s, j, p) == F::Fin(msum(ls, pre(s, p), j, ls.len() as int)), psq(ls, s, j, p) == F::Fin(msq(ls, pre(s, p), j, ls.len() as int)), mcount(pre(s, p), ls.len() as int) == p
    decreases p
{
    let n = ls.len() as int;
    if p <= 0 { assert forall|i: int| 0 <= i < n implies !#[trigger] pre(s, p)(i) by {} lemma_mask_none(ls, pre(s, p), j, n); }
    else {
        lemma_prefix(ls, s, j, p - 1, nt);
        let x = s[p - 1].1;
        assert forall|i: int| 0 <= i < n implies #[trigger] pre(s, p)(i) == (pre(s, p - 1)(i) || single(x)(i)) && !(pre(s, p - 1)(i) && single(x)(i)) by {
            if pre(s, p)(i) { let q = choose|q: int| 0 <= q < p && (#[trigger] s[q]).1 == i; if q < p - 1 { assert(in_col(s, p - 1, i)); } else { assert(i == x); } }
            if single(x)(i) { assert(s[p - 1].1 == i); }
        }
        lemma_mask_add(ls, pre(s, p - 1), single(x), pre(s, p), j, n);
        lemma_mask_single(ls, x, j, n);
        assert(ls[x][j] is Fin);
    }
}
pub proof fn lemma_suffix(ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int, nt: int, ts: F, tq: F)
    requires distinct(s), in_range(s, ls.len() as int), finite_labels(ls, nt), 0 <= j < nt, 0 <= p <= s.len(),
        ts == psum(ls, s, j, s.len() as int), tq == psq(ls, s, j, s.len() as int)
    ensures rsum(ts, ls, s, j, p) == F::Fin(msum(ls, suf(s, p), j, ls.len() as int)), rsq(tq, ls, s, j, p) == F::Fin(msq(ls, suf(s, p), j, ls.len() as int)), mcount(suf(s, p), ls.len() as int) == s.len() - p
{
    let n = ls.len() as int;
    lemma_prefix(ls, s, j, p, nt); lemma_prefix(ls, s, j, s.len() as int, nt);
    lemma_rest(ls, s, j, p, nt, ts, tq);
    assert forall|i: int| 0 <= i < n implies #[trigger] pre(s, s.len() as int)(i) == (pre(s, p)(i) || suf(s, p)(i)) && !(pre(s, p)(i) && suf(s, p)(i)) by { }
    lemma_mask_add(ls, pre(s, p), suf(s, p), pre(s, s.len() as int), j, n);
}
pub proof fn lemma_rest(ls: Seq<Seq<F>>, s: Seq<(F, int)>, j: int, p: int, nt: int, ts: F, tq: F)
    requires in_range(s, ls.len() as int), finite_labels(ls, nt), 0 <= j < nt, 0 <= p <= s.len(), ts is Fin, tq is Fin
    ensures psum(ls, s, j, p) is Fin, psq(ls, s, j, p) is Fin, rsum(ts, ls, s, j, p) == F::Fin(rv(ts) - rv(psum(ls, s, j, p))), rsq(tq, ls, s, j, p) == F::Fin(rv(tq) - rv(psq(ls, s, j, p))) decreases p
{ if p > 0 { lemma_rest(ls, s, j, p - 1, nt, ts, tq); assert(ls[s[p - 1].1][j] is Fin); } }
// the cost of the cut at p in terms of the two parts
pub open spec fn totals(ls: Seq<Seq<F>>, s: Seq<(F, int)>, ts: Seq<F>, tq: Seq<F>, nt: int) -> bool { forall|j: int| 0 <= j < nt ==> #[trigger] ts[j] == psum(ls, s, j, s.len() as int) && #[trigger] tq[j] == psq(ls, s, j, s.len() as int) }
pub proof fn lemma_weighted(q: real, s: real, a: real, q2: real, s2: real, b: real) requires a > 0real, b > 0real
    ensures fweighted(F::Fin(a), fvar(F::Fin(q), F::Fin(s), F::Fin(a)), F::Fin(b), fvar(F::Fin(q2), F::Fin(s2), F::Fin(b))) == F::Fin(rweighted(a, rvar(q, s, a), b, rvar(q2, s2, b)))
{ }
pub proof fn lemma_cut_real(ls: Seq<Seq<F>>, s: Seq<(F, int)>, ts: Seq<F>, tq: Seq<F>, n: int, p: int, k: int)
    requires k >= 0, distinct(s), in_range(s, ls.len() as int), finite_labels(ls, k), totals(ls, s, ts, tq, k), n == s.len(), 0 < p < n
    ensures fcut(ls, s, ts, tq, n, p, k) == F::Fin(parts_variance(ls, pre(s, p), suf(s, p), ls.len() as int, k)) decreases k
{
    if k > 0 {
        lemma_cut_real(ls, s, ts, tq, n, p, k - 1);
        lemma_prefix(ls, s, k - 1, p, k);
        assert(ts[k - 1] == psum(ls, s, k - 1, s.len() as int) && tq[k - 1] == psq(ls, s, k - 1, s.len() as int));
        lemma_suffix(ls, s, k - 1, p, k, ts[k - 1], tq[k - 1]);
        lemma_weighted(msq(ls, pre(s, p), k - 1, ls.len() as int), msum(ls, pre(s, p), k - 1, ls.len() as int), p as real, msq(ls, suf(s, p), k - 1, ls.len() as int), msum(ls, suf(s, p), k - 1, ls.len() as int), (n - p) as real);
    }
}
pub proof fn lemma_parts_eq(ls: Seq<Seq<F>>, f: spec_fn(int) -> bool, t: spec_fn(int) -> bool, f2: spec_fn(int) -> bool, t2: spec_fn(int) -> bool, n: int, k: int)
    requires same_mask(f, f2, n), same_mask(t, t2, n) ensures parts_variance(ls, f, t, n, k) == parts_variance(ls, f2, t2, n, k) decreases k
{ if k > 0 { lemma_mask_eq(ls, f, f2, k - 1, n); lemma_mask_eq(ls, t, t2, k - 1, n); lemma_parts_eq(ls, f, t, f2, t2, n, k - 1); } }
// the false and true side of a threshold on a sorted column
pub open spec fn side(s: Seq<(F, int)>, v: F, want: bool) -> spec_fn(int) -> bool { |i: int| in_col(s, s.len() as int, i) && in_true(s, v, s.len() as int, i) == want }
pub open spec fn divides(s: Seq<(F, int)>, v: F) -> bool { (exists|p: int| 0 <= p < s.len() && fge((#[trigger] s[p]).0, v)) && (exists|p: int| 0 <= p < s.len() && !fge((#[trigger] s[p]).0, v)) }
pub open spec fn cost(ls: Seq<Seq<F>>, s: Seq<(F, int)>, v: F, nt: int) -> real { parts_variance(ls, side(s, v, false), side(s, v, true), ls.len() as int, nt) }
pub proof fn lemma_first(s: Seq<(F, int)>, v: F, n: int) -> (p: int)
    requires val_sorted(s), 0 <= n <= s.len(), exists|q: int| 0 <= q < n && fge((#[trigger] s[q]).0, v)
    ensures 0 <= p < n, fge(s[p].0, v), forall|q: int| 0 <= q < p ==> !fge((#[trigger] s[q]).0, v) decreases n
{
    let q = choose|q: int| 0 <= q < n && fge((#[trigger] s[q]).0, v);
    if exists|r: int| 0 <= r < n - 1 && fge((#[trigger] s[r]).0, v) { lemma_first(s, v, n - 1) } else { q }
}
pub proof fn lemma_sides(ls: Seq<Seq<F>>, s: Seq<(F, int)>, v: F, p: int, nt: int)
    requires val_sorted(s), distinct(s), 0 < p < s.len(), fge(s[p].0, v), forall|q: int| 0 <= q < p ==> !fge((#[trigger] s[q]).0, v)
    ensures cost(ls, s, v, nt) == parts_variance(ls, pre(s, p), suf(s, p), ls.len() as int, nt)
{
    let len = s.len() as int; let n = ls.len() as int;
    assert forall|i: int| in_col(s, len, i) && !in_true(s, v, len, i) <==> #[trigger] in_col(s, p, i) by {
        if in_col(s, p, i) {
            let q = choose|q: int| 0 <= q < p && (#[trigger] s[q]).1 == i;
            assert(0 <= q < len);
            if in_true(s, v, len, i) { let r = choose|r: int| 0 <= r < len && (#[trigger] s[r]).1 == i && fge(s[r].0, v); assert(q != r); if q < r { assert(s[q].1 != s[r].1); } else { assert(s[r].1 != s[q].1); } }
        }
        if in_col(s, len, i) && !in_true(s, v, len, i) {
            let q = choose|q: int| 0 <= q < len && (#[trigger] s[q]).1 == i;
            if q >= p { assert(fle(s[p].0, s[q].0)); assert(fge(s[q].0, v)); assert(in_true(s, v, len, i)); }
        }
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] side(s, v, false)(i) == #[trigger] pre(s, p)(i) by { assert(in_col(s, p, i) <==> in_col(s, len, i) && !in_true(s, v, len, i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] side(s, v, true)(i) == #[trigger] suf(s, p)(i) by { assert(in_col(s, p, i) <==> in_col(s, len, i) && !in_true(s, v, len, i)); }
    lemma_parts_eq(ls, side(s, v, false), side(s, v, true), pre(s, p), suf(s, p), n, nt);
}
// every dividing threshold costs as much as some boundary, and every boundary's value divides
pub broadcast proof fn lemma_divides_boundary(ls: Seq<Seq<F>>, s: Seq<(F, int)>, v: F, nt: int)
    requires val_sorted(s), distinct(s), divides(s, v)
    ensures exists|p: int| #[trigger] boundary(s, p) && #[trigger] cost(ls, s, v, nt) == parts_variance(ls, pre(s, p), suf(s, p), ls.len() as int, nt)
{
    let p = lemma_first(s, v, s.len() as int);
    let r = choose|r: int| 0 <= r < s.len() && !fge((#[trigger] s[r]).0, v);
    if p == 0 { assert(fle(s[0].0, s[r].0)); assert(false); }
    assert(!fge(s[p - 1].0, v));
    assert(boundary(s, p));
    lemma_sides(ls, s, v, p, nt);
}
pub proof fn lemma_boundary_divides(ls: Seq<Seq<F>>, s: Seq<(F, int)>, p: int, nt: int)
    requires val_sorted(s), distinct(s), boundary(s, p)
    ensures divides(s, s[p].0), cost(ls, s, s[p].0, nt) == parts_variance(ls, pre(s, p), suf(s, p), ls.len() as int, nt)
{
    let v = s[p].0;
    assert(fle(s[p].0, s[p].0));
    assert(fge(s[p].0, v));
    assert(fle(s[p - 1].0, s[p].0));
    assert(!fge(s[p - 1].0, v));
    assert forall|q: int| 0 <= q < p implies !fge((#[trigger] s[q]).0, v) by { assert(fle(s[q].0, s[p - 1].0)); }
    lemma_sides(ls, s, v, p, nt);
}
pub proof fn lemma_var(q: real, s: real, a: real) requires a > 0real ensures fvar(F::Fin(q), F::Fin(s), F::Fin(a)) == F::Fin(rvar(q, s, a)) { }
// ---- plain datasets ------------------------------------------------------------------------------------------------------
pub open spec fn col_of(d: MultiTargetDataSet, c: int) -> Seq<(F, int)> { sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]) }
pub open spec fn presort_ok(d: MultiTargetDataSet, c: int) -> bool { no_nan(d.feature_columns[c]) ==> sorted_column(d.feature_columns[c], col_of(d, c)) }
// as many labels as rows, nt finite targets each, no missing feature values
pub open spec fn wf_split(d: MultiTargetDataSet, nt: int) -> bool {
    d.feature_rows.len() > 0 && d.labels.len() == d.feature_rows.len() && nt >= 0
    && (forall|i: int| 0 <= i < d.labels.len() ==> (#[trigger] d.labels[i]).len() == nt) && finite_labels(d.labels, nt)
    && columns_of(d.feature_rows, d.feature_columns) && d.feature_columns.len() <= 4294967295
    && (forall|i: int, c: int| 0 <= i < d.feature_rows.len() && 0 <= c < d.feature_columns.len() ==> !((#[trigger] d.feature_rows[i][c]) is NaN))
}
pub open spec fn answers(rows: Seq<Seq<F>>, c: int, v: F, want: bool) -> spec_fn(int) -> bool { |i: int| says(rows[i], c, v) == want }
pub open spec fn everyone() -> spec_fn(int) -> bool { |i: int| true }
// the question `feature c >= v` leaves neither part empty
pub open spec fn splits(d: MultiTargetDataSet, c: int, v: F) -> bool {
    0 <= c < d.feature_columns.len()
    && (exists|i: int| 0 <= i < d.feature_rows.len() && says(#[trigger] d.feature_rows[i], c, v)) && (exists|i: int| 0 <= i < d.feature_rows.len() && !says(#[trigger] d.feature_rows[i], c, v))
}
pub open spec fn total_variance(d: MultiTargetDataSet, nt: int) -> real { variance(d.labels, everyone(), d.labels.len() as int, nt) }
// how much the question lowers the label variance
pub open spec fn reduction(d: MultiTargetDataSet, nt: int, c: int, v: F) -> real { total_variance(d, nt) - parts_variance(d.labels, answers(d.feature_rows, c, v, false), answers(d.feature_rows, c, v, true), d.labels.len() as int, nt) }
pub open spec fn best_split(d: MultiTargetDataSet, nt: int, r: BestSplitResult) -> bool {
    r.gain is Fin && rv(r.gain) >= 0real
    && (forall|c: int, v: F| splits(d, c, v) ==> #[trigger] reduction(d, nt, c, v) <= rv(r.gain))
    && (rv(r.gain) > 0real ==> splits(d, r.question.column, r.question.value) && reduction(d, nt, r.question.column, r.question.value) == rv(r.gain))
}
pub open spec fn metrics_ok(ls: Seq<Seq<F>>, ts: Seq<F>, tq: Seq<F>, nt: int) -> bool { forall|j: int| 0 <= j < nt ==> (#[trigger] ts[j]) == colsum(ls, j, ls.len() as int) && tq[j] == colsq(ls, j, ls.len() as int) }
pub proof fn lemma_sorted_good(col: Seq<F>, s: Seq<(F, int)>)
    requires sorted_column(col, s), forall|i: int| 0 <= i < col.len() ==> !((#[trigger] col[i]) is NaN)
    ensures val_sorted(s), distinct(s), in_range(s, col.len() as int), s.len() == col.len(), forall|i: int| 0 <= i < col.len() ==> #[trigger] in_col(s, s.len() as int, i)
{
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies fle((#[trigger] s[i]).0, (#[trigger] s[j]).0) by { if i < j { assert(pair_before(s[i], s[j])); } else { assert(!(col[s[i].1] is NaN)); } }
    assert forall|p: int, q: int| 0 <= p < q < s.len() implies (#[trigger] s[p]).1 != (#[trigger] s[q]).1 by { assert(pair_before(s[p], s[q])); if s[p].1 == s[q].1 { assert(s[p].0 == col[s[p].1] && s[q].0 == col[s[q].1]); } }
    assert forall|i: int| 0 <= i < col.len() implies #[trigger] in_col(s, s.len() as int, i) by { assert(has_sample(s, i)); }
}
pub proof fn lemma_everyone(ls: Seq<Seq<F>>, j: int, k: int, nt: int) requires finite_labels(ls, nt), 0 <= j < nt, 0 <= k <= ls.len()
    ensures colsum(ls, j, k) == F::Fin(msum(ls, everyone(), j, k)), colsq(ls, j, k) == F::Fin(msq(ls, everyone(), j, k)), mcount(everyone(), k) == k decreases k
{ if k > 0 { lemma_everyone(ls, j, k - 1, nt); assert(ls[k - 1][j] is Fin); } }
pub proof fn lemma_variance_eq(ls: Seq<Seq<F>>, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool, n: int, k: int)
    requires same_mask(a, b, n) ensures variance(ls, a, n, k) == variance(ls, b, n, k) decreases k
{ if k > 0 { lemma_mask_eq(ls, a, b, k - 1, n); lemma_variance_eq(ls, a, b, n, k - 1); } }
pub proof fn lemma_column_good(d: MultiTargetDataSet, nt: int, c: int)
    requires wf_split(d, nt), 0 <= c < d.feature_columns.len(), presort_ok(d, c)
    ensures val_sorted(col_of(d, c)), distinct(col_of(d, c)), in_range(col_of(d, c), d.labels.len() as int), col_of(d, c).len() == d.labels.len(),
        forall|i: int| 0 <= i < d.labels.len() ==> #[trigger] in_col(col_of(d, c), col_of(d, c).len() as int, i),
        forall|i: int, v: F| 0 <= i < d.labels.len() ==> #[trigger] in_true(col_of(d, c), v, col_of(d, c).len() as int, i) == says(d.feature_rows[i], c, v)
{
    let col = d.feature_columns[c]; let s = col_of(d, c);
    assert(col.len() == d.feature_rows.len());
    assert forall|i: int| 0 <= i < col.len() implies !((#[trigger] col[i]) is NaN) by { assert(d.feature_columns[c][i] == d.feature_rows[i][c]); assert(!(d.feature_rows[i][c] is NaN)); }
    assert(no_nan(col));
    lemma_sorted_good(col, s);
    assert forall|i: int, v: F| 0 <= i < d.labels.len() implies #[trigger] in_true(s, v, s.len() as int, i) == says(d.feature_rows[i], c, v) by {
        assert(d.feature_columns[c][i] == d.feature_rows[i][c]);
        assert(in_col(s, s.len() as int, i));
        let p = choose|p: int| 0 <= p < s.len() && (#[trigger] s[p]).1 == i;
        assert(s[p].0 == col[s[p].1]);
        if in_true(s, v, s.len() as int, i) { let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).1 == i && fge(s[q].0, v); assert(s[q].0 == col[s[q].1]); }
    }
}
pub proof fn lemma_reduction(d: MultiTargetDataSet, nt: int, c: int, v: F)
    requires wf_split(d, nt), 0 <= c < d.feature_columns.len(), presort_ok(d, c)
    ensures splits(d, c, v) == divides(col_of(d, c), v), reduction(d, nt, c, v) == total_variance(d, nt) - cost(d.labels, col_of(d, c), v, nt)
{
    let s = col_of(d, c); let n = d.labels.len() as int;
    lemma_column_good(d, nt, c);
    assert forall|i: int| 0 <= i < n implies #[trigger] side(s, v, false)(i) == #[trigger] answers(d.feature_rows, c, v, false)(i) by { assert(in_true(s, v, s.len() as int, i) == says(d.feature_rows[i], c, v)); assert(in_col(s, s.len() as int, i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] side(s, v, true)(i) == #[trigger] answers(d.feature_rows, c, v, true)(i) by { assert(in_true(s, v, s.len() as int, i) == says(d.feature_rows[i], c, v)); assert(in_col(s, s.len() as int, i)); }
    lemma_parts_eq(d.labels, side(s, v, false), side(s, v, true), answers(d.feature_rows, c, v, false), answers(d.feature_rows, c, v, true), n, nt);
    assert forall|p: int| 0 <= p < s.len() implies (#[trigger] s[p]).0 == d.feature_rows[s[p].1][c] by { assert(d.feature_columns[c][s[p].1] == d.feature_rows[s[p].1][c]); }
    if divides(s, v) {
        let p = choose|p: int| 0 <= p < s.len() && fge((#[trigger] s[p]).0, v); let q = choose|q: int| 0 <= q < s.len() && !fge((#[trigger] s[q]).0, v);
        assert(says(d.feature_rows[s[p].1], c, v)); assert(!says(d.feature_rows[s[q].1], c, v));
    }
    if splits(d, c, v) {
        let i = choose|i: int| 0 <= i < d.feature_rows.len() && says(#[trigger] d.feature_rows[i], c, v); let k = choose|k: int| 0 <= k < d.feature_rows.len() && !says(#[trigger] d.feature_rows[k], c, v);
        assert(in_col(s, s.len() as int, i) && in_col(s, s.len() as int, k));
        let p = choose|p: int| 0 <= p < s.len() && (#[trigger] s[p]).1 == i; let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).1 == k;
        assert(fge(s[p].0, v)); assert(!fge(s[q].0, v));
    }
}
pub proof fn lemma_totals(ls: Seq<Seq<F>>, s: Seq<(F, int)>, ts: Seq<F>, tq: Seq<F>, nt: int)
    requires metrics_ok(ls, ts, tq, nt), finite_labels(ls, nt), distinct(s), in_range(s, ls.len() as int), s.len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> #[trigger] in_col(s, s.len() as int, i)
    ensures totals(ls, s, ts, tq, nt)
{
    let n = ls.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] pre(s, s.len() as int)(i) == #[trigger] everyone()(i) by { assert(in_col(s, s.len() as int, i)); }
    assert forall|j: int| 0 <= j < nt implies #[trigger] ts[j] == psum(ls, s, j, s.len() as int) && #[trigger] tq[j] == psq(ls, s, j, s.len() as int) by {
        lemma_everyone(ls, j, n, nt); lemma_prefix(ls, s, j, s.len() as int, nt); lemma_mask_eq(ls, pre(s, s.len() as int), everyone(), j, n);
        assert(ts[j] == colsum(ls, j, n));
    }
}
// the total the code computes
pub open spec fn vtot(ls: Seq<Seq<F>>, k: int) -> F decreases k { if k <= 0 { zero() } else { fadd(vtot(ls, k - 1), fvar(colsq(ls, k - 1, ls.len() as int), colsum(ls, k - 1, ls.len() as int), ri(ls.len() as int))) } }
pub broadcast proof fn lemma_total_variance(d: MultiTargetDataSet, nt: int)
    requires #[trigger] wf_split(d, nt) ensures #[trigger] vtot(d.labels, nt) == F::Fin(total_variance(d, nt))
{ lemma_total_variance_to(d, nt, nt); }
pub proof fn lemma_total_variance_to(d: MultiTargetDataSet, nt: int, k: int)
    requires wf_split(d, nt), 0 <= k <= nt ensures vtot(d.labels, k) == F::Fin(variance(d.labels, everyone(), d.labels.len() as int, k)) decreases k
{
    let n = d.labels.len() as int;
    if k > 0 { lemma_total_variance_to(d, nt, k - 1); lemma_everyone(d.labels, k - 1, n, nt); lemma_var(msq(d.labels, everyone(), k - 1, n), msum(d.labels, everyone(), k - 1, n), n as real); }
}
pub broadcast proof fn lemma_cuts_finite(d: MultiTargetDataSet, nt: int, c: int, ts: Seq<F>, tq: Seq<F>, n: int)
    requires #[trigger] wf_split(d, nt), metrics_ok(d.labels, ts, tq, nt), 0 <= c < d.feature_columns.len(), n == d.labels.len(), presort_ok(d, c)
    ensures #[trigger] cuts_finite(d.labels, sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]), ts, tq, n, nt), n == col_of(d, c).len(), !(col_of(d, c)[0].0 is NaN)
{
    let s = col_of(d, c);
    lemma_column_good(d, nt, c); lemma_totals(d.labels, s, ts, tq, nt);
    assert(fle(s[0].0, s[0].0));
    assert forall|p: int| 0 < p < s.len() implies (#[trigger] fcut(d.labels, s, ts, tq, n, p, nt)) is Fin by { lemma_cut_real(d.labels, s, ts, tq, n, p, nt); }
}
// a cut the code prices is a question; its price tells the question's reduction
pub broadcast proof fn lemma_cut_reduction(d: MultiTargetDataSet, nt: int, c: int, ts: Seq<F>, tq: Seq<F>, n: int, p: int)
    requires #[trigger] wf_split(d, nt), metrics_ok(d.labels, ts, tq, nt), 0 <= c < d.feature_columns.len(), n == d.labels.len(), boundary(col_of(d, c), p), presort_ok(d, c)
    ensures #[trigger] fcut(d.labels, sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]), ts, tq, n, p, nt) == F::Fin(total_variance(d, nt) - reduction(d, nt, c, col_of(d, c)[p].0)), splits(d, c, col_of(d, c)[p].0)
{
    let s = col_of(d, c); let v = s[p].0;
    lemma_column_good(d, nt, c); lemma_reduction(d, nt, c, v);
    lemma_boundary_divides(d.labels, s, p, nt);
    lemma_totals(d.labels, s, ts, tq, nt);
    lemma_cut_real(d.labels, s, ts, tq, n, p, nt);
}
// every question's reduction is that of some cut
pub broadcast proof fn lemma_reduction_cut(d: MultiTargetDataSet, nt: int, c: int, v: F)
    requires wf_split(d, nt), splits(d, c, v), presort_ok(d, c)
    ensures exists|p: int| #[trigger] boundary(sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]), p) && #[trigger] reduction(d, nt, c, v) == reduction(d, nt, c, col_of(d, c)[p].0)
{
    let s = col_of(d, c);
    lemma_column_good(d, nt, c); lemma_reduction(d, nt, c, v);
    lemma_divides_boundary(d.labels, s, v, nt);
    let p = choose|p: int| #[trigger] boundary(s, p) && cost(d.labels, s, v, nt) == parts_variance(d.labels, pre(s, p), suf(s, p), d.labels.len() as int, nt);
    lemma_boundary_divides(d.labels, s, p, nt); lemma_reduction(d, nt, c, s[p].0);
}
// what the answer for one column is worth
pub open spec fn right_cut(d: MultiTargetDataSet, nt: int, c: int, r: BestThresholdResult) -> bool {
    (forall|v: F| splits(d, c, v) ==> fge(fsub(F::Fin(total_variance(d, nt)), r.loss), F::Fin(#[trigger] reduction(d, nt, c, v))))
    && (r.loss is PInf || (splits(d, c, r.threshold_value) && fsub(F::Fin(total_variance(d, nt)), r.loss) == F::Fin(reduction(d, nt, c, r.threshold_value))))
}
pub broadcast proof fn lemma_right_cut(d: MultiTargetDataSet, nt: int, c: int, ts: Seq<F>, tq: Seq<F>, n: int, r: BestThresholdResult, k: int)
    requires #[trigger] wf_split(d, nt), metrics_ok(d.labels, ts, tq, nt), 0 <= c < d.feature_columns.len(), n == d.labels.len(), presort_ok(d, c), k >= n,
        #[trigger] best_cut(d.labels, sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]), ts, tq, n, nt, r, k)
    ensures right_cut(d, nt, c, r)
{
    let s = col_of(d, c);
    lemma_column_good(d, nt, c);
    assert forall|v: F| splits(d, c, v) implies fge(fsub(F::Fin(total_variance(d, nt)), r.loss), F::Fin(#[trigger] reduction(d, nt, c, v))) by {
        lemma_reduction_cut(d, nt, c, v);
        let p = choose|p: int| #[trigger] boundary(s, p) && reduction(d, nt, c, v) == reduction(d, nt, c, s[p].0);
        lemma_cut_reduction(d, nt, c, ts, tq, n, p);
        assert(fle(r.loss, fcut(d.labels, s, ts, tq, n, p, nt)));
        if !(r.loss is PInf) {
            let q = choose|q: int| #[trigger] boundary(s, q) && r.threshold_value == s[q].0 && r.loss == fcut(d.labels, s, ts, tq, n, q, nt);
            lemma_cut_reduction(d, nt, c, ts, tq, n, q);
        }
    }
    if !(r.loss is PInf) {
        let q = choose|q: int| #[trigger] boundary(s, q) && r.threshold_value == s[q].0 && r.loss == fcut(d.labels, s, ts, tq, n, q, nt);
        lemma_cut_reduction(d, nt, c, ts, tq, n, q);
    }
}
pub broadcast proof fn lemma_wf_shape(d: MultiTargetDataSet, nt: int) requires #[trigger] wf_split(d, nt)
    ensures d.feature_rows.len() > 0, d.labels.len() == d.feature_rows.len(), nt >= 0, forall|i: int| 0 <= i < d.labels.len() ==> (#[trigger] d.labels[i]).len() == nt, d.feature_columns.len() == d.feature_rows[0].len(), d.feature_columns.len() <= 4294967295 { }
pub broadcast proof fn lemma_splits_col(d: MultiTargetDataSet, c: int, v: F) requires #[trigger] splits(d, c, v) ensures 0 <= c < d.feature_columns.len() { }
pub broadcast proof fn lemma_col_shape(d: MultiTargetDataSet, nt: int, c: int) requires #[trigger] wf_split(d, nt), 0 <= c < d.feature_columns.len(), presort_ok(d, c)
    ensures (#[trigger] sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c])).len() == d.labels.len(), !(col_of(d, c)[0].0 is NaN)
{ lemma_column_good(d, nt, c); assert(fle(col_of(d, c)[0].0, col_of(d, c)[0].0)); }
