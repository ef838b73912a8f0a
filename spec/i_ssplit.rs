// props: C06
// the same, with finite labels
pub open spec fn wf_presorted(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int) -> bool { parted(d, all, nt) && finite_labels(all, nt) }
pub broadcast proof fn lemma_spart_presorted(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, v: F, want: bool)
    requires #[trigger] wf_presorted(d, all, nt), ssplits(d, c, v) ensures wf_presorted(#[trigger] spart(d, all, c, v, want), all, nt)
{ lemma_spart_parted(d, all, nt, c, v, want); }
pub open spec fn stotal(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int) -> real { variance(all, members(d), all.len() as int, nt) }
pub open spec fn sreduction(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, v: F) -> real { stotal(d, all, nt) - cost(all, d.sorted_feature_columns[c], v, nt) }
pub open spec fn sbest_split(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, r: BestSplitResult) -> bool {
    r.gain is Fin && rv(r.gain) >= 0real
    && (forall|c: int, v: F| ssplits(d, c, v) ==> #[trigger] sreduction(d, all, nt, c, v) <= rv(r.gain))
    && (rv(r.gain) > 0real ==> ssplits(d, r.question.column, r.question.value) && sreduction(d, all, nt, r.question.column, r.question.value) == rv(r.gain))
}
// ---- sums over the labels kept are sums over the samples
pub proof fn lemma_colsum_ext(a: Seq<Seq<F>>, b: Seq<Seq<F>>, j: int, k: int) requires forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures colsum(a, j, k) == colsum(b, j, k), colsq(a, j, k) == colsq(b, j, k) decreases k
{ if k > 0 { lemma_colsum_ext(a, b, j, k - 1); assert(a[k - 1] == b[k - 1]); } }
pub proof fn lemma_msel_sums(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, j: int, k: int, nt: int) requires finite_labels(ls, nt), 0 <= j < nt, 0 <= k <= ls.len()
    ensures msel(ls, m, k).len() == mcount(m, k), colsum(msel(ls, m, k), j, msel(ls, m, k).len() as int) == F::Fin(msum(ls, m, j, k)), colsq(msel(ls, m, k), j, msel(ls, m, k).len() as int) == F::Fin(msq(ls, m, j, k)) decreases k
{
    if k > 0 {
        lemma_msel_sums(ls, m, j, k - 1, nt); assert(ls[k - 1][j] is Fin);
        let s = msel(ls, m, k - 1);
        if m(k - 1) { lemma_colsum_ext(s.push(ls[k - 1]), s, j, s.len() as int); }
    }
}
pub proof fn lemma_msel_len(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int) ensures msel(ls, m, k).len() == mcount(m, k), mcount(m, k) >= 0 decreases k { if k > 0 { lemma_msel_len(ls, m, k - 1); } }
// size of a column
pub proof fn lemma_col_count(s: Seq<(F, int)>, n: int, p: int) requires distinct(s), in_range(s, n), 0 <= p <= s.len(), n >= 0 ensures mcount(pre(s, p), n) == p decreases p
{
    let ls = Seq::new(n as nat, |i: int| Seq::<F>::empty());
    if p <= 0 { assert forall|i: int| 0 <= i < n implies !#[trigger] pre(s, p)(i) by {} lemma_mask_none(ls, pre(s, p), 0, n); }
    else {
        lemma_col_count(s, n, p - 1);
        let x = s[p - 1].1;
        assert forall|i: int| 0 <= i < n implies #[trigger] pre(s, p)(i) == (pre(s, p - 1)(i) || single(x)(i)) && !(pre(s, p - 1)(i) && single(x)(i)) by {
            if pre(s, p)(i) { let q = choose|q: int| 0 <= q < p && (#[trigger] s[q]).1 == i; if q < p - 1 { assert(in_col(s, p - 1, i)); } else { assert(i == x); } }
            if single(x)(i) { assert(s[p - 1].1 == i); }
        }
        lemma_mask_add(ls, pre(s, p - 1), single(x), pre(s, p), 0, n);
        lemma_mask_single(ls, x, 0, n);
    }
}
pub proof fn lemma_s_column(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int) requires wf_presorted(d, all, nt), 0 <= c < d.sorted_feature_columns.len()
    ensures d.sorted_feature_columns[c].len() == d.labels.len(), d.labels.len() > 0, good_column(d.sorted_feature_columns[c], all.len() as int), same_mask(pre(d.sorted_feature_columns[c], d.sorted_feature_columns[c].len() as int), members(d), all.len() as int)
{
    let s = d.sorted_feature_columns[c]; let n = all.len() as int;
    assert(good_column(s, n)); assert(same_samples(s, col0(d)));
    assert forall|i: int| 0 <= i < n implies #[trigger] pre(s, s.len() as int)(i) == #[trigger] members(d)(i) by { assert(in_col(s, s.len() as int, i) == in_col(col0(d), col0(d).len() as int, i)); }
    lemma_col_count(s, n, s.len() as int); lemma_msel_len(all, members(d), n);
    lemma_mask_eq(all, pre(s, s.len() as int), members(d), 0, n);
}
pub proof fn lemma_s_totals(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, ts: Seq<F>, tq: Seq<F>) requires wf_presorted(d, all, nt), 0 <= c < d.sorted_feature_columns.len(), metrics_ok(d.labels, ts, tq, nt)
    ensures totals(all, d.sorted_feature_columns[c], ts, tq, nt)
{
    let s = d.sorted_feature_columns[c]; let n = all.len() as int;
    lemma_s_column(d, all, nt, c);
    assert forall|j: int| 0 <= j < nt implies #[trigger] ts[j] == psum(all, s, j, s.len() as int) && #[trigger] tq[j] == psq(all, s, j, s.len() as int) by {
        lemma_msel_sums(all, members(d), j, n, nt); lemma_prefix(all, s, j, s.len() as int, nt); lemma_mask_eq(all, pre(s, s.len() as int), members(d), j, n);
        assert(ts[j] == colsum(d.labels, j, d.labels.len() as int));
    }
}
pub proof fn lemma_s_total_to(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, k: int) requires wf_presorted(d, all, nt), 0 <= k <= nt ensures vtot(d.labels, k) == F::Fin(variance(all, members(d), all.len() as int, k)) decreases k
{
    let n = all.len() as int;
    if k > 0 {
        lemma_s_total_to(d, all, nt, k - 1); lemma_msel_sums(all, members(d), k - 1, n, nt); lemma_s_column(d, all, nt, 0);
        lemma_var(msq(all, members(d), k - 1, n), msum(all, members(d), k - 1, n), mcount(members(d), n) as real);
    }
}
pub broadcast proof fn lemma_s_total(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int) requires #[trigger] wf_presorted(d, all, nt) ensures #[trigger] vtot(d.labels, nt) == F::Fin(stotal(d, all, nt)) { lemma_s_total_to(d, all, nt, nt); }
pub broadcast proof fn lemma_s_shape(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int) requires #[trigger] wf_presorted(d, all, nt)
    ensures d.labels.len() > 0, 0 <= nt <= 4294967295, 0 < d.sorted_feature_columns.len() <= 4294967295, forall|i: int| 0 <= i < d.labels.len() ==> (#[trigger] d.labels[i]).len() == nt,
        forall|c: int| 0 <= c < d.sorted_feature_columns.len() ==> (#[trigger] d.sorted_feature_columns[c]).len() == d.labels.len() && !(d.sorted_feature_columns[c][0].0 is NaN)
{
    lemma_s_column(d, all, nt, 0);
    assert forall|c: int| 0 <= c < d.sorted_feature_columns.len() implies (#[trigger] d.sorted_feature_columns[c]).len() == d.labels.len() && !(d.sorted_feature_columns[c][0].0 is NaN) by { lemma_s_column(d, all, nt, c); let s = d.sorted_feature_columns[c]; assert(fle(s[0].0, s[0].0)); }
    assert forall|i: int| 0 <= i < d.labels.len() implies (#[trigger] d.labels[i]).len() == nt by { lemma_msel_in(all, members(d), all.len() as int, i); }
}
pub broadcast proof fn lemma_ssplits_col(d: MultiTargetDataSetSortedFeatures, c: int, v: F) requires #[trigger] ssplits(d, c, v) ensures 0 <= c < d.sorted_feature_columns.len() { }
pub broadcast proof fn lemma_s_cuts_finite(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, ts: Seq<F>, tq: Seq<F>, n: int)
    requires #[trigger] wf_presorted(d, all, nt), metrics_ok(d.labels, ts, tq, nt), 0 <= c < d.sorted_feature_columns.len(), n == d.labels.len()
    ensures #[trigger] cuts_finite(all, d.sorted_feature_columns[c], ts, tq, n, nt), n == d.sorted_feature_columns[c].len(), !(d.sorted_feature_columns[c][0].0 is NaN)
{
    let s = d.sorted_feature_columns[c];
    lemma_s_column(d, all, nt, c); lemma_s_totals(d, all, nt, c, ts, tq);
    assert(fle(s[0].0, s[0].0));
    assert forall|p: int| 0 < p < s.len() implies (#[trigger] fcut(all, s, ts, tq, n, p, nt)) is Fin by { lemma_cut_real(all, s, ts, tq, n, p, nt); }
}
// what the answer for one column is worth
pub open spec fn s_right_cut(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, r: BestThresholdResult) -> bool {
    (forall|v: F| ssplits(d, c, v) ==> fge(fsub(F::Fin(stotal(d, all, nt)), r.loss), F::Fin(#[trigger] sreduction(d, all, nt, c, v))))
    && (r.loss is PInf || (ssplits(d, c, r.threshold_value) && fsub(F::Fin(stotal(d, all, nt)), r.loss) == F::Fin(sreduction(d, all, nt, c, r.threshold_value))))
}
pub proof fn lemma_s_boundary(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, ts: Seq<F>, tq: Seq<F>, n: int, p: int)
    requires wf_presorted(d, all, nt), metrics_ok(d.labels, ts, tq, nt), 0 <= c < d.sorted_feature_columns.len(), n == d.labels.len(), boundary(d.sorted_feature_columns[c], p)
    ensures ssplits(d, c, d.sorted_feature_columns[c][p].0), fcut(all, d.sorted_feature_columns[c], ts, tq, n, p, nt) == F::Fin(stotal(d, all, nt) - sreduction(d, all, nt, c, d.sorted_feature_columns[c][p].0))
{
    let s = d.sorted_feature_columns[c];
    lemma_s_column(d, all, nt, c); lemma_s_totals(d, all, nt, c, ts, tq);
    lemma_boundary_divides(all, s, p, nt); lemma_cut_real(all, s, ts, tq, n, p, nt);
}
pub broadcast proof fn lemma_s_right_cut(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, ts: Seq<F>, tq: Seq<F>, n: int, r: BestThresholdResult, k: int)
    requires #[trigger] wf_presorted(d, all, nt), metrics_ok(d.labels, ts, tq, nt), 0 <= c < d.sorted_feature_columns.len(), n == d.labels.len(), k >= n,
        #[trigger] best_cut(all, d.sorted_feature_columns[c], ts, tq, n, nt, r, k)
    ensures s_right_cut(d, all, nt, c, r)
{
    let s = d.sorted_feature_columns[c];
    lemma_s_column(d, all, nt, c);
    assert forall|v: F| ssplits(d, c, v) implies fge(fsub(F::Fin(stotal(d, all, nt)), r.loss), F::Fin(#[trigger] sreduction(d, all, nt, c, v))) by {
        lemma_divides_boundary(all, s, v, nt);
        let p = choose|p: int| #[trigger] boundary(s, p) && cost(all, s, v, nt) == parts_variance(all, pre(s, p), suf(s, p), all.len() as int, nt);
        lemma_boundary_divides(all, s, p, nt); lemma_s_boundary(d, all, nt, c, ts, tq, n, p);
        assert(fle(r.loss, fcut(all, s, ts, tq, n, p, nt)));
        if !(r.loss is PInf) {
            let q = choose|q: int| #[trigger] boundary(s, q) && r.threshold_value == s[q].0 && r.loss == fcut(all, s, ts, tq, n, q, nt);
            lemma_s_boundary(d, all, nt, c, ts, tq, n, q);
        }
    }
    if !(r.loss is PInf) {
        let q = choose|q: int| #[trigger] boundary(s, q) && r.threshold_value == s[q].0 && r.loss == fcut(all, s, ts, tq, n, q, nt);
        lemma_s_boundary(d, all, nt, c, ts, tq, n, q);
    }
}
// ---- presorting a table yields such data
pub proof fn lemma_presorted(d: MultiTargetDataSet, e: MultiTargetDataSetSortedFeatures, nt: int)
    requires wf_split(d, nt), nt <= 4294967295, d.feature_columns.len() > 0, e.labels =~= d.labels, e.sorted_feature_columns.len() == d.feature_columns.len(),
        forall|c: int| 0 <= c < d.feature_columns.len() ==> sorted_column(d.feature_columns[c], #[trigger] e.sorted_feature_columns[c])
    ensures wf_presorted(e, d.labels, nt)
{
    assert forall|c: int| 0 <= c < d.feature_columns.len() implies (#[trigger] d.feature_columns[c]).len() == d.labels.len() && no_nan(d.feature_columns[c]) by { lemma_plain_column(d, nt, c); }
    lemma_presort(d.labels, d.feature_columns, e, nt);
}
pub proof fn lemma_plain_column(d: MultiTargetDataSet, nt: int, c: int) requires wf_split(d, nt), 0 <= c < d.feature_columns.len()
    ensures d.feature_columns[c].len() == d.labels.len(), forall|i: int| 0 <= i < d.feature_columns[c].len() ==> !((#[trigger] d.feature_columns[c][i]) is NaN)
{ let col = d.feature_columns[c]; assert(col.len() == d.feature_rows.len()); assert forall|i: int| 0 <= i < col.len() implies !((#[trigger] col[i]) is NaN) by { assert(d.feature_columns[c][i] == d.feature_rows[i][c]); assert(!(d.feature_rows[i][c] is NaN)); } }
// the reduction in terms of the labels the dataset and its parts keep: variance of the whole less those of the parts, weighted by their share
pub open spec fn label_variance(ls: Seq<Seq<F>>, k: int) -> real { variance(ls, everyone(), ls.len() as int, k) }
pub open spec fn one_variance(ls: Seq<Seq<F>>, j: int) -> real { rvar(msq(ls, everyone(), j, ls.len() as int), msum(ls, everyone(), j, ls.len() as int), ls.len() as real) }
pub open spec fn two_variances(a: Seq<Seq<F>>, b: Seq<Seq<F>>, k: int) -> real decreases k { if k <= 0 { 0real } else { two_variances(a, b, k - 1) + rweighted(a.len() as real, one_variance(a, k - 1), b.len() as real, one_variance(b, k - 1)) } }
pub proof fn lemma_kept(all: Seq<Seq<F>>, m: spec_fn(int) -> bool, j: int, nt: int) requires finite_labels(all, nt), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).len() == nt, 0 <= j < nt
    ensures ({ let s = msel(all, m, all.len() as int); s.len() == mcount(m, all.len() as int) && mcount(everyone(), s.len() as int) == s.len() && msum(s, everyone(), j, s.len() as int) == msum(all, m, j, all.len() as int) && msq(s, everyone(), j, s.len() as int) == msq(all, m, j, all.len() as int) })
{
    let n = all.len() as int; let s = msel(all, m, n);
    lemma_msel_sums(all, m, j, n, nt);
    assert forall|i: int, h: int| 0 <= i < s.len() && 0 <= h < nt implies (#[trigger] s[i][h]) is Fin by { lemma_msel_in(all, m, n, i); let q = choose|q: int| 0 <= q < n && #[trigger] all[q] == s[i]; assert(all[q][h] is Fin); }
    lemma_everyone(s, j, s.len() as int, nt);
}
pub proof fn lemma_kept_variance(all: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int, nt: int) requires finite_labels(all, nt), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).len() == nt, 0 <= k <= nt
    ensures variance(all, m, all.len() as int, k) == label_variance(msel(all, m, all.len() as int), k) decreases k { if k > 0 { lemma_kept_variance(all, m, k - 1, nt); lemma_kept(all, m, k - 1, nt); } }
pub proof fn lemma_kept_parts(all: Seq<Seq<F>>, f: spec_fn(int) -> bool, t: spec_fn(int) -> bool, k: int, nt: int) requires finite_labels(all, nt), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).len() == nt, 0 <= k <= nt
    ensures parts_variance(all, f, t, all.len() as int, k) == two_variances(msel(all, f, all.len() as int), msel(all, t, all.len() as int), k) decreases k { if k > 0 { lemma_kept_parts(all, f, t, k - 1, nt); lemma_kept(all, f, k - 1, nt); lemma_kept(all, t, k - 1, nt); } }
pub proof fn lemma_reduction_of_parts(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, v: F) requires wf_presorted(d, all, nt), 0 <= c < d.sorted_feature_columns.len()
    ensures sreduction(d, all, nt, c, v) == label_variance(d.labels, nt) - two_variances(spart(d, all, c, v, false).labels, spart(d, all, c, v, true).labels, nt)
{
    let n = all.len() as int; let col = d.sorted_feature_columns[c];
    lemma_kept_variance(all, members(d), nt, nt); lemma_kept_parts(all, side(col, v, false), side(col, v, true), nt, nt);
    lemma_lsel_msel(all, col, v, false, n); lemma_lsel_msel(all, col, v, true, n);
}
