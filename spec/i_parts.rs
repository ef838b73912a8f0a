// props: C06 C23
// ---- presorted datasets and their parts ----------------------------------------------------------------------------------
pub open spec fn col0(d: MultiTargetDataSetSortedFeatures) -> Seq<(F, int)> { d.sorted_feature_columns[0] }
pub open spec fn members(d: MultiTargetDataSetSortedFeatures) -> spec_fn(int) -> bool { pre(col0(d), col0(d).len() as int) }
// the label vectors of the samples m marks, in sample order
pub open spec fn msel(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int) -> Seq<Seq<F>> decreases k { if k <= 0 { Seq::empty() } else if m(k - 1) { msel(ls, m, k - 1).push(ls[k - 1]) } else { msel(ls, m, k - 1) } }
pub open spec fn good_column(s: Seq<(F, int)>, n: int) -> bool { s.len() > 0 && val_sorted(s) && distinct(s) && in_range(s, n) }
pub open spec fn same_samples(a: Seq<(F, int)>, b: Seq<(F, int)>) -> bool { forall|i: int| #[trigger] in_col(a, a.len() as int, i) == #[trigger] in_col(b, b.len() as int, i) }
// a presorted dataset, or a part of one: all label vectors (of the whole) of one length, every column the same samples in order, the labels kept those of these samples
pub open spec fn parted(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int) -> bool {
    0 <= nt <= 4294967295 && (forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).len() == nt)
    && 0 < d.sorted_feature_columns.len() <= 4294967295
    && (forall|c: int| 0 <= c < d.sorted_feature_columns.len() ==> good_column(#[trigger] d.sorted_feature_columns[c], all.len() as int))
    && (forall|c: int| 0 <= c < d.sorted_feature_columns.len() ==> same_samples(#[trigger] d.sorted_feature_columns[c], col0(d)))
    && d.labels =~= msel(all, members(d), all.len() as int)
}
pub open spec fn ssplits(d: MultiTargetDataSetSortedFeatures, c: int, v: F) -> bool { 0 <= c < d.sorted_feature_columns.len() && divides(d.sorted_feature_columns[c], v) }
pub proof fn lemma_msel_eq(ls: Seq<Seq<F>>, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool, k: int) requires same_mask(a, b, k) ensures msel(ls, a, k) == msel(ls, b, k) decreases k
{ if k > 0 { assert(a(k - 1) == b(k - 1)); lemma_msel_eq(ls, a, b, k - 1); } }
pub proof fn lemma_msel_in(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int, i: int) requires 0 <= i < msel(ls, m, k).len(), 0 <= k <= ls.len() ensures exists|q: int| 0 <= q < k && #[trigger] ls[q] == msel(ls, m, k)[i] decreases k
{ if k > 0 { let s = msel(ls, m, k - 1); if i < s.len() { lemma_msel_in(ls, m, k - 1, i); let q = choose|q: int| 0 <= q < k - 1 && #[trigger] ls[q] == s[i]; assert(ls[q] == msel(ls, m, k)[i]); } else { assert(ls[k - 1] == msel(ls, m, k)[i]); } } }
// ---- a question that leaves neither part empty divides such data into such data
pub proof fn lemma_lsel_msel(all: Seq<Seq<F>>, col: Seq<(F, int)>, v: F, want: bool, k: int) ensures lsel(all, col, v, want, k) == msel(all, side(col, v, want), k) decreases k { if k > 0 { lemma_lsel_msel(all, col, v, want, k - 1); } }
pub proof fn lemma_csel_at(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, k: int, i: int) -> (p: int)
    requires 0 <= k <= c.len(), 0 <= i < csel(c, col, v, want, k).len()
    ensures 0 <= p < k, c[p] == csel(c, col, v, want, k)[i], in_true(col, v, col.len() as int, c[p].1) == want decreases k
{ let s = csel(c, col, v, want, k - 1); if i < s.len() { lemma_csel_at(c, col, v, want, k - 1, i) } else { k - 1 } }
pub proof fn lemma_csel_distinct(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, k: int) requires distinct(c), 0 <= k <= c.len() ensures distinct(csel(c, col, v, want, k)) decreases k
{
    if k > 0 {
        lemma_csel_distinct(c, col, v, want, k - 1);
        let s = csel(c, col, v, want, k - 1); let t = csel(c, col, v, want, k);
        assert forall|p: int, q: int| 0 <= p < q < t.len() implies (#[trigger] t[p]).1 != (#[trigger] t[q]).1 by {
            assert(t[p] == s[p]);
            if q >= s.len() { let r = lemma_csel_at(c, col, v, want, k - 1, p); assert(t[q] == c[k - 1]); assert(c[r].1 != c[k - 1].1); } else { assert(t[q] == s[q]); }
        }
    }
}
pub proof fn lemma_csel_samples(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, i: int)
    ensures in_col(csel(c, col, v, want, c.len() as int), csel(c, col, v, want, c.len() as int).len() as int, i) == (in_col(c, c.len() as int, i) && in_true(col, v, col.len() as int, i) == want)
{
    let t = csel(c, col, v, want, c.len() as int);
    if in_col(t, t.len() as int, i) { let q = choose|q: int| 0 <= q < t.len() && (#[trigger] t[q]).1 == i; let p = lemma_csel_at(c, col, v, want, c.len() as int, q); assert(c[p].1 == i); }
    if in_col(c, c.len() as int, i) && in_true(col, v, col.len() as int, i) == want { lemma_csel_in_col(c, col, v, want, c.len() as int, i); }
}
pub broadcast proof fn lemma_spart_parted(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, nt: int, c: int, v: F, want: bool)
    requires #[trigger] parted(d, all, nt), ssplits(d, c, v) ensures parted(#[trigger] spart(d, all, c, v, want), all, nt)
{
    let e = spart(d, all, c, v, want); let col = d.sorted_feature_columns[c]; let n = all.len() as int;
    assert(good_column(col, n));
    // some sample is on this side
    assert(exists|p: int| 0 <= p < col.len() && fge((#[trigger] col[p]).0, v) == want);
    let p = choose|p: int| 0 <= p < col.len() && fge((#[trigger] col[p]).0, v) == want; let x = col[p].1;
    assert(in_true(col, v, col.len() as int, x) == want) by { if in_true(col, v, col.len() as int, x) { let q = choose|q: int| 0 <= q < col.len() && (#[trigger] col[q]).1 == x && fge(col[q].0, v); if p < q { assert(col[p].1 != col[q].1); } else if q < p { assert(col[q].1 != col[p].1); } } }
    assert(in_col(col, col.len() as int, x));
    assert forall|j: int| 0 <= j < e.sorted_feature_columns.len() implies good_column(#[trigger] e.sorted_feature_columns[j], n) by {
        let s = d.sorted_feature_columns[j]; let t = e.sorted_feature_columns[j];
        assert(good_column(s, n)); assert(same_samples(s, col0(d))); assert(same_samples(col, col0(d)));
        lemma_csel_sorted(s, col, v, want, s.len() as int); lemma_csel_distinct(s, col, v, want, s.len() as int);
        assert forall|q: int| 0 <= q < t.len() implies 0 <= (#[trigger] t[q]).1 < n by { let r = lemma_csel_at(s, col, v, want, s.len() as int, q); assert(s[r] == t[q]); }
        assert(in_col(col0(d), col0(d).len() as int, x)); assert(in_col(s, s.len() as int, x));
        lemma_csel_samples(s, col, v, want, x);
    }
    assert forall|j: int| 0 <= j < e.sorted_feature_columns.len() implies same_samples(#[trigger] e.sorted_feature_columns[j], col0(e)) by {
        let s = d.sorted_feature_columns[j]; assert(same_samples(s, col0(d))); let t = e.sorted_feature_columns[j]; let t0 = col0(e);
        assert forall|i: int| #[trigger] in_col(t, t.len() as int, i) == #[trigger] in_col(t0, t0.len() as int, i) by { lemma_csel_samples(s, col, v, want, i); lemma_csel_samples(col0(d), col, v, want, i); assert(in_col(s, s.len() as int, i) == in_col(col0(d), col0(d).len() as int, i)); }
    }
    lemma_lsel_msel(all, col, v, want, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] side(col, v, want)(i) == #[trigger] members(e)(i) by {
        lemma_csel_samples(col0(d), col, v, want, i); assert(same_samples(col, col0(d))); assert(in_col(col, col.len() as int, i) == in_col(col0(d), col0(d).len() as int, i)); assert(col0(e) == csel(col0(d), col, v, want, col0(d).len() as int)); }
    lemma_msel_eq(all, side(col, v, want), members(e), n);
}
// ---- presorting a table yields such data
pub proof fn lemma_msel_all(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int) requires 0 <= k <= ls.len(), forall|i: int| 0 <= i < k ==> #[trigger] m(i) ensures msel(ls, m, k) =~= ls.subrange(0, k) decreases k
{ if k > 0 { lemma_msel_all(ls, m, k - 1); assert(m(k - 1)); } }
pub proof fn lemma_presort(labels: Seq<Seq<F>>, cols: Seq<Seq<F>>, e: MultiTargetDataSetSortedFeatures, nt: int)
    requires 0 <= nt <= 4294967295, forall|i: int| 0 <= i < labels.len() ==> (#[trigger] labels[i]).len() == nt, labels.len() > 0, 0 < cols.len() <= 4294967295, e.labels =~= labels, e.sorted_feature_columns.len() == cols.len(),
        forall|c: int| 0 <= c < cols.len() ==> (#[trigger] cols[c]).len() == labels.len() && no_nan(cols[c]), forall|c: int| 0 <= c < cols.len() ==> sorted_column(cols[c], #[trigger] e.sorted_feature_columns[c])
    ensures parted(e, labels, nt)
{
    let n = labels.len() as int;
    assert forall|c: int| 0 <= c < e.sorted_feature_columns.len() implies good_column(#[trigger] e.sorted_feature_columns[c], n) && same_samples(e.sorted_feature_columns[c], col0(e)) by {
        let a = e.sorted_feature_columns[c]; let b = col0(e);
        assert(cols[c].len() == n); assert(no_nan(cols[0]));
        lemma_sorted_good(cols[c], a); lemma_sorted_good(cols[0], b);
        assert forall|i: int| #[trigger] in_col(a, a.len() as int, i) == #[trigger] in_col(b, b.len() as int, i) by { }
    }
    assert(good_column(col0(e), n));
    assert(cols[0].len() == n); lemma_sorted_good(cols[0], col0(e));
    assert forall|i: int| 0 <= i < n implies #[trigger] members(e)(i) by { assert(in_col(col0(e), col0(e).len() as int, i)); }
    lemma_msel_all(labels, members(e), n);
}
