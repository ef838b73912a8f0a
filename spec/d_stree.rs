// ---- presorted trees -----------------------------------------------------------------------------------------------
pub open spec fn sbest(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>) -> BestSplitResult { sem!(find_best_split_new_partition)(d, all, wrap(d.labels[0].len() as int, 0, 4294967295), d.sorted_feature_columns.len() as int) }
pub open spec fn sstops(cfg: TreeConfig, d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, level: int) -> bool { feq(sbest(d, all).gain, zero()) || level == cfg.max_levels }
pub open spec fn sdiv(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, q: Question, want: bool) -> MultiTargetDataSetSortedFeatures { spart(d, all, q.column, q.value, want) }
pub open spec fn keeps_samples(d: MultiTargetDataSetSortedFeatures, l: RegressionLeafNewPartition) -> bool { l.data == Some(d) }
pub open spec fn sgrown(t: TreeNode<RegressionLeafNewPartition>, d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, cfg: TreeConfig, level: int) -> bool decreases t {
    if sstops(cfg, d, all, level) { is_leaf(t) && keeps_samples(d, t.leaf->Some_0) }
    else { is_inner(t) && t.question == sbest(d, all).question
        && sgrown(tb(t), sdiv(d, all, sbest(d, all).question, true), all, cfg, level + 1)
        && sgrown(fb(t), sdiv(d, all, sbest(d, all).question, false), all, cfg, level + 1) }
}
pub proof fn lemma_sdepth(t: TreeNode<RegressionLeafNewPartition>, d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, cfg: TreeConfig, level: int)
    requires sgrown(t, d, all, cfg, level), 0 <= level <= cfg.max_levels ensures depth(t) <= cfg.max_levels - level, wf(t) decreases t
{
    if !sstops(cfg, d, all, level) {
        lemma_sdepth(tb(t), sdiv(d, all, sbest(d, all).question, true), all, cfg, level + 1);
        lemma_sdepth(fb(t), sdiv(d, all, sbest(d, all).question, false), all, cfg, level + 1);
    }
}
pub open spec fn srouted(t: TreeNode<RegressionLeafNewPartition>, d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>) -> bool decreases t {
    if is_inner(t) { 0 <= t.question.column < d.sorted_feature_columns.len() && srouted(tb(t), sdiv(d, all, t.question, true), all) && srouted(fb(t), sdiv(d, all, t.question, false), all) }
    else { is_leaf(t) && keeps_samples(d, t.leaf->Some_0) }
}
// all columns are in ascending order of value
pub open spec fn wf_sorted(d: MultiTargetDataSetSortedFeatures) -> bool { d.sorted_feature_columns.len() <= 4294967295 && forall|c: int| 0 <= c < d.sorted_feature_columns.len() ==> val_sorted(#[trigger] d.sorted_feature_columns[c]) }
pub proof fn lemma_csel_from(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, k: int, i: int) -> (p: int)
    requires 0 <= k <= c.len(), 0 <= i < csel(c, col, v, want, k).len()
    ensures 0 <= p < k, c[p] == csel(c, col, v, want, k)[i], i > 0 ==> exists|q: int| 0 <= q < p && c[q] == csel(c, col, v, want, k)[i - 1]
    decreases k
{
    let s = csel(c, col, v, want, k - 1);
    if i < s.len() { lemma_csel_from(c, col, v, want, k - 1, i) } else { if i > 0 { let q = lemma_csel_from(c, col, v, want, k - 1, i - 1); assert(c[q] == csel(c, col, v, want, k)[i - 1]); } k - 1 }
}
pub proof fn lemma_csel_sorted(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, k: int)
    requires val_sorted(c), 0 <= k <= c.len()
    ensures val_sorted(csel(c, col, v, want, k)) decreases k
{
    if k > 0 {
        lemma_csel_sorted(c, col, v, want, k - 1);
        let s = csel(c, col, v, want, k - 1); let t = csel(c, col, v, want, k);
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies fle((#[trigger] t[i]).0, (#[trigger] t[j]).0) by {
            if j >= s.len() {
                assert(t[j] == c[k - 1]);
                if i < s.len() { let p = lemma_csel_from(c, col, v, want, k - 1, i); assert(t[i] == c[p]); assert(fle(c[p].0, c[k - 1].0)); } else { assert(fle(c[k - 1].0, c[k - 1].0)); }
            } else { assert(t[i] == s[i] && t[j] == s[j]); }
        }
    }
}
pub broadcast proof fn lemma_sdiv_sorted(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, c: int, v: F, want: bool)
    requires wf_sorted(d) ensures wf_sorted(#[trigger] spart(d, all, c, v, want))
{
    let e = spart(d, all, c, v, want);
    assert forall|j: int| 0 <= j < e.sorted_feature_columns.len() implies val_sorted(#[trigger] e.sorted_feature_columns[j]) by {
        lemma_csel_sorted(d.sorted_feature_columns[j], d.sorted_feature_columns[c], v, want, d.sorted_feature_columns[j].len() as int);
    }
}
// sample i, whose features are `row`, is in every column of d exactly with its values
pub open spec fn holds(d: MultiTargetDataSetSortedFeatures, i: int, row: Seq<F>) -> bool {
    forall|c: int| 0 <= c < d.sorted_feature_columns.len() ==> col_holds(#[trigger] d.sorted_feature_columns[c], i, row[c])
}
pub open spec fn col_holds(col: Seq<(F, int)>, i: int, x: F) -> bool { in_col(col, col.len() as int, i) && forall|p: int| 0 <= p < col.len() && (#[trigger] col[p]).1 == i ==> col[p].0 == x }
pub proof fn lemma_in_true_value(col: Seq<(F, int)>, v: F, k: int, i: int, x: F)
    requires 0 <= k <= col.len(), forall|p: int| 0 <= p < col.len() && (#[trigger] col[p]).1 == i ==> col[p].0 == x
    ensures in_true(col, v, k, i) == (in_col(col, k, i) && fge(x, v))
{ if in_col(col, k, i) { let p = choose|p: int| 0 <= p < k && (#[trigger] col[p]).1 == i; assert(col[p].0 == x); } }
pub proof fn lemma_csel_in_col(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, k: int, i: int)
    requires 0 <= k <= c.len(), in_col(c, k, i), in_true(col, v, col.len() as int, i) == want
    ensures in_col(csel(c, col, v, want, k), csel(c, col, v, want, k).len() as int, i) decreases k
{
    let t = csel(c, col, v, want, k); let s = csel(c, col, v, want, k - 1);
    if c[k - 1].1 == i { assert(t == s.push(c[k - 1])); assert(t[t.len() - 1].1 == i); }
    else {
        assert(in_col(c, k - 1, i));
        lemma_csel_in_col(c, col, v, want, k - 1, i);
        let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).1 == i;
        if t.len() > s.len() { assert(t =~= s.push(c[k - 1])); assert(t[q] == s[q]); }
        assert(t[q].1 == i);
    }
}
pub proof fn lemma_holds_div(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, q: Question, i: int, row: Seq<F>)
    requires holds(d, i, row), 0 <= q.column < d.sorted_feature_columns.len()
    ensures holds(sdiv(d, all, q, says(row, q.column, q.value)), i, row)
{
    let w = says(row, q.column, q.value); let e = sdiv(d, all, q, w); let col = d.sorted_feature_columns[q.column];
    assert(col_holds(col, i, row[q.column]));
    lemma_in_true_value(col, q.value, col.len() as int, i, row[q.column]);
    assert forall|j: int| 0 <= j < e.sorted_feature_columns.len() implies col_holds(#[trigger] e.sorted_feature_columns[j], i, row[j]) by {
        let c = d.sorted_feature_columns[j];
        assert(col_holds(c, i, row[j]));
        lemma_csel_in_col(c, col, q.value, w, c.len() as int, i);
        let t = e.sorted_feature_columns[j];
        assert forall|p: int| 0 <= p < t.len() && (#[trigger] t[p]).1 == i implies t[p].0 == row[j] by { let r = lemma_csel_from(c, col, q.value, w, c.len() as int, p); assert(c[r] == t[p]); }
    }
}
// the leaf a training sample is led to was made from samples of which it is one
pub proof fn lemma_training_sample_reaches_its_leaf(t: TreeNode<RegressionLeafNewPartition>, d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, i: int, row: Seq<F>) -> (r: MultiTargetDataSetSortedFeatures)
    requires srouted(t, d, all), holds(d, i, row) ensures keeps_samples(r, leaf_at(t, row)), holds(r, i, row) decreases t
{
    if is_inner(t) {
        let w = says(row, t.question.column, t.question.value);
        lemma_holds_div(d, all, t.question, i, row);
        if w { lemma_training_sample_reaches_its_leaf(tb(t), sdiv(d, all, t.question, true), all, i, row) } else { lemma_training_sample_reaches_its_leaf(fb(t), sdiv(d, all, t.question, false), all, i, row) }
    } else { d }
}
