// props: C23
// ---- well-formed data: at least one row and one feature, rows of w features without NaN, label vectors of nt targets (whatever their values), columns matching the rows
pub open spec fn safe(d: MultiTargetDataSet, w: int, nt: int) -> bool {
    0 < d.feature_rows.len() <= 4294967295 && d.labels.len() == d.feature_rows.len() && 0 < w <= 4294967295 && 0 <= nt <= 4294967295
    && (forall|i: int| 0 <= i < d.feature_rows.len() ==> (#[trigger] d.feature_rows[i]).len() == w && no_nan(d.feature_rows[i]))
    && (forall|i: int| 0 <= i < d.labels.len() ==> (#[trigger] d.labels[i]).len() == nt)
    && columns_of(d.feature_rows, d.feature_columns)
}
pub open spec fn width(d: MultiTargetDataSet) -> int { d.feature_rows[0].len() as int }
pub open spec fn sdata(d: MultiTargetDataSet, nt: int) -> bool { safe(d, width(d), nt) }
// v is the value of a pair that differs from the pair before it
pub open spec fn cutpoint(s: Seq<(F, int)>, v: F) -> bool { exists|p: int| boundary(s, p) && (#[trigger] s[p]).0 == v }
pub open spec fn cut_or_none(s: Seq<(F, int)>, r: BestThresholdResult) -> bool { !(s[0].0 is NaN) ==> r.loss is PInf || cutpoint(s, r.threshold_value) }
// broadcast: lemma_cut_splits lemma_safe_part lemma_safe_columns lemma_sound_wf lemma_sound_leaf lemma_sound_wide lemma_wide_down lemma_boundary_cut lemma_fsub_down
pub broadcast proof fn lemma_boundary_cut(s: Seq<(F, int)>, p: int) requires #[trigger] boundary(s, p) ensures cutpoint(s, s[p].0) { assert(s[p] == s[p]); }
pub broadcast proof fn lemma_safe_columns(d: MultiTargetDataSet, w: int, nt: int, c: int) requires #[trigger] safe(d, w, nt), 0 <= c < w
    ensures d.feature_columns.len() == w, (#[trigger] d.feature_columns[c]).len() == d.labels.len(), no_nan(d.feature_columns[c])
{
    assert(d.feature_rows[0].len() == w);
    let col = d.feature_columns[c];
    assert forall|i: int| 0 <= i < col.len() implies !((#[trigger] col[i]) is NaN) by { assert(d.feature_columns[c][i] == d.feature_rows[i][c]); assert(no_nan(d.feature_rows[i])); }
}
pub proof fn lemma_cut_splits0(d: MultiTargetDataSet, w: int, nt: int, c: int, v: F) requires safe(d, w, nt), 0 <= c < w, cutpoint(sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]), v), sorted_column(d.feature_columns[c], sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]))
    ensures splits(d, c, v)
{
    lemma_safe_columns(d, w, nt, c); assert(d.feature_rows[0].len() == w);
    let col = d.feature_columns[c]; let s = sem!(get_sorted_feature_tuple_vector)(col);
    let p = choose|p: int| boundary(s, p) && (#[trigger] s[p]).0 == v;
    let i = s[p].1; let j = s[p - 1].1;
    assert(pair_before(s[p - 1], s[p]));
    assert(s[p].0 == col[i] && s[p - 1].0 == col[j]);
    assert(d.feature_columns[c][i] == d.feature_rows[i][c] && d.feature_columns[c][j] == d.feature_rows[j][c]);
    assert(!(col[i] is NaN) && !(col[j] is NaN));
    assert(says(d.feature_rows[i], c, v)); assert(!says(d.feature_rows[j], c, v));
}
pub broadcast proof fn lemma_cut_splits(d: MultiTargetDataSet, w: int, nt: int, c: int, r: BestThresholdResult) requires #[trigger] safe(d, w, nt), 0 <= c < w, #[trigger] cut_or_none(sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]), r), sorted_column(d.feature_columns[c], sem!(get_sorted_feature_tuple_vector)(d.feature_columns[c]))
    ensures r.loss is PInf || splits(d, c, r.threshold_value)
{
    lemma_safe_columns(d, w, nt, c); let col = d.feature_columns[c]; let s = sem!(get_sorted_feature_tuple_vector)(col);
    assert(d.feature_rows[0].len() == w);
    assert(s[0].0 == col[s[0].1]); assert(!(col[s[0].1] is NaN));
    if !(r.loss is PInf) { lemma_cut_splits0(d, w, nt, c, r.threshold_value); }
}
pub broadcast proof fn lemma_fsub_down(a: F, b: F) ensures b is PInf ==> (#[trigger] fsub(a, b)) is NInf || fsub(a, b) is NaN { }
// a question that leaves neither part empty divides such data into such data
pub broadcast proof fn lemma_safe_part(d: MultiTargetDataSet, w: int, nt: int, q: Question, want: bool) requires #[trigger] safe(d, w, nt), splits(d, q.column, q.value) ensures safe(#[trigger] part(d, q, want), w, nt), width(part(d, q, want)) == w, width(d) == w
{
    let e = part(d, q, want); let n = d.feature_rows.len() as int;
    assert(d.feature_rows[0].len() == w);
    lemma_sel_len(d.feature_rows, q.column, q.value, want, d.labels, n);
    lemma_sel_most(d.feature_rows, q.column, q.value, want, d.feature_rows, n);
    let i = choose|i: int| 0 <= i < n && says(#[trigger] d.feature_rows[i], q.column, q.value) == want;
    let p = lemma_sel_keeps(d.feature_rows, q.column, q.value, want, d.labels, n, i);
    assert forall|i: int| 0 <= i < e.feature_rows.len() implies (#[trigger] e.feature_rows[i]).len() == w && no_nan(e.feature_rows[i]) by { lemma_sel_in(d.feature_rows, q.column, q.value, want, d.feature_rows, n, i); }
    assert forall|i: int| 0 <= i < e.labels.len() implies (#[trigger] e.labels[i]).len() == nt by { lemma_sel_in(d.feature_rows, q.column, q.value, want, d.labels, n, i); }
}
pub proof fn lemma_sel_most<A>(rows: Seq<Seq<F>>, c: int, v: F, want: bool, xs: Seq<A>, k: int) requires k >= 0 ensures sel(rows, c, v, want, xs, k).len() <= k decreases k { if k > 0 { lemma_sel_most(rows, c, v, want, xs, k - 1); } }
// ---- sound trees: inner nodes have both branches and ask about one of w features, leaves are as required
pub open spec fn sound<L>(t: TreeNode<L>, w: int, ok: spec_fn(L) -> bool) -> bool decreases t {
    (is_leaf(t) && ok(t.leaf->Some_0)) || (is_inner(t) && 0 <= t.question.column < w && sound(tb(t), w, ok) && sound(fb(t), w, ok))
}
pub open spec fn wide<L>(t: TreeNode<L>, w: int) -> bool decreases t { is_leaf(t) || (is_inner(t) && 0 <= t.question.column < w && wide(tb(t), w) && wide(fb(t), w)) }
pub broadcast proof fn lemma_sound_wf<L>(t: TreeNode<L>, w: int, ok: spec_fn(L) -> bool) requires #[trigger] sound(t, w, ok) ensures wf(t) decreases t { if is_inner(t) { lemma_sound_wf(tb(t), w, ok); lemma_sound_wf(fb(t), w, ok); } }
pub broadcast proof fn lemma_sound_wide<L>(t: TreeNode<L>, w: int, ok: spec_fn(L) -> bool) requires #[trigger] sound(t, w, ok) ensures wide(t, w) decreases t { if is_inner(t) { lemma_sound_wide(tb(t), w, ok); lemma_sound_wide(fb(t), w, ok); } }
pub broadcast proof fn lemma_wide_down<L>(t: TreeNode<L>, w: int) requires #[trigger] wide(t, w), is_inner(t) ensures 0 <= t.question.column < w, wide(tb(t), w), wide(fb(t), w) { }
pub broadcast proof fn lemma_sound_leaf<L>(t: TreeNode<L>, w: int, ok: spec_fn(L) -> bool, row: Seq<F>) requires #[trigger] sound(t, w, ok) ensures ok(#[trigger] leaf_at(t, row)) decreases t { if is_inner(t) { lemma_sound_leaf(tb(t), w, ok, row); lemma_sound_leaf(fb(t), w, ok, row); } }
pub open spec fn labels_ok(ls: Seq<Seq<F>>, nt: int) -> bool { 0 < ls.len() <= 4294967295 && forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).len() == nt }
pub open spec fn ok_rows(nt: int) -> spec_fn(RegressionLeaf) -> bool { |l: RegressionLeaf| l.data is Some && labels_ok(l.data->Some_0.labels, nt) }
pub open spec fn ok_samples(nt: int) -> spec_fn(RegressionLeafNewPartition) -> bool { |l: RegressionLeafNewPartition| l.data is Some && labels_ok(l.data->Some_0.labels, nt) }
pub open spec fn ok_output(nt: int) -> spec_fn(GradBoostLeaf) -> bool { |l: GradBoostLeaf| l.leaf_output is Some && l.leaf_output->Some_0.len() == nt }
pub open spec fn ok_dominant(nt: int) -> spec_fn(AMGBoostLeaf) -> bool { |l: AMGBoostLeaf| l.max_value is Some && l.class is Some && 0 <= l.class->Some_0 < nt }
pub open spec fn sound_all<L>(ts: Seq<Box<TreeNode<L>>>, w: int, ok: spec_fn(L) -> bool) -> bool { forall|i: int| 0 <= i < ts.len() ==> sound(*(#[trigger] ts[i]), w, ok) }
pub open spec fn sound_RegressionBoostModel(m: RegressionBoostModel, w: int) -> bool { sound_all(m.trees, w, ok_output(m.initial_guess.len() as int)) }
pub open spec fn sound_MultiClassBoostModel(m: MultiClassBoostModel, w: int) -> bool { sound_all(m.trees, w, ok_output(m.initial_guess.len() as int)) && 0 < m.initial_guess.len() }
pub open spec fn sound_AMGBoostModel(m: AMGBoostModel, w: int) -> bool { sound_all(m.trees, w, ok_dominant(m.initial_guess.len() as int)) && 0 < m.initial_guess.len() }
// ---- presorted data
pub open spec fn targets(all: Seq<Seq<F>>) -> int { all[0].len() as int }
pub open spec fn pdata(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>) -> bool { all.len() <= 4294967295 && parted(d, all, targets(all)) }
// broadcast: lemma_pdata lemma_pcut lemma_ppart
pub broadcast proof fn lemma_pdata(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>) requires #[trigger] pdata(d, all) ensures 0 < all.len(), labels_ok(d.labels, targets(all)), 0 <= targets(all) <= 4294967295, wf_sorted(d), 0 < d.sorted_feature_columns.len(),
    forall|c: int| 0 <= c < d.sorted_feature_columns.len() ==> (#[trigger] d.sorted_feature_columns[c]).len() > 0 && !(d.sorted_feature_columns[c][0].0 is NaN) && in_range(d.sorted_feature_columns[c], all.len() as int)
{
    let n = all.len() as int; let s = col0(d);
    assert(good_column(s, n)); assert(0 <= s[0].1 < n); assert(in_col(s, s.len() as int, s[0].1)); assert(members(d)(s[0].1));
    lemma_msel_some(all, members(d), n, s[0].1); lemma_msel_most(all, members(d), n);
    assert forall|i: int| 0 <= i < d.labels.len() implies (#[trigger] d.labels[i]).len() == targets(all) by { lemma_msel_in(all, members(d), n, i); }
    assert forall|c: int| 0 <= c < d.sorted_feature_columns.len() implies (#[trigger] d.sorted_feature_columns[c]).len() > 0 && !(d.sorted_feature_columns[c][0].0 is NaN) && in_range(d.sorted_feature_columns[c], n) by { let t = d.sorted_feature_columns[c]; assert(good_column(t, n)); assert(fle(t[0].0, t[0].0)); }
    assert forall|c: int| 0 <= c < d.sorted_feature_columns.len() implies val_sorted(#[trigger] d.sorted_feature_columns[c]) by { assert(good_column(d.sorted_feature_columns[c], n)); }
}
pub proof fn lemma_msel_some(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int, i: int) requires 0 <= i < k, m(i) ensures msel(ls, m, k).len() > 0 decreases k { if i < k - 1 { lemma_msel_some(ls, m, k - 1, i); } }
pub proof fn lemma_msel_most(ls: Seq<Seq<F>>, m: spec_fn(int) -> bool, k: int) requires 0 <= k ensures msel(ls, m, k).len() <= k decreases k { if k > 0 { lemma_msel_most(ls, m, k - 1); } }
pub proof fn lemma_pcut0(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, c: int, v: F) requires pdata(d, all), 0 <= c < d.sorted_feature_columns.len(), cutpoint(d.sorted_feature_columns[c], v) ensures ssplits(d, c, v)
{
    let s = d.sorted_feature_columns[c]; assert(good_column(s, all.len() as int));
    let p = choose|p: int| boundary(s, p) && (#[trigger] s[p]).0 == v;
    assert(fle(s[p - 1].0, s[p].0)); assert(fle(s[p].0, s[p].0)); assert(fge(s[p].0, v)); assert(!fge(s[p - 1].0, v));
}
pub broadcast proof fn lemma_pcut(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, c: int, r: BestThresholdResult) requires #[trigger] pdata(d, all), 0 <= c < d.sorted_feature_columns.len(), #[trigger] cut_or_none(d.sorted_feature_columns[c], r) ensures r.loss is PInf || ssplits(d, c, r.threshold_value)
{
    let s = d.sorted_feature_columns[c]; assert(good_column(s, all.len() as int)); assert(fle(s[0].0, s[0].0));
    if !(r.loss is PInf) { lemma_pcut0(d, all, c, r.threshold_value); }
}
pub broadcast proof fn lemma_ppart(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, c: int, v: F, want: bool) requires #[trigger] pdata(d, all), ssplits(d, c, v) ensures pdata(#[trigger] spart(d, all, c, v, want), all) { lemma_spart_parted(d, all, targets(all), c, v, want); }
// ---- more consequences
// broadcast: lemma_sel_safe lemma_pdata_of lemma_can_vote
pub broadcast proof fn lemma_sel_safe(d: MultiTargetDataSet, w: int, nt: int, c: int, v: F, want: bool, k: int) requires #[trigger] safe(d, w, nt), splits(d, c, v), k == d.feature_rows.len()
    ensures (#[trigger] sel(d.feature_rows, c, v, want, d.feature_rows, k)).len() > 0, rect(sel(d.feature_rows, c, v, want, d.feature_rows, k))
{ let q = Question { column: c, value: v }; lemma_safe_part(d, w, nt, q, want); let e = part(d, q, want); assert(e.feature_rows == sel(d.feature_rows, c, v, want, d.feature_rows, k)); assert(e.feature_rows[0].len() == w); }
pub broadcast proof fn lemma_pdata_of(d: MultiTargetDataSet, w: int, nt: int, e: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>)
    requires #[trigger] safe(d, w, nt), all == d.labels, e.labels =~= d.labels, e.sorted_feature_columns.len() == d.feature_columns.len(), forall|c: int| 0 <= c < d.feature_columns.len() && no_nan(d.feature_columns[c]) ==> sorted_column(d.feature_columns[c], #[trigger] e.sorted_feature_columns[c])
    ensures #[trigger] pdata(e, all)
{
    assert(d.feature_rows[0].len() == w); assert(d.labels[0].len() == nt);
    assert forall|c: int| 0 <= c < d.feature_columns.len() implies (#[trigger] d.feature_columns[c]).len() == d.labels.len() && no_nan(d.feature_columns[c]) by { lemma_safe_columns(d, w, nt, c); }
    assert forall|c: int| 0 <= c < d.feature_columns.len() implies sorted_column(d.feature_columns[c], #[trigger] e.sorted_feature_columns[c]) by { assert(no_nan(d.feature_columns[c])); }
    lemma_presort(d.labels, d.feature_columns, e, nt);
}
// a row is led to a leaf with rows that have at least one class
pub open spec fn can_vote(t: TreeNode<RegressionLeaf>, row: Seq<F>) -> bool {
    wide(t, row.len() as int) && leaf_at(t, row).data is Some && ({ let ls = leaf_at(t, row).data->Some_0.labels; ls.len() > 0 && 0 < ls[0].len() <= 4294967295 && labels_ok(ls, ls[0].len() as int) })
}
pub broadcast proof fn lemma_can_vote(t: TreeNode<RegressionLeaf>, w: int, nt: int, row: Seq<F>) requires #[trigger] sound(t, w, ok_rows(nt)), row.len() == w, 0 < nt <= 4294967295 ensures #[trigger] can_vote(t, row) { lemma_sound_leaf(t, w, ok_rows(nt), row); lemma_sound_wide(t, w, ok_rows(nt)); let ls = leaf_at(t, row).data->Some_0.labels; assert(ls[0].len() == nt); }
// broadcast: lemma_depth_down
pub proof fn lemma_depth_pos<L>(t: TreeNode<L>) ensures depth(t) >= 0 decreases t { if is_inner(t) { lemma_depth_pos(tb(t)); lemma_depth_pos(fb(t)); } }
pub broadcast proof fn lemma_depth_down<L>(t: TreeNode<L>) ensures #[trigger] depth(t) >= 0, is_inner(t) ==> depth(tb(t)) < depth(t) && depth(fb(t)) < depth(t) { lemma_depth_pos(t); if is_inner(t) { lemma_depth_pos(tb(t)); lemma_depth_pos(fb(t)); } }
// what building guarantees is what scoring asks for
pub proof fn lemma_closed_error(t: TreeNode<RegressionLeaf>, w: int, nt: int, row: Seq<F>) requires sound(t, w, ok_rows(nt)), row.len() == w, 0 <= nt
    ensures wide(t, row.len() as int), leaf_at(t, row).data is Some, leaf_at(t, row).data->Some_0.labels.len() > 0, rect(leaf_at(t, row).data->Some_0.labels), leaf_at(t, row).data->Some_0.labels[0].len() == nt
{ lemma_sound_leaf(t, w, ok_rows(nt), row); lemma_sound_wide(t, w, ok_rows(nt)); }
pub proof fn lemma_closed_error_presorted(t: TreeNode<RegressionLeafNewPartition>, w: int, nt: int, row: Seq<F>) requires sound(t, w, ok_samples(nt)), row.len() == w, 0 <= nt
    ensures wide(t, row.len() as int), leaf_at(t, row).data is Some, leaf_at(t, row).data->Some_0.labels.len() > 0, rect(leaf_at(t, row).data->Some_0.labels), leaf_at(t, row).data->Some_0.labels[0].len() == nt
{ lemma_sound_leaf(t, w, ok_samples(nt), row); lemma_sound_wide(t, w, ok_samples(nt)); }
pub proof fn lemma_closed_class(t: TreeNode<RegressionLeaf>, w: int, nt: int, row: Seq<F>) requires sound(t, w, ok_rows(nt)), row.len() == w, 0 < nt <= 4294967295 ensures can_vote(t, row) { lemma_can_vote(t, w, nt, row); }
