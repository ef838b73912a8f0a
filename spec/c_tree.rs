// ---- trees ---------------------------------------------------------------------------------------------------------
// what the configured split search reports for d
pub open spec fn best(cfg: TreeConfig, d: MultiTargetDataSet) -> BestSplitResult { ptr!(split_finder_variance::find_best_split)(cfg.split_finder.find_best_split, d, cfg.number_of_classes) }
pub open spec fn zero() -> F { F::Fin(0real) }
// a node for d at this depth is a leaf
pub open spec fn stops(cfg: TreeConfig, d: MultiTargetDataSet, level: int) -> bool { feq(best(cfg, d).gain, zero()) || level == cfg.max_levels }
pub open spec fn is_leaf<L>(t: TreeNode<L>) -> bool { t.true_branch is None && t.false_branch is None && t.leaf is Some }
pub open spec fn is_inner<L>(t: TreeNode<L>) -> bool { t.true_branch is Some && t.false_branch is Some && t.leaf is None }
pub open spec fn tb<L>(t: TreeNode<L>) -> TreeNode<L> { *(t.true_branch->Some_0) }
pub open spec fn fb<L>(t: TreeNode<L>) -> TreeNode<L> { *(t.false_branch->Some_0) }
// every node has both branches and no leaf data, or neither and leaf data
pub open spec fn wf<L>(t: TreeNode<L>) -> bool decreases t { is_leaf(t) || (is_inner(t) && wf(tb(t)) && wf(fb(t))) }
pub open spec fn depth<L>(t: TreeNode<L>) -> int decreases t { if is_inner(t) { 1 + imax(depth(tb(t)), depth(fb(t))) } else { 0 } }
// t is the tree for d: leaves carry `content(rows)`
pub open spec fn grown<L>(t: TreeNode<L>, d: MultiTargetDataSet, cfg: TreeConfig, level: int, content: spec_fn(MultiTargetDataSet, L) -> bool) -> bool decreases t {
    if stops(cfg, d, level) { is_leaf(t) && content(d, t.leaf->Some_0) }
    else { is_inner(t) && t.question == best(cfg, d).question
        && grown(tb(t), part(d, best(cfg, d).question, true), cfg, level + 1, content)
        && grown(fb(t), part(d, best(cfg, d).question, false), cfg, level + 1, content) }
}
pub open spec fn keeps_rows() -> spec_fn(MultiTargetDataSet, RegressionLeaf) -> bool { |d: MultiTargetDataSet, l: RegressionLeaf| l.data == Some(d) }
pub open spec fn leaf_value(calc: LeafOutputCalculator, d: MultiTargetDataSet) -> Seq<F> { ptr!(calculate_leaf_output_squared_loss)(calc.calculate_leaf_output, d) }
pub open spec fn keeps_output(calc: LeafOutputCalculator) -> spec_fn(MultiTargetDataSet, GradBoostLeaf) -> bool { |d: MultiTargetDataSet, l: GradBoostLeaf| l.leaf_output == Some(leaf_value(calc, d)) }
// m is the largest entry of v and c the first index having it
pub open spec fn dominant(v: Seq<F>, m: F, c: int) -> bool {
    0 <= c < v.len() && v[c] == m && (forall|j: int| 0 <= j < v.len() ==> fle(#[trigger] v[j], m)) && (forall|j: int| 0 <= j < c ==> flt(#[trigger] v[j], m))
}
pub open spec fn dominant_to(v: Seq<F>, m: F, c: int, k: int) -> bool {
    if k <= 0 { m is NInf && c == 0 } else { k <= v.len() ==> 0 <= c < k && v[c] == m && (forall|j: int| 0 <= j < k ==> fle(#[trigger] v[j], m)) && (forall|j: int| 0 <= j < c ==> flt(#[trigger] v[j], m)) }
}
pub open spec fn all_finite(v: Seq<F>) -> bool { forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]) is Fin }
pub open spec fn keeps_dominant(calc: LeafOutputCalculator) -> spec_fn(MultiTargetDataSet, AMGBoostLeaf) -> bool {
    |d: MultiTargetDataSet, l: AMGBoostLeaf| l.max_value is Some && l.class is Some
        && (leaf_value(calc, d).len() > 0 && all_finite(leaf_value(calc, d)) ==> dominant(leaf_value(calc, d), l.max_value->Some_0, l.class->Some_0))
}
pub open spec fn wf_cfg(cfg: TreeConfig) -> bool { cfg.split_finder.find_best_split == FN!(split_finder_variance::find_best_split) }
pub open spec fn aligned(d: MultiTargetDataSet) -> bool { d.labels.len() == d.feature_rows.len() }
// no node of a grown tree lies deeper than the maximum
pub proof fn lemma_depth<L>(t: TreeNode<L>, d: MultiTargetDataSet, cfg: TreeConfig, level: int, content: spec_fn(MultiTargetDataSet, L) -> bool)
    requires grown(t, d, cfg, level, content), 0 <= level <= cfg.max_levels ensures depth(t) <= cfg.max_levels - level, wf(t) decreases t
{
    if !stops(cfg, d, level) {
        lemma_depth(tb(t), part(d, best(cfg, d).question, true), cfg, level + 1, content);
        lemma_depth(fb(t), part(d, best(cfg, d).question, false), cfg, level + 1, content);
    }
}
// ---- parts keep rows and labels aligned
// broadcast: lemma_sel_len
pub broadcast proof fn lemma_sel_len<A>(rows: Seq<Seq<F>>, c: int, v: F, want: bool, xs: Seq<A>, k: int)
    ensures 0 <= (#[trigger] sel(rows, c, v, want, xs, k)).len() == sel(rows, c, v, want, rows, k).len() decreases k
{ if k > 0 { lemma_sel_len(rows, c, v, want, xs, k - 1); } }
// broadcast: lemma_sel_in
pub broadcast proof fn lemma_sel_in<A>(rows: Seq<Seq<F>>, c: int, v: F, want: bool, xs: Seq<A>, k: int, i: int)
    requires 0 <= i < sel(rows, c, v, want, xs, k).len(), 0 <= k <= xs.len() ensures exists|j: int| 0 <= j < k && #[trigger] xs[j] == #[trigger] sel(rows, c, v, want, xs, k)[i] decreases k
{ if k > 0 {
    let s = sel(rows, c, v, want, xs, k - 1);
    if i < s.len() { lemma_sel_in(rows, c, v, want, xs, k - 1, i); } else { assert(sel(rows, c, v, want, xs, k)[i] == xs[k - 1]); }
} }
pub open spec fn wf_data(d: MultiTargetDataSet) -> bool { aligned(d) && rect(d.labels) }
pub open spec fn wf_calc(c: LeafOutputCalculator) -> bool { c.calculate_leaf_output == FN!(calculate_leaf_output_squared_loss) || c.calculate_leaf_output == FN!(calculate_leaf_output_multi_class_loss) }
// ---- leaf outputs
pub open spec fn mean_of(m: Seq<Seq<F>>, j: int) -> F { fdiv(colsum(m, j, m.len() as int), F::Fin(m.len() as real)) }
pub open spec fn finite_rows(m: Seq<Seq<F>>) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() ==> (#[trigger] m[i][j]) is Fin }
// |r| (1 - |r|)
pub open spec fn weight(r: F) -> F { fmul(fabs(r), fsub(F::Fin(1real), fabs(r))) }
pub open spec fn weightsum(m: Seq<Seq<F>>, j: int, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(weightsum(m, j, k - 1), weight(m[k - 1][j])) } }
pub open spec fn newton(m: Seq<Seq<F>>, j: int) -> F {
    if weightsum(m, j, m.len() as int) == zero() { zero() }
    else { fmul(fdiv(F::Fin(m[0].len() as real - 1real), F::Fin(m[0].len() as real)), fdiv(colsum(m, j, m.len() as int), weightsum(m, j, m.len() as int))) }
}
// broadcast: lemma_colsum_fin lemma_weightsum_fin
pub broadcast proof fn lemma_colsum_fin(m: Seq<Seq<F>>, j: int, k: int) requires finite_rows(m), rect(m), m.len() > 0, 0 <= j < m[0].len(), k <= m.len() ensures (#[trigger] colsum(m, j, k)) is Fin decreases k { if k > 0 { lemma_colsum_fin(m, j, k - 1); assert(m[k - 1][j] is Fin); } }
pub broadcast proof fn lemma_weightsum_fin(m: Seq<Seq<F>>, j: int, k: int) requires finite_rows(m), rect(m), m.len() > 0, 0 <= j < m[0].len(), k <= m.len() ensures (#[trigger] weightsum(m, j, k)) is Fin decreases k { if k > 0 { lemma_weightsum_fin(m, j, k - 1); assert(m[k - 1][j] is Fin); } }
// ---- lookup: the leaf the questions lead a row to
pub open spec fn leaf_at<L>(t: TreeNode<L>, row: Seq<F>) -> L decreases t {
    if is_inner(t) { if says(row, t.question.column, t.question.value) { leaf_at(tb(t), row) } else { leaf_at(fb(t), row) } } else { t.leaf->Some_0 }
}
// the leaves carry the content of exactly the rows the questions lead to them
pub open spec fn routed<L>(t: TreeNode<L>, d: MultiTargetDataSet, content: spec_fn(MultiTargetDataSet, L) -> bool) -> bool decreases t {
    if is_inner(t) { routed(tb(t), part(d, t.question, true), content) && routed(fb(t), part(d, t.question, false), content) }
    else { is_leaf(t) && content(d, t.leaf->Some_0) }
}
pub proof fn lemma_sel_keeps<A>(rows: Seq<Seq<F>>, c: int, v: F, want: bool, xs: Seq<A>, k: int, i: int) -> (p: int)
    requires 0 <= i < k, says(rows[i], c, v) == want
    ensures 0 <= p < sel(rows, c, v, want, rows, k).len() == sel(rows, c, v, want, xs, k).len(), sel(rows, c, v, want, rows, k)[p] == rows[i], sel(rows, c, v, want, xs, k)[p] == xs[i]
    decreases k
{
    lemma_sel_len(rows, c, v, want, xs, k);
    lemma_sel_len(rows, c, v, want, xs, k - 1);
    if i == k - 1 { sel(rows, c, v, want, xs, k - 1).len() as int } else { lemma_sel_keeps(rows, c, v, want, xs, k - 1, i) }
}
// the leaf a training row is led to was made from rows among which this row, with its label, is one
pub proof fn lemma_training_row_reaches_its_leaf<L>(t: TreeNode<L>, d: MultiTargetDataSet, content: spec_fn(MultiTargetDataSet, L) -> bool, i: int) -> (r: (MultiTargetDataSet, int))
    requires routed(t, d, content), aligned(d), 0 <= i < d.feature_rows.len()
    ensures content(r.0, leaf_at(t, d.feature_rows[i])), 0 <= r.1 < r.0.feature_rows.len(), r.0.feature_rows[r.1] == d.feature_rows[i], r.0.labels[r.1] == d.labels[i]
    decreases t
{
    if is_inner(t) {
        let q = t.question; let w = says(d.feature_rows[i], q.column, q.value); let e = part(d, q, w);
        let p = lemma_sel_keeps(d.feature_rows, q.column, q.value, w, d.labels, d.feature_rows.len() as int, i);
        lemma_sel_len(d.feature_rows, q.column, q.value, w, d.labels, d.feature_rows.len() as int);
        if w { lemma_training_row_reaches_its_leaf(tb(t), e, content, p) } else { lemma_training_row_reaches_its_leaf(fb(t), e, content, p) }
    } else { (d, i) }
}

// ---- two trees for the same rows and the same configuration but for multi-threading
pub open spec fn same_growth(a: TreeConfig, b: TreeConfig) -> bool { a.split_finder == b.split_finder && a.number_of_classes == b.number_of_classes && a.max_levels == b.max_levels }
// same shape, same questions, and leaves with the content of the same rows
pub open spec fn twins<L>(a: TreeNode<L>, b: TreeNode<L>, d: MultiTargetDataSet, content: spec_fn(MultiTargetDataSet, L) -> bool) -> bool decreases a {
    if is_inner(a) { is_inner(b) && a.question == b.question && twins(tb(a), tb(b), part(d, a.question, true), content) && twins(fb(a), fb(b), part(d, a.question, false), content) }
    else { is_leaf(a) && is_leaf(b) && content(d, a.leaf->Some_0) && content(d, b.leaf->Some_0) }
}
pub proof fn lemma_grown_twins<L>(a: TreeNode<L>, b: TreeNode<L>, d: MultiTargetDataSet, c1: TreeConfig, c2: TreeConfig, level: int, content: spec_fn(MultiTargetDataSet, L) -> bool)
    requires grown(a, d, c1, level, content), grown(b, d, c2, level, content), same_growth(c1, c2) ensures twins(a, b, d, content) decreases a
{
    assert(best(c1, d) == best(c2, d));
    if !stops(c1, d, level) {
        let q = best(c1, d).question;
        lemma_grown_twins(tb(a), tb(b), part(d, q, true), c1, c2, level + 1, content);
        lemma_grown_twins(fb(a), fb(b), part(d, q, false), c1, c2, level + 1, content);
    }
}
// equal leaves wherever a row leads, if the content fixes the leaf
pub open spec fn fixes_leaf<L>(content: spec_fn(MultiTargetDataSet, L) -> bool, d: MultiTargetDataSet) -> bool { forall|x: L, y: L| #[trigger] content(d, x) && #[trigger] content(d, y) ==> x == y }
pub open spec fn fixes_leaves<L>(content: spec_fn(MultiTargetDataSet, L) -> bool) -> bool { forall|d: MultiTargetDataSet| #[trigger] fixes_leaf(content, d) }
pub proof fn lemma_twins_lookup<L>(a: TreeNode<L>, b: TreeNode<L>, d: MultiTargetDataSet, content: spec_fn(MultiTargetDataSet, L) -> bool, row: Seq<F>)
    requires twins(a, b, d, content), fixes_leaves(content) ensures leaf_at(a, row) == leaf_at(b, row) decreases a
{
    if is_inner(a) { lemma_twins_lookup(tb(a), tb(b), part(d, a.question, true), content, row); lemma_twins_lookup(fb(a), fb(b), part(d, a.question, false), content, row); }
    else { assert(fixes_leaf(content, d)); }
}
pub proof fn lemma_rows_fix() ensures fixes_leaves(keeps_rows()) { }
pub proof fn lemma_output_fixes(calc: LeafOutputCalculator) ensures fixes_leaves(keeps_output(calc)) { }
// the dominant component is unique, so that approximate leaves with finite outputs agree as well
pub proof fn lemma_dominant_fixes(calc: LeafOutputCalculator, d: MultiTargetDataSet) requires leaf_value(calc, d).len() > 0, all_finite(leaf_value(calc, d)) ensures fixes_leaf(keeps_dominant(calc), d)
{
    let v = leaf_value(calc, d);
    assert forall|x: AMGBoostLeaf, y: AMGBoostLeaf| #[trigger] keeps_dominant(calc)(d, x) && #[trigger] keeps_dominant(calc)(d, y) implies x == y by {
        let c = x.class->Some_0; let e = y.class->Some_0;
        assert(dominant(v, x.max_value->Some_0, c) && dominant(v, y.max_value->Some_0, e));
        assert(fle(v[c], v[e]) && fle(v[e], v[c]));
        if c < e { assert(flt(v[c], y.max_value->Some_0)); } else if e < c { assert(flt(v[e], x.max_value->Some_0)); }
    }
}
