// lemmas only: C24
// ---- one boosting round and the squared error
pub open spec fn res2(x: F, m: real) -> real { (rv(x) - m) * (rv(x) - m) }
pub open spec fn before(ls: Seq<Seq<F>>, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { before(ls, j, k - 1) + res2(ls[k - 1][j], 0real) } }
// what is left of labels ls after lr times the output of tree t is taken off each row
pub open spec fn after(rows: Seq<Seq<F>>, ls: Seq<Seq<F>>, t: TreeNode<GradBoostLeaf>, lr: real, j: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { after(rows, ls, t, lr, j, k - 1) + res2(ls[k - 1][j], lr * rv(gout(t, rows[k - 1], j))) }
}
pub open spec fn constant(ls: Seq<Seq<F>>, m: real, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { constant(ls, m, j, k - 1) + res2(ls[k - 1][j], m) } }
pub proof fn lemma_constant(ls: Seq<Seq<F>>, m: real, j: int, k: int) requires finite_rows(ls), rect(ls), 0 <= k <= ls.len(), ls.len() > 0 ==> 0 <= j < ls[0].len()
    ensures k > 0 ==> colsum(ls, j, k) is Fin, constant(ls, m, j, k) == before(ls, j, k) - 2real * m * rv(colsum(ls, j, k)) + k as real * (m * m) decreases k
{
    if k > 0 {
        lemma_constant(ls, m, j, k - 1);
        assert(ls[k - 1].len() == ls[0].len()); assert(ls[k - 1][j] is Fin);
        let x = rv(ls[k - 1][j]); let s = rv(colsum(ls, j, k - 1)); let kk = (k - 1) as real;
        assert(colsum(ls, j, k) == fadd(colsum(ls, j, k - 1), ls[k - 1][j]));
        assert((x - m) * (x - m) == x * x - 2real * m * x + m * m) by(nonlinear_arith);
        assert(2real * m * (s + x) == 2real * m * s + 2real * m * x) by(nonlinear_arith);
        assert((kk + 1real) * (m * m) == kk * (m * m) + m * m) by(nonlinear_arith);
        assert(k as real == kk + 1real);
        assert((x - 0real) * (x - 0real) == x * x);
    } else { assert(2real * m * 0real == 0real) by(nonlinear_arith); assert(0real * (m * m) == 0real) by(nonlinear_arith); }
}
// taking lr times the mean off never increases the sum of squares
pub proof fn lemma_mean_step(ls: Seq<Seq<F>>, lr: real, j: int) requires finite_rows(ls), rect(ls), ls.len() > 0, 0 <= j < ls[0].len(), 0real <= lr <= 1real
    ensures mean_of(ls, j) is Fin, constant(ls, lr * rv(mean_of(ls, j)), j, ls.len() as int) <= before(ls, j, ls.len() as int)
{
    let n = ls.len() as int; let nr = n as real; let m = rv(mean_of(ls, j)); let a = lr * m;
    lemma_constant(ls, a, j, n);
    let s = rv(colsum(ls, j, n));
    assert(m == s / nr);
    assert(s == nr * m) by(nonlinear_arith) requires m == s / nr, nr > 0real;
    assert(2real * (lr * m) * (nr * m) == nr * ((m * m) * (2real * lr))) by(nonlinear_arith);
    assert(nr * ((lr * m) * (lr * m)) == nr * ((m * m) * (lr * lr))) by(nonlinear_arith);
    assert(lr * lr <= 2real * lr) by(nonlinear_arith) requires 0real <= lr <= 1real;
    assert(m * m >= 0real) by(nonlinear_arith);
    let u = m * m; let p = lr * lr; let q = 2real * lr;
    assert(nr * (u * p) <= nr * (u * q)) by(nonlinear_arith) requires p <= q, u >= 0real, nr > 0real;
}
pub proof fn lemma_after_constant(rows: Seq<Seq<F>>, ls: Seq<Seq<F>>, t: TreeNode<GradBoostLeaf>, lr: real, j: int, k: int, m: real) requires is_leaf(t), rv(t.leaf->Some_0.leaf_output->Some_0[j]) == m
    ensures after(rows, ls, t, lr, j, k) == constant(ls, lr * m, j, k) decreases k
{ if k > 0 { lemma_after_constant(rows, ls, t, lr, j, k - 1, m); } }
pub proof fn lemma_after_ext(r: Seq<Seq<F>>, l: Seq<Seq<F>>, r2: Seq<Seq<F>>, l2: Seq<Seq<F>>, t: TreeNode<GradBoostLeaf>, lr: real, j: int, k: int)
    requires forall|i: int| 0 <= i < k ==> r[i] == r2[i] && l[i] == l2[i] ensures after(r, l, t, lr, j, k) == after(r2, l2, t, lr, j, k), before(l, j, k) == before(l2, j, k) decreases k
{ if k > 0 { lemma_after_ext(r, l, r2, l2, t, lr, j, k - 1); assert(r[k - 1] == r2[k - 1]); } }
// the sums over the rows are the sums over the two parts
pub proof fn lemma_split_sums(rows: Seq<Seq<F>>, ls: Seq<Seq<F>>, c: int, v: F, t: TreeNode<GradBoostLeaf>, lr: real, j: int, k: int)
    requires is_inner(t), t.question.column == c, t.question.value == v, 0 <= k <= rows.len(), ls.len() == rows.len()
    ensures ({ let n1 = sel(rows, c, v, true, rows, k).len() as int; let n0 = sel(rows, c, v, false, rows, k).len() as int;
        after(rows, ls, t, lr, j, k) == after(sel(rows, c, v, true, rows, k), sel(rows, c, v, true, ls, k), tb(t), lr, j, n1) + after(sel(rows, c, v, false, rows, k), sel(rows, c, v, false, ls, k), fb(t), lr, j, n0)
        && before(ls, j, k) == before(sel(rows, c, v, true, ls, k), j, n1) + before(sel(rows, c, v, false, ls, k), j, n0) }) decreases k
{
    if k > 0 {
        lemma_split_sums(rows, ls, c, v, t, lr, j, k - 1);
        let w = says(rows[k - 1], c, v);
        let r = sel(rows, c, v, w, rows, k - 1); let l = sel(rows, c, v, w, ls, k - 1);
        lemma_sel_len(rows, c, v, w, ls, k - 1);
        assert(leaf_at(t, rows[k - 1]) == if w { leaf_at(tb(t), rows[k - 1]) } else { leaf_at(fb(t), rows[k - 1]) });
        lemma_after_ext(r, l, r.push(rows[k - 1]), l.push(ls[k - 1]), if w { tb(t) } else { fb(t) }, lr, j, r.len() as int);
    }
}
pub open spec fn sound(e: MultiTargetDataSet, j: int) -> bool { wf_data(e) && finite_rows(e.labels) && (e.labels.len() > 0 ==> 0 <= j < e.labels[0].len()) }
pub proof fn lemma_part_sound(d: MultiTargetDataSet, q: Question, w: bool, j: int) requires sound(d, j) ensures sound(part(d, q, w), j)
{
    lemma_part_wf(d, q, w); let e = part(d, q, w); let n = d.feature_rows.len() as int;
    lemma_sel_len(d.feature_rows, q.column, q.value, w, d.labels, n);
    assert forall|i: int, m: int| 0 <= i < e.labels.len() && 0 <= m < e.labels[i].len() implies (#[trigger] e.labels[i][m]) is Fin by { lemma_sel_in(d.feature_rows, q.column, q.value, w, d.labels, n, i); }
    if e.labels.len() > 0 { lemma_sel_in(d.feature_rows, q.column, q.value, w, d.labels, n, 0); }
}
pub proof fn lemma_leaf_mean(e: MultiTargetDataSet, j: int) requires sound(e, j), e.labels.len() > 0 ensures leaf_value(sq_calc(), e)[j] == mean_of(e.labels, j)
{ broadcast use {LIFT!(LeafOutputCalculator::new), LIFT!(grad_boost_leaf_output::calculate_leaf_output_squared_loss), AX!(grad_boost_leaf_output::calculate_leaf_output_squared_loss)}; }
pub proof fn lemma_out_fin(t: TreeNode<GradBoostLeaf>, e: MultiTargetDataSet, cfg: TreeConfig, level: int, j: int, i: int)
    requires grown(t, e, cfg, level, keeps_output(sq_calc())), sound(e, j), 0 <= i < e.feature_rows.len() ensures gout(t, e.feature_rows[i], j) is Fin decreases t
{
    if stops(cfg, e, level) { lemma_leaf_mean(e, j); lemma_mean_step(e.labels, 0real, j); } else {
        let q = best(cfg, e).question; let w = says(e.feature_rows[i], q.column, q.value);
        let p = lemma_sel_keeps(e.feature_rows, q.column, q.value, w, e.labels, e.feature_rows.len() as int, i);
        lemma_part_sound(e, q, w, j); let f = part(e, q, w);
        if w { lemma_out_fin(tb(t), f, cfg, level + 1, j, p) } else { lemma_out_fin(fb(t), f, cfg, level + 1, j, p) }
    }
}
pub proof fn lemma_tree_round(t: TreeNode<GradBoostLeaf>, e: MultiTargetDataSet, cfg: TreeConfig, level: int, lr: real, j: int)
    requires grown(t, e, cfg, level, keeps_output(sq_calc())), sound(e, j), 0real <= lr <= 1real
    ensures after(e.feature_rows, e.labels, t, lr, j, e.labels.len() as int) <= before(e.labels, j, e.labels.len() as int) decreases t
{
    let n = e.labels.len() as int;
    if stops(cfg, e, level) {
        if n > 0 { lemma_leaf_mean(e, j); lemma_mean_step(e.labels, lr, j); lemma_after_constant(e.feature_rows, e.labels, t, lr, j, n, rv(mean_of(e.labels, j))); }
    } else {
        let q = best(cfg, e).question;
        lemma_part_sound(e, q, true, j); lemma_part_sound(e, q, false, j);
        lemma_tree_round(tb(t), part(e, q, true), cfg, level + 1, lr, j); lemma_tree_round(fb(t), part(e, q, false), cfg, level + 1, lr, j);
        lemma_split_sums(e.feature_rows, e.labels, q.column, q.value, t, lr, j, n);
        lemma_sel_len(e.feature_rows, q.column, q.value, true, e.labels, n); lemma_sel_len(e.feature_rows, q.column, q.value, false, e.labels, n);
    }
}
// the squared error of the estimates after i trees
pub open spec fn sse1(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, i: int, j: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { sse1(d, ts, g, lr, i, j, k - 1) + res2(d.labels[k - 1][j], rv(gscore(ts, g, lr, d.feature_rows[k - 1], j, i))) }
}
pub open spec fn sse(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, i: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else { sse(d, ts, g, lr, i, n - 1) + sse1(d, ts, g, lr, i, n - 1, d.labels.len() as int) }
}
pub open spec fn scores_finite(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, i: int) -> bool {
    forall|k: int, j: int| 0 <= k < d.feature_rows.len() && 0 <= j < g.len() ==> (#[trigger] gscore(ts, g, lr, d.feature_rows[k], j, i)) is Fin
}
pub proof fn lemma_sse_rest(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, x: real, i: int, j: int, k: int, r: Seq<Seq<F>>)
    requires wf_data(d), finite_rows(d.labels), 0 <= j < g.len(), d.labels.len() > 0 ==> d.labels[0].len() == g.len(), 0 <= i < ts.len(), 0 <= k <= d.labels.len(), scores_finite(d, ts, g, F::Fin(x), i), rest(d.labels, gest(d, ts, g, F::Fin(x), i), r),
        forall|m: int| 0 <= m < d.feature_rows.len() ==> (#[trigger] gout(*ts[i], d.feature_rows[m], j)) is Fin
    ensures sse1(d, ts, g, F::Fin(x), i, j, k) == before(r, j, k), sse1(d, ts, g, F::Fin(x), i + 1, j, k) == after(d.feature_rows, r, *ts[i], x, j, k) decreases k
{
    if k > 0 {
        lemma_sse_rest(d, ts, g, x, i, j, k - 1, r);
        let lr = F::Fin(x); let row = d.feature_rows[k - 1];
        assert(d.labels[k - 1].len() == g.len());
        let a = gscore(ts, g, lr, row, j, i); let b = gscore(ts, g, lr, row, j, i + 1);
        assert(a is Fin); assert(d.labels[k - 1][j] is Fin); assert(gout(*ts[i], row, j) is Fin);
        assert(gest(d, ts, g, lr, i)[k - 1][j] == a);
        assert(r[k - 1][j] == fsub(d.labels[k - 1][j], a));
        assert(b == fadd(a, fmul(lr, gout(*ts[i], row, j))));
    }
}
// one round: the error does not grow, and the estimates stay finite
pub proof fn lemma_round(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, x: real, t: int, n: int)
    requires wf_data(d), finite_rows(d.labels), d.labels.len() > 0, d.labels[0].len() == g.len(), 0real <= x <= 1real, 0 <= t < ts.len(), 0 <= n <= g.len(), fitted_sq(d, cfg, ts, g, F::Fin(x), t), scores_finite(d, ts, g, F::Fin(x), t)
    ensures sse(d, ts, g, F::Fin(x), t + 1, n) <= sse(d, ts, g, F::Fin(x), t, n), scores_finite(d, ts, g, F::Fin(x), t + 1) decreases n
{
    let lr = F::Fin(x);
    let r = choose|r: Seq<Seq<F>>| rest(d.labels, gest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_output(sq_calc()));
    let e = with_labels(d, r);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() == g.len() by { assert(d.labels[i].len() == d.labels[0].len()); }
    assert forall|i: int, m: int| 0 <= i < r.len() && 0 <= m < r[i].len() implies (#[trigger] r[i][m]) is Fin by {
        assert(d.labels[i].len() == g.len()); assert(d.labels[i][m] is Fin); assert(gscore(ts, g, lr, d.feature_rows[i], m, t) is Fin); assert(gest(d, ts, g, lr, t)[i][m] == gscore(ts, g, lr, d.feature_rows[i], m, t)); }
    assert forall|k: int, j: int| 0 <= k < d.feature_rows.len() && 0 <= j < g.len() implies (#[trigger] gout(*ts[t], d.feature_rows[k], j)) is Fin by { assert(sound(e, j)); lemma_out_fin(*ts[t], e, cfg, 0, j, k); }
    assert forall|k: int, j: int| 0 <= k < d.feature_rows.len() && 0 <= j < g.len() implies (#[trigger] gscore(ts, g, lr, d.feature_rows[k], j, t + 1)) is Fin by {
        assert(gout(*ts[t], d.feature_rows[k], j) is Fin); assert(gscore(ts, g, lr, d.feature_rows[k], j, t) is Fin); }
    if n > 0 {
        lemma_round(d, cfg, ts, g, x, t, n - 1);
        let j = n - 1;
        assert(sound(e, j)); lemma_tree_round(*ts[t], e, cfg, 0, x, j);
        lemma_sse_rest(d, ts, g, x, t, j, d.labels.len() as int, r);
    }
}
// the whole history: after t trees, one tree more leaves no more squared error
pub proof fn lemma_history(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, x: real, t: int)
    requires wf_data(d), finite_rows(d.labels), d.labels.len() > 0, d.labels[0].len() == g.len(), 0real <= x <= 1real, all_finite(g), forall|s: int| 0 <= s < ts.len() ==> #[trigger] fitted_sq(d, cfg, ts, g, F::Fin(x), s), 0 <= t < ts.len()
    ensures scores_finite(d, ts, g, F::Fin(x), t), scores_finite(d, ts, g, F::Fin(x), t + 1), sse(d, ts, g, F::Fin(x), t + 1, g.len() as int) <= sse(d, ts, g, F::Fin(x), t, g.len() as int) decreases t
{
    if t > 0 { lemma_history(d, cfg, ts, g, x, t - 1); }
    assert(fitted_sq(d, cfg, ts, g, F::Fin(x), t));
    lemma_round(d, cfg, ts, g, x, t, g.len() as int);
}
