// props: C15 C16 C17 C24 C23
// what the trees do so far is not changed by adding one
// broadcast: lemma_gscore_push lemma_ascore_push
pub broadcast proof fn lemma_gscore_push(ts: Seq<Box<TreeNode<GradBoostLeaf>>>, x: Box<TreeNode<GradBoostLeaf>>, g: Seq<F>, lr: F, row: Seq<F>, j: int, i: int)
    requires i <= ts.len() ensures #[trigger] gscore(ts.push(x), g, lr, row, j, i) == gscore(ts, g, lr, row, j, i) decreases i { if i > 0 { lemma_gscore_push(ts, x, g, lr, row, j, i - 1); } }
pub broadcast proof fn lemma_ascore_push(ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, x: Box<TreeNode<AMGBoostLeaf>>, g: Seq<F>, lr: F, row: Seq<F>, n: int, j: int, i: int)
    requires i <= ts.len() ensures #[trigger] ascore(ts.push(x), g, lr, row, n, j, i) == ascore(ts, g, lr, row, n, j, i) decreases i { if i > 0 { lemma_ascore_push(ts, x, g, lr, row, n, j, i - 1); } }
// ---- the data a tree is fitted to: the features, and what the estimates so far leave over
pub open spec fn with_labels(d: MultiTargetDataSet, ls: Seq<Seq<F>>) -> MultiTargetDataSet { MultiTargetDataSet { feature_rows: d.feature_rows, feature_columns: d.feature_columns, labels: ls } }
pub open spec fn fsum(v: Seq<F>, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(fsum(v, k - 1), v[k - 1]) } }
pub open spec fn exps(v: Seq<F>) -> Seq<F> { Seq::new(v.len(), |m: int| fexp(v[m])) }
pub open spec fn softmax(v: Seq<F>, j: int) -> F { fdiv(fexp(v[j]), fsum(exps(v), v.len() as int)) }
// broadcast: lemma_rexp lemma_softmax_scaled lemma_fsum_exps
pub broadcast proof fn lemma_rexp(a: real) ensures #[trigger] rexp(a) > 0real { reveal(rexp); }
pub proof fn lemma_fsum_pos(v: Seq<F>, k: int) requires all_finite(v), 0 <= k <= v.len() ensures fsum(exps(v), k) is Fin, k > 0 ==> rv(fsum(exps(v), k)) > 0real, k == 0 ==> rv(fsum(exps(v), k)) == 0real decreases k {
    broadcast use lemma_rexp;
    if k > 0 { lemma_fsum_pos(v, k - 1); assert(exps(v)[k - 1] == fexp(v[k - 1])); assert(v[k - 1] is Fin); }
}
// scaling every exponential by the reciprocal of their sum is dividing by it
pub broadcast proof fn lemma_softmax_scaled(v: Seq<F>, j: int) requires all_finite(v), 0 <= j < v.len() ensures (#[trigger] softmax(v, j)) == fmul(fdiv(F::Fin(1real), fsum(exps(v), v.len() as int)), fexp(v[j])), softmax(v, j) == fmul(fexp(v[j]), fdiv(F::Fin(1real), fsum(exps(v), v.len() as int))) {
    lemma_fsum_pos(v, v.len() as int); assert(v[j] is Fin);
    let s = rv(fsum(exps(v), v.len() as int)); let e = rv(fexp(v[j]));
    assert((1real / s) * e == e / s && e * (1real / s) == e / s) by(nonlinear_arith) requires s > 0real;
}
pub proof fn lemma_fsum_ext(c: Seq<F>, d: Seq<F>, k: int) requires 0 <= k <= c.len(), c.len() == d.len(), forall|m: int| 0 <= m < k ==> c[m] == d[m] ensures fsum(c, k) == fsum(d, k) decreases k { if k > 0 { lemma_fsum_ext(c, d, k - 1); } }
pub broadcast proof fn lemma_fsum_exps(c: Seq<F>, v: Seq<F>, k: int) requires 0 <= k <= c.len(), c.len() == v.len(), forall|m: int| 0 <= m < k ==> c[m] == fexp(v[m]) ensures #![trigger fsum(c, k), exps(v)] fsum(c, k) == fsum(exps(v), k) { lemma_fsum_ext(c, exps(v), k); }
// rest of the labels over the estimates
pub open spec fn rest(ls: Seq<Seq<F>>, est: Seq<Seq<F>>, r: Seq<Seq<F>>) -> bool {
    r.len() == ls.len() && (forall|i: int| 0 <= i < ls.len() ==> (#[trigger] r[i]).len() == ls[i].len()) && forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls[i].len() ==> (#[trigger] r[i][j]) == fsub(ls[i][j], est[i][j])
}
// rest of the labels over the softmax of the scores
pub open spec fn rest_softmax(ls: Seq<Seq<F>>, est: Seq<Seq<F>>, r: Seq<Seq<F>>) -> bool {
    r.len() == ls.len() && (forall|i: int| 0 <= i < ls.len() ==> (#[trigger] r[i]).len() == ls[i].len()) && forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls[i].len() && all_finite(est[i]) ==> (#[trigger] r[i][j]) == fsub(ls[i][j], softmax(est[i], j))
}
// the first k rows of it
pub open spec fn rest_to(ls: Seq<Seq<F>>, est: Seq<Seq<F>>, r: Seq<Seq<F>>, k: int) -> bool {
    0 <= k == r.len() <= ls.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] r[i]).len() == ls[i].len()) && forall|i: int, j: int| 0 <= i < k && 0 <= j < ls[i].len() ==> (#[trigger] r[i][j]) == fsub(ls[i][j], est[i][j])
}
pub open spec fn smax_to(ls: Seq<Seq<F>>, est: Seq<Seq<F>>, r: Seq<Seq<F>>, k: int) -> bool {
    0 <= k == r.len() <= ls.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] r[i]).len() == ls[i].len()) && forall|i: int, j: int| 0 <= i < k && 0 <= j < ls[i].len() && all_finite(est[i]) ==> (#[trigger] r[i][j]) == fsub(ls[i][j], softmax(est[i], j))
}
// running estimates of all rows after i trees
pub open spec fn gest(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, i: int) -> Seq<Seq<F>> { Seq::new(d.feature_rows.len(), |r: int| gscores(ts, g, lr, d.feature_rows[r], i)) }
pub open spec fn aest(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, i: int) -> Seq<Seq<F>> { Seq::new(d.feature_rows.len(), |r: int| ascores(ts, g, lr, d.feature_rows[r], i)) }
pub open spec fn sq_calc() -> LeafOutputCalculator { sem!(LeafOutputCalculator::new)(LeafOutputType::Regression) }
pub open spec fn mc_calc() -> LeafOutputCalculator { sem!(LeafOutputCalculator::new)(LeafOutputType::MultiClassClassification) }
// tree t was grown from the rest left by the trees before it
pub open spec fn fitted_sq(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, t: int) -> bool {
    exists|r: Seq<Seq<F>>| rest(d.labels, gest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_output(sq_calc()))
}
pub open spec fn fitted_mc(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, t: int) -> bool {
    exists|r: Seq<Seq<F>>| rest_softmax(d.labels, gest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_output(mc_calc()))
}
pub open spec fn fitted_am(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, t: int) -> bool {
    exists|r: Seq<Seq<F>>| rest_softmax(d.labels, aest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_dominant(mc_calc()))
}
// the same, from what is at hand in the loop: estimates est, learner data e
// broadcast: lemma_fitted_sq lemma_fitted_mc lemma_fitted_am lemma_fitted_sq_push lemma_fitted_mc_push lemma_fitted_am_push
pub open spec fn est_is(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, t: int) -> bool {
    est.len() == d.feature_rows.len() && (forall|i: int| 0 <= i < est.len() ==> (#[trigger] est[i]).len() == g.len()) && (forall|i: int, j: int| 0 <= i < est.len() && 0 <= j < g.len() ==> (#[trigger] est[i][j]) == gscore(ts, g, lr, d.feature_rows[i], j, t))
}
pub open spec fn aest_is(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, t: int) -> bool {
    est.len() == d.feature_rows.len() && (forall|i: int| 0 <= i < est.len() ==> (#[trigger] est[i]).len() == g.len()) && (forall|i: int, j: int| 0 <= i < est.len() && 0 <= j < g.len() ==> (#[trigger] est[i][j]) == ascore(ts, g, lr, d.feature_rows[i], g.len() as int, j, t))
}
pub proof fn lemma_est_is(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, t: int) requires est_is(est, d, ts, g, lr, t) ensures est == gest(d, ts, g, lr, t) {
    assert forall|i: int| 0 <= i < est.len() implies est[i] == gest(d, ts, g, lr, t)[i] by { assert(est[i] =~= gscores(ts, g, lr, d.feature_rows[i], t)); }
    assert(est =~= gest(d, ts, g, lr, t));
}
pub proof fn lemma_aest_is(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, t: int) requires aest_is(est, d, ts, g, lr, t) ensures est == aest(d, ts, g, lr, t) {
    assert forall|i: int| 0 <= i < est.len() implies est[i] == aest(d, ts, g, lr, t)[i] by { assert(est[i] =~= ascores(ts, g, lr, d.feature_rows[i], t)); }
    assert(est =~= aest(d, ts, g, lr, t));
}
pub proof fn lemma_gest_push(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, x: Box<TreeNode<GradBoostLeaf>>, g: Seq<F>, lr: F, t: int) requires t <= ts.len() ensures gest(d, ts.push(x), g, lr, t) == gest(d, ts, g, lr, t) {
    let a = gest(d, ts.push(x), g, lr, t); let b = gest(d, ts, g, lr, t);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { broadcast use lemma_gscore_push; assert(a[i] =~= b[i]); }
    assert(a =~= b);
}
pub proof fn lemma_aest_push(d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, x: Box<TreeNode<AMGBoostLeaf>>, g: Seq<F>, lr: F, t: int) requires t <= ts.len() ensures aest(d, ts.push(x), g, lr, t) == aest(d, ts, g, lr, t) {
    let a = aest(d, ts.push(x), g, lr, t); let b = aest(d, ts, g, lr, t);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { broadcast use lemma_ascore_push; assert(a[i] =~= b[i]); }
    assert(a =~= b);
}
pub broadcast proof fn lemma_fitted_sq_push(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, x: Box<TreeNode<GradBoostLeaf>>, g: Seq<F>, lr: F, t: int) requires 0 <= t < ts.len(), fitted_sq(d, cfg, ts, g, lr, t) ensures #[trigger] fitted_sq(d, cfg, ts.push(x), g, lr, t) {
    lemma_gest_push(d, ts, x, g, lr, t);
    let r = choose|r: Seq<Seq<F>>| rest(d.labels, gest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_output(sq_calc()));
    assert(grown(*ts.push(x)[t], with_labels(d, r), cfg, 0, keeps_output(sq_calc())));
}
pub broadcast proof fn lemma_fitted_mc_push(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, x: Box<TreeNode<GradBoostLeaf>>, g: Seq<F>, lr: F, t: int) requires 0 <= t < ts.len(), fitted_mc(d, cfg, ts, g, lr, t) ensures #[trigger] fitted_mc(d, cfg, ts.push(x), g, lr, t) {
    lemma_gest_push(d, ts, x, g, lr, t);
    let r = choose|r: Seq<Seq<F>>| rest_softmax(d.labels, gest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_output(mc_calc()));
    assert(grown(*ts.push(x)[t], with_labels(d, r), cfg, 0, keeps_output(mc_calc())));
}
pub broadcast proof fn lemma_fitted_am_push(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, x: Box<TreeNode<AMGBoostLeaf>>, g: Seq<F>, lr: F, t: int) requires 0 <= t < ts.len(), fitted_am(d, cfg, ts, g, lr, t) ensures #[trigger] fitted_am(d, cfg, ts.push(x), g, lr, t) {
    lemma_aest_push(d, ts, x, g, lr, t);
    let r = choose|r: Seq<Seq<F>>| rest_softmax(d.labels, aest(d, ts, g, lr, t), r) && #[trigger] grown(*ts[t], with_labels(d, r), cfg, 0, keeps_dominant(mc_calc()));
    assert(grown(*ts.push(x)[t], with_labels(d, r), cfg, 0, keeps_dominant(mc_calc())));
}
pub open spec fn learner_of(e: MultiTargetDataSet, d: MultiTargetDataSet) -> bool { e.feature_rows == d.feature_rows && e.feature_columns == d.feature_columns }
pub broadcast proof fn lemma_fitted_sq(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, x: TreeNode<GradBoostLeaf>, g: Seq<F>, lr: F, est: Seq<Seq<F>>, e: MultiTargetDataSet)
    requires #[trigger] est_is(est, d, ts, g, lr, ts.len() as int), #[trigger] grown(x, e, cfg, 0, keeps_output(sq_calc())), learner_of(e, d), rest(d.labels, est, e.labels)
    ensures fitted_sq(d, cfg, ts.push(Box::new(x)), g, lr, ts.len() as int)
{ lemma_est_is(est, d, ts, g, lr, ts.len() as int); lemma_gest_push(d, ts, Box::new(x), g, lr, ts.len() as int); assert(with_labels(d, e.labels) == e); assert(grown(*ts.push(Box::new(x))[ts.len() as int], with_labels(d, e.labels), cfg, 0, keeps_output(sq_calc()))); }
pub broadcast proof fn lemma_fitted_mc(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, x: TreeNode<GradBoostLeaf>, g: Seq<F>, lr: F, est: Seq<Seq<F>>, e: MultiTargetDataSet)
    requires #[trigger] est_is(est, d, ts, g, lr, ts.len() as int), #[trigger] grown(x, e, cfg, 0, keeps_output(mc_calc())), learner_of(e, d), rest_softmax(d.labels, est, e.labels)
    ensures fitted_mc(d, cfg, ts.push(Box::new(x)), g, lr, ts.len() as int)
{ lemma_est_is(est, d, ts, g, lr, ts.len() as int); lemma_gest_push(d, ts, Box::new(x), g, lr, ts.len() as int); assert(with_labels(d, e.labels) == e); assert(grown(*ts.push(Box::new(x))[ts.len() as int], with_labels(d, e.labels), cfg, 0, keeps_output(mc_calc()))); }
pub broadcast proof fn lemma_fitted_am(d: MultiTargetDataSet, cfg: TreeConfig, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, x: TreeNode<AMGBoostLeaf>, g: Seq<F>, lr: F, est: Seq<Seq<F>>, e: MultiTargetDataSet)
    requires #[trigger] aest_is(est, d, ts, g, lr, ts.len() as int), #[trigger] grown(x, e, cfg, 0, keeps_dominant(mc_calc())), learner_of(e, d), rest_softmax(d.labels, est, e.labels)
    ensures fitted_am(d, cfg, ts.push(Box::new(x)), g, lr, ts.len() as int)
{ lemma_aest_is(est, d, ts, g, lr, ts.len() as int); lemma_aest_push(d, ts, Box::new(x), g, lr, ts.len() as int); assert(with_labels(d, e.labels) == e); assert(grown(*ts.push(Box::new(x))[ts.len() as int], with_labels(d, e.labels), cfg, 0, keeps_dominant(mc_calc()))); }
// ---- a training row is led to a leaf that has rows, so its output has one entry per target
pub open spec fn good_part(e: MultiTargetDataSet, n: int) -> bool { wf_data(e) && e.labels.len() > 0 && e.labels[0].len() == n }
pub proof fn lemma_part_wf(d: MultiTargetDataSet, q: Question, w: bool) requires wf_data(d)
    ensures wf_data(part(d, q, w)), part(d, q, w).labels.len() > 0 ==> part(d, q, w).labels[0].len() == d.labels[0].len()
{
    let e = part(d, q, w); let n = d.feature_rows.len() as int;
    lemma_sel_len(d.feature_rows, q.column, q.value, w, d.labels, n);
    assert forall|i: int| 0 <= i < e.labels.len() implies (#[trigger] e.labels[i]).len() == d.labels[0].len() by { lemma_sel_in(d.feature_rows, q.column, q.value, w, d.labels, n, i); }
}
pub proof fn lemma_reach<L>(t: TreeNode<L>, d: MultiTargetDataSet, cfg: TreeConfig, level: int, content: spec_fn(MultiTargetDataSet, L) -> bool, i: int) -> (e: MultiTargetDataSet)
    requires grown(t, d, cfg, level, content), wf_data(d), 0 <= i < d.feature_rows.len()
    ensures good_part(e, d.labels[0].len() as int), content(e, leaf_at(t, d.feature_rows[i])) decreases t
{
    if stops(cfg, d, level) { assert(d.labels[i].len() == d.labels[0].len()); d } else {
        let q = best(cfg, d).question; let w = says(d.feature_rows[i], q.column, q.value);
        let p = lemma_sel_keeps(d.feature_rows, q.column, q.value, w, d.labels, d.feature_rows.len() as int, i);
        lemma_sel_len(d.feature_rows, q.column, q.value, w, d.labels, d.feature_rows.len() as int);
        lemma_part_wf(d, q, w);
        let e = part(d, q, w);
        assert(e.labels.len() > 0);
        if w { lemma_reach(tb(t), e, cfg, level + 1, content, p) } else { lemma_reach(fb(t), e, cfg, level + 1, content, p) }
    }
}
// broadcast: lemma_reach_output lemma_grown_wf
pub broadcast proof fn lemma_reach_output(t: TreeNode<GradBoostLeaf>, d: MultiTargetDataSet, cfg: TreeConfig, calc: LeafOutputCalculator, i: int)
    requires #[trigger] grown(t, d, cfg, 0, keeps_output(calc)), wf_data(d), 0 <= i < d.feature_rows.len()
    ensures exists|e: MultiTargetDataSet| good_part(e, d.labels[0].len() as int) && (#[trigger] leaf_at(t, d.feature_rows[i])).leaf_output == Some(#[trigger] leaf_value(calc, e))
{ let e = lemma_reach(t, d, cfg, 0, keeps_output(calc), i); assert(leaf_at(t, d.feature_rows[i]).leaf_output == Some(leaf_value(calc, e))); }
pub broadcast proof fn lemma_grown_wf<L>(t: TreeNode<L>, d: MultiTargetDataSet, cfg: TreeConfig, content: spec_fn(MultiTargetDataSet, L) -> bool)
    requires #[trigger] grown(t, d, cfg, 0, content), 0 <= cfg.max_levels ensures wf(t) { lemma_depth(t, d, cfg, 0, content); }

// the first k rows' estimates have the output of tree x added, the others are as after t trees
// broadcast: lemma_mid_done lemma_amid_done
pub open spec fn mid(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, t: int, x: TreeNode<GradBoostLeaf>, k: int) -> bool {
    est.len() == d.feature_rows.len() && (forall|i: int| 0 <= i < est.len() ==> (#[trigger] est[i]).len() == g.len()) && (forall|i: int, j: int| 0 <= i < est.len() && 0 <= j < g.len() ==>
        (#[trigger] est[i][j]) == if i < k { fadd(gscore(ts, g, lr, d.feature_rows[i], j, t), fmul(lr, gout(x, d.feature_rows[i], j))) } else { gscore(ts, g, lr, d.feature_rows[i], j, t) })
}
pub open spec fn amid(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, t: int, x: TreeNode<AMGBoostLeaf>, k: int) -> bool {
    est.len() == d.feature_rows.len() && (forall|i: int| 0 <= i < est.len() ==> (#[trigger] est[i]).len() == g.len()) && (forall|i: int, j: int| 0 <= i < est.len() && 0 <= j < g.len() ==>
        (#[trigger] est[i][j]) == if i < k { fadd(ascore(ts, g, lr, d.feature_rows[i], g.len() as int, j, t), fmul(lr, contrib(leaf_at(x, d.feature_rows[i]), g.len() as int, j))) } else { ascore(ts, g, lr, d.feature_rows[i], g.len() as int, j, t) })
}
pub broadcast proof fn lemma_mid_done(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, x: TreeNode<GradBoostLeaf>, k: int)
    requires #[trigger] mid(est, d, ts, g, lr, ts.len() as int, x, k), k >= est.len() ensures est_is(est, d, ts.push(Box::new(x)), g, lr, ts.len() as int + 1)
{ broadcast use lemma_gscore_push; let u = ts.push(Box::new(x)); assert(*u[ts.len() as int] == x);
  assert forall|i: int, j: int| 0 <= i < est.len() && 0 <= j < g.len() implies (#[trigger] est[i][j]) == gscore(u, g, lr, d.feature_rows[i], j, ts.len() as int + 1) by { assert(gscore(u, g, lr, d.feature_rows[i], j, ts.len() as int) == gscore(ts, g, lr, d.feature_rows[i], j, ts.len() as int)); } }
pub broadcast proof fn lemma_amid_done(est: Seq<Seq<F>>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, x: TreeNode<AMGBoostLeaf>, k: int)
    requires #[trigger] amid(est, d, ts, g, lr, ts.len() as int, x, k), k >= est.len() ensures aest_is(est, d, ts.push(Box::new(x)), g, lr, ts.len() as int + 1)
{ broadcast use lemma_ascore_push; let u = ts.push(Box::new(x)); assert(*u[ts.len() as int] == x);
  assert forall|i: int, j: int| 0 <= i < est.len() && 0 <= j < g.len() implies (#[trigger] est[i][j]) == ascore(u, g, lr, d.feature_rows[i], g.len() as int, j, ts.len() as int + 1) by { assert(ascore(u, g, lr, d.feature_rows[i], g.len() as int, j, ts.len() as int) == ascore(ts, g, lr, d.feature_rows[i], g.len() as int, j, ts.len() as int)); } }
// what one row's scores are while the contributions of a leaf are added class by class
pub open spec fn adding(v: Seq<F>, d: MultiTargetDataSet, ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, t: int, l: AMGBoostLeaf, i: int, k: int, first: bool) -> bool {
    v.len() == g.len() && forall|j: int| 0 <= j < g.len() ==> #[trigger] v[j] == if j < k || (first && j == l.class->Some_0) { fadd(ascore(ts, g, lr, d.feature_rows[i], g.len() as int, j, t), fmul(lr, contrib(l, g.len() as int, j))) } else { ascore(ts, g, lr, d.feature_rows[i], g.len() as int, j, t) }
}
// the contributions of one leaf cancel out
pub open spec fn csum(l: AMGBoostLeaf, n: int, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(csum(l, n, k - 1), contrib(l, n, k - 1)) } }
pub proof fn lemma_csum(l: AMGBoostLeaf, n: int, k: int) requires n >= 2, 0 <= l.class->Some_0 < n, l.max_value->Some_0 is Fin, 0 <= k <= n
    ensures csum(l, n, k) == F::Fin(if k > l.class->Some_0 { rv(l.max_value->Some_0) - (k - 1) as real * (rv(l.max_value->Some_0) / (n - 1) as real) } else { -(k as real * (rv(l.max_value->Some_0) / (n - 1) as real)) }) decreases k
{
    let m = rv(l.max_value->Some_0); let c = l.class->Some_0; let w = (n - 1) as real;
    assert(n as real - 1real == w); assert((-m) / w == -(m / w)) by(nonlinear_arith) requires w > 0real;
    if k > 0 { lemma_csum(l, n, k - 1); let a = (k - 1) as real; let q = m / w;
        assert((a + 1real) * q == a * q + q) by(nonlinear_arith); assert((a - 1real) * q == a * q - q) by(nonlinear_arith);
        assert(k as real == a + 1real); assert((k - 2) as real == a - 1real);
        if k - 1 == c { } else { assert(contrib(l, n, k - 1) == F::Fin(-q)); }
    } else { assert(0real * (m / w) == 0real) by(nonlinear_arith); }
}
pub proof fn lemma_contributions_cancel(l: AMGBoostLeaf, n: int) requires n >= 2, 0 <= l.class->Some_0 < n, l.max_value->Some_0 is Fin ensures csum(l, n, n) == F::Fin(0real)
{ lemma_csum(l, n, n); let m = rv(l.max_value->Some_0); let w = (n - 1) as real; assert(w * (m / w) == m) by(nonlinear_arith) requires w > 0real; }
// broadcast: lemma_mean_fin
pub broadcast proof fn lemma_mean_fin(m: Seq<Seq<F>>, j: int) requires finite_rows(m), rect(m), m.len() > 0, 0 <= j < m[0].len() ensures (#[trigger] mean_of(m, j)) is Fin { lemma_colsum_fin(m, j, m.len() as int); }
