// props: C15 C16 C17 C18 C19 C20 C21 C24 C23 SCORE
pub open spec fn rint(n: int) -> F { F::Fin(n as real) }
// v[j] is the largest entry, and no earlier entry equals it
pub open spec fn first_max(v: Seq<F>, j: int) -> bool { 0 <= j < v.len() && dominant(v, v[j], j) }
// 1 at the first largest entry of v, 0 elsewhere
pub open spec fn marks_max(v: Seq<F>, r: Seq<F>) -> bool { r.len() == v.len() && forall|j: int| 0 <= j < v.len() ==> #[trigger] r[j] == (if first_max(v, j) { F::Fin(1real) } else { F::Fin(0real) }) }
pub open spec fn top_to(v: Seq<F>, m: F, c: int, k: int) -> bool {
    (k <= 0 || m is NInf ==> c == 0) && (m is NInf ==> forall|j: int| 0 <= j < k && j < v.len() ==> (#[trigger] v[j]) is NInf)
    && (!(m is NInf) ==> 0 <= c < k && v[c] == m && (forall|j: int| 0 <= j < k && j < v.len() ==> fle(#[trigger] v[j], m)) && (forall|j: int| 0 <= j < c ==> flt(#[trigger] v[j], m)))
}
pub open spec fn top_at(v: Seq<F>, c: int, k: int) -> bool {
    0 <= c && (v.len() > 0 ==> c < v.len()) && (c < k || c == 0) && (forall|j: int| 0 <= j < k && j < v.len() ==> fle(#[trigger] v[j], v[c])) && (forall|j: int| 0 <= j < c ==> flt(#[trigger] v[j], v[c]))
}
// how many of the first k predictions equal their label vector
pub open spec fn hits(ps: Seq<Seq<F>>, ls: Seq<Seq<F>>, k: int) -> int decreases k { if k <= 0 { 0 } else { hits(ps, ls, k - 1) + (if veq(ps[k - 1], ls[k - 1]) { 1int } else { 0int }) } }
pub open spec fn mse_row(p: Seq<F>, a: Seq<F>) -> F { fdiv(sqdiff(p, a, p.len() as int), rint(p.len() as int)) }
pub open spec fn mse_sum(ps: Seq<Seq<F>>, ls: Seq<Seq<F>>, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(mse_sum(ps, ls, k - 1), mse_row(ls[k - 1], ps[k - 1])) } }
// ---- votes in a leaf
pub open spec fn votes(ls: Seq<Seq<F>>, c: int, k: int) -> int decreases k { if k <= 0 { 0 } else { votes(ls, c, k - 1) + (if 0 <= c < ls[k - 1].len() && feq(ls[k - 1][c], F::Fin(1real)) { 1int } else { 0int }) } }
pub open spec fn winner(ls: Seq<Seq<F>>, c: int, n: int) -> bool { 0 <= c < n && (forall|i: int| 0 <= i < n ==> #[trigger] votes(ls, i, ls.len() as int) <= votes(ls, c, ls.len() as int)) && (forall|i: int| 0 <= i < c ==> #[trigger] votes(ls, i, ls.len() as int) < votes(ls, c, ls.len() as int)) }
pub open spec fn leading(cs: Seq<int>, m: int, c: int, k: int) -> bool {
    (m == 0 ==> c == 0) && m >= 0 && (forall|i: int| 0 <= i < k && i < cs.len() ==> #[trigger] cs[i] <= m) && (m > 0 ==> 0 <= c < k && cs[c] == m && (forall|i: int| 0 <= i < c ==> #[trigger] cs[i] < m))
}
// the same with the class kept as a float
pub open spec fn leading_f(cs: Seq<int>, m: int, c: F, k: int) -> bool {
    c is Fin && c == rint(rv(c).floor()) && leading(cs, m, rv(c).floor(), k)
}
pub open spec fn majority(ls: Seq<Seq<F>>, r: Seq<F>) -> bool { r.len() == ls[0].len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == (if winner(ls, j, ls[0].len() as int) { F::Fin(1real) } else { F::Fin(0real) }) }
// broadcast: lemma_votes_nonneg
pub broadcast proof fn lemma_votes_nonneg(ls: Seq<Seq<F>>, c: int, k: int) ensures 0 <= #[trigger] votes(ls, c, k) decreases k { if k > 0 { lemma_votes_nonneg(ls, c, k - 1); } }
pub open spec fn tree_hits(d: MultiTargetDataSet, t: Box<TreeNode<RegressionLeaf>>, k: int) -> int decreases k { if k <= 0 { 0 } else { tree_hits(d, t, k - 1) + (if veq(sem!(classification::predict_class)(d.feature_rows[k - 1], t), d.labels[k - 1]) { 1int } else { 0int }) } }
// ---- errors of a regression tree
pub open spec fn mean_vec(m: Seq<Seq<F>>) -> Seq<F> { Seq::new(m[0].len(), |j: int| mean_of(m, j)) }
pub open spec fn tree_err(d: MultiTargetDataSet, t: TreeNode<RegressionLeaf>, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(tree_err(d, t, k - 1), mse_row(mean_vec(leaf_at(t, d.feature_rows[k - 1]).data->Some_0.labels), d.labels[k - 1])) } }
pub open spec fn stree_err(d: MultiTargetDataSet, t: TreeNode<RegressionLeafNewPartition>, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(stree_err(d, t, k - 1), mse_row(mean_vec(leaf_at(t, d.feature_rows[k - 1]).data->Some_0.labels), d.labels[k - 1])) } }
pub proof fn lemma_sqdiff_ext(a: Seq<F>, b: Seq<F>, c: Seq<F>, k: int) requires forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures sqdiff(a, c, k) == sqdiff(b, c, k) decreases k { if k > 0 { lemma_sqdiff_ext(a, b, c, k - 1); } }
// broadcast: lemma_mean_vec_is
pub broadcast proof fn lemma_mean_vec_is(a: Seq<F>, c: Seq<F>, k: int, m: Seq<Seq<F>>) requires a.len() == m[0].len(), forall|j: int| 0 <= j < a.len() ==> a[j] == mean_of(m, j)
    ensures #![trigger sqdiff(a, c, k), mean_vec(m)] a == mean_vec(m) { assert(a =~= mean_vec(m)); }
// ---- ensembles: the additive model -------------------------------------------------------------------------------------
pub open spec fn gout(t: TreeNode<GradBoostLeaf>, row: Seq<F>, j: int) -> F { leaf_at(t, row).leaf_output->Some_0[j] }
pub open spec fn gscore(ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, row: Seq<F>, j: int, i: int) -> F decreases i {
    if i <= 0 { g[j] } else { fadd(gscore(ts, g, lr, row, j, i - 1), fmul(lr, gout(*ts[i - 1], row, j))) }
}
// contribution of a leaf of the approximate ensemble to class j of n
pub open spec fn contrib(l: AMGBoostLeaf, n: int, j: int) -> F { if j == l.class->Some_0 { l.max_value->Some_0 } else { fdiv(fneg(l.max_value->Some_0), fsub(rint(n), F::Fin(1real))) } }
pub open spec fn ascore(ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, row: Seq<F>, n: int, j: int, i: int) -> F decreases i {
    if i <= 0 { g[j] } else { fadd(ascore(ts, g, lr, row, n, j, i - 1), fmul(lr, contrib(leaf_at(*ts[i - 1], row), n, j))) }
}
pub open spec fn wf_trees<L>(ts: Seq<Box<TreeNode<L>>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> wf(*(#[trigger] ts[i])) }
pub open spec fn wf_RegressionBoostModel(m: RegressionBoostModel) -> bool { wf_trees(m.trees) }
pub open spec fn wf_MultiClassBoostModel(m: MultiClassBoostModel) -> bool { wf_trees(m.trees) }
pub open spec fn wf_AMGBoostModel(m: AMGBoostModel) -> bool { wf_trees(m.trees) }
pub open spec fn gdefined(ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, row: Seq<F>, i: int) -> bool { g.len() > 0 && forall|j: int| 0 <= j < g.len() ==> !((#[trigger] gscore(ts, g, lr, row, j, i)) is NaN) }
pub open spec fn adefined(ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, row: Seq<F>, i: int) -> bool { g.len() > 0 && forall|j: int| 0 <= j < g.len() ==> !((#[trigger] ascore(ts, g, lr, row, g.len() as int, j, i)) is NaN) }
pub open spec fn gscores(ts: Seq<Box<TreeNode<GradBoostLeaf>>>, g: Seq<F>, lr: F, row: Seq<F>, i: int) -> Seq<F> { Seq::new(g.len(), |j: int| gscore(ts, g, lr, row, j, i)) }
pub open spec fn ascores(ts: Seq<Box<TreeNode<AMGBoostLeaf>>>, g: Seq<F>, lr: F, row: Seq<F>, i: int) -> Seq<F> { Seq::new(g.len(), |j: int| ascore(ts, g, lr, row, g.len() as int, j, i)) }
// broadcast: lemma_marks_is
pub broadcast proof fn lemma_marks_is(v: Seq<F>, w: Seq<F>, r: Seq<F>, s: Seq<F>) requires v.len() == w.len(), forall|j: int| 0 <= j < v.len() ==> v[j] == w[j]
    ensures #![trigger marks_max(v, r), marks_max(w, s)] v == w { assert(v =~= w); }
