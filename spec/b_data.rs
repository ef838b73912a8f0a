// ---- tables --------------------------------------------------------------------------------------------------------
// records of the table stored at a path, in file order (the csv crate is trusted to parse it)
pub open spec fn records(p: Str) -> Seq<Res<Seq<F>>> { ext_rows(ext_reader(ext_open(p)->ROk_0)) }
pub open spec fn rec(p: Str, i: int) -> Seq<F> { records(p)[i]->ROk_0 }
pub open spec fn is_onehot(s: Seq<F>, c: int, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == (if i == c { F::Fin(1real) } else { F::Fin(0real) }) }
// the index a label value stands for
pub open spec fn class_index(x: F) -> int { f2i(x, 0, 18446744073709551615) }
// column view of rows
pub open spec fn columns_of(rows: Seq<Seq<F>>, cols: Seq<Seq<F>>) -> bool {
    cols.len() == rows[0].len()
    && (forall|c: int| 0 <= c < cols.len() ==> (#[trigger] cols[c]).len() == rows.len())
    && (forall|c: int, r: int| 0 <= c < cols.len() && 0 <= r < rows.len() ==> #[trigger] cols[c][r] == rows[r][c])
}
pub open spec fn transpose(rows: Seq<Seq<F>>) -> Seq<Seq<F>> { Seq::new(rows[0].len(), |c: int| Seq::new(rows.len(), |r: int| rows[r][c])) }
// ---- dividing rows by a question -------------------------------------------------------------------------------------
pub open spec fn says(row: Seq<F>, c: int, v: F) -> bool { fge(row[c], v) }
// the entries xs[i] (i < k) whose row answers `want`, in order
pub open spec fn sel<A>(rows: Seq<Seq<F>>, c: int, v: F, want: bool, xs: Seq<A>, k: int) -> Seq<A> decreases k {
    if k <= 0 { Seq::empty() } else if says(rows[k - 1], c, v) == want { sel(rows, c, v, want, xs, k - 1).push(xs[k - 1]) } else { sel(rows, c, v, want, xs, k - 1) }
}
pub open spec fn part_rows(d: MultiTargetDataSet, q: Question, want: bool) -> Seq<Seq<F>> { sel(d.feature_rows, q.column, q.value, want, d.feature_rows, d.feature_rows.len() as int) }
pub open spec fn part_labels(d: MultiTargetDataSet, q: Question, want: bool) -> Seq<Seq<F>> { sel(d.feature_rows, q.column, q.value, want, d.labels, d.feature_rows.len() as int) }
pub open spec fn part(d: MultiTargetDataSet, q: Question, want: bool) -> MultiTargetDataSet {
    MultiTargetDataSet { feature_rows: part_rows(d, q, want), feature_columns: transpose(part_rows(d, q, want)), labels: part_labels(d, q, want) }
}
// ---- presorted columns -----------------------------------------------------------------------------------------------
pub open spec fn pair_before(a: (F, int), b: (F, int)) -> bool { flt(a.0, b.0) || (feq(a.0, b.0) && a.1 < b.1) }
pub open spec fn ascending(c: Seq<(F, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> pair_before(#[trigger] c[i], #[trigger] c[j]) }
pub open spec fn sorted_column(col: Seq<F>, r: Seq<(F, int)>) -> bool {
    r.len() == col.len() && ascending(r)
    && (forall|i: int| 0 <= i < r.len() ==> 0 <= (#[trigger] r[i]).1 < col.len() && r[i].0 == col[r[i].1])
    && (forall|j: int| 0 <= j < col.len() ==> #[trigger] has_sample(r, j))
}
pub open spec fn no_nan(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]) is NaN) }
pub open spec fn has_sample(r: Seq<(F, int)>, j: int) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 == j }
// broadcast: lemma_sorted_has
pub broadcast proof fn lemma_sorted_has(s: Seq<(F, int)>, r: Seq<(F, int)>, p: Seq<int>, j: int)
    requires #[trigger] sort_result(s, r, p), 0 <= j < s.len(), s[j].1 == j ensures #[trigger] has_sample(r, j)
{ assert(r[perm_inv(p)[j]].1 == j); }
// sample i occurs among the first k entries / with a value >= v
pub open spec fn in_col(col: Seq<(F, int)>, k: int, i: int) -> bool { exists|p: int| 0 <= p < k && (#[trigger] col[p]).1 == i }
pub open spec fn in_true(col: Seq<(F, int)>, v: F, k: int, i: int) -> bool { exists|p: int| 0 <= p < k && (#[trigger] col[p]).1 == i && fge(col[p].0, v) }
pub open spec fn in_false(col: Seq<(F, int)>, v: F, k: int, i: int) -> bool { exists|p: int| 0 <= p < k && (#[trigger] col[p]).1 == i && !fge(col[p].0, v) }
pub open spec fn val_sorted(c: Seq<(F, int)>) -> bool { forall|i: int, j: int| 0 <= i <= j < c.len() ==> fle((#[trigger] c[i]).0, (#[trigger] c[j]).0) }
// labels of the samples on the wanted side, in sample order
pub open spec fn lsel(labels: Seq<Seq<F>>, col: Seq<(F, int)>, v: F, want: bool, k: int) -> Seq<Seq<F>> decreases k {
    if k <= 0 { Seq::empty() }
    else if in_col(col, col.len() as int, k - 1) && in_true(col, v, col.len() as int, k - 1) == want { lsel(labels, col, v, want, k - 1).push(labels[k - 1]) }
    else { lsel(labels, col, v, want, k - 1) }
}
// the pairs of column c on the wanted side, in order
pub open spec fn csel(c: Seq<(F, int)>, col: Seq<(F, int)>, v: F, want: bool, k: int) -> Seq<(F, int)> decreases k {
    if k <= 0 { Seq::empty() }
    else if in_true(col, v, col.len() as int, c[k - 1].1) == want { csel(c, col, v, want, k - 1).push(c[k - 1]) }
    else { csel(c, col, v, want, k - 1) }
}
pub open spec fn spart(d: MultiTargetDataSetSortedFeatures, all: Seq<Seq<F>>, c: int, v: F, want: bool) -> MultiTargetDataSetSortedFeatures {
    MultiTargetDataSetSortedFeatures {
        labels: lsel(all, d.sorted_feature_columns[c], v, want, all.len() as int),
        sorted_feature_columns: Seq::new(d.sorted_feature_columns.len(), |j: int| csel(d.sorted_feature_columns[j], d.sorted_feature_columns[c], v, want, d.sorted_feature_columns[j].len() as int)),
    }
}
