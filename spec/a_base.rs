pub open spec fn rect(m: Seq<Seq<F>>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).len() == m[0].len() }
// sum of the first k entries of column j
pub open spec fn colsum(m: Seq<Seq<F>>, j: int, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(colsum(m, j, k - 1), m[k - 1][j]) } }
pub open spec fn sqdiff(a: Seq<F>, b: Seq<F>, k: int) -> F decreases k { if k <= 0 { F::Fin(0real) } else { fadd(sqdiff(a, b, k - 1), fmul(fsub(a[k - 1], b[k - 1]), fsub(a[k - 1], b[k - 1]))) } }
pub broadcast proof fn lemma_fadd_fin(a: real, b: real) ensures #[trigger] fadd(F::Fin(a), F::Fin(b)) == F::Fin(a + b) { }
pub broadcast proof fn lemma_fsub_fin(a: real, b: real) ensures #[trigger] fsub(F::Fin(a), F::Fin(b)) == F::Fin(a - b) { }
pub broadcast proof fn lemma_fsub_inf(a: real) ensures #[trigger] fsub(F::Fin(a), F::PInf) == F::NInf { }
