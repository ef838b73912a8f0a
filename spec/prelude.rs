// ---- numbers -------------------------------------------------------------------------------------------------------
// f64 idealised: real numbers, the two infinities, NaN; no rounding, no negative zero.
pub enum F { Fin(real), PInf, NInf, NaN }
pub enum Ord3 { Less, Equal, Greater }
pub enum Res<T> { ROk(T), RErr }
pub struct Str { pub id: int }
pub struct Opq { pub id: int }

pub open spec fn rv(a: F) -> real { a->Fin_0 }
pub open spec fn fneg(a: F) -> F { match a { F::Fin(x) => F::Fin(-x), F::PInf => F::NInf, F::NInf => F::PInf, F::NaN => F::NaN } }
pub open spec fn fadd(a: F, b: F) -> F {
    match (a, b) {
        (F::Fin(x), F::Fin(y)) => F::Fin(x + y),
        (F::NaN, _) => F::NaN, (_, F::NaN) => F::NaN,
        (F::PInf, F::NInf) => F::NaN, (F::NInf, F::PInf) => F::NaN,
        (F::PInf, _) => F::PInf, (_, F::PInf) => F::PInf,
        (F::NInf, _) => F::NInf, (_, F::NInf) => F::NInf,
    }
}
pub open spec fn fsub(a: F, b: F) -> F { fadd(a, fneg(b)) }
pub open spec fn inf_of(s: int) -> F { if s > 0 { F::PInf } else if s < 0 { F::NInf } else { F::NaN } }
pub open spec fn fsgn(a: F) -> int { match a { F::Fin(x) => if x > 0real { 1int } else if x < 0real { -1int } else { 0int }, F::PInf => 1int, F::NInf => -1int, F::NaN => 0int } }
pub open spec fn fmul(a: F, b: F) -> F {
    match (a, b) {
        (F::Fin(x), F::Fin(y)) => F::Fin(x * y),
        (F::NaN, _) => F::NaN, (_, F::NaN) => F::NaN,
        (_, _) => inf_of(fsgn(a) * fsgn(b)),
    }
}
// division by (positive) zero: x/0 is an infinity of x's sign, 0/0 is NaN
pub open spec fn fdiv(a: F, b: F) -> F {
    match (a, b) {
        (F::NaN, _) => F::NaN, (_, F::NaN) => F::NaN,
        (F::Fin(x), F::Fin(y)) => if y == 0real { inf_of(fsgn(a)) } else { F::Fin(x / y) },
        (F::Fin(x), _) => F::Fin(0real),
        (_, F::Fin(y)) => if y == 0real { a } else { inf_of(fsgn(a) * fsgn(b)) },
        (_, _) => F::NaN,
    }
}
pub open spec fn flt(a: F, b: F) -> bool {
    match (a, b) {
        (F::NaN, _) => false, (_, F::NaN) => false,
        (F::Fin(x), F::Fin(y)) => x < y,
        (F::Fin(_), F::PInf) => true, (F::NInf, F::Fin(_)) => true, (F::NInf, F::PInf) => true,
        (_, _) => false,
    }
}
pub open spec fn feq(a: F, b: F) -> bool { !(a is NaN) && a == b }
pub open spec fn fne(a: F, b: F) -> bool { !feq(a, b) }
pub open spec fn fle(a: F, b: F) -> bool { flt(a, b) || feq(a, b) }
pub open spec fn fgt(a: F, b: F) -> bool { flt(b, a) }
pub open spec fn fge(a: F, b: F) -> bool { fle(b, a) }
pub open spec fn fabs(a: F) -> F { match a { F::Fin(x) => F::Fin(if x < 0real { -x } else { x }), F::PInf => F::PInf, F::NInf => F::PInf, F::NaN => F::NaN } }
pub open spec fn fmax(a: F, b: F) -> F { if a is NaN { b } else if b is NaN { a } else if flt(a, b) { b } else { a } }
pub open spec fn fmin(a: F, b: F) -> F { if a is NaN { b } else if b is NaN { a } else if flt(b, a) { b } else { a } }
pub open spec fn fclamp(a: F, lo: F, hi: F) -> F { if flt(a, lo) { lo } else if flt(hi, a) { hi } else { a } }
pub open spec fn frecip(a: F) -> F { fdiv(F::Fin(1real), a) }
pub open spec fn fsignum(a: F) -> F { match a { F::NaN => F::NaN, _ => if fsgn(a) < 0 { F::Fin(-1real) } else { F::Fin(1real) } } }
pub open spec fn fis_nan(a: F) -> bool { a is NaN }
pub open spec fn fis_finite(a: F) -> bool { a is Fin }
pub open spec fn fis_infinite(a: F) -> bool { a is PInf || a is NInf }
pub open spec fn fis_sign_negative(a: F) -> bool { fsgn(a) < 0 }
pub open spec fn fis_sign_positive(a: F) -> bool { fsgn(a) >= 0 }
// exp is known to be positive and nothing else: the meaning it gets is any positive function
pub uninterp spec fn exp_any(a: real) -> real;
#[verifier::opaque] pub open spec fn rexp(a: real) -> real { if exp_any(a) > 0real { exp_any(a) } else { 1real } }
pub open spec fn fexp(a: F) -> F { match a { F::Fin(x) => F::Fin(rexp(x)), F::PInf => F::PInf, F::NInf => F::Fin(0real), F::NaN => F::NaN } }
pub uninterp spec fn frem(a: F, b: F) -> F;
pub uninterp spec fn fsqrt(a: F) -> F;
pub uninterp spec fn fln(a: F) -> F;
pub uninterp spec fn ffloor(a: F) -> F;
pub uninterp spec fn fceil(a: F) -> F;
pub uninterp spec fn fround(a: F) -> F;
pub uninterp spec fn ftrunc(a: F) -> F;
pub uninterp spec fn ftanh(a: F) -> F;
pub uninterp spec fn flog2(a: F) -> F;
pub uninterp spec fn flog10(a: F) -> F;
pub uninterp spec fn fexp2(a: F) -> F;
pub uninterp spec fn fexp_m1(a: F) -> F;
pub uninterp spec fn fln_1p(a: F) -> F;
pub uninterp spec fn fpowf(a: F, b: F) -> F;
pub uninterp spec fn fpowi(a: F, b: int) -> F;
pub uninterp spec fn fmax_r() -> real;
pub uninterp spec fn feps_r() -> real;
pub uninterp spec fn fminpos_r() -> real;
// saturating conversion of a float to an integer
pub open spec fn rtrunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
pub open spec fn f2i(a: F, lo: int, hi: int) -> int {
    match a { F::NaN => 0int, F::PInf => hi, F::NInf => lo, F::Fin(x) => if rtrunc(x) < lo { lo } else if rtrunc(x) > hi { hi } else { rtrunc(x) } }
}
pub uninterp spec fn round32(a: F) -> F;      // rounding to single precision
pub open spec fn wrap(x: int, lo: int, hi: int) -> int { if lo <= x <= hi { x } else { lo + (x - lo) % (hi - lo + 1) } }
pub open spec fn idiv(a: int, b: int) -> int { if (a >= 0) == (b > 0) { (if a >= 0 { a } else { -a }) / (if b > 0 { b } else { -b }) } else { -((if a >= 0 { a } else { -a }) / (if b > 0 { b } else { -b })) } }
pub open spec fn irem(a: int, b: int) -> int { a - b * idiv(a, b) }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imax0(a: int) -> int { if a >= 0 { a } else { 0 } }
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
// ---- order ---------------------------------------------------------------------------------------------------------
pub open spec fn icmp(a: int, b: int) -> Ord3 { if a < b { Ord3::Less } else if a == b { Ord3::Equal } else { Ord3::Greater } }
pub open spec fn ord_then(a: Ord3, b: Ord3) -> Ord3 { if a is Equal { b } else { a } }
pub open spec fn ord_rev(a: Ord3) -> Ord3 { match a { Ord3::Less => Ord3::Greater, Ord3::Equal => Ord3::Equal, Ord3::Greater => Ord3::Less } }
pub open spec fn fpcmp(a: F, b: F) -> Option<Ord3> { if flt(a, b) { Some(Ord3::Less) } else if feq(a, b) { Some(Ord3::Equal) } else if flt(b, a) { Some(Ord3::Greater) } else { None } }
pub open spec fn pord_then(a: Option<Ord3>, b: Option<Ord3>) -> Option<Ord3> { if a == Some(Ord3::Equal) { b } else { a } }
pub open spec fn ftcmp(a: F, b: F) -> Ord3 { if a is NaN && b is NaN { Ord3::Equal } else if a is NaN { Ord3::Greater } else if b is NaN { Ord3::Less } else if flt(a, b) { Ord3::Less } else if a == b { Ord3::Equal } else { Ord3::Greater } }
// ---- sequences -----------------------------------------------------------------------------------------------------
pub open spec fn veq(a: Seq<F>, b: Seq<F>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] feq(a[i], b[i]) }
pub open spec fn vveq(a: Seq<Seq<F>>, b: Seq<Seq<F>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] veq(a[i], b[i]) }
pub open spec fn splice<A>(s: Seq<A>, at: int, t: Seq<A>) -> Seq<A> { Seq::new(s.len(), |i: int| if at <= i < at + t.len() { t[i - at] } else { s[i] }) }
pub uninterp spec fn sort_by_fn<A>(s: Seq<A>, le: spec_fn(A, A) -> bool) -> Seq<A>;
pub uninterp spec fn sort_perm<A>(s: Seq<A>, le: spec_fn(A, A) -> bool) -> Seq<int>;
// r is s rearranged: r[i] = s[p[i]], p a permutation with inverse q
pub uninterp spec fn perm_inv(p: Seq<int>) -> Seq<int>;
pub open spec fn sort_result<A>(s: Seq<A>, r: Seq<A>, p: Seq<int>) -> bool {
    r.len() == s.len() && p.len() == s.len() && perm_inv(p).len() == s.len()
    && (forall|i: int| #![trigger p[i]] #![trigger r[i]] 0 <= i < s.len() ==> 0 <= p[i] < s.len() && perm_inv(p)[p[i]] == i && r[i] == s[p[i]])
    && (forall|j: int| 0 <= j < s.len() ==> 0 <= #[trigger] perm_inv(p)[j] < s.len() && p[perm_inv(p)[j]] == j)
}
// ---- strings and the csv crate -------------------------------------------------------------------------------------
pub uninterp spec fn str_lit(i: int) -> Str;
pub uninterp spec fn str_any() -> Str;
pub uninterp spec fn str_cat(a: Str, b: Str) -> Str;
pub uninterp spec fn ext_open(p: Str) -> Res<Opq>;
pub uninterp spec fn ext_reader(f: Opq) -> Opq;
pub uninterp spec fn ext_rows(r: Opq) -> Seq<Res<Seq<F>>>;
pub uninterp spec fn ext_headers(r: Opq) -> Res<Seq<Str>>;
pub uninterp spec fn ext_hlen(r: Opq) -> int;
pub uninterp spec fn ext_hget(r: Opq, i: int) -> Option<Str>;
#[verifier::external_body]
pub proof fn havoc<T>() -> (r: T) { unimplemented!() }

pub broadcast proof fn lemma_fadd_comm(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a) { }
pub broadcast proof fn lemma_fmul_comm(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a) {
    if let F::Fin(x) = a { if let F::Fin(y) = b { assert(x * y == y * x) by(nonlinear_arith); } }
    assert(fsgn(a) * fsgn(b) == fsgn(b) * fsgn(a)) by(nonlinear_arith);
}
pub broadcast proof fn lemma_fmul_zero(a: F, b: F) requires a is Fin, b == F::Fin(0real) ensures #[trigger] fmul(a, b) == F::Fin(0real) { if let F::Fin(x) = a { assert(x * 0real == 0real) by(nonlinear_arith); } }
