//! Inputs: small tables with many ties, a few larger ones.
use common::datasets::MultiTargetDataSet;
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, k: usize) -> bool { self.below(k) == 0 }
    pub fn unit(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.below(s.len())] }
}
/// one number of a family
pub fn value(g: &mut Rng, kind: usize) -> f64 {
    match kind {
        0 => g.below(2) as f64,
        1 => g.below(4) as f64,
        2 => g.below(7) as f64 - 3.0,
        3 => (g.below(17) as f64 - 8.0) / 2.0,
        4 => g.below(40) as f64,
        5 => g.unit() * 20.0 - 10.0,
        6 => 1.0 + g.below(4) as f64 * 1e-10,
        7 => (g.below(9) as f64 - 4.0) * 1e6,
        8 => -(g.below(9) as f64) - 0.25,
        9 => (g.below(9) as f64 - 4.0) * 1e-4,
        10 => g.pick(&[0.0, -0.0, 1.0, -1.0, 0.5]),
        11 => (g.below(300)) as f64,
        12 => 1e8 + g.below(5) as f64,
        _ => 5.0,
    }
}
pub const NKIND: usize = 13;
pub fn columns_of(rows: &Vec<Vec<f64>>, c: usize) -> Vec<Vec<f64>> { (0..c).map(|j| rows.iter().map(|r| r[j]).collect()).collect() }
pub fn size(g: &mut Rng) -> usize {
    match g.below(20) { 0 => 1, 1..=3 => 2, 4..=6 => 3, 7..=9 => 4, 10..=15 => g.range(5, 12), 16..=18 => g.range(10, 40), _ => g.range(40, 300) }
}
pub fn features(g: &mut Rng, n: usize, c: usize) -> Vec<Vec<f64>> {
    let kinds: Vec<usize> = (0..c).map(|_| if g.chance(6) { 99 } else { g.below(NKIND) }).collect();
    let mut rows: Vec<Vec<f64>> = (0..n).map(|_| kinds.iter().map(|k| value(g, *k)).collect()).collect();
    match g.below(8) {
        0 => { for i in 1..n { if g.chance(2) { let j = g.below(i); rows[i] = rows[j].clone(); } } }
        1 => { if c > 0 { let j = g.below(c); rows.sort_by(|a, b| a[j].partial_cmp(&b[j]).unwrap()); } }
        2 => { if c > 0 { let j = g.below(c); rows.sort_by(|a, b| b[j].partial_cmp(&a[j]).unwrap()); } }
        _ => {}
    }
    rows
}
#[derive(Clone, Copy, PartialEq)]
pub enum Lab { OneHot, Real, Residual, Any }
pub fn labels(g: &mut Rng, n: usize, k: usize, lab: Lab) -> Vec<Vec<f64>> {
    let lab = if lab == Lab::Any { g.pick(&[Lab::OneHot, Lab::Real, Lab::Real]) } else { lab };
    match lab {
        Lab::OneHot => { let skew = g.chance(3); (0..n).map(|_| { let mut v = vec![0.0; k]; let i = if skew && !g.chance(4) { 0 } else { g.below(k) }; v[i] = 1.0; v }).collect() }
        Lab::Residual => { let t = g.below(4); (0..n).map(|_| (0..k).map(|_| match t { 0 => g.pick(&[0.0, 1.0, -1.0]), 1 => (g.below(17) as f64 - 8.0) / 8.0, 2 => g.unit() * 2.0 - 1.0, _ => (g.below(33) as f64 - 16.0) / 8.0 }).collect()).collect() }
        _ => { let kinds: Vec<usize> = (0..k).map(|_| { let x = g.pick(&[0, 1, 2, 3, 4, 5, 5, 7, 8, 9, 99]); x }).collect(); (0..n).map(|_| kinds.iter().map(|t| value(g, *t)).collect()).collect() }
    }
}
pub fn table_of(rows: Vec<Vec<f64>>, labels: Vec<Vec<f64>>) -> MultiTargetDataSet {
    let c = rows.get(0).map_or(0, |r| r.len());
    MultiTargetDataSet { feature_columns: columns_of(&rows, c), feature_rows: rows, labels }
}
pub fn table(g: &mut Rng, kmin: usize, lab: Lab) -> MultiTargetDataSet {
    let n = size(g); let c = if g.chance(15) { g.range(5, 12) } else { g.range(1, 4) }; let k = if g.chance(12) { g.range(kmin.max(5), 12) } else { g.range(kmin, 4) };
    let rows = features(g, n, c); let l = labels(g, n, k, lab);
    table_of(rows, l)
}
/// a threshold next to the values of a column
pub fn threshold(g: &mut Rng, col: &[f64]) -> f64 {
    let v = if col.is_empty() { 0.0 } else { col[g.below(col.len())] };
    match g.below(6) { 0..=2 => v, 3 => v + 0.25, 4 => v - 0.25, _ => g.pick(&[0.0, 1e9, -1e9, 0.5]) }
}
/// rows to look up: rows of the table, rows with values at and around the values of the table
pub fn probe(g: &mut Rng, d: &MultiTargetDataSet) -> Vec<f64> {
    let r = d.feature_rows[g.below(d.feature_rows.len())].clone();
    if g.chance(3) { return r; }
    (0..r.len()).map(|j| if g.chance(2) { r[j] } else { threshold(g, &d.feature_columns[j]) }).collect()
}
