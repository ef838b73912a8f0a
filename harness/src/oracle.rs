//! What the properties say, computed the plain way.
use common::datasets::MultiTargetDataSet;
use common::question::Question;
use multi_target_decision_tree::leaf::Leaf;
use multi_target_decision_tree::node::TreeNode;
pub type R = Result<(), String>;
pub fn close(a: f64, b: f64, scale: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + scale.abs() + a.abs().max(b.abs())) || a == b }
pub fn vclose(a: &[f64], b: &[f64], scale: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, scale)) }
pub fn scale_of(l: &[&Vec<f64>]) -> f64 { let mut m = 0f64; for r in l { for x in r.iter() { m = m.max(x.abs()); } } m }
/// label variance summed over targets
pub fn variance(l: &[&Vec<f64>]) -> f64 {
    if l.is_empty() { return 0.0; }
    let n = l.len() as f64; let mut s = 0.0;
    for j in 0..l[0].len() {
        let m = l.iter().map(|r| r[j]).sum::<f64>() / n;
        s += l.iter().map(|r| (r[j] - m) * (r[j] - m)).sum::<f64>() / n;
    }
    s
}
/// reduction by `row[c] >= v`; None when a part is empty
pub fn reduction(vals: &[f64], labs: &[&Vec<f64>], v: f64) -> Option<f64> {
    let t: Vec<&Vec<f64>> = (0..vals.len()).filter(|i| vals[*i] >= v).map(|i| labs[i]).collect();
    let f: Vec<&Vec<f64>> = (0..vals.len()).filter(|i| !(vals[*i] >= v)).map(|i| labs[i]).collect();
    if t.is_empty() || f.is_empty() { return None; }
    let n = labs.len() as f64;
    Some(variance(labs) - variance(&t) * t.len() as f64 / n - variance(&f) * f.len() as f64 / n)
}
/// the best reduction over all columns and thresholds, computed along each column with running centred sums
pub fn best(cols: &[Vec<f64>], labs: &[&Vec<f64>]) -> f64 {
    let mut b = 0f64; let n = labs.len(); if n == 0 { return 0.0; }
    let k = labs[0].len();
    let mean: Vec<f64> = (0..k).map(|j| labs.iter().map(|r| r[j]).sum::<f64>() / n as f64).collect();
    for c in cols {
        let mut ix: Vec<usize> = (0..n).collect();
        ix.sort_by(|x, y| c[*x].partial_cmp(&c[*y]).unwrap());
        let mut left = vec![0f64; k];
        for p in 1..n {
            for j in 0..k { left[j] += labs[ix[p - 1]][j] - mean[j]; }
            if c[ix[p]] != c[ix[p - 1]] {
                // between-parts sum of squares over n
                let (a, z) = (p as f64, (n - p) as f64);
                let r: f64 = left.iter().map(|s| s * s / a + s * s / z).sum::<f64>() / n as f64;
                if r > b { b = r; }
            }
        }
    }
    b
}
pub fn tol(labs: &[&Vec<f64>]) -> f64 { let s = scale_of(labs); 1e-9 * (1e-3 + s * s) * (labs.get(0).map_or(1, |l| l.len()) as f64) }
pub fn leaf_at<'a, L: Leaf>(node: &'a TreeNode<L>, row: &[f64]) -> Result<&'a L, String> {
    match (&node.true_branch, &node.false_branch) {
        (None, None) => node.leaf.as_ref().ok_or_else(|| "a leaf without data".to_string()),
        (Some(t), Some(f)) => if row[node.question.column as usize] >= node.question.value { leaf_at(t, row) } else { leaf_at(f, row) },
        _ => Err("a node with one branch".into()),
    }
}
pub fn subset(d: &MultiTargetDataSet, ix: &[usize]) -> MultiTargetDataSet {
    crate::gen::table_of(ix.iter().map(|i| d.feature_rows[*i].clone()).collect(), ix.iter().map(|i| d.labels[*i].clone()).collect())
}
/// how the question at a node is judged
pub enum Judge<'a> { Search(&'a dyn Fn(&MultiTargetDataSet) -> (f64, u32, f64)), Best }
/// walks a tree along the rows that reach each node
pub fn walk<L: Leaf>(d: &MultiTargetDataSet, ix: &[usize], node: &TreeNode<L>, level: usize, max: usize, j: &Judge, at_leaf: &mut dyn FnMut(&[usize], &MultiTargetDataSet, &L) -> R) -> R {
    let s = subset(d, ix);
    let labs: Vec<&Vec<f64>> = s.labels.iter().collect();
    let here = format!("node at depth {} reached by rows {:?}", level, ix);
    if level > max { return Err(format!("{}: deeper than the maximum {}", here, max)); }
    let is_leaf = node.true_branch.is_none() && node.false_branch.is_none();
    if !is_leaf && (node.true_branch.is_none() || node.false_branch.is_none()) { return Err(format!("{}: only one branch", here)); }
    if is_leaf != node.leaf.is_some() { return Err(format!("{}: leaf data {} on {} node", here, if is_leaf { "missing" } else { "present" }, if is_leaf { "a leaf" } else { "an inner" })); }
    let (c, v) = (node.question.column as usize, node.question.value);
    match j {
        Judge::Search(f) => {
            let (gain, qc, qv) = f(&s);
            if is_leaf != (level == max || gain == 0.0) { return Err(format!("{}: {} although depth max is {} and the search's gain is {}", here, if is_leaf { "leaf" } else { "inner node" }, max, gain)); }
            if !is_leaf && (qc as usize != c || qv != v) { return Err(format!("{}: asks {} >= {}, the search says {} >= {}", here, c, v, qc, qv)); }
        }
        Judge::Best => {
            let b = best(&s.feature_columns, &labs); let t = tol(&labs);
            if is_leaf { if level < max && b > t { return Err(format!("{}: leaf although a question reduces the variance by {}", here, b)); } }
            else {
                if level >= max { return Err(format!("{}: inner node at the maximum depth {}", here, max)); }
                if c >= s.feature_columns.len() { return Err(format!("{}: asks feature {}", here, c)); }
                match reduction(&s.feature_columns[c], &labs, v) {
                    None => return Err(format!("{}: question {} >= {} leaves a part empty", here, c, v)),
                    Some(r) => if r < b - t || r < -t { return Err(format!("{}: question {} >= {} reduces by {}, the best one by {}", here, c, v, r, b)); },
                }
            }
        }
    }
    if is_leaf { return at_leaf(ix, &s, node.leaf.as_ref().unwrap()).map_err(|m| format!("{}: {}", here, m)); }
    let (t, f): (Vec<usize>, Vec<usize>) = ix.iter().partition(|i| d.feature_rows[**i][c] >= v);
    if t.is_empty() || f.is_empty() { return Err(format!("{}: question {} >= {} leaves a part empty", here, c, v)); }
    walk(d, &t, node.true_branch.as_ref().unwrap(), level + 1, max, j, at_leaf)?;
    walk(d, &f, node.false_branch.as_ref().unwrap(), level + 1, max, j, at_leaf)
}
pub fn q(c: usize, v: f64) -> Question { Question::new(c as u32, v) }
pub fn mean(l: &[Vec<f64>]) -> Vec<f64> { (0..l[0].len()).map(|j| l.iter().map(|r| r[j]).sum::<f64>() / l.len() as f64).collect() }
/// (value, reliable): the Newton step of one class
pub fn newton(l: &[Vec<f64>], j: usize) -> (f64, bool) {
    let k = l[0].len() as f64;
    let num: f64 = l.iter().map(|r| r[j]).sum(); let den: f64 = l.iter().map(|r| r[j].abs() * (1.0 - r[j].abs())).sum();
    let mag: f64 = l.iter().map(|r| r[j].abs() * (1.0 - r[j].abs()).abs()).sum();
    if mag == 0.0 { return (0.0, true); }
    if den == 0.0 { return (0.0, l.iter().all(|r| r[j] * 8.0 == (r[j] * 8.0).round())); }
    ((k - 1.0) / k * num / den, den.abs() > 1e-4 * mag && mag > 1e-9)
}
// the same for residuals known only up to rounding: sure only where that cannot matter
pub fn newton_rounded(l: &[Vec<f64>], j: usize) -> (f64, bool) {
    let (e, sure) = newton(l, j); let den: f64 = l.iter().map(|r| r[j].abs() * (1.0 - r[j].abs())).sum();
    (e, sure && den.abs() > 1e-4 * l.len() as f64)
}
pub fn softmax(v: &[f64]) -> Vec<f64> { let e: Vec<f64> = v.iter().map(|x| x.exp()).collect(); let s: f64 = e.iter().sum(); e.iter().map(|x| x / s).collect() }
pub fn argmax(v: &[f64]) -> usize { let mut b = 0; for i in 1..v.len() { if v[i] > v[b] { b = i; } } b }
pub fn onehot(i: usize, k: usize) -> Vec<f64> { let mut v = vec![0.0; k]; v[i] = 1.0; v }
