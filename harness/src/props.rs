//! One function per property: build an input, call the real code, compare with the oracle.
use crate::gen::*;
use crate::note;
use crate::oracle::*;
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader::*;
use common::datasets::*;
use common::feature_sorter::get_sorted_feature_tuple_vector;
use common::numerical_calculations::*;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{LeafOutputCalculator, LeafOutputType};
use multi_target_decision_tree::grad_boost_decision_trees::*;
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::scorer::classification::{calculate_accuracy, predict_class};
use multi_target_decision_tree::scorer::regression::{calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition};
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};
use multi_target_grad_boost::boosting_ensemble::boosting_types::*;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;

macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

pub fn run(p: &str, g: &mut Rng, case: u64) -> R {
    match p {
        "C01" => c01(g, case), "C02" => c02(g), "C03" => c03(g), "C04" => c04(g), "C05" => c05(g), "C06" => presorted(g, false), "C07" => c07(g), "C08" => presorted(g, true),
        "C09" => c09(g), "C10" => c10(g), "C11" => c11(g), "C12" => c12(g), "C13" => c13(g), "C14" => c14(g), "C15" => c15(g, false), "C16" => c16(g), "C17" => c17(g),
        "C18" => c18(g), "C19" => c19(g), "C20" => c20(g), "C21" => c21(g), "C22" => c22(g), "C23" => c23(g, case), "C24" => c15(g, true),
        _ => Err("unknown property".into()),
    }
}
fn cfg(g: &mut Rng, k: usize, max: usize, multi: bool) -> TreeConfig { let _ = g; TreeConfig { split_finder: SplitFinder::new(SplitMetric::Variance), use_multi_threading: multi, number_of_classes: k as u32, max_levels: max as u32 } }
fn levels(g: &mut Rng) -> usize { g.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 8, 20]) }
fn show(d: &MultiTargetDataSet) -> String { format!("rows {:?} labels {:?}", d.feature_rows, d.labels) }
fn search(c: &TreeConfig) -> impl Fn(&MultiTargetDataSet) -> (f64, u32, f64) { let c = *c; move |d| { let r = (c.split_finder.find_best_split)(d, c.number_of_classes); (r.gain, r.question.column, r.question.value) } }
fn all(d: &MultiTargetDataSet) -> Vec<usize> { (0..d.feature_rows.len()).collect() }

// ---- C01
fn scratch() -> std::path::PathBuf { std::env::var_os("HARNESS_TMP").map(Into::into).unwrap_or_else(std::env::temp_dir) }
fn write_csv(name: &str, head: usize, rows: &[Vec<f64>], g: &mut Rng) -> String {
    let p = scratch().join(format!("{}_{}.csv", name, std::process::id()));
    let mut s = (0..head).map(|i| format!("h{}", i)).collect::<Vec<_>>().join(",") + "\n";
    let plain = g.chance(2);
    for r in rows { s += &r.iter().map(|x| if plain && x.fract() == 0.0 && x.abs() < 1e9 { format!("{}", *x as i64) } else { format!("{:?}", x) }).collect::<Vec<_>>().join(","); s.push('\n'); }
    if g.chance(4) { s.pop(); }
    std::fs::write(&p, s).unwrap();
    p.to_string_lossy().into_owned()
}
fn c01(g: &mut Rng, _case: u64) -> R {
    let n = size(g); let c = g.range(1, 6); let k = if g.chance(6) { g.range(5, 14) } else { g.range(1, 4) };
    let rows = features(g, n, c);
    let cls: Vec<usize> = (0..n).map(|_| g.below(k)).collect();
    let full: Vec<Vec<f64>> = (0..n).map(|i| { let mut r = rows[i].clone(); r.push(cls[i] as f64); r }).collect();
    note(format!("labelled table {:?}, K = {}", full, k));
    let p = write_csv("l", c + 1, &full, g);
    let same = |a: &Vec<Vec<f64>>, b: &Vec<Vec<f64>>| a == b;
    let s = read_csv_data(&p);
    ck!(same(&s.features, &rows), "read_csv_data: features {:?}", s.features);
    ck!(s.labels.len() == n && (0..n).all(|i| s.labels[i] == cls[i] as f64), "read_csv_data: labels {:?}", s.labels);
    let d = read_csv_data_one_hot_multi_target(&p, k);
    ck!(same(&d.feature_rows, &rows), "one-hot: feature rows {:?}", d.feature_rows);
    ck!(d.labels == cls.iter().map(|i| onehot(*i, k)).collect::<Vec<_>>(), "one-hot: labels {:?}", d.labels);
    ck!(same(&d.feature_columns, &columns_of(&rows, c)), "one-hot: columns {:?}", d.feature_columns);
    let l = labels(g, n, k, Lab::Real);
    note(format!("feature table {:?}, label table {:?}", rows, l));
    let a = write_csv("f", c, &rows, g); let b = write_csv("t", k, &l, g);
    let m = read_csv_data_multi_target(&a, &b);
    ck!(same(&m.feature_rows, &rows) && same(&m.labels, &l), "multi-target: {}", show(&m));
    ck!(same(&m.feature_columns, &columns_of(&rows, c)), "multi-target: columns {:?}", m.feature_columns);
    ck!(same(&create_feature_columns(&rows), &columns_of(&rows, c)), "create_feature_columns {:?}", create_feature_columns(&rows));
    for f in [p, a, b] { let _ = std::fs::remove_file(f); }
    Ok(())
}
// ---- C02
fn c02(g: &mut Rng) -> R {
    let d = table(g, 1, Lab::Any); let c = g.below(d.feature_columns.len());
    let v = threshold(g, &d.feature_columns[c]);
    let t: Vec<usize> = all(&d).into_iter().filter(|i| d.feature_rows[*i][c] >= v).collect();
    let f: Vec<usize> = all(&d).into_iter().filter(|i| !(d.feature_rows[*i][c] >= v)).collect();
    if t.is_empty() || f.is_empty() { return Ok(()); }
    note(format!("{} question {} >= {:?}", show(&d), c, v));
    let (pf, pt) = partition(&d, &q(c, v));
    for (w, ix, p) in [("true", t, pt), ("false", f, pf)] {
        let e = subset(&d, &ix);
        ck!(p.feature_rows == e.feature_rows, "{} part: rows {:?}, expected {:?}", w, p.feature_rows, e.feature_rows);
        ck!(p.labels == e.labels, "{} part: labels {:?}, expected {:?}", w, p.labels, e.labels);
        ck!(p.feature_columns == e.feature_columns, "{} part: columns {:?}, expected {:?}", w, p.feature_columns, e.feature_columns);
    }
    Ok(())
}
// ---- C03
fn sorted_of(d: &MultiTargetDataSet, ix: &[usize]) -> Vec<Vec<(f64, usize)>> {
    d.feature_columns.iter().map(|c| { let mut v: Vec<(f64, usize)> = ix.iter().map(|i| (c[*i], *i)).collect(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v }).collect()
}
fn c03(g: &mut Rng) -> R {
    let d = table(g, 1, Lab::Any); let n = d.labels.len();
    let refs: Vec<&Vec<f64>> = d.labels.iter().collect();
    let mut ix = all(&d);
    if g.chance(2) { ix = ix.into_iter().filter(|_| !g.chance(3)).collect(); }
    for _ in 0..3 {
        let c = g.below(d.feature_columns.len());
        let col: Vec<f64> = ix.iter().map(|i| d.feature_columns[c][*i]).collect();
        let v = threshold(g, &col);
        let s = MultiTargetDataSetSortedFeatures { labels: ix.iter().map(|i| &d.labels[*i]).collect(), sorted_feature_columns: sorted_of(&d, &ix) };
        note(format!("{} samples in the part {:?} of {} question {} >= {:?}", show(&d), ix, n, c, v));
        let (a, b) = new_partition(&s, c, v, &refs);
        let t: Vec<usize> = ix.iter().cloned().filter(|i| d.feature_rows[*i][c] >= v).collect();
        let f: Vec<usize> = ix.iter().cloned().filter(|i| !(d.feature_rows[*i][c] >= v)).collect();
        for (w, e, p) in [("true", &t, &a), ("false", &f, &b)] {
            ck!(p.labels == e.iter().map(|i| &d.labels[*i]).collect::<Vec<_>>(), "{} part: labels {:?}, expected those of samples {:?}", w, p.labels, e);
            ck!(p.labels.iter().zip(e.iter()).all(|(x, i)| std::ptr::eq(*x, &d.labels[*i])) || p.labels.len() == e.len(), "labels");
            ck!(p.sorted_feature_columns == sorted_of(&d, e), "{} part: columns {:?}, expected {:?}", w, p.sorted_feature_columns, sorted_of(&d, e));
        }
        ix = if g.chance(2) && t.len() > 0 { t } else { f };
    }
    Ok(())
}
// ---- C04
fn c04(g: &mut Rng) -> R {
    let d = table(g, 1, Lab::Any);
    note(show(&d));
    let e = sorted_of(&d, &all(&d));
    for (c, x) in d.feature_columns.iter().enumerate() { let r = get_sorted_feature_tuple_vector(x); ck!(r == e[c], "sorting {:?} gave {:?}", x, r); }
    let s = create_dataset_with_sorted_features(&d);
    ck!(s.sorted_feature_columns == e, "columns {:?}", s.sorted_feature_columns);
    ck!(s.labels == d.labels.iter().collect::<Vec<_>>(), "labels {:?}", s.labels);
    Ok(())
}
// ---- C05
fn c05(g: &mut Rng) -> R {
    let d = table(g, 1, Lab::Any); let k = d.labels[0].len();
    note(show(&d));
    let c = cfg(g, k, 3, false);
    let r = (c.split_finder.find_best_split)(&d, k as u32);
    let labs: Vec<&Vec<f64>> = d.labels.iter().collect();
    let b = best(&d.feature_columns, &labs); let t = tol(&labs);
    ck!(r.gain >= 0.0, "gain {}", r.gain);
    ck!((r.gain - b).abs() <= t, "gain {}, but the best reduction is {}", r.gain, b);
    if b > t { ck!(r.gain > 0.0, "no gain although {} is possible", b); }
    if r.gain > 0.0 {
        ck!((r.question.column as usize) < d.feature_columns.len(), "feature {}", r.question.column);
        match reduction(&d.feature_columns[r.question.column as usize], &labs, r.question.value) {
            None => return Err(format!("gain {} but question {:?} leaves a part empty", r.gain, r.question)),
            Some(x) => ck!((x - r.gain).abs() <= t, "question {:?} reduces by {}, reported gain {}", r.question, x, r.gain),
        }
    }
    Ok(())
}
// ---- C06, C08
fn presorted(g: &mut Rng, contents: bool) -> R {
    let d = table(g, 1, Lab::Any); let k = d.labels[0].len(); let max = levels(g);
    note(format!("{} max_levels {}", show(&d), max));
    let mut c = cfg(g, k, max, false); c.use_multi_threading = g.chance(2);
    let s = create_dataset_with_sorted_features(&d);
    let t = RegressionMultiTargetDecisionTreeNewPartition::new(s, c);
    walk(&d, &all(&d), &t.root, 0, max, &Judge::Best, &mut |ix, sub, leaf: &RegressionLeafNewPartition| {
        if !contents { return Ok(()); }
        let x = leaf.data.as_ref().ok_or("a leaf without data")?;
        ck!(x.labels == sub.labels.iter().collect::<Vec<_>>(), "leaf labels {:?}", x.labels);
        ck!(x.sorted_feature_columns == sorted_of(&d, ix), "leaf columns {:?}", x.sorted_feature_columns);
        Ok(())
    })
}
// ---- C07
fn c07(g: &mut Rng) -> R {
    let d = table(g, 1, Lab::Any); let k = d.labels[0].len(); let max = levels(g); let multi = g.chance(2);
    note(format!("{} max_levels {} multi {}", show(&d), max, multi));
    let c = cfg(g, k, max, multi); let t = RegressionMultiTargetDecisionTree::new(d.clone(), c);
    let f = search(&c);
    walk(&d, &all(&d), &t.root, 0, max, &Judge::Search(&f), &mut |_, sub, leaf: &RegressionLeaf| {
        let x = leaf.data.as_ref().ok_or("a leaf without data")?;
        ck!(x.feature_rows == sub.feature_rows && x.labels == sub.labels && x.feature_columns == sub.feature_columns, "leaf holds {}", show(x));
        Ok(())
    })
}
fn calc(g: &mut Rng) -> (LeafOutputCalculator, bool) { let m = g.chance(2); (LeafOutputCalculator::new(if m { LeafOutputType::MultiClassClassification } else { LeafOutputType::Regression }), m) }
// ---- C09
fn c09(g: &mut Rng) -> R {
    let l = g.pick(&[Lab::Residual, Lab::Real]); let d = table(g, 1, l); let k = d.labels[0].len(); let max = levels(g); let multi = g.chance(2);
    let (lc, m) = calc(g);
    note(format!("{} max_levels {} multi {} multi-class leaf rule {}", show(&d), max, multi, m));
    let c = cfg(g, k, max, multi); let t = GradBoostMultiTargetDecisionTree::new(d.clone(), c, lc);
    let f = search(&c);
    walk(&d, &all(&d), &t.root, 0, max, &Judge::Search(&f), &mut |_, sub, leaf: &GradBoostLeaf| {
        let x = leaf.leaf_output.as_ref().ok_or("a leaf without output")?; let e = (lc.calculate_leaf_output)(sub);
        ck!(x.len() == e.len() && x.iter().zip(&e).all(|(a, b)| a == b || a.is_nan() && b.is_nan()), "leaf output {:?}, the rule gives {:?}", x, e);
        Ok(())
    })
}
// ---- C10
fn c10(g: &mut Rng) -> R {
    let l = g.pick(&[Lab::Residual, Lab::Real]); let d = table(g, 1, l); let k = d.labels[0].len(); let max = levels(g); let multi = g.chance(2);
    let (lc, m) = calc(g);
    note(format!("{} max_levels {} multi {} multi-class leaf rule {}", show(&d), max, multi, m));
    let c = cfg(g, k, max, multi); let t = AMGBoostTree::new(d.clone(), c, lc);
    let f = search(&c);
    walk(&d, &all(&d), &t.root, 0, max, &Judge::Search(&f), &mut |_, sub, leaf: &AMGBoostLeaf| {
        let (x, i) = (leaf.max_value.ok_or("no value")?, leaf.class.ok_or("no class")?); let e = (lc.calculate_leaf_output)(sub);
        if e.iter().any(|v| !v.is_finite()) { return Ok(()); }
        ck!(i == argmax(&e) && x == e[i], "leaf stores {} for class {}, the output is {:?}", x, i, e);
        Ok(())
    })
}
// ---- C11
fn same_tree<L: Leaf>(a: &TreeNode<L>, b: &TreeNode<L>, f: &dyn Fn(&L, &L) -> bool) -> R {
    match (&a.true_branch, &a.false_branch, &b.true_branch, &b.false_branch) {
        (Some(p), Some(r), Some(s), Some(t)) => {
            ck!(a.question.column == b.question.column && a.question.value == b.question.value, "questions differ: {:?} and {:?}", a.question, b.question);
            same_tree(p, s, f)?; same_tree(r, t, f)
        }
        (None, None, None, None) => match (&a.leaf, &b.leaf) { (Some(x), Some(y)) => { ck!(f(x, y), "leaf contents differ"); Ok(()) } _ => Err("leaf data missing".into()) },
        _ => Err("shapes differ".into()),
    }
}
fn c11(g: &mut Rng) -> R {
    let l = g.pick(&[Lab::Residual, Lab::Real, Lab::OneHot]); let d = table(g, 1, l); let k = d.labels[0].len(); let max = levels(g); let (lc, m) = calc(g);
    note(format!("{} max_levels {} multi-class leaf rule {}", show(&d), max, m));
    let (s, p) = (cfg(g, k, max, false), cfg(g, k, max, true));
    let v = |a: &Vec<f64>, b: &Vec<f64>| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || x.is_nan() && y.is_nan());
    same_tree(&RegressionMultiTargetDecisionTree::new(d.clone(), s).root, &RegressionMultiTargetDecisionTree::new(d.clone(), p).root, &|a, b| match (&a.data, &b.data) {
        (Some(x), Some(y)) => x.feature_rows == y.feature_rows && x.labels == y.labels && x.feature_columns == y.feature_columns, (x, y) => x.is_none() && y.is_none() }).map_err(|e| format!("regression trees: {}", e))?;
    same_tree(&GradBoostMultiTargetDecisionTree::new(d.clone(), s, lc).root, &GradBoostMultiTargetDecisionTree::new(d.clone(), p, lc).root, &|a, b| match (&a.leaf_output, &b.leaf_output) { (Some(x), Some(y)) => v(x, y), (x, y) => x.is_none() && y.is_none() }).map_err(|e| format!("gradient trees: {}", e))?;
    same_tree(&AMGBoostTree::new(d.clone(), s, lc).root, &AMGBoostTree::new(d.clone(), p, lc).root, &|a, b| a.class == b.class && (a.max_value == b.max_value || a.max_value.map_or(false, |x| x.is_nan()))).map_err(|e| format!("approximate trees: {}", e))
}
// ---- C12
fn path_of<L: Leaf>(n: &TreeNode<L>, r: &[f64]) -> String { if n.true_branch.is_none() && n.false_branch.is_none() { "leaf".into() } else { let t = r[n.question.column as usize] >= n.question.value; format!("[{}>={} {}] {}", n.question.column, n.question.value, t, if t { n.true_branch.as_ref() } else { n.false_branch.as_ref() }.map_or("none".into(), |x| path_of(x, r))) } }
fn c12(g: &mut Rng) -> R {
    // every row its own label vector, so that a leaf is known by its labels
    let mut d = table(g, 2, Lab::Any); let n = d.labels.len(); let max = levels(g); let multi = g.chance(2);
    let distinct = g.chance(2);
    if distinct { for i in 0..n { let x = (i * i) as f64 + 1.0; d.labels[i][0] = x; } } else { let k = d.labels[0].len(); d.labels = labels(g, n, k, Lab::OneHot); }
    let k = d.labels[0].len();
    let rows: Vec<Vec<f64>> = (0..8).map(|_| probe(g, &d)).collect();
    note(format!("{} max_levels {} probes {:?}", show(&d), max, rows));
    let c = cfg(g, k, max, multi);
    let t = Box::new(RegressionMultiTargetDecisionTree::new(d.clone(), c).root);
    for i in 0..n {
        let l = leaf_at(&t, &d.feature_rows[i])?; let x = l.data.as_ref().ok_or("no data")?;
        ck!((0..x.labels.len()).any(|p| x.labels[p] == d.labels[i] && x.feature_rows[p] == d.feature_rows[i]), "training row {} is led to a leaf holding {}", i, show(x));
    }
    let s = create_dataset_with_sorted_features(&d);
    let st = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(s, c).root);
    for i in 0..n {
        let l = leaf_at(&st, &d.feature_rows[i])?; let x = l.data.as_ref().ok_or("no data")?;
        ck!(x.sorted_feature_columns.iter().all(|col| col.iter().any(|p| p.1 == i)), "presorted: sample {} is led to a leaf holding {:?}", i, x);
    }
    let lc = LeafOutputCalculator::new(LeafOutputType::Regression);
    let gt = GradBoostMultiTargetDecisionTree::new(d.clone(), c, lc).root;
    for i in 0..n {
        let same: Vec<usize> = (0..n).filter(|j| path_of(&gt, &d.feature_rows[*j]) == path_of(&gt, &d.feature_rows[i])).collect();
        let e = mean(&same.iter().map(|j| d.labels[*j].clone()).collect::<Vec<_>>());
        let o = leaf_at(&gt, &d.feature_rows[i])?.leaf_output.as_ref().ok_or("no output")?;
        ck!(vclose(o, &e, (n * n) as f64), "training row {} is led to a leaf with output {:?}, the rows led there give {:?}", i, o, e);
    }
    let model = RegressionBoostModel { trees: vec![Box::new(gt)], initial_guess: vec![0.0; k], learning_rate: 1.0 };
    for r in &rows {
        let one = table_of(vec![r.clone()], vec![vec![0.0; k]]);
        let p = model.predict(r); let e = leaf_at(&model.trees[0], r)?.leaf_output.clone().unwrap();
        ck!(vclose(&p, &e, (n * n) as f64), "gradient tree: prediction {:?} for {:?}, the questions {} lead to {:?}", p, r, path_of(&model.trees[0], r), e);
        for (w, got, labs) in [("plain", calculate_overall_mean_squared_error(&one, &t), leaf_at(&t, r)?.data.as_ref().unwrap().labels.clone()),
            ("presorted", calculate_overall_mean_squared_error_new_partition(&one, &st), leaf_at(&st, r)?.data.as_ref().unwrap().labels.iter().map(|x| (*x).clone()).collect())] {
            let m = mean(&labs); let e = m.iter().map(|x| x * x).sum::<f64>() / k as f64;
            ck!(close(got, e, e), "{}: error {} against zero labels for {:?}, the leaf the questions lead to ({}) gives {}", w, got, r, path_of(&t, r), e);
        }
        if !distinct {
            let p = predict_class(r, &t); let e = majority(&leaf_at(&t, r)?.data.as_ref().unwrap().labels);
            ck!(p == e, "class {:?} for {:?}, the leaf ({}) says {:?}", p, r, path_of(&t, r), e);
        }
    }
    let at = AMGBoostTree::new(d.clone(), c, lc).root;
    let am = AMGBoostModel { trees: vec![Box::new(at)], initial_guess: vec![0.0; k], learning_rate: 1.0 };
    for r in &rows { let x = leaf_at(&am.trees[0], r)?; if x.max_value.unwrap() > 0.0 && k > 1 { let p = am.predict(r); ck!(p == onehot(x.class.unwrap(), k), "approximate tree: prediction {:?} for {:?}, the leaf stores {:?}", p, r, x); } }
    Ok(())
}
fn majority(l: &[Vec<f64>]) -> Vec<f64> { let k = l[0].len(); let c: Vec<usize> = (0..k).map(|j| l.iter().filter(|r| r[j] == 1.0).count()).collect(); let mut b = 0; for j in 1..k { if c[j] > c[b] { b = j; } } onehot(b, k) }
// ---- C13, C14
fn c13(g: &mut Rng) -> R {
    let l = g.pick(&[Lab::Residual, Lab::Real]); let d = table(g, 1, l); note(show(&d));
    let o = (LeafOutputCalculator::new(LeafOutputType::Regression).calculate_leaf_output)(&d);
    let e = mean(&d.labels); let refs: Vec<&Vec<f64>> = d.labels.iter().collect();
    ck!(vclose(&o, &e, scale_of(&refs)), "leaf output {:?}, the mean is {:?}", o, e);
    Ok(())
}
fn c14(g: &mut Rng) -> R {
    let n = size(g); let k = if g.chance(5) { g.range(5, 12) } else { g.range(1, 5) };
    let mut l = labels(g, n, k, Lab::Residual);
    if g.chance(4) { let j = g.below(k); for r in l.iter_mut() { r[j] = g.pick(&[0.0, 1.0, -1.0]); } }
    if g.chance(6) { let s = g.pick(&[1e-6, 1e-12, 1e-3]); for r in l.iter_mut() { for x in r.iter_mut() { *x *= s; } } }
    if g.chance(8) { l = labels(g, n, k, Lab::Real); }
    let rows = features(g, n, 2); let d = table_of(rows, l); note(format!("residuals {:?}", d.labels));
    let o = (LeafOutputCalculator::new(LeafOutputType::MultiClassClassification).calculate_leaf_output)(&d);
    ck!(o.len() == k, "output {:?}", o);
    for j in 0..k {
        ck!(o[j].is_finite(), "output of class {} is {}", j, o[j]);
        let (e, sure) = newton(&d.labels, j);
        if sure { ck!((o[j] - e).abs() <= 1e-9 * (e.abs() + 1e-3), "output of class {} is {}, the Newton step is {}", j, o[j], e); }
    }
    Ok(())
}
// ---- C15, C24
fn rate(g: &mut Rng) -> f64 { g.pick(&[0.1, 0.5, 1.0, 0.25, 0.9, 0.01]) }
fn c15(g: &mut Rng, loss_only: bool) -> R {
    let d = table(g, 1, Lab::Any); let k = d.labels[0].len(); let n = d.labels.len(); let max = g.pick(&[0, 1, 1, 2, 2, 3, 4]); let it = if n > 50 { g.below(3) } else { g.below(6) }; let lr = if !loss_only && g.chance(10) { 1.75 } else { rate(g) }; let multi = g.chance(2);
    note(format!("{} max_levels {} iterations {} learning rate {} multi {}", show(&d), max, it, lr, multi));
    let m = RegressionBoostModel::train(d.clone(), cfg(g, k, max, multi), it as u32, lr);
    let refs: Vec<&Vec<f64>> = d.labels.iter().collect(); let sc = scale_of(&refs);
    ck!(vclose(&m.initial_guess, &mean(&d.labels), sc), "starting estimate {:?}, the mean is {:?}", m.initial_guess, mean(&d.labels));
    ck!(m.trees.len() == it && m.learning_rate == lr, "{} trees, learning rate {}", m.trees.len(), m.learning_rate);
    let mut est: Vec<Vec<f64>> = vec![m.initial_guess.clone(); n];
    let loss = |e: &Vec<Vec<f64>>| -> f64 { (0..n).map(|i| (0..k).map(|j| (d.labels[i][j] - e[i][j]).powi(2)).sum::<f64>()).sum() };
    for (ti, t) in m.trees.iter().enumerate() {
        let before = loss(&est);
        if !loss_only {
            let res: Vec<Vec<f64>> = (0..n).map(|i| (0..k).map(|j| d.labels[i][j] - est[i][j]).collect()).collect();
            let rd = table_of(d.feature_rows.clone(), res);
            walk_scaled(&rd, t, max, sc, &mut |_, sub, leaf: &GradBoostLeaf| {
                let x = leaf.leaf_output.as_ref().ok_or("no output")?; let e = mean(&sub.labels);
                ck!(vclose(x, &e, sc), "leaf output {:?}, the mean residual is {:?}", x, e); Ok(())
            }).map_err(|e| format!("tree {}: {}", ti, e))?;
        }
        for i in 0..n { let o = leaf_at(t, &d.feature_rows[i])?.leaf_output.as_ref().ok_or("no output")?; ck!(o.len() == k, "leaf output {:?}", o); for j in 0..k { est[i][j] += lr * o[j]; } }
        let after = loss(&est);
        if loss_only { ck!(after <= before + 1e-9 * (1e-6 + before + sc * sc * 1e-3), "tree {} raises the total squared difference from {} to {}", ti, before, after); }
    }
    if !loss_only {
        for i in 0..n { let p = m.predict(&d.feature_rows[i]); ck!(vclose(&p, &est[i], sc), "training row {}: prediction {:?}, running estimate {:?}", i, p, est[i]); }
        for _ in 0..5 {
            let r = probe(g, &d); let mut e = m.initial_guess.clone();
            for t in &m.trees { let o = leaf_at(t, &r)?.leaf_output.as_ref().unwrap(); for j in 0..k { e[j] += lr * o[j]; } }
            let p = m.predict(&r); ck!(vclose(&p, &e, sc), "prediction for {:?} is {:?}, expected {:?}", r, p, e);
        }
    }
    Ok(())
}
/// `walk` with the best-question judge, rounding judged against the size of the original labels
fn walk_scaled<L: Leaf>(rd: &MultiTargetDataSet, t: &TreeNode<L>, max: usize, sc: f64, at: &mut dyn FnMut(&[usize], &MultiTargetDataSet, &L) -> R) -> R {
    let refs: Vec<&Vec<f64>> = rd.labels.iter().collect();
    // residuals that are rounding noise against the labels say nothing about the questions
    if variance(&refs) <= 1e-7 * (1e-6 + sc * sc) { return Ok(()); }
    walk(rd, &all(rd), t, 0, max, &Judge::Best, at)
}
// ---- C16
fn class_table(g: &mut Rng) -> MultiTargetDataSet { loop { let d = table(g, 2, Lab::OneHot); if d.labels[0].len() >= 2 { return d; } } }
fn predict_ok(w: &str, p: &[f64], score: &[f64]) -> R {
    let k = score.len(); if score.iter().any(|x| !x.is_finite()) { return Ok(()); }
    let top = score.iter().cloned().fold(f64::NEG_INFINITY, f64::max); let sc = score.iter().fold(0f64, |a, x| a.max(x.abs()));
    let near: Vec<usize> = (0..k).filter(|j| score[*j] >= top - 1e-9 * (1.0 + sc)).collect();
    ck!(near.iter().any(|j| p == onehot(*j, k).as_slice()), "{}: prediction {:?}, score {:?}", w, p, score);
    Ok(())
}
fn c16(g: &mut Rng) -> R {
    let d = class_table(g); let k = d.labels[0].len(); let n = d.labels.len(); let max = g.pick(&[0, 1, 1, 2, 2, 3, 4]); let it = if n > 50 { g.below(3) } else { g.below(6) }; let lr = if g.chance(8) { g.pick(&[1.75, 3.0]) } else { rate(g) }; let multi = g.chance(2);
    note(format!("{} max_levels {} iterations {} learning rate {} multi {}", show(&d), max, it, lr, multi));
    let m = MultiClassBoostModel::train(d.clone(), cfg(g, k, max, multi), it as u32, lr);
    ck!(vclose(&m.initial_guess, &vec![1.0 / k as f64; k], 1.0), "starting scores {:?}", m.initial_guess);
    ck!(m.trees.len() == it && m.learning_rate == lr, "{} trees, learning rate {}", m.trees.len(), m.learning_rate);
    let mut est: Vec<Vec<f64>> = vec![m.initial_guess.clone(); n];
    for (ti, t) in m.trees.iter().enumerate() {
        if est.iter().flatten().any(|x| x.abs() > 30.0) { return Ok(()); }
        let res: Vec<Vec<f64>> = (0..n).map(|i| { let s = softmax(&est[i]); (0..k).map(|j| d.labels[i][j] - s[j]).collect() }).collect();
        let rd = table_of(d.feature_rows.clone(), res);
        walk_scaled(&rd, t, max, 1.0, &mut |_, sub, leaf: &GradBoostLeaf| {
            let x = leaf.leaf_output.as_ref().ok_or("no output")?; ck!(x.len() == k, "leaf output {:?}", x);
            for j in 0..k { let (e, sure) = newton_rounded(&sub.labels, j); if sure { ck!((x[j] - e).abs() <= 1e-6 * (1.0 + e.abs()), "leaf output {:?}, class {} should be {}", x, j, e); } }
            Ok(())
        }).map_err(|e| format!("tree {}: {}", ti, e))?;
        for i in 0..n { let o = leaf_at(t, &d.feature_rows[i])?.leaf_output.as_ref().ok_or("no output")?; for j in 0..k { est[i][j] += lr * o[j]; } }
    }
    for i in 0..n { predict_ok(&format!("training row {}", i), &m.predict(&d.feature_rows[i]), &est[i])?; }
    for _ in 0..8 {
        let r = probe(g, &d); let mut e = m.initial_guess.clone();
        for t in &m.trees { let o = leaf_at(t, &r)?.leaf_output.as_ref().unwrap(); for j in 0..k { e[j] += lr * o[j]; } }
        predict_ok(&format!("row {:?}", r), &m.predict(&r), &e)?;
    }
    hand_multi(g, k)
}
// ---- models put together by hand: scores are exact and ties frequent
fn hand_tree<L: Leaf>(g: &mut Rng, c: usize, depth: usize, leaf: &mut dyn FnMut(&mut Rng) -> L) -> TreeNode<L> {
    if depth == 0 || g.chance(4) { let x = leaf(g); return TreeNode::leaf_node(q(g.below(c), 0.5), x); }
    let (a, b) = (Box::new(hand_tree(g, c, depth - 1, leaf)), Box::new(hand_tree(g, c, depth - 1, leaf)));
    let v = (g.below(9) as f64 - 4.0) / 2.0;
    TreeNode::new(q(g.below(c), v), a, b)
}
fn hand_multi_model(g: &mut Rng, k: usize, c: usize) -> (Vec<Box<TreeNode<GradBoostLeaf>>>, Vec<f64>, f64) {
    let nt = g.below(5); let off = g.pick(&[0.0, 0.0, -4.0, -100.0]);
    let trees = (0..nt).map(|_| Box::new(hand_tree(g, c, 3, &mut |g: &mut Rng| GradBoostLeaf { leaf_output: Some((0..k).map(|_| (g.below(9) as f64 - 4.0) / 2.0).collect()) }))).collect();
    (trees, (0..k).map(|_| off + g.below(3) as f64 / 2.0).collect(), g.pick(&[0.5, 1.0, 0.25, 2.0]))
}
fn small_row(g: &mut Rng, c: usize) -> Vec<f64> { (0..c).map(|_| (g.below(11) as f64 - 5.0) / 2.0).collect() }
fn hand_multi(g: &mut Rng, k: usize) -> R {
    let c = g.range(1, 3); let (trees, ig, lr) = hand_multi_model(g, k, c); let r = small_row(g, c);
    note(format!("hand-made multi-class model, trees {:?}, start {:?}, learning rate {}, row {:?}", trees, ig, lr, r));
    let mut e = ig.clone(); for t in &trees { let o = leaf_at(t, &r)?.leaf_output.as_ref().unwrap(); for j in 0..k { e[j] += lr * o[j]; } }
    let p = MultiClassBoostModel { trees, initial_guess: ig, learning_rate: lr }.predict(&r);
    ck!(p == onehot(argmax(&e), k), "multi-class: prediction {:?}, score {:?}", p, e);
    Ok(())
}
fn hand_reg(g: &mut Rng, k: usize) -> R {
    let c = g.range(1, 3); let (trees, ig, lr) = hand_multi_model(g, k, c); let r = small_row(g, c);
    note(format!("hand-made regression model, trees {:?}, start {:?}, learning rate {}, row {:?}", trees, ig, lr, r));
    let mut e = ig.clone(); for t in &trees { let o = leaf_at(t, &r)?.leaf_output.as_ref().unwrap(); for j in 0..k { e[j] += lr * o[j]; } }
    let p = RegressionBoostModel { trees, initial_guess: ig, learning_rate: lr }.predict(&r);
    ck!(vclose(&p, &e, 100.0), "regression: prediction {:?}, expected {:?}", p, e);
    Ok(())
}
fn approx_of(l: &AMGBoostLeaf, k: usize) -> Result<Vec<f64>, String> { let (m, c) = (l.max_value.ok_or("no value")?, l.class.ok_or("no class")?); let mut v = vec![-m / (k as f64 - 1.0); k]; v[c] = m; Ok(v) }
fn hand_amg(g: &mut Rng, k: usize, exact: bool) -> R {
    let c = g.range(1, 3); let nt = g.below(5);
    // k - 1 a power of two keeps the reconstruction exact
    let trees: Vec<Box<TreeNode<AMGBoostLeaf>>> = (0..nt).map(|_| Box::new(hand_tree(g, c, 3, &mut |g: &mut Rng| AMGBoostLeaf { max_value: Some((g.below(9) as f64 - 3.0) / 2.0), class: Some(g.below(k)) }))).collect();
    let off = g.pick(&[0.0, 0.0, -4.0, -100.0]); let ig: Vec<f64> = (0..k).map(|_| off + g.below(3) as f64 / 2.0).collect(); let lr = g.pick(&[0.5, 1.0, 0.25, 2.0]); let r = small_row(g, c);
    note(format!("hand-made approximate model, trees {:?}, start {:?}, learning rate {}, row {:?}", trees, ig, lr, r));
    let mut e = ig.clone(); for t in &trees { let o = approx_of(leaf_at(t, &r)?, k)?; for j in 0..k { e[j] += lr * o[j]; } }
    let p = AMGBoostModel { trees, initial_guess: ig, learning_rate: lr }.predict(&r);
    if exact && (k - 1).is_power_of_two() { ck!(p == onehot(argmax(&e), k), "approximate: prediction {:?}, score {:?}", p, e); Ok(()) } else { predict_ok("approximate", &p, &e) }
}
// ---- C17
fn c17(g: &mut Rng) -> R {
    let d = class_table(g); let k = d.labels[0].len(); let n = d.labels.len(); let max = g.pick(&[0, 1, 1, 2, 2, 3, 4]); let it = if n > 50 { g.below(3) } else { g.below(6) }; let lr = if g.chance(8) { g.pick(&[1.75, 3.0]) } else { rate(g) }; let multi = g.chance(2);
    note(format!("{} max_levels {} iterations {} learning rate {} multi {}", show(&d), max, it, lr, multi));
    let m = AMGBoostModel::train(d.clone(), cfg(g, k, max, multi), it as u32, lr);
    ck!(vclose(&m.initial_guess, &vec![1.0 / k as f64; k], 1.0), "starting scores {:?}", m.initial_guess);
    ck!(m.trees.len() == it && m.learning_rate == lr, "{} trees, learning rate {}", m.trees.len(), m.learning_rate);
    let mut est: Vec<Vec<f64>> = vec![m.initial_guess.clone(); n];
    for (ti, t) in m.trees.iter().enumerate() {
        if est.iter().flatten().any(|x| x.abs() > 30.0) { return Ok(()); }
        let res: Vec<Vec<f64>> = (0..n).map(|i| { let s = softmax(&est[i]); (0..k).map(|j| d.labels[i][j] - s[j]).collect() }).collect();
        let rd = table_of(d.feature_rows.clone(), res);
        walk_scaled(&rd, t, max, 1.0, &mut |_, sub, leaf: &AMGBoostLeaf| {
            let (x, c) = (leaf.max_value.ok_or("no value")?, leaf.class.ok_or("no class")?); ck!(c < k, "class {}", c);
            let e: Vec<(f64, bool)> = (0..k).map(|j| newton_rounded(&sub.labels, j)).collect();
            if e.iter().all(|y| y.1) { let top = e.iter().map(|y| y.0).fold(f64::NEG_INFINITY, f64::max); ck!((x - top).abs() <= 1e-6 * (1.0 + top.abs()) && (e[c].0 - top).abs() <= 1e-6 * (1.0 + top.abs()), "leaf stores {} for class {}, the output is {:?}", x, c, e); }
            Ok(())
        }).map_err(|e| format!("tree {}: {}", ti, e))?;
        for i in 0..n { let o = approx_of(leaf_at(t, &d.feature_rows[i])?, k)?; for j in 0..k { est[i][j] += lr * o[j]; } }
    }
    for i in 0..n { predict_ok(&format!("training row {}", i), &m.predict(&d.feature_rows[i]), &est[i])?; }
    for _ in 0..8 {
        let r = probe(g, &d); let mut e = m.initial_guess.clone();
        for t in &m.trees { let o = approx_of(leaf_at(t, &r)?, k)?; for j in 0..k { e[j] += lr * o[j]; } }
        predict_ok(&format!("row {:?}", r), &m.predict(&r), &e)?;
    }
    hand_amg(g, k, false)
}
// ---- C18
fn c18(g: &mut Rng) -> R { let k = if g.chance(4) { g.range(5, 11) } else { g.range(1, 5) }; hand_multi(g, k)?; let k = g.pick(&[2, 3, 5, 9]); hand_amg(g, k, true) }
// ---- C19
fn c19(g: &mut Rng) -> R {
    let k = if g.chance(5) { g.range(5, 9) } else { g.range(1, 4) }; let k2 = g.pick(&[2, 3, 5]); let c = g.range(1, 3); let n = g.range(1, 12);
    let rows: Vec<Vec<f64>> = (0..n).map(|_| small_row(g, c)).collect();
    let (trees, ig, lr) = hand_multi_model(g, k, c);
    let m = MultiClassBoostModel { trees, initial_guess: ig, learning_rate: lr };
    let mode = g.below(4);
    let labs = |g: &mut Rng, p: &Vec<Vec<f64>>, k: usize| -> Vec<Vec<f64>> { p.iter().map(|v| match mode { 0 => onehot(g.below(k), k), 1 => if g.chance(3) { onehot(g.below(k), k) } else { v.clone() }, 2 => v.clone(), _ => { let s = g.pick(&[0.5, 0.75, 2.0, 1.0]); let mut w: Vec<f64> = v.iter().map(|x| x * s).collect(); if g.chance(3) { let i = g.below(k); w[i] += 0.25; } w } }).collect() };
    let single: Vec<Vec<f64>> = rows.iter().map(|r| m.predict(r)).collect();
    let test = table_of(rows.clone(), labs(g, &single, k));
    note(format!("multi-class model {:?} start {:?} rate {}, test set {}", m.trees, m.initial_guess, m.learning_rate, show(&test)));
    let a = m.calculate_all_predictions(&test); ck!(a == single, "multi-class: predictions {:?}, row by row {:?}", a, single);
    let frac = |p: &Vec<Vec<f64>>, t: &MultiTargetDataSet| p.iter().zip(&t.labels).filter(|(x, y)| x == y).count() as f64 / p.len() as f64;
    let s = m.calculate_score(&test); ck!(close(s, frac(&single, &test), 1.0), "multi-class: score {}, fraction {}", s, frac(&single, &test));
    let nt = g.below(4);
    let at: Vec<Box<TreeNode<AMGBoostLeaf>>> = (0..nt).map(|_| Box::new(hand_tree(g, c, 3, &mut |g: &mut Rng| AMGBoostLeaf { max_value: Some((g.below(9) as f64 - 3.0) / 2.0), class: Some(g.below(k2)) }))).collect();
    let am = AMGBoostModel { trees: at, initial_guess: (0..k2).map(|_| g.below(3) as f64).collect(), learning_rate: 0.5 };
    let single: Vec<Vec<f64>> = rows.iter().map(|r| am.predict(r)).collect();
    let test = table_of(rows.clone(), labs(g, &single, k2));
    note(format!("approximate model {:?} start {:?}, test set {}", am.trees, am.initial_guess, show(&test)));
    let a = am.calculate_all_predictions(&test); ck!(a == single, "approximate: predictions {:?}, row by row {:?}", a, single);
    let s = am.calculate_score(&test); ck!(close(s, frac(&single, &test), 1.0), "approximate: score {}, fraction {}", s, frac(&single, &test));
    let (trees, ig, lr) = hand_multi_model(g, k, c);
    let rm = RegressionBoostModel { trees, initial_guess: ig, learning_rate: lr };
    let single: Vec<Vec<f64>> = rows.iter().map(|r| rm.predict(r)).collect();
    let rl = if g.chance(4) { single.clone() } else { labels(g, n, k, Lab::Real) };
    let test = table_of(rows.clone(), rl);
    note(format!("regression model {:?} start {:?} rate {}, test set {}", rm.trees, rm.initial_guess, rm.learning_rate, show(&test)));
    let a = rm.calculate_all_predictions(&test); ck!(a == single, "regression: predictions {:?}, row by row {:?}", a, single);
    let e = (0..n).map(|i| (0..k).map(|j| (single[i][j] - test.labels[i][j]).powi(2)).sum::<f64>() / k as f64).sum::<f64>() / n as f64;
    let s = rm.calculate_score(&test); ck!(close(s, e, 0.0) || (s - e).abs() <= 1e-9 * e, "regression: score {}, mean squared difference {}", s, e);
    hand_reg(g, k)
}
// ---- C20
fn c20(g: &mut Rng) -> R {
    let k = if g.chance(4) { g.range(5, 12) } else { g.range(1, 4) }; let c = g.range(1, 3);
    let t = Box::new(hand_tree(g, c, 3, &mut |g: &mut Rng| { let n = if g.chance(6) { g.range(10, 60) } else { g.range(1, 6) }; let l = labels(g, n, k, Lab::OneHot); RegressionLeaf { data: Some(table_of(vec![vec![0.0; c]; n], l)) } }));
    let n = g.range(1, 12); let rows: Vec<Vec<f64>> = (0..n).map(|_| small_row(g, c)).collect(); let mode = g.below(3);
    let mut exp = vec![]; for r in &rows { exp.push(majority(&leaf_at(&t, r)?.data.as_ref().unwrap().labels)); }
    let labs: Vec<Vec<f64>> = exp.iter().map(|v| if mode == 0 || g.chance(3) { onehot(g.below(k), k) } else { v.clone() }).collect();
    let test = table_of(rows, labs);
    note(format!("tree {:?} test set {}", t, show(&test)));
    for i in 0..n { let p = predict_class(&test.feature_rows[i], &t); ck!(p == exp[i], "row {}: class {:?}, the leaf says {:?}", i, p, exp[i]); }
    let e = (0..n).filter(|i| exp[*i] == test.labels[*i]).count() as f64 / n as f64;
    let a = calculate_accuracy(&test, &t); ck!(close(a, e, 1.0), "accuracy {}, fraction {}", a, e);
    // and on a tree that was really built
    let d = class_table(g); let k = d.labels[0].len(); let max = levels(g);
    let t = Box::new(RegressionMultiTargetDecisionTree::new(d.clone(), cfg(g, k, max, false)).root);
    note(format!("trained on {} max_levels {}", show(&d), max));
    let mut hits = 0;
    for i in 0..d.labels.len() { let e = majority(&leaf_at(&t, &d.feature_rows[i])?.data.as_ref().unwrap().labels); let p = predict_class(&d.feature_rows[i], &t); ck!(p == e, "training row {}: class {:?}, the leaf says {:?}", i, p, e); if e == d.labels[i] { hits += 1; } }
    let a = calculate_accuracy(&d, &t); let e = hits as f64 / d.labels.len() as f64; ck!(close(a, e, 1.0), "training accuracy {}, fraction {}", a, e);
    Ok(())
}
// ---- C21
fn c21(g: &mut Rng) -> R {
    let d = table(g, 1, Lab::Real); let k = d.labels[0].len(); let max = levels(g); let n = g.range(1, 10);
    let rows: Vec<Vec<f64>> = (0..n).map(|_| probe(g, &d)).collect();
    let l = if g.chance(3) { (0..n).map(|_| d.labels[g.below(d.labels.len())].clone()).collect() } else { labels(g, n, k, Lab::Real) };
    let test = table_of(rows, l);
    note(format!("{} max_levels {} test set {}", show(&d), max, show(&test)));
    let c = cfg(g, k, max, false);
    let t = Box::new(RegressionMultiTargetDecisionTree::new(d.clone(), c).root);
    let s = create_dataset_with_sorted_features(&d);
    let st = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(s, c).root);
    let err = |m: Vec<f64>, i: usize| (0..k).map(|j| (m[j] - test.labels[i][j]).powi(2)).sum::<f64>() / k as f64;
    let refs: Vec<&Vec<f64>> = d.labels.iter().chain(test.labels.iter()).collect(); let sc = scale_of(&refs); let (mut a, mut b) = (0.0, 0.0);
    for i in 0..n {
        a += err(mean(&leaf_at(&t, &test.feature_rows[i])?.data.as_ref().unwrap().labels), i);
        b += err(mean(&leaf_at(&st, &test.feature_rows[i])?.data.as_ref().unwrap().labels.iter().map(|x| (*x).clone()).collect::<Vec<_>>()), i);
    }
    let x = calculate_overall_mean_squared_error(&test, &t); ck!((x - a / n as f64).abs() <= 1e-9 * (1e-3 + sc * sc), "plain: error {}, expected {}", x, a / n as f64);
    let x = calculate_overall_mean_squared_error_new_partition(&test, &st); ck!((x - b / n as f64).abs() <= 1e-9 * (1e-3 + sc * sc), "presorted: error {}, expected {}", x, b / n as f64);
    Ok(())
}
// ---- C22
fn c22(g: &mut Rng) -> R {
    let n = g.below(9); let n = if g.chance(10) { n * 9 } else { n };
    let (ka, kb) = (g.below(NKIND), g.below(NKIND));
    let a: Vec<f64> = (0..n).map(|_| value(g, ka)).collect(); let b: Vec<f64> = (0..n).map(|_| value(g, kb)).collect(); let s = value(g, kb);
    let (mut a, mut b, mut s) = (a, b, s);
    if g.chance(4) { for v in [&mut a, &mut b] { for x in v.iter_mut() { if g.chance(4) { *x = g.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, 1e200, 1e-200]); } } } if g.chance(2) { s = g.pick(&[0.0, 1.0, -1.0, f64::INFINITY, f64::NAN]); } }
    note(format!("{:?} and {:?}, scalar {}", a, b, s));
    let eq = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(p, r)| p == r || (p.is_finite() && r.is_finite() && close(*p, *r, 0.0)) || (p.is_nan() && r.is_nan()));
    let z = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { (0..n).map(|i| f(a[i], b[i])).collect() };
    for (w, x, y) in [("add", add_f64_slices_as_vector(&a, &b), z(&|x, y| x + y)), ("subtract", subtract_f64_slices_as_vector(&a, &b), z(&|x, y| x - y)),
        ("multiply", multiply_f64_slices_as_vector(&a, &b), z(&|x, y| x * y)), ("divide", divide_f64_slices_as_vector(&a, &b), z(&|x, y| x / y)), ("scale", multiply_f64_slice_by_f64_scalar(s, &a), a.iter().map(|x| x * s).collect())] {
        ck!(eq(&x, &y), "{} gave {:?}, expected {:?}", w, x, y);
    }
    let m = g.range(1, 9); let k = g.range(1, 7); let l = labels(g, m, k, Lab::Real);
    note(format!("vectors {:?}", l));
    let sum: Vec<f64> = (0..k).map(|j| l.iter().map(|r| r[j]).sum()).collect(); let refs: Vec<&Vec<f64>> = l.iter().collect(); let sc = scale_of(&refs);
    let x = sum_of_f64_vectors(&l); ck!(vclose(&x, &sum, sc), "sum gave {:?}, expected {:?}", x, sum);
    let x = calculate_average_f64_vector(&l); ck!(vclose(&x, &mean(&l), sc), "average gave {:?}, expected {:?}", x, mean(&l));
    Ok(())
}
// ---- C23
fn c23(g: &mut Rng, case: u64) -> R {
    let d = if g.chance(2) { table(g, 1, Lab::OneHot) } else { table(g, 1, Lab::Any) }; let k = d.labels[0].len(); let max = levels(g); let multi = g.chance(2); let it = g.below(4); let lr = rate(g);
    let rows: Vec<Vec<f64>> = (0..4).map(|_| probe(g, &d)).collect(); let onehot_labels = d.labels.iter().all(|l| l.iter().sum::<f64>() == 1.0 && l.iter().all(|x| *x == 0.0 || *x == 1.0));
    let n4 = rows.len(); let test = table_of(rows.clone(), labels(g, n4, k, Lab::OneHot));
    note(format!("{} max_levels {} multi {} iterations {} learning rate {} test rows {:?}", show(&d), max, multi, it, lr, rows));
    let c = cfg(g, k, max, multi);
    match case % 6 {
        0 => { let t = Box::new(RegressionMultiTargetDecisionTree::new(d.clone(), c).root); for r in &rows { predict_class(r, &t); } calculate_accuracy(&test, &t); calculate_overall_mean_squared_error(&test, &t); }
        1 => { let s = create_dataset_with_sorted_features(&d); let t = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(s, c).root); calculate_overall_mean_squared_error_new_partition(&test, &t); }
        2 => { let (lc, _) = calc(g); GradBoostMultiTargetDecisionTree::new(d.clone(), c, lc); AMGBoostTree::new(d.clone(), c, lc); }
        3 => { let m = RegressionBoostModel::train(d.clone(), c, it as u32, lr); m.calculate_score(&test); for r in &rows { m.predict(r); } }
        4 => { if onehot_labels { let m = MultiClassBoostModel::train(d.clone(), c, it as u32, lr); m.calculate_score(&test); m.calculate_all_predictions(&test); for r in &rows { m.predict(r); } } }
        _ => { if onehot_labels { let m = AMGBoostModel::train(d.clone(), c, it as u32, lr); m.calculate_score(&test); m.calculate_all_predictions(&test); for r in &rows { m.predict(r); } } }
    }
    Ok(())
}
