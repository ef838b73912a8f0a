from contracts import *
PH = 'predict_helper_functions::'
# ---- C18 --------------------------------------------------------------------------------------------------------------
contract(PH + 'get_binary_prediction', params=1, lift=True, helper=True, callers=['AMGBoostModel::predict', 'MultiClassBoostModel::predict'],
    req=[cl('C23', 'p0.len() > 0')],
    ens=[cl('* C18', 'no_nan(p0) && p0.len() > 0 ==> marks_max(p0, res)', 'one-hot at the first highest score')],
    inv=[inv('*', 'no_nan(p0) ==> top_to(p0, $m, $i, $k)', m='mod F', i='mod int', k='k'), inv('* C18', 'no_nan(p0) && p0.len() > 0 ==> top_at(p0, $i, $k)', i='mod int', k='k'), inv('* C18', 'no_nan(p0) && p0.len() > 0 ==> top_at(p0, $i, $k + 1)', i='mod int', k='k'), inv('C23', '0 <= $i < p0.len()', i='mod int')])
# ---- C19 --------------------------------------------------------------------------------------------------------------
contract(PH + 'calculate_accuracy_from_predictions', params=2, lift=True, helper=True, callers=['AMGBoostModel::calculate_score', 'MultiClassBoostModel::calculate_score'],
    req=[cl('C23', 'p0.len() <= p1.labels.len()')],
    ens=[cl('C19', 'res == fdiv(rint(hits(p0, p1.labels, p0.len() as int)), rint(p0.len() as int))', 'share of exact predictions')],
    inv=[inv('C19', '$x == rint(hits(p0, p1.labels, $k))', x='mod F', k='k'), inv('C19', '$x == hits(p0, p1.labels, $k)', x='mod int', k='k')])
contract('regression_boost_ensemble::calculate_mean_squared_error', params=2, lift=True, helper=True, callers=['RegressionBoostModel::calculate_score'],
    req=[cl('*', 'p0.len() == p1.len() && forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).len() == p1[i].len()')],
    ens=[cl('C19', 'res == fdiv(mse_sum(p1, p0, p0.len() as int), rint(p0.len() as int))', 'mean of the mean squared differences')],
    inv=[inv('C19', '$x == mse_sum(p1, p0, $k)', x='mod F', k='k')])
S = 'forall|i: int| 0 <= i < p1.feature_rows.len() ==> sound_%s(p0, (#[trigger] p1.feature_rows[i]).len() as int)'
for m in ('AMGBoostModel', 'MultiClassBoostModel', 'RegressionBoostModel'):
    pr = 'sem!(%s::predict)' % m
    al = 'sem!(%s::calculate_all_predictions)(p0, p1)' % m
    contract(m + '::calculate_all_predictions', params=2, lift=True,
        req=[cl('*', 'wf_%s(p0)' % m), cl('C23', S % m)],
        ens=[cl('C19 C23', 'res.len() == p1.feature_rows.len()', 'one per row'), cl('C19 C23', 'forall|i: int| 0 <= i < res.len() ==> #[trigger] res[i] == %s(p0, p1.feature_rows[i])' % pr, 'in row order')])
    if m == 'RegressionBoostModel':
        contract(m + '::calculate_score', params=2, lift=True,
            req=[cl('*', 'wf_%s(p0)' % m), cl('C23', S % m), cl('*', 'p1.labels.len() == p1.feature_rows.len() && forall|i: int| 0 <= i < p1.labels.len() ==> (#[trigger] p1.labels[i]).len() == p0.initial_guess.len()')],
            ens=[cl('C19', 'res == fdiv(mse_sum(%s, p1.labels, p1.labels.len() as int), rint(p1.labels.len() as int))' % al, 'mean of the mean squared differences')],
            inv=[inv('C19', '$x == mse_sum(%s, p1.labels, $k)' % al, x='mod F', k='k')])
    else:
        contract(m + '::calculate_score', params=2, lift=True,
            req=[cl('*', 'wf_%s(p0)' % m), cl('C23', S % m), cl('*', 'p1.labels.len() == p1.feature_rows.len()')],
            ens=[cl('C19', 'res == fdiv(rint(hits(%s, p1.labels, p1.feature_rows.len() as int)), rint(p1.feature_rows.len() as int))' % al, 'share of exact predictions')],
            inv=[inv('C19', '$x == rint(hits(%s, p1.labels, $k))' % al, x='mod F', k='k'), inv('C19', '$x == hits(%s, p1.labels, $k)' % al, x='mod int', k='k')])
# ---- C20 --------------------------------------------------------------------------------------------------------------
LV = 'leaf_at(*p1, p0).data->Some_0.labels'
contract('classification::predict_class', params=2, lift=True,
    req=[cl('*', 'wf(*p1)'), cl('C23', 'can_vote(*p1, p0)')],
    ens=[cl('C20', '%s.len() > 0 && 0 < %s[0].len() <= 9223372036854775807 && rect(%s) ==> majority(%s, res)' % (LV, LV, LV, LV), 'the majority class of the leaf reached')],
    inv=[inv('C20', 'forall|c: int| #![trigger $x[c]] #![trigger votes(%s, c, $k)] 0 <= c < $x.len() ==> $x[c] == votes(%s, c, $k)' % (LV, LV), x='mod Seq<int>', k='k', at='outer'),
         inv('C20', 'forall|c: int| 0 <= c < $x.len() ==> (#[trigger] $x[c]) == votes(%s, c, if c < $k { $o + 1 } else { $o })' % LV, x='mod Seq<int>', k='k', o='okk', at='inner'),
         inv('C23', 'forall|c: int| 0 <= c < $x.len() ==> 0 <= (#[trigger] $x[c]) <= $k', x='mod Seq<int>', k='k', at='outer'),
         inv('C23', 'forall|c: int| 0 <= c < $x.len() ==> 0 <= (#[trigger] $x[c]) <= (if c < $k { $o + 1 } else { $o })', x='mod Seq<int>', k='k', o='okk', at='inner'),
         inv('C20 C23', 'leading($s, $m, $i, $k)', s='any Seq<int>', m='mod int', i='mod int', k='k'),
         inv('C20 C23', 'leading_f($s, $m, $c, $k)', s='any Seq<int>', m='mod int', c='mod F', k='k'),
         inv('C20 C23', '$x == rint($k)', x='mod F', k='k')])
contract('classification::calculate_accuracy', params=2, lift=True,
    req=[cl('*', 'wf(*p1) && p0.labels.len() == p0.feature_rows.len()'), cl('C23', 'forall|i: int| 0 <= i < p0.feature_rows.len() ==> can_vote(*p1, #[trigger] p0.feature_rows[i])')],
    ens=[cl('C20', 'res == fdiv(rint(tree_hits(*p0, p1, p0.feature_rows.len() as int)), rint(p0.feature_rows.len() as int))'.replace('*p0', 'p0'), 'share of exact predictions')],
    inv=[inv('C20', '$x == rint(tree_hits(p0, p1, $k))', x='mod F', k='k'), inv('C20', '$x == tree_hits(p0, p1, $k)', x='mod int', k='k')])
# ---- C21 --------------------------------------------------------------------------------------------------------------
for s, err in (('', 'tree_err'), ('_new_partition', 'stree_err')):
    contract('regression::calculate_overall_mean_squared_error' + s, params=2, lift=True,
        req=[cl('*', 'wf(*p1)'), cl('*', 'p0.labels.len() == p0.feature_rows.len()'),
             cl('C23', 'forall|i: int| 0 <= i < p0.feature_rows.len() ==> wide(*p1, (#[trigger] p0.feature_rows[i]).len() as int) && leaf_at(*p1, p0.feature_rows[i]).data is Some'),
             cl('*', 'forall|i: int| 0 <= i < p0.feature_rows.len() ==> ({ let ls = leaf_at(*p1, #[trigger] p0.feature_rows[i]).data->Some_0.labels; ls.len() > 0 && rect(ls) && ls[0].len() == p0.labels[i].len() })')],
        ens=[cl('C21', 'res == fdiv(%s(p0, *p1, p0.feature_rows.len() as int), rint(p0.feature_rows.len() as int))' % err, 'mean squared error against leaf means')],
        inv=[inv('C21', '$x == %s(p0, *p1, $k)' % err, x='mod F', k='k', at='outer'),
             inv('C21', 'forall|j: int| 0 <= j < $m[0].len() ==> #[trigger] $x[j] == colsum($m, j, $k)', x='mod Seq<F>', m='any Seq<Seq<F>>', k='k', at='inner'),
             inv('C21', '$x == sqdiff($a, p0.labels[$o], $k)', x='mod F', a='any Seq<F>', o='okk', k='k', at='inner')])
