from contracts import *
HID = ['fadd', 'fsub', 'fneg', 'fmul', 'fdiv']
OFF = 'TreeConfig { use_multi_threading: false, ..p1 }'
OKL = {'C07': 'ok_rows', 'C09': 'ok_output', 'C10': 'ok_dominant'}
def AM(tag): return ' && p1.number_of_classes > 0' if tag == 'C10' else ''
def builder(key, tag, content, calc):
    L = 'p3' if calc else 'p2'
    contract(key, params=4 if calc else 3, measure='(p1.max_levels - %s)' % L,
        req=[cl('*', 'wf_cfg(p1) && %s(p0)%s' % (('wf_data', ' && wf_calc(p2)') if calc else ('aligned', ''))), cl('*', '0 <= %s && %s <= p1.max_levels' % (L, L)), cl('C23', 'sdata(p0, p1.number_of_classes)%s' % AM(tag))],
        mirror=(key.replace('_using_multiple_threads', ''), ['p0', OFF] + ['p2', 'p3'][:2 if calc else 1]),
        ens=[cl(tag + ' C11', 'grown(res, p0, p1, %s, %s)' % (L, content), 'grown by best splits'),
             cl('C11R', 'res == sem!(%s)(p0, %s, %s)' % (key.replace('_using_multiple_threads', ''), OFF, 'p2, p3' if calc else 'p2'), 'the single-threaded tree'), cl('C12', 'routed(res, p0, %s)' % content, 'leaves hold the rows led to them'), cl('WF', 'wf(res)', 'well-formed tree'), cl('C23', 'sound(res, width(p0), %s(p1.number_of_classes))' % OKL[tag], 'a sound tree')],
        inv=[inv('C23', '0 <= $i < $s.len()', i='mod int', s='src Seq<F>'), inv('C10 C11 C12', 'all_finite($s) ==> dominant_to($s, $m, $i, $k)', s='any Seq<F>', m='mod F', i='mod int', k='k')] if tag == 'C10' else [])
def tree(key, tag, content, calc, single):
    contract(key, params=3 if calc else 2, lift=True,
        req=[cl('*', 'wf_cfg(p1) && %s(p0)%s' % (('wf_data', ' && wf_calc(p2)') if calc else ('aligned', ''))), cl('*', '0 <= p1.max_levels'), cl('C23', 'sdata(p0, p1.number_of_classes)%s' % AM(tag))],
        ens=[cl('C23', 'sound(res.root, width(p0), %s(p1.number_of_classes))' % OKL[tag], 'a sound tree'), cl(tag + ' C11', 'grown(res.root, p0, p1, 0, %s)' % content, 'grown by best splits'),
             cl('C11R', 'res.root == sem!(%s)(p0, %s, %s)' % (single, OFF, 'p2, 0' if calc else '0'), 'the single-threaded tree'), cl('C12', 'routed(res.root, p0, %s)' % content, 'leaves hold the rows led to them'), cl('WF', 'wf(res.root)', 'well-formed tree')])
for s in ('', '_using_multiple_threads'):
    builder('regression_tree_builder::build_regression_tree' + s, 'C07', 'keeps_rows()', False)
    builder('grad_boost_tree_builder::build_grad_boost_regression_tree' + s, 'C09', 'keeps_output(p2)', True)
    builder('approximate_grad_boost_tree_builder::build_approximate_grad_boost_regression_tree' + s, 'C10', 'keeps_dominant(p2)', True)
tree('RegressionMultiTargetDecisionTree::new', 'C07', 'keeps_rows()', False, 'regression_tree_builder::build_regression_tree')
tree('GradBoostMultiTargetDecisionTree::new', 'C09', 'keeps_output(p2)', True, 'grad_boost_tree_builder::build_grad_boost_regression_tree')
tree('AMGBoostTree::new', 'C10', 'keeps_dominant(p2)', True, 'approximate_grad_boost_tree_builder::build_approximate_grad_boost_regression_tree')
contract('find_max_value_and_index_from_vector', params=1, lift=True, helper=True, only='C11R')
contract('split_finder_variance::find_best_split', params=2, lift=True, hide=HID + ['best_cut', 'cuts_finite', 'splits', 'wf_split', 'total_variance', 'reduction'], bcast=['lemma_fadd_fin', 'lemma_fsub_fin', 'lemma_fsub_inf', 'lemma_total_variance', 'lemma_cuts_finite', 'lemma_col_shape', 'lemma_right_cut', 'lemma_wf_shape', 'lemma_splits_col'],
    req=[cl('C05', 'wf_split(p0, p1)'), cl('C23', 'sdata(p0, p1)')],
    ens=[cl('C23', '!feq(res.gain, zero()) ==> splits(p0, res.question.column, res.question.value)', 'a gain comes with a question that divides the rows'), cl('*', 'fge(res.gain, zero())', 'the gain is never negative'), cl('C05', 'best_split(p0, p1, res)', 'the best question and its true gain')],
    inv=[inv('*', 'fge($x, zero())', x='mod F'),
         inv('C23', 'forall|c: int| 0 <= c < $k ==> cut_or_none(sem!(get_sorted_feature_tuple_vector)(p0.feature_columns[c]), #[trigger] $x[c])', x='mod Seq<BestThresholdResult>', k='k'),
         inv('C23', '!feq($x, zero()) ==> splits(p0, $q.column, $q.value)', x='mod F', q='mod Question'),
         inv('C05', 'forall|j: int| 0 <= j < p1 ==> (#[trigger] $x[j]) == colsum(p0.labels, j, $k)', x='mod Seq<F>', k='k', at='outer'),
         inv('C05', 'forall|j: int| 0 <= j < p1 ==> (#[trigger] $x[j]) == colsq(p0.labels, j, $k)', x='mod Seq<F>', k='k', at='outer'),
         inv('C05', 'forall|c: int| 0 <= c < $k ==> right_cut(p0, p1, c, #[trigger] $x[c])', x='mod Seq<BestThresholdResult>', k='k'),
         inv('C05', '$x == vtot(p0.labels, $k)', x='mod F', k='k'),
         inv('C05', 'forall|c: int, v: F| 0 <= c < $k && splits(p0, c, v) ==> fge($x, F::Fin(#[trigger] reduction(p0, p1, c, v)))', x='mod F', k='k'),
         inv('C05', '$x == zero() || (flt(zero(), $x) && $q.column < $k && splits(p0, $q.column, $q.value) && $x == F::Fin(reduction(p0, p1, $q.column, $q.value)))', x='mod F', k='k', q='mod Question')])

# ---- leaf outputs
contract('grad_boost_leaf_output::calculate_leaf_output_squared_loss', params=1, lift=True,
    req=[cl('*', 'rect(p0.labels)'), cl('C23', 'p0.labels.len() > 0')],
    ens=[cl('*', 'p0.labels.len() > 0 ==> res.len() == p0.labels[0].len()', 'one value per target'),
         cl('C13 LEAF', 'p0.labels.len() > 0 ==> (forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == mean_of(p0.labels, j))', 'the mean residual')],
    inv=[inv('*', 'forall|j: int| 0 <= j < p0.labels[0].len() ==> #[trigger] $x[j] == colsum(p0.labels, j, $k)', x='mod Seq<F>', k='k')])
contract('grad_boost_leaf_output::calculate_leaf_output_multi_class_loss', params=1, lift=True,
    req=[cl('*', 'rect(p0.labels)'), cl('C23', 'p0.labels.len() > 0')],
    ens=[cl('*', 'p0.labels.len() > 0 ==> res.len() == p0.labels[0].len()', 'one value per target'),
         cl('C14 LEAF', 'p0.labels.len() > 0 && finite_rows(p0.labels) ==> (forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == newton(p0.labels, j))', 'the Newton step'),
         cl('C14', 'p0.labels.len() > 0 && finite_rows(p0.labels) ==> all_finite(res)', 'finite')],
    inv=[inv('*', 'forall|j: int| 0 <= j < p0.labels[0].len() ==> #[trigger] $x[j] == colsum(p0.labels, j, $k)', x='mod Seq<F>', k='k'),
         inv('*', 'forall|j: int| 0 <= j < p0.labels[0].len() ==> #[trigger] $x[j] == weightsum(p0.labels, j, $k)', x='mod Seq<F>', k='k')])
contract('LeafOutputCalculator::new', params=1, lift=True,
    ens=[cl('*', 'wf_calc(res)'),
         cl('C13 LEAF', 'p0 is Regression ==> res.calculate_leaf_output == FN!(calculate_leaf_output_squared_loss)', 'the regression rule'),
         cl('C14 LEAF', 'p0 is MultiClassClassification ==> res.calculate_leaf_output == FN!(calculate_leaf_output_multi_class_loss)', 'the multi-class rule')])
contract('split_finder::SplitFinder::new', params=1, lift=True,
    ens=[cl('*', 'res.find_best_split == FN!(split_finder_variance::find_best_split)')])
# ---- lookup
for k in ('scorer::find_leaf_node_for_data', 'tree_traverse::find_leaf_node_for_data'):
    contract(k, params=2, lift=True, measure='depth(*p1)',
        req=[cl('*', 'wf(*p1)'), cl('C23', 'wide(*p1, p0.len() as int)')],
        ens=[cl('* C12', 'res == leaf_at(*p1, p0)', 'the leaf the questions lead to')],
        inv=[inv('*', 'wf($x) && leaf_at($x, p0) == leaf_at(*p1, p0)', x='mod TreeNode<L>'), inv('*', 'wf(*$x) && leaf_at(*$x, p0) == leaf_at(*p1, p0)', x='mod Box<TreeNode<L>>')])
# ---- presorted trees
contract('regression_tree_builder::build_regression_tree_new_partition', params=4, bcast=['lemma_sdiv_sorted', 'lemma_spart_presorted', 'lemma_s_shape'], root='C06', measure='(p2.max_levels - p3)',
    req=[cl('*', 'wf_sorted(p0)'), cl('C06', 'wf_presorted(p0, p1, p1[0].len() as int)'), cl('C23', 'pdata(p0, p1)'), cl('*', '0 <= p3 && p3 <= p2.max_levels')],
    ens=[cl('C08', 'sgrown(res, p0, p1, p2, p3)', 'grown by best splits'), cl('C12', 'srouted(res, p0, p1)', 'leaves hold the samples led to them'), cl('WF', 'wf(res)', 'well-formed tree'), cl('C23', 'sound(res, p0.sorted_feature_columns.len() as int, ok_samples(targets(p1)))', 'a sound tree')])
contract('RegressionMultiTargetDecisionTreeNewPartition::new', params=2, lift=True, root='C06', bcast=['lemma_s_shape'],
    req=[cl('*', 'wf_sorted(p0) && 0 <= p1.max_levels'), cl('C06', 'wf_presorted(p0, p0.labels, p0.labels[0].len() as int)'), cl('C23', 'pdata(p0, p0.labels)')],
    ens=[cl('C23', 'sound(res.root, p0.sorted_feature_columns.len() as int, ok_samples(targets(p0.labels)))', 'a sound tree'), cl('C08', 'sgrown(res.root, p0, p0.labels, p1, 0)', 'grown by best splits'), cl('C12', 'srouted(res.root, p0, p0.labels)', 'leaves hold the samples led to them'), cl('WF', 'wf(res.root)', 'well-formed tree')])
contract('split_finder_variance::find_best_split_new_partition', params=4, lift=True, hide=HID + ['best_cut', 'cuts_finite', 'ssplits', 'wf_presorted', 'stotal', 'sreduction'], bcast=['lemma_fadd_fin', 'lemma_fsub_fin', 'lemma_fsub_inf', 'lemma_s_total', 'lemma_s_cuts_finite', 'lemma_s_right_cut', 'lemma_s_shape', 'lemma_ssplits_col'],
    req=[cl('*', 'wf_sorted(p0) && p3 == p0.sorted_feature_columns.len()'), cl('C06', 'wf_presorted(p0, p1, p2)'), cl('C23', 'pdata(p0, p1) && p2 == targets(p1)')],
    ens=[cl('C23', '!feq(res.gain, zero()) ==> ssplits(p0, res.question.column, res.question.value)', 'a gain comes with a question that divides the samples'), cl('*', 'fge(res.gain, zero())', 'the gain is never negative'), cl('*', '!feq(res.gain, zero()) ==> 0 <= res.question.column < p0.sorted_feature_columns.len()', 'an existing feature'),
         cl('C06', 'sbest_split(p0, p1, p2, res)', 'the best question and its true gain')],
    inv=[inv('*', 'fge($x, zero())', x='mod F'), inv('*', '!feq($x, zero()) ==> 0 <= $q.column < p0.sorted_feature_columns.len()', x='mod F', q='mod Question'),
         inv('C23', 'forall|c: int| 0 <= c < $k ==> cut_or_none(p0.sorted_feature_columns[c], #[trigger] $x[c])', x='mod Seq<BestThresholdResult>', k='k'),
         inv('C23', '!feq($x, zero()) ==> ssplits(p0, $q.column, $q.value)', x='mod F', q='mod Question'),
         inv('C06', 'forall|j: int| 0 <= j < p2 ==> (#[trigger] $x[j]) == colsum(p0.labels, j, $k)', x='mod Seq<F>', k='k', at='outer'),
         inv('C06', 'forall|j: int| 0 <= j < p2 ==> (#[trigger] $x[j]) == colsq(p0.labels, j, $k)', x='mod Seq<F>', k='k', at='outer'),
         inv('C06', 'forall|c: int| 0 <= c < $k ==> s_right_cut(p0, p1, p2, c, #[trigger] $x[c])', x='mod Seq<BestThresholdResult>', k='k'),
         inv('C06', '$x == vtot(p0.labels, $k)', x='mod F', k='k'),
         inv('C06', 'forall|c: int, v: F| 0 <= c < $k && ssplits(p0, c, v) ==> fge($x, F::Fin(#[trigger] sreduction(p0, p1, p2, c, v)))', x='mod F', k='k'),
         inv('C06', '$x == zero() || (flt(zero(), $x) && $q.column < $k && ssplits(p0, $q.column, $q.value) && $x == F::Fin(sreduction(p0, p1, p2, $q.column, $q.value)))', x='mod F', k='k', q='mod Question')])
