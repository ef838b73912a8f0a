from contracts import *
LL = inv('C23', 'forall|i: int| 0 <= i < $k ==> (#[trigger] $x[i]).len() == p2.len()', x='mod Seq<Seq<F>>', k='k')
G = 'p1, p2, p3'
contract('predict_common::predict_instance', params=4, lift=True, helper=True, callers=['MultiClassBoostModel::predict', 'RegressionBoostModel::predict'],
    req=[cl('*', 'wf_trees(p1)'), cl('C23', 'sound_all(p1, p0.len() as int, ok_output(p2.len() as int))')],
    ens=[cl('*', 'res.len() == p2.len()', 'one score per entry'), cl('C15 C16 C18 SCORE', 'forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == gscore(p1, p2, p3, p0, j, p1.len() as int)', 'start plus weighted leaf outputs')],
    inv=[LL, inv('C15 C16 C18 SCORE', 'forall|j: int| 0 <= j < $x.len() ==> #[trigger] $x[j] == gscore(p1, p2, p3, p0, j, $k)', x='mod Seq<F>', k='k', at='outer'),
         inv('C15 C16 C18 SCORE', 'forall|j: int| 0 <= j < $k ==> #[trigger] $x[j] == gscore(p1, p2, p3, p0, j, $o + 1)', x='mod Seq<F>', k='k', o='okk', at='inner'),
         inv('C15 C16 C18 SCORE', 'forall|j: int| $k <= j < $x.len() ==> #[trigger] $x[j] == gscore(p1, p2, p3, p0, j, $o)', x='mod Seq<F>', k='k', o='okk', at='inner')])
AI = [LL, inv('C17 C18 SCORE', 'forall|j: int| 0 <= j < $x.len() ==> #[trigger] $x[j] == ascore(p1, p2, p3, p0, p4, j, $k)', x='mod Seq<F>', k='k', at='outer'),
      inv('C17 C18 SCORE', 'forall|j: int| 0 <= j < $k ==> #[trigger] $x[j] == ascore(p1, p2, p3, p0, p4, j, $o + 1)', x='mod Seq<F>', k='k', o='okk', at='inner'),
      inv('C17 C18 SCORE', 'forall|j: int| $k <= j < $x.len() ==> #[trigger] $x[j] == ascore(p1, p2, p3, p0, p4, j, $o)', x='mod Seq<F>', k='k', o='okk', at='inner')]
contract('amg_boost_predict_functions::predict_instance', params=5, lift=True, helper=True, callers=['AMGBoostModel::predict'],
    req=[cl('*', 'wf_trees(p1)'), cl('C23', 'sound_all(p1, p0.len() as int, ok_dominant(p2.len() as int)) && p4 == p2.len()')],
    ens=[cl('*', 'res.len() == p2.len()', 'one score per class'), cl('C17 C18 SCORE', 'p4 == p2.len() ==> forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == ascore(p1, p2, p3, p0, p4, j, p1.len() as int)', 'start plus weighted contributions')],
    inv=AI)
contract('RegressionBoostModel::predict', params=2, lift=True,
    req=[cl('*', 'wf_RegressionBoostModel(p0)'), cl('C23', 'sound_RegressionBoostModel(p0, p1.len() as int)')],
    ens=[cl('*', 'res.len() == p0.initial_guess.len()'), cl('C15', 'forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == gscore(p0.trees, p0.initial_guess, p0.learning_rate, p1, j, p0.trees.len() as int)', 'the additive model')])
GS = 'gscores(p0.trees, p0.initial_guess, p0.learning_rate, p1, p0.trees.len() as int)'
AS = 'ascores(p0.trees, p0.initial_guess, p0.learning_rate, p1, p0.trees.len() as int)'
contract('MultiClassBoostModel::predict', params=2, lift=True,
    req=[cl('*', 'wf_MultiClassBoostModel(p0)'), cl('C23', 'sound_MultiClassBoostModel(p0, p1.len() as int)')],
    ens=[cl('C16 C18', '%s ==> marks_max(%s, res)' % (GS.replace('gscores', 'gdefined'), GS), 'one-hot at the first highest score')])
contract('AMGBoostModel::predict', params=2, lift=True,
    req=[cl('*', 'wf_AMGBoostModel(p0)'), cl('C23', 'sound_AMGBoostModel(p0, p1.len() as int)')],
    ens=[cl('C17 C18', '%s ==> marks_max(%s, res)' % (AS.replace('ascores', 'adefined'), AS), 'one-hot at the first highest score')])
# ---- training ------------------------------------------------------------------------------------------------------------
TREQ = [cl('*', 'wf_data(p0) && p0.labels.len() > 0 && 0 < p0.labels[0].len() <= 9223372036854775807'), cl('*', 'wf_cfg(p1) && 0 <= p1.max_levels'), cl('C23', 'sdata(p0, p1.number_of_classes) && p1.number_of_classes > 0')]
def train(model, tag, fit, est, mid, rest, leaf, extra=()):
    trees = 'Seq<Box<TreeNode<%s>>>' % leaf
    ini = 'mean_of(p0.labels, j)' if tag.startswith('C15') else 'fdiv(F::Fin(1real), rint(p0.labels[0].len() as int))'
    contract(model + '::train', params=4, lift=True, group='train',
        req=TREQ,
        ens=[cl(tag, 'res.trees.len() == p2 && res.learning_rate == p3', 'one tree per iteration, with the given learning rate'),
             cl(tag.split()[0], 'res.initial_guess.len() == p0.labels[0].len() && (forall|j: int| 0 <= j < res.initial_guess.len() ==> #[trigger] res.initial_guess[j] == %s)' % ini, 'the starting estimate'),
             *([cl('C24', 'res.initial_guess.len() == p0.labels[0].len() && (finite_rows(p0.labels) ==> all_finite(res.initial_guess))', 'a finite starting estimate')] if 'C24' in tag else []),
             cl(tag, 'forall|t: int| 0 <= t < p2 ==> #[trigger] %s(p0, p1, res.trees, res.initial_guess, p3, t)' % fit, 'each tree is grown from what the trees before it leave over'),
             cl(tag, 'wf_%s(res)' % model, 'well-formed trees'),
             cl('C23', 'sound_%s(res, width(p0)) && res.initial_guess.len() == p1.number_of_classes' % model, 'sound trees')],
        inv=[inv(tag, '%s($m, p0, $t, $g, p3, $k)' % est, m='mod Seq<Seq<F>>', t='mod ' + trees, g='any Seq<F>', k='k', at='outer'),
             inv(tag, 'forall|t: int| 0 <= t < $k ==> #[trigger] %s(p0, p1, $t, $g, p3, t)' % fit, t='mod ' + trees, g='any Seq<F>', k='k', at='outer'),
             inv(tag, 'wf_trees($t)', t='mod ' + trees, at='outer'),
             inv('C23', 'sound_all($t, width(p0), %s(p1.number_of_classes))' % ('ok_dominant' if model == 'AMGBoostModel' else 'ok_output'), t='mod ' + trees, at='outer'),
             inv('C23', 'forall|i: int| 0 <= i < $x.len() ==> (#[trigger] $x[i]).len() == p1.number_of_classes', x='mod Seq<Seq<F>>'),
             inv('C23', '$x.len() == p0.labels.len()', x='mod Seq<Seq<F>>'),
             inv(tag, '%s($m, p0, $t, $g, p3, $o, $x, $k)' % mid, m='mod Seq<Seq<F>>', t='var ' + trees, g='any Seq<F>', o='ok first', x='any TreeNode<%s>' % leaf, k='k', at=1),
             inv(tag, '%s(p0.labels, $w, $x, $k)' % rest, x='mod Seq<Seq<F>>', w='src Seq<Seq<F>>', k='k', at=1)] + list(extra))
SM = [inv('C16 C17', '$x == fsum($v, $k)', x='mod F', v='src Seq<F>', k='k', at='inner'), inv('C16 C17', '$x == fsum(exps($v), $k)', x='mod F', v='src Seq<F>', k='k', at='inner')]
train('RegressionBoostModel', 'C15 C24', 'fitted_sq', 'est_is', 'mid', 'rest_to', 'GradBoostLeaf')
train('MultiClassBoostModel', 'C16', 'fitted_mc', 'est_is', 'mid', 'smax_to', 'GradBoostLeaf', SM)
train('AMGBoostModel', 'C17', 'fitted_am', 'aest_is', 'amid', 'smax_to', 'AMGBoostLeaf', SM + [
    inv('C17', 'adding($v, p0, $t, $g, p3, $o, $l, $q, $k, %s)' % first, v=kind + ' Seq<F>', t='var Seq<Box<TreeNode<AMGBoostLeaf>>>', g='any Seq<F>', o='ok first', q='ok last', l='any AMGBoostLeaf', k='k', at=2)
    for first in ('true', 'false') for kind in ('modl', 'mod')])
