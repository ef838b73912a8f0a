from contracts import *
T = 'threshold_finder_variance::'
def threshold(key, s, extra):
    """the search along one sorted column: s is the column, p0 rows, p1 labels, p3 totals, p4 targets"""
    tr = []
    for f in ('psum(p1, S, j, $k)', 'psq(p1, S, j, $k)', 'rsum(p3.sum_of_labels_vector[j], p1, S, j, $k)', 'rsq(p3.sum_of_squared_labels_vector[j], p1, S, j, $k)'):
        tr.append(inv('SPLIT', ('forall|j: int| 0 <= j < p4 ==> (#[trigger] $x[j]) == ' + f).replace('S,', s + ','), x='mod Seq<F>', k='k', at='outer'))
    tr.append(inv('SPLIT', ('$k > 0 ==> (forall|j: int| 0 <= j < p4 ==> (#[trigger] $x[j]) == fdiv(psum(p1, S, j, $k), ri($k)))').replace('S,', s + ','), x='mod Seq<F>', k='k', at='outer'))
    tr.append(inv('SPLIT', ('0 < $k < p0 ==> (forall|j: int| 0 <= j < p4 ==> (#[trigger] $x[j]) == fdiv(rsum(p3.sum_of_labels_vector[j], p1, S, j, $k), ri(p0 - $k)))').replace('S,', s + ','), x='mod Seq<F>', k='k', at='outer'))
    tr.append(inv('SPLIT', '$x == ri($k)', x='mod F', k='k', at='outer'))
    tr.append(inv('SPLIT', '$x == ri(p0 - $k)', x='mod F', k='k', at='outer'))
    tr.append(inv('SPLIT C23', '$x == (if $k > 0 { S[$k - 1].0 } else { S[0].0 })'.replace('S[', s + '['), x='mod F', k='k', at='outer'))
    tr.append(inv('SPLIT', '0 < $o < p0 ==> $x == fcut(p1, S, p3.sum_of_labels_vector, p3.sum_of_squared_labels_vector, p0, $o, $k)'.replace('S,', s + ','), x='mod F', k='k', o='okk', at='inner'))
    fin = 'p0 == S.len() && !(S[0].0 is NaN) && cuts_finite(p1, S, p3.sum_of_labels_vector, p3.sum_of_squared_labels_vector, p0, p4)'.replace('S.', s + '.').replace('S[', s + '[').replace('S,', s + ',')
    best = 'best_cut(p1, S, p3.sum_of_labels_vector, p3.sum_of_squared_labels_vector, p0, p4, $x, $k)'.replace('S,', s + ',')
    tr.append(inv('SPLIT', '(%s) ==> %s' % (fin, best), x='mod BestThresholdResult', k='k', at='outer'))
    tr.append(inv('C23', 'cut_or_none(%s, $x)' % s, x='mod BestThresholdResult', at='outer'))
    shape = 'p3.sum_of_labels_vector.len() == p4 && p3.sum_of_squared_labels_vector.len() == p4 && p3.mean_of_labels_vector.len() == p4 && (forall|i: int| 0 <= i < p1.len() ==> (#[trigger] p1[i]).len() == p4)'
    contract(T + key, params=5, req=[cl('C23', shape), cl('C23', extra)], lift=True, helper=True, group='split', callers=['split_finder_variance::find_best_split', 'split_finder_variance::find_best_split_new_partition'], hide=['fadd', 'fsub', 'fneg', 'fmul', 'fdiv'], bcast=['lemma_fadd_fin', 'lemma_fsub_fin'],
        ens=[cl('C23', 'cut_or_none(%s, res)' % s, 'the threshold found divides the column'), cl('SPLIT', '(%s) ==> %s' % (fin, best.replace('$x', 'res').replace('$k', s + '.len() as int')), 'the cheapest boundary')], inv=tr)
threshold('determine_best_threshold', 'sem!(get_sorted_feature_tuple_vector)(p2)', '0 < p2.len() <= p1.len() && no_nan(p2)')
threshold('determine_best_threshold_new', 'p2', '0 < p2.len() && in_range(p2, p1.len() as int)')
