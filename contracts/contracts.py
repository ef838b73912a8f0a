"""Contracts.  Keys name functions by path suffix (or Type::method).  Clauses are Verus expressions over
p0.. (arguments), res (result), out<i> (final value of &mut argument i); each carries the properties it serves."""
C = {}
def contract(key, **k):
    C[key] = k
    return k
def cl(tags, e, d=''): return {'tags': tags.split(), 'e': ' '.join(e.split()), 'd': d}
def inv(tags, e, d='template', at=None, **holes): return {'tags': tags.split(), 'e': ' '.join(e.split()), 'd': d, 'holes': holes, 'outer': at == 'outer', 'inner': at == 'inner', 'depth': at if isinstance(at, int) else None}
TRUSTED = [
 'rustc nightly: the THIR dump it prints is the program it compiles',
 'engine/lower.py + engine/emit.py: translation of THIR to verification conditions',
 'Verus 0.2026.09.13 and Z3',
]
ASSUMPTIONS = [
 'machine floating point treated as mathematical: f64 is the reals with two infinities and NaN; no rounding, no overflow to infinity, no negative zero; the bounded search runs the real f64 code and allows for rounding',
 'integers are exact; the value ranges of their types are assumed for arguments and struct fields; overflow and bounds are obligations of C23 and assumed absent elsewhere (partial correctness)',
 'f64::exp is some positive function of its argument (infinity at infinity, zero at minus infinity); nothing else is used about it',
 'each function is a function of its arguments (no global state in these crates): equal arguments give equal results, which is how a contract speaks of the result of another call',
 'a callee contract is used at the arguments of any call the specification mentions; that such a call returns at all is C23',
 'rayon: the indexed parallel iterators, join and scope give what the sequential order gives (the types of Rust keep closures from writing shared data, and locks and atomics are outside what the lowering accepts)',
 'std: sort_by/sort_unstable_by/sort_by_key yield a permutation in order (stable where documented) if the comparison is a total preorder; partition_point by its documentation; Vec, slice and iterator operations by the models in engine/lower.py',
 'memory: allocation does not fail and lengths stay within isize::MAX',
 'strings are opaque: what is printed or formatted is not specified',
]
# internal tags of callee guarantees a property builds on
DEPS = {'C23': 'PART SPART SORT', 'C24': 'C09 C13 PART LEAF SCORE', 'C11': 'PART', 'C15': 'C09 PART LEAF SCORE', 'C16': 'C09 PART LEAF SCORE', 'C17': 'C10 PART LEAF SCORE', 'C18': 'SCORE', 'C05': 'SPLIT SORT', 'C06': 'SPLIT SPART', 'C02': 'PART', 'C03': 'SPART', 'C04': 'SORT', 'C07': 'PART', 'C09': 'PART', 'C10': 'PART', 'C12': 'PART SPART', 'C08': 'SPART', 'C13': 'LEAF', 'C14': 'LEAF'}

# where C23 starts: what a user calls; everything below is reached through them
ENTRY = ['data_processor::create_dataset_with_sorted_features', 'feature_sorter::get_sorted_feature_tuple_vector', 'data_partitioner::partition', 'data_processor::new_partition',
    'RegressionMultiTargetDecisionTree::new', 'GradBoostMultiTargetDecisionTree::new', 'AMGBoostTree::new', 'RegressionMultiTargetDecisionTreeNewPartition::new'] + \
    ['%s::%s' % (m, f) for m in ('RegressionBoostModel', 'MultiClassBoostModel', 'AMGBoostModel') for f in ('train', 'predict', 'calculate_all_predictions', 'calculate_score')] + \
    ['classification::calculate_accuracy', 'regression::calculate_overall_mean_squared_error', 'regression::calculate_overall_mean_squared_error_new_partition']
