from contracts import *
R = 'data_reader::'
# ---- C01 --------------------------------------------------------------------------------------------------------------
contract(R + 'create_feature_columns', params=1, lift=True,
    req=[cl('C23', 'p0.len() > 0 && rect(p0)')],
    ens=[cl('C01', 'columns_of(p0, res)', 'column view'), cl('PART', 'res =~~= transpose(p0)', 'column view')],
    inv=[inv('* C01', 'forall|c: int| 0 <= c < $k ==> (#[trigger] $x[c]).len() == p0.len()', x='mod Seq<Seq<F>>', k='k'),
         inv('* C01', 'forall|c: int, r: int| 0 <= c < $k && 0 <= r < p0.len() ==> (#[trigger] $x[c][r]) == p0[r][c]', x='mod Seq<Seq<F>>', k='k')])
contract(R + 'read_csv_data', params=1,
    ens=[cl('C01', 'res.features.len() == records(p0).len() && res.labels.len() == records(p0).len()', 'every record kept'),
         cl('C01', 'forall|i: int| 0 <= i < res.features.len() ==> #[trigger] res.features[i] =~= rec(p0, i).drop_last()', 'features: all values but the last'),
         cl('C01', 'forall|i: int| 0 <= i < res.labels.len() ==> #[trigger] res.labels[i] == rec(p0, i).last()', 'label: the last value')])
contract(R + 'read_csv_data_one_hot_multi_target', params=2,
    ens=[cl('C01', 'res.feature_rows.len() == records(p0).len() && res.labels.len() == records(p0).len()', 'every record kept'),
         cl('C01', 'forall|i: int| 0 <= i < res.feature_rows.len() ==> #[trigger] res.feature_rows[i] =~= rec(p0, i).drop_last()', 'features: all values but the last'),
         cl('C01', 'forall|i: int| 0 <= i < res.labels.len() ==> is_onehot(#[trigger] res.labels[i], class_index(rec(p0, i).last()), p1)', 'one-hot label'),
         cl('C01', 'columns_of(res.feature_rows, res.feature_columns)', 'column view')],
    inv=[inv('C01', 'forall|i: int| 0 <= i < $k ==> is_onehot(#[trigger] $x[i], class_index(rec(p0, i).last()), p1)', x='mod Seq<Seq<F>>', k='k'),
         inv('C01', 'forall|c: int| 0 <= c < $k ==> (#[trigger] $x[c]).len() == $r.len()', x='mod Seq<Seq<F>>', k='k', r='any Seq<Seq<F>>'),
         inv('C01', 'forall|c: int, r: int| 0 <= c < $k && 0 <= r < $r.len() ==> (#[trigger] $x[c][r]) == $r[r][c]', x='mod Seq<Seq<F>>', k='k', r='any Seq<Seq<F>>')])
contract(R + 'read_csv_data_multi_target', params=2,
    ens=[cl('C01', 'res.feature_rows.len() == records(p0).len() && res.labels.len() == records(p1).len()', 'every record kept'),
         cl('C01', 'forall|i: int| 0 <= i < res.feature_rows.len() ==> #[trigger] res.feature_rows[i] == rec(p0, i)', 'feature rows'),
         cl('C01', 'forall|i: int| 0 <= i < res.labels.len() ==> #[trigger] res.labels[i] == rec(p1, i)', 'label vectors'),
         cl('C01', 'columns_of(res.feature_rows, res.feature_columns)', 'column view')])
# ---- C02 --------------------------------------------------------------------------------------------------------------
contract('question::Question::solve', params=2, lift=True,
    req=[cl('C23', '0 <= p0.column < p1.len()')],
    ens=[cl('*', 'res == says(p1, p0.column, p0.value)', 'at least the threshold')])
contract('data_partitioner::partition', params=2, lift=True,
    req=[cl('*', 'p0.labels.len() == p0.feature_rows.len()'), cl('C23', 'sdata(p0, p0.labels[0].len() as int) && splits(p0, p1.column, p1.value)')],
    ens=[cl('C02 PART', 'res.%d.feature_rows =~= part(p0, p1, %s).feature_rows && res.%d.labels =~= part(p0, p1, %s).labels && res.%d.feature_columns =~= part(p0, p1, %s).feature_columns' % (i, w, i, w, i, w), w + ' part') for i, w in ((0, 'false'), (1, 'true'))],
    inv=[inv('*', '$x == sel(p0.feature_rows, p1.column, p1.value, true, p0.feature_rows, $k)', x='mod Seq<Seq<F>>', k='k'),
         inv('*', '$x == sel(p0.feature_rows, p1.column, p1.value, false, p0.feature_rows, $k)', x='mod Seq<Seq<F>>', k='k'),
         inv('*', '$x == sel(p0.feature_rows, p1.column, p1.value, true, p0.labels, $k)', x='mod Seq<Seq<F>>', k='k'),
         inv('*', '$x == sel(p0.feature_rows, p1.column, p1.value, false, p0.labels, $k)', x='mod Seq<Seq<F>>', k='k')])
# ---- C03 --------------------------------------------------------------------------------------------------------------
MASK = '(forall|i: int| 0 <= i < $x.len() ==> ((#[trigger] $x[i]) == 1 <==> %s(p0.sorted_feature_columns[p1], %s$k, i)))'
contract('data_processor::new_partition', params=4, lift=True,
    req=[cl('*', '0 <= p1 < p0.sorted_feature_columns.len() && val_sorted(p0.sorted_feature_columns[p1])'), cl('C23', 'forall|c: int| 0 <= c < p0.sorted_feature_columns.len() ==> in_range(#[trigger] p0.sorted_feature_columns[c], p3.len() as int)')],
    ens=[cl('C03 SPART', 'res.0.labels =~= spart(p0, p3, p1, p2, true).labels && res.0.sorted_feature_columns =~= spart(p0, p3, p1, p2, true).sorted_feature_columns', 'true part'), cl('C03 SPART', 'res.1.labels =~= spart(p0, p3, p1, p2, false).labels && res.1.sorted_feature_columns =~= spart(p0, p3, p1, p2, false).sorted_feature_columns', 'false part')],
    inv=[inv('*', MASK % ('in_col', ''), x='mod Seq<int>', k='k'),
         inv('*', MASK % ('in_true', 'p2, '), x='mod Seq<int>', k='k'),
         inv('*', MASK % ('in_false', 'p2, '), x='mod Seq<int>', k='k')] + [inv('*', (MASK % m).replace(' == 1 <==>', ' <==>'), x='mod Seq<bool>', k='k') for m in (('in_col', ''), ('in_true', 'p2, '), ('in_false', 'p2, '))] + [
         inv('*', 'forall|i: int| 0 <= i < $k ==> !fge((#[trigger] p0.sorted_feature_columns[p1][i]).0, p2)', k='k'),
         ] + [inv('*', '$x =~= lsel(p3, p0.sorted_feature_columns[p1], p2, %s, $k)' % w, x='mod Seq<Seq<F>>', k='k') for w in ('true', 'false')]
       + [inv('*', '$x =~= csel(p0.sorted_feature_columns[$c], p0.sorted_feature_columns[p1], p2, %s, $k)' % w, x='mod Seq<(F, int)>', k='k', c='okk') for w in ('true', 'false')]
       + [inv('*', 'forall|c: int| 0 <= c < $k ==> (#[trigger] $x[c]) =~= csel(p0.sorted_feature_columns[c], p0.sorted_feature_columns[p1], p2, %s, p0.sorted_feature_columns[c].len() as int)' % w, x='mod Seq<Seq<(F, int)>>', k='k') for w in ('true', 'false')])
# ---- C04 --------------------------------------------------------------------------------------------------------------
contract('feature_sorter::get_sorted_feature_tuple_vector', params=1, lift=True,
    req=[cl('C23', 'no_nan(p0)')],
    ens=[cl('C04 SORT', 'no_nan(p0) ==> sorted_column(p0, res)', 'every pair once, in ascending order')])
contract('data_processor::create_dataset_with_sorted_features', params=1, lift=True,
    req=[cl('C23', 'forall|c: int| 0 <= c < p0.feature_columns.len() ==> no_nan(#[trigger] p0.feature_columns[c])')],
    ens=[cl('C04 C23', 'res.labels =~= p0.labels', 'labels in row order'),
         cl('C04 C23', 'res.sorted_feature_columns.len() == p0.feature_columns.len()', 'every feature'),
         cl('C04 C23', 'forall|c: int| 0 <= c < p0.feature_columns.len() && no_nan(p0.feature_columns[c]) ==> sorted_column(p0.feature_columns[c], #[trigger] res.sorted_feature_columns[c])', 'each feature presorted'),
         cl('C23', 'sdata(p0, p0.labels[0].len() as int) ==> pdata(res, p0.labels)', 'well-formed presorted data')],
    inv=[inv('C04 C23', 'forall|c: int| 0 <= c < $k && no_nan(p0.feature_columns[c]) ==> sorted_column(p0.feature_columns[c], #[trigger] $x[c])', x='mod Seq<Seq<(F, int)>>', k='k')])
