from contracts import *
N = 'numerical_calculations::'
for nm, op in (('add', 'fadd'), ('subtract', 'fsub'), ('multiply', 'fmul'), ('divide', 'fdiv')):
    contract(N + nm + '_f64_slices_as_vector', params=2, lift=True,
        req=[cl('*', 'p0.len() == p1.len()')],
        ens=[cl('* C22', 'res.len() == p0.len()'),
             cl('* C22', 'forall|i: int| 0 <= i < p0.len() ==> #[trigger] res[i] == %s(p0[i], p1[i])' % op, 'element-wise')])
contract(N + 'multiply_f64_slice_by_f64_scalar', params=2, lift=True,
    ens=[cl('* C22', 'res.len() == p1.len()'),
         cl('* C22', 'forall|i: int| 0 <= i < p1.len() ==> #[trigger] res[i] == fmul(p0, p1[i])', 'scaled element-wise')])
contract(N + 'sum_of_f64_vectors', params=1, lift=True,
    req=[cl('*', 'rect(p0)'), cl('C23', 'p0.len() > 0')],
    ens=[cl('* C22', 'p0.len() > 0 ==> res.len() == p0[0].len()'),
         cl('* C22', 'p0.len() > 0 ==> forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == colsum(p0, j, p0.len() as int)', 'position-wise sum')],
    inv=[inv('*', 'forall|j: int| 0 <= j < p0[0].len() ==> #[trigger] $x[j] == colsum(p0, j, $k)', x='mod Seq<F>', k='k')])
contract(N + 'calculate_average_f64_vector', params=1, lift=True,
    req=[cl('*', 'rect(p0)'), cl('C23', 'p0.len() > 0')],
    ens=[cl('* C22', 'p0.len() > 0 ==> res.len() == p0[0].len()'),
         cl('* C22', 'p0.len() > 0 ==> forall|j: int| 0 <= j < res.len() ==> #[trigger] res[j] == fdiv(colsum(p0, j, p0.len() as int), F::Fin(p0.len() as real))', 'position-wise mean')],
    inv=[inv('*', 'forall|j: int| 0 <= j < p0[0].len() ==> #[trigger] $x[j] == colsum(p0, j, $k)', x='mod Seq<F>', k='k')])
contract(N + 'mean_sum_of_squared_differences_between_f64_slices', params=2, lift=True,
    req=[cl('*', 'p0.len() == p1.len()')],
    ens=[cl('*', 'res == fdiv(sqdiff(p0, p1, p0.len() as int), F::Fin(p0.len() as real))', 'mean squared difference')],
    inv=[inv('*', '$x == sqdiff(p0, p1, $k)', x='mod F', k='k')])
