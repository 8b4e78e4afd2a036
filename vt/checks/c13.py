"""C13 maximize brings an adjacency matrix into canonical form without changing the graph."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, iso, ref
from ..common import Sub, need, sut, label
from srg import sorter

ASSUMPTIONS = ['adjacency matrices of simple graphs on at least two vertices, of a signed integer type']


def check_matrix(M, dtype):
    A = gens.mat(M, dtype)
    keep = A.copy()
    out = sut(sorter.maximize, A)
    need(np.array_equal(A, keep) and A.dtype == keep.dtype, 'maximize changed its argument')
    R = gens.rows(out)
    n = len(M)
    need(len(R) == n and all(len(r) == n for r in R), 'shape', out.shape)
    bad = ref.is_canonical(R)
    need(bad is None, f'the result is not maximal: {bad};', gens.show(M), '->', gens.show(R))
    need(ref.upper(R) >= ref.upper(M), 'the result is smaller than the input', gens.show(M), '->', gens.show(R))
    need(R == ref.canonical(M) or iso.isomorphic(M, R), 'the result is another graph', gens.show(M), '->', gens.show(R))
    again = gens.rows(sut(sorter.maximize, out))
    need(again == R, 'maximizing twice differs from once', gens.show(R), '->', gens.show(again))
    return R


def check_any(case):
    M = gens.parse(case['rows'])
    R = check_matrix(M, case['dtype'])
    same = R == [tuple(r) for r in M]
    if not same:
        # canonical matrices are left alone
        C = ref.canonical(M)
        need(gens.rows(sut(sorter.maximize, gens.mat(C, case['dtype']))) == C, 'a maximal matrix was changed', gens.show(C))
    label('already maximal' if same else 'changed')
    return not same


def check_known(case):
    M = ref.permute(gens.ALL_GRAPHS[case['graph']], case['perm'])
    p = ref.params_of(M)
    R = check_matrix(M, case['dtype'])
    need(ref.is_srg(R, p) is None, 'the result is not such a graph any more', ref.is_srg(R, p))
    need(R[:2] == ref.seed(*p), f'the first two rows are not the start rows of {p}', gens.show(R[:2]))
    label(case['graph'])
    return True


known = gens.any_known(dtype=lambda n: st.sampled_from(['int8', 'int16', 'int32', 'int64']))

SUBS = [
    Sub('any', st.fixed_dictionaries({'rows': gens.simple_graph(2, 24), 'dtype': st.sampled_from(['int8', 'int16', 'int32', 'int64'])}),
        check_any, quick=3000, thorough=60000, shards=8,
        rule='arbitrary simple graphs, many with large groups of twin vertices; non-trivial: not maximal already'),
    Sub('big', st.fixed_dictionaries({'rows': gens.big_graph(), 'dtype': st.sampled_from(['int8', 'int16', 'int32', 'int64'])}),
        check_any, quick=600, thorough=10000, shards=8,
        rule='graphs of 25 to 150 vertices, blocks of twins or circulants with some edges changed; non-trivial as above'),
    Sub('known', known, check_known, quick=500, thorough=8000, shards=8,
        rule='relabelled textbook strongly regular graphs up to 126 vertices; all non-trivial'),
]
