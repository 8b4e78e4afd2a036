"""C15 complements of graphs and parameters, and the feasibility test."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, ref
from ..common import Sub, need, sut, label
from srg import utils

ASSUMPTIONS = ['adjacency matrices of simple graphs, of an integer type']


def check_complement(case):
    M = gens.parse(case['rows'])
    A = gens.mat(M, case['dtype'])
    keep = A.copy()
    C = sut(utils.complement, A)
    need(np.array_equal(A, keep), 'complement changed its argument')
    need(gens.rows(C) == ref.complement(M), 'complement of', gens.show(M), 'is', gens.show(gens.rows(C)))
    need(gens.rows(sut(utils.complement, C)) == [tuple(r) for r in M], 'the complement of the complement differs', gens.show(M))
    e = sum(map(sum, M))
    label('mixed' if 0 < e < len(M) * (len(M) - 1) else 'empty or complete')
    return 0 < e < len(M) * (len(M) - 1)


def check_known(case):
    M = ref.permute(gens.ALL_GRAPHS[case['graph']], case['perm'])
    p = ref.params_of(M)
    q = tuple(int(x) for x in sut(utils.complement_vklu, *p))
    C = gens.rows(sut(utils.complement, gens.mat(M)))
    bad = ref.is_srg(C, q)
    need(bad is None, f'the complement of {case["graph"]} {p} is not a graph with parameters {q}: {bad}')
    need(tuple(int(x) for x in sut(utils.complement_vklu, *q)) == p, f'complement_vklu twice on {p}')
    sut(utils.assert_srg, *p)
    sut(utils.assert_srg, *q)
    label(case['graph'])
    return True


@st.composite
def params(draw):
    how = draw(st.sampled_from(['feasible', 'near', 'near', 'any', 'huge']))
    if how in ('feasible', 'near'):
        p = list(draw(st.sampled_from(FEASIBLE)))
        if how == 'near':
            p[draw(st.integers(0, 3))] += draw(st.sampled_from([-2, -1, 1, 2]))
    elif how == 'any':
        p = [draw(st.integers(0, 40)) for _ in range(4)]
    else:   # made to satisfy the identity, or just miss it
        k, l = draw(st.integers(1, 10 ** 9)), draw(st.integers(0, 10 ** 9))
        u = draw(st.integers(1, 50))
        l = l % k
        n = k * (k - l - 1)
        p = [k + 1 + n // u, k, l, u]
    return p


FEASIBLE = ref.feasible_params(4, 60)


def check_assert(case):
    v, k, l, u = case
    ok = (v - k - 1) * u == k * (k - l - 1)
    try:
        utils.assert_srg(v, k, l, u)
        accepted = True
    except AssertionError:
        accepted = False
    except Exception as e:
        need(not ok, f'assert_srg{tuple(case)} raised {type(e).__name__}: {e}')
        accepted = False
    need(accepted == ok, f'assert_srg{tuple(case)} {"accepted" if accepted else "rejected"} it')
    w = tuple(int(x) for x in sut(utils.complement_vklu, v, k, l, u))
    need(w == (v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l), f'complement_vklu{tuple(case)} is {w}')
    if ok:
        sut(utils.assert_srg, *w)
    label('accepted' if ok else 'rejected')
    return True


known = gens.any_known()

SUBS = [
    Sub('matrix', st.fixed_dictionaries({'rows': gens.simple_graph(1, 40), 'dtype': st.sampled_from(['int8', 'int16', 'int32', 'int64'])}),
        check_complement, quick=2500, thorough=40000, shards=8,
        rule='arbitrary simple graphs; non-trivial: neither empty nor complete'),
    Sub('big', st.fixed_dictionaries({'rows': gens.big_graph(), 'dtype': st.sampled_from(['int8', 'int16', 'int32', 'int64'])}),
        check_complement, quick=600, thorough=10000, shards=8, rule='as before, 25 to 150 vertices'),
    Sub('known', known, check_known, quick=500, thorough=5000, shards=8,
        rule='relabelled textbook strongly regular graphs; all non-trivial'),
    Sub('params', params(), check_assert, quick=10000, thorough=200000, shards=8,
        rule='parameter sets satisfying the identity, missing it by a little, or far off, up to 10^9; all non-trivial'),
]
