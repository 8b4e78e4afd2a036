"""C23 the two start rows lose no graph, and parameters can be read back from any partial matrix."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, ref
from ..common import Sub, need, sut, label
from srg import solver
from srg.srg import vklu

ASSUMPTIONS = ['0<k<v-1, 0<=l<k, 0<=u<=k; partial matrices have two rows or more and their first two vertices '
               'are adjacent']

ALL = [list(p) for p in ref.feasible_params(4, 127)]


def check_seed(case):
    p = tuple(case)
    v, k, l, u = p
    A = sut(solver._seed, *p)
    S = gens.rows(A)
    need(len(S) == 2 and all(len(r) == v for r in S), f'{p}: start rows of shape {A.shape}')
    need(all(x in (0, 1) for r in S for x in r), f'{p}: entries', gens.show(S))
    need(S[0][0] == 0 and S[1][1] == 0 and S[0][1] == 1 and S[1][0] == 1, f'{p}: the first two vertices', gens.show(S))
    need(sum(S[0]) == k and sum(S[1]) == k, f'{p}: start rows with {sum(S[0])} and {sum(S[1])} ones', gens.show(S))
    need(sum(a & b for a, b in zip(*S)) == l, f'{p}: the start rows have a wrong number of common ones', gens.show(S))
    need(S == ref.seed(*p), f'{p}: the start rows are not in canonical form', gens.show(S))
    got = tuple(int(x) for x in sut(vklu, A))
    need(got == p, f'vklu of the start rows of {p} is {got}')
    return p[0] > 20


def check_known(case):
    M = gens.ALL_GRAPHS[case['graph']]
    p = ref.params_of(M)
    C = ref.canonical(ref.permute(M, case['perm']))
    S = gens.rows(sut(solver._seed, *p))
    need(C[:2] == S, f'no relabelling: {case["graph"]} in canonical form does not start with the start rows', gens.show(S))
    perm = list(case['perm'])
    j = next(i for i in range(1, len(M)) if M[perm[0]][perm[i]])
    perm[1], perm[j] = perm[j], perm[1]
    P = ref.permute(M, perm)[:2 + case['row'] % (len(M) - 1)]
    for dtype in (None, np.int64):
        A = gens.mat(P, dtype)
        keep = A.copy()
        got = tuple(int(x) for x in sut(vklu, A))
        need(got == p, f'vklu of {len(P)} rows of {case["graph"]} is {got} instead of {p}', gens.show(P))
        need(np.array_equal(A, keep), 'vklu changed its argument')
    label(case['graph'])
    return True


known = gens.any_known(row=lambda n: st.integers(0, n - 2))

SUBS = [
    Sub('large', st.sampled_from(gens.HUGE).map(list), check_seed, quick=4000, thorough=40000, shards=8,
        rule='feasible parameter sets with 128..260 vertices; all non-trivial'),
    Sub('seed', ALL, check_seed, shards=8, rule='every feasible parameter set with v<=127, enumerated; non-trivial: v>20'),
    Sub('known', known, check_known, quick=2000, thorough=30000, shards=8,
        rule='relabelled textbook graphs: canonical form starts with the start rows, parameters recovered from any number '
             'of rows; all non-trivial'),
]
