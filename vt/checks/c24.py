"""C24 swapping two vertices relabels the graph and nothing else."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, ref
from ..common import Sub, need, sut, label
from srg import sorter

ASSUMPTIONS = ['adjacency matrices of simple graphs, vertex numbers from 0']


@st.composite
def case_(draw, graph):
    rows = draw(graph)
    n = len(rows)
    return {'rows': rows, 'swaps': [[draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
                                    for _ in range(draw(st.integers(1, 6)))], 'dtype': draw(st.sampled_from(['int8', 'int16', 'int32', 'int64']))}


def check(case):
    M = gens.parse(case['rows'])
    n = len(M)
    A = gens.mat(M, case['dtype'])
    start = A
    moved = False
    for i, j in case['swaps']:
        perm = list(range(n))
        perm[i], perm[j] = j, i
        want = ref.permute(M, perm)
        keep = A.copy()
        for f in (sorter.swap, sorter.swap_and_verify):
            B = sut(f, A, i, j)
            need(np.array_equal(A, keep), f'{f.__name__} changed its argument')
            need(gens.rows(B) == want, f'{f.__name__}({i}, {j}) on', gens.show(M), 'gave', gens.show(gens.rows(B)))
        need(gens.rows(sut(sorter.swap, B, i, j)) == [tuple(r) for r in M], f'swapping {i} and {j} twice changed the graph')
        moved |= want != [tuple(r) for r in M]
        M, A = want, B
    for i, j in reversed(case['swaps']):
        A = sut(sorter.swap, A, i, j)
    need(gens.rows(A) == gens.rows(start), 'undoing all swaps does not lead back')
    label('changed' if moved else 'symmetric')
    return moved


def check_verify(case):
    """swap_and_verify refuses what is not an adjacency matrix"""
    M = gens.parse(case['rows'])
    n = len(M)
    A = gens.mat(M, 'int64')
    i, j = case['at'][0] % n, case['at'][1] % n
    A[i, j] ^= 1   # a loop, or an edge in one direction only
    a, b = case['swap'][0] % n, case['swap'][1] % n
    try:
        sorter.swap_and_verify(A, a, b)
    except AssertionError:
        label('loop' if i == j else 'one-way edge')
        return True
    need(False, f'swap_and_verify({a}, {b}) accepted', gens.show(A.tolist()))


two = st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list)
SUBS = [
    Sub('big', case_(gens.big_graph()), check, quick=500, thorough=6000, shards=8, rule='as before, 25 to 150 vertices'),
    Sub('swap', case_(gens.simple_graph(2, 30)), check, quick=3000, thorough=40000, shards=8,
        rule='sequences of swaps on arbitrary graphs; non-trivial: the matrix changed'),
    Sub('verify', st.fixed_dictionaries({'rows': gens.simple_graph(2, 20), 'at': two, 'swap': two}), check_verify,
        quick=1500, thorough=20000, shards=4,
        rule='adjacency matrices damaged at one place must be refused'),
]
