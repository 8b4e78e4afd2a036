"""C12 sorting adjacency matrices by their upper triangles."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, graphs, ref
from ..common import Sub, need, sut, label
from srg import sorter

ASSUMPTIONS = ['symmetric 0/1 matrices of one size, of a signed integer type']


@st.composite
def matrices(draw):
    if draw(st.integers(0, 2)) == 0:
        name = draw(st.sampled_from(['paley9', 'T5', 'L2(4)', 'shrikhande', 'clebsch', 'paley13', '3K4', 'K3x4']))
        M = graphs.catalogue()[name]
        rows = [[''.join(map(str, r)) for r in ref.permute(M, draw(gens.relabelling(len(M))))]
                for _ in range(draw(st.integers(1, 6)))]
    else:
        n = draw(st.integers(2, 12))
        m = n * (n - 1) // 2
        base = draw(st.integers(0, 2 ** m - 1))
        rows = []
        for _ in range(draw(st.integers(0, 9))):
            how = draw(st.sampled_from(['flip', 'flip', 'flip2', 'new', 'same']))
            code = base
            if how in ('flip', 'flip2'):
                for _ in range(1 + (how == 'flip2')):
                    code ^= 1 << draw(st.integers(0, m - 1))
            elif how == 'new':
                code = draw(st.integers(0, 2 ** m - 1))
            M = [[0] * n for _ in range(n)]
            t = 0
            for i in range(n):
                for j in range(i):
                    M[i][j] = M[j][i] = code >> t & 1
                    t += 1
            rows.append([''.join(map(str, r)) for r in M])
    return {'rows': rows, 'dtypes': [draw(st.sampled_from(['int8', 'int16', 'int32', 'int64'])) for _ in rows],
            'lazy': draw(st.booleans()), 'rot': draw(st.integers(0, 8))}


@st.composite
def big(draw):
    """matrices of up to 130 vertices that agree except in a few edges"""
    n = draw(st.one_of(st.integers(30, 130), st.sampled_from([32, 33, 34, 63, 64, 65, 66, 67, 100])))
    vertex = st.one_of(st.integers(0, n - 1), st.sampled_from([0, 1, 2, n - 3, n - 2, n - 1]))
    return {'n': n, 'fill': draw(st.integers(0, 2)), 'lazy': draw(st.booleans()), 'rot': draw(st.integers(0, 8)),
            'flips': draw(st.lists(st.lists(st.tuples(vertex, vertex).map(list), max_size=3), min_size=2, max_size=5)),
            'int8': draw(st.booleans())}


def check_big(case):
    n = case['n']
    base = [[int(i != j and [0, 1, (i * j + i + j) % 7 < 3][case['fill']]) for j in range(n)] for i in range(n)]
    rows = []
    for flips in case['flips']:
        M = [list(r) for r in base]
        for i, j in flips:
            if i != j:
                M[i][j] = M[j][i] = 1 - base[i][j]
        rows.append([''.join(map(str, r)) for r in M])
    return check({'rows': rows, 'dtypes': ['int8' if case['int8'] else 'int64'] * len(rows), 'lazy': case['lazy'],
                  'rot': case['rot']})


def check(case):
    Ms = [gens.parse(r) for r in case['rows']]
    arr = [gens.mat(M, d) for M, d in zip(Ms, case['dtypes'])]
    keep = [a.copy() for a in arr]
    held = list(arr)
    arg = (a for a in arr) if case['lazy'] else arr
    out = sut(lambda: list(sorter.sort(arg)))
    need(len(arr) == len(held) and all(a is b for a, b in zip(arr, held)), 'sort changed the list it was given')
    need(all(np.array_equal(a, k) and a.dtype == k.dtype for a, k in zip(arr, keep)), 'sort changed a matrix')
    got = [tuple(gens.rows(a)) for a in out]
    want = sorted((tuple(M) for M in Ms), key=ref.upper)
    need(got == want, 'sorted order of', [gens.show(M) for M in Ms], 'is', [gens.show(g) for g in got])
    if arr:
        r = case['rot'] % len(arr)
        again = sut(lambda: list(sorter.sort((arr[r:] + arr[:r])[::-1])))
        need([tuple(gens.rows(a)) for a in again] == want, 'the order depends on the order of the input')
    label(f'{len(set(got))} distinct' if len(got) < 4 else '4 or more')
    return len(set(got)) > 1 and got != [tuple(M) for M in Ms]


@st.composite
def many(draw):
    """up to 200 small matrices"""
    n = draw(st.integers(3, 9))
    m = n * (n - 1) // 2
    start, step = draw(st.integers(0, 2 ** m - 1)), draw(st.integers(0, 2 ** m - 1))
    rows = []
    for t in range(draw(st.integers(10, 200))):
        code = (start + t * step) % 2 ** m
        M = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                M[i][j] = M[j][i] = code >> (i * (i - 1) // 2 + j) & 1
        rows.append([''.join(map(str, r)) for r in M])
    return {'rows': rows, 'dtypes': ['int8' if start % 2 else 'int64'] * len(rows), 'lazy': draw(st.booleans()),
            'rot': draw(st.integers(0, 200))}


SUBS = [
    Sub('many', many(), check, quick=300, thorough=8000, shards=8,
        rule='lists of 10 to 200 small matrices; non-trivial as below'),
    Sub('sort', matrices(), check, quick=4000, thorough=100000, shards=8,
        rule='lists (or iterators) of adjacency matrices that often differ in one or two edges; non-trivial: at least '
             'two distinct ones, not given in order'),
    Sub('big', big(), check_big, quick=400, thorough=10000, shards=8,
        rule='two to five matrices of 30 to 130 vertices, each differing from a common one in at most three edges, often '
             'in the first or last rows and columns; non-trivial: as above'),
]
