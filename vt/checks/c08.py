"""C08 merging equal adjacent columns is lossless and maximal."""
from hypothesis import strategies as st
import numpy as np

from .. import common, gens, ref
from ..common import Sub, need, sut, label
from srg import unique

ASSUMPTIONS = ['0/1 matrices with at least one row and one column']


@st.composite
def columns(draw):
    R = draw(st.one_of(st.integers(1, 6), st.integers(1, 130)))
    pal = draw(st.lists(st.one_of(st.integers(0, R - 1).map(lambda i: 1 << i), st.integers(0, 2 ** R - 1)),
                        min_size=1, max_size=6))
    runs = draw(st.lists(st.tuples(st.integers(0, len(pal) - 1), st.integers(1, draw(st.sampled_from([3, 40])))),
                         min_size=1, max_size=10))
    if draw(st.integers(0, 5)) == 0:   # many runs
        runs = [(i, n % 6 + 1) for i, n in runs] * draw(st.integers(2, 30))
    return {'R': R, 'runs': [[pal[i], n] for i, n in runs], 'dtype': draw(st.sampled_from(['int8', 'int16', 'int32', 'int64']))}


def check(case):
    R = case['R']
    cols = [tuple(int(c) >> i & 1 for i in range(R)) for c, n in case['runs'] for _ in range(n)]
    A = gens.lay(np.array(cols, dtype=case['dtype']).T.copy())
    A0 = A.copy()
    red, counts, loc = sut(unique.reduce, A)
    need(np.array_equal(A, A0), 'reduce changed its argument')
    runs = []
    for i, c in enumerate(cols):
        if runs and runs[-1][0] == c:
            runs[-1][1] += 1
        else:
            runs.append([c, 1, i])
    need(gens.vec(counts) == tuple(r[1] for r in runs), f'multiplicities {counts.tolist()} instead of {[r[1] for r in runs]}')
    need(gens.vec(loc) == tuple(r[2] for r in runs), f'positions {loc.tolist()} instead of {[r[2] for r in runs]}')
    need([tuple(c) for c in zip(*gens.rows(red))] == [r[0] for r in runs], 'reduced columns are not the distinct runs')
    back = sut(unique.expand, red, counts)
    need(gens.rows(back) == gens.rows(A0), 'expand(reduce(A)) is not A')
    label(('more than 64 rows' if R > 64 else 'up to 64 rows') + (', merged' if len(runs) < len(cols) else ', nothing to merge'))
    return 1 < len(runs) < len(cols)


SUBS = [
    Sub('roundtrip', columns(), check, quick=6000, thorough=150000, shards=8,
        rule='matrices of 1..130 rows made of runs of equal columns that often differ in a single row; '
             'non-trivial: something merges and something does not'),
]
