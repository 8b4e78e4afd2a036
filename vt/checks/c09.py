"""C09 upper bounds are tightened to the system and never below a feasible value."""
from hypothesis import strategies as st
import numpy as np

from .. import common, gens, ref
from ..common import Sub, need, sut, label
from srg import bounds

ASSUMPTIONS = ['0/1 matrices, non-negative right sides and bounds']


@st.composite
def large(draw):
    """many equations and unknowns, each equation with a few unknowns or with nearly all of them"""
    C, R = draw(st.integers(8, 127)), draw(st.integers(8, 127))
    rows_ = []
    for _ in range(draw(st.integers(1, 12))):
        few = draw(st.lists(st.integers(0, C - 1), max_size=6))
        z = draw(st.integers(0, 4)) == 0
        rows_.append([int((j in few) != z) for j in range(C)])
    which = [draw(st.integers(0, len(rows_) - 1)) for _ in range(12)]
    ub = (draw(st.lists(st.integers(0, 127), min_size=8, max_size=8)) * C)[:C]
    b = (draw(st.lists(st.integers(0, 127), min_size=9, max_size=9)) * R)[:R]
    for i in draw(st.lists(st.integers(0, R - 1), max_size=4)):
        b[i] = draw(st.integers(0, 5))
    types = [draw(st.sampled_from(['int8', 'int16', 'int32', 'int64'])) for _ in range(3)]
    if types[1] != 'int8':
        b = [x * 5 if x % 3 else x for x in b]
    return {'A': [rows_[which[i % 12]] if i < R - len(rows_) else rows_[R - 1 - i] for i in range(R)], 'b': b, 'ub': ub,
            'types': types}


@st.composite
def case_(draw):
    C = draw(st.integers(1, 7))
    R = draw(st.integers(1, 7))
    A = [[int(draw(st.integers(0, 2)) == 0) for _ in range(C)] for _ in range(R)]
    ub = draw(st.lists(st.integers(0, 5), min_size=C, max_size=C))
    if draw(st.booleans()):
        x0 = [draw(st.integers(0, u)) for u in ub]
        b = [sum(p * q for p, q in zip(r, x0)) for r in A]
    else:
        b = draw(st.lists(st.integers(0, 9), min_size=R, max_size=R))
    return {'A': A, 'b': b, 'ub': ub}


def check(case):
    A, b, ub = (np.array(case[k], dtype=t) for k, t in zip(('A', 'b', 'ub'), case.get('types', ['int8'] * 3)))
    A = gens.lay(A)
    A0, b0 = A.copy(), b.copy()
    sut(bounds.lower_upper_bound, A, b, ub)
    need(np.array_equal(A, A0) and np.array_equal(b, b0), 'lower_upper_bound changed the system')
    new, old = gens.vec(ub), case['ub']
    what = f'A={case["A"]} b={case["b"]} bounds {old} -> {list(new)}'
    for j in range(len(old)):
        rows_ = [bi for r, bi in zip(case['A'], case['b']) if r[j]]
        need(new[j] == min([old[j]] + rows_), f'{what}: bound {j} should be {min([old[j]] + rows_)}')
    sols = ref.solve_counts([tuple(c) for c in zip(*case['A'])], old, case['b']) if len(old) < 8 else []
    for x in sols:
        need(all(a <= n for a, n in zip(x, new)), f'{what}: solution {x} is cut off')
    again = ub.copy()
    sut(bounds.lower_upper_bound, A, b, again)
    need(np.array_equal(again, ub), f'{what}: tightening twice differs')
    z = sut(lambda: [int(i) for i in bounds.zero_bound_loc(ub)])
    need(sorted(z) == [j for j, n in enumerate(new) if n == 0], f'{what}: zero bounds reported at {z}')
    # rows that mention a single unknown
    single = {}
    for i, r in enumerate(case['A']):
        if sum(r) == 1:
            single.setdefault(r.index(1), []).append(i)
    got = [(int(r), int(c)) for r, c in sut(bounds.one_element_row_locs, A)]
    need(sorted(c for r, c in got) == sorted(single), f'{what}: single-unknown rows {got}, expected columns {sorted(single)}')
    need(all(r in single[c] for r, c in got), f'{what}: {got} names a row with more than one unknown')
    label(('tightened' if list(new) != old else 'kept') + (', single-unknown rows' if single else ''))
    return list(new) != old and bool(single)


SUBS = [
    Sub('large', large(), check, quick=1500, thorough=30000, shards=8,
        rule='up to 127 equations and unknowns, of different integer types, compared with the formula only; non-trivial as below'),
    Sub('bounds', case_(), check, quick=8000, thorough=200000, shards=8,
        rule='random sparse 0/1 systems with bounds; non-trivial: a bound was tightened and some row has one unknown'),
]
