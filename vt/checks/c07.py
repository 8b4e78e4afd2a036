"""C07 elimination returns an equivalent 0/1 system, or reports that there is no solution."""
from hypothesis import strategies as st
from itertools import product
import numpy as np

from .. import common, gens, ref
from ..common import Sub, need, sut, label, Violation
from srg import gauss_elim
from srg.srg import NoSolution

ASSUMPTIONS = ['every column has a nonzero entry (the quota row sees to that), right sides are non-negative']


def elim(A, b):
    try:
        return gauss_elim.elim(A, b)
    except NoSolution:
        return None
    except Exception as e:
        raise Violation(f'elim raised {type(e).__name__}: {e} on A={A.tolist()} b={b.tolist()}') from e


def solutions(A, b, hi):
    cols = [tuple(c) for c in zip(*A)]
    return set(ref.solve_counts(cols, [hi] * len(cols), b, 100000))


def well_formed(res, C, what):
    A, b = res
    need(A.ndim == 2 and A.shape[1] == C, f'{what}: {A.shape} matrix for {C} columns')
    need(len(b) == A.shape[0], f'{what}: {len(b)} right sides for {A.shape[0]} rows')
    A, b = gens.rows(A), gens.vec(b)
    need(all(x in (0, 1) for r in A for x in r), f'{what}: not a 0/1 matrix: {A}')
    need(all(x >= 0 for x in b), f'{what}: negative right side {b}')
    return A, b


@st.composite
def small(draw):
    C = draw(st.integers(1, 7))
    R = draw(st.integers(0, 7))
    A = [[int(x) for x in draw(st.lists(st.booleans(), min_size=C, max_size=C))] for _ in range(R)] + [[1] * C]
    x0 = draw(st.lists(st.integers(0, 3), min_size=C, max_size=C))
    b = [sum(p * q for p, q in zip(r, x0)) for r in A]
    if draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(0, R))
        b[i] = max(0, b[i] + draw(st.integers(-2, 2)))
    order = draw(st.permutations(range(R + 1)))
    return {'A': [A[i] for i in order], 'b': [b[i] for i in order]}


def check_small(case):
    dtype = np.int8 if max(case['b']) < 128 else np.int16
    A, b = gens.lay(np.array(case['A'], dtype=dtype)), np.array(case['b'], dtype=dtype)
    C = A.shape[1]
    hi = max(case['b'])
    want = solutions(case['A'], case['b'], hi)
    A0, b0 = A.copy(), b.copy()
    res = elim(A, b)
    need(np.array_equal(A, A0) and np.array_equal(b, b0), 'elim changed its arguments')
    what = f'A={case["A"]} b={case["b"]}'
    if res is None:
        need(not want, f'{what}: NoSolution, but {sorted(want)[:1]} is one')
        label('NoSolution')
        return True
    Ae, be = well_formed(res, C, what)
    got = solutions(Ae, be, hi)
    need(got == want, f'{what} -> A={Ae} b={be}: {len(want - got)} solutions lost, {len(got - want)} appeared')
    label('reduced' if sorted(Ae) != sorted(map(tuple, case['A'])) else 'unchanged')
    return sorted(Ae) != sorted(map(tuple, case['A']))


@st.composite
def wide(draw):
    """few distinct columns, each repeated up to 25 times, so that more than 64 columns are common"""
    g = draw(st.integers(2, 5))
    m = draw(st.integers(1, 5))
    codes = draw(st.lists(st.integers(0, 2 ** m - 1), min_size=g, max_size=g, unique=True)) if 2 ** m >= g else None
    if codes is None:
        m = 3
        codes = list(range(g))
    reps = draw(st.lists(st.integers(8, 25), min_size=g, max_size=g))
    if draw(st.integers(0, 2)) == 0:
        reps = [n * 2 for n in reps]
    x0 = draw(st.lists(st.integers(0, draw(st.sampled_from([4, 60]))), min_size=g, max_size=g))
    A = [[c >> i & 1 for c in codes] for i in range(m)] + [[1] * g]
    b = [sum(p * q for p, q in zip(r, x0)) for r in A]
    if draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, m))
        b[i] = max(0, b[i] + draw(st.integers(-2, 2)))
    order = draw(st.permutations(range(m + 1)))
    spots = draw(st.lists(st.integers(0, 10 ** 6), min_size=g, max_size=g))
    return {'A': [A[i] for i in order], 'b': [b[i] for i in order], 'reps': reps, 'spots': spots}


def check_wide(case):
    reps = case['reps']
    big = [[x for x, n in zip(r, reps) for _ in range(n)] for r in case['A']]
    dtype = np.int8 if len(big[0]) + max(case['b']) < 128 else np.int16
    A, b = gens.lay(np.array(big, dtype=dtype)), np.array(case['b'], dtype=dtype)
    C = A.shape[1]
    res = elim(A, b)
    hi = max(case['b']) + 1
    want = solutions(case['A'], case['b'], hi)
    what = f'{C} columns, distinct ones {case["A"]} repeated {reps}, b={case["b"]}'
    if res is None:
        need(not want, f'{what}: NoSolution, but there is one')
        label('NoSolution')
        return True
    Ae, be = well_formed(res, C, what)
    # equivalence is decided at points that put the whole weight of a bundle of equal columns on one of its columns
    starts = [sum(reps[:i]) for i in range(len(reps))]
    for shift in range(3):
        pos = [s + (t + shift * 7) % n for s, t, n in zip(starts, case['spots'], reps)]
        sub = [[r[j] for j in pos] for r in Ae]
        got = solutions(sub, be, hi)
        need(got == want, f'{what} -> on columns {pos} A={sub} b={be}: solutions {sorted(want)[:2]} became {sorted(got)[:2]}')
    label(f'{"more" if C > 64 else "at most"} 64 columns')
    return C > 64


@st.composite
def tall(draw):
    """many equations in random order, most of them either dense over few unknowns or short over many unknowns"""
    if draw(st.booleans()):
        C = draw(st.integers(5, 9))
        codes = draw(st.lists(st.integers(1, 2 ** C - 1), min_size=20, max_size=160, unique=C > 8))
        A = [[c >> j & 1 for j in range(C)] for c in codes]
    else:
        C = draw(st.integers(30, 130))
        A = [[int(i == j) for j in range(C)] for i in range(C - draw(st.integers(0, 3)))]
        for i, j in draw(st.lists(st.tuples(st.integers(0, C - 1), st.integers(0, C - 1)), max_size=20)):
            A[i % len(A)][j] = 1
    A.append([1] * C)
    n = draw(st.integers(0, 2 ** 31))
    x0 = [n * (j + 1) // 7 % 3 for j in range(C)]
    b = [sum(p * q for p, q in zip(r, x0)) for r in A]
    if draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(A) - 1))
        b[i] = max(0, b[i] + draw(st.integers(-2, 2)))
    order = list(range(len(A)))
    step = draw(st.integers(1, len(A)))
    order.sort(key=lambda i: (i * step % (len(A) + 1), i))
    return {'A': [''.join(map(str, A[i])) for i in order], 'b': [b[i] for i in order]}


def check_tall(case):
    return check_small({'A': [[int(x) for x in r] for r in case['A']], 'b': case['b']})


SUBS = [
    Sub('small', small(), check_small, quick=12000, thorough=300000, shards=8,
        rule='random 0/1 systems, solvable or perturbed, rows in random order, solution sets over the non-negative '
             'integers compared; non-trivial: elimination changed the matrix or reported NoSolution'),
    Sub('tall', tall(), check_tall, quick=1000, thorough=30000, shards=8,
        rule='up to 160 equations over few unknowns, or over up to 130 unknowns; non-trivial as before'),
    Sub('wide', wide(), check_wide, quick=6000, thorough=100000, shards=8,
        rule='up to 250 columns in bundles of equal ones; non-trivial: more than 64 columns, or NoSolution'),
]
