"""C22 the equations set up for the next row say exactly what the next row must satisfy."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, ref
from ..common import Sub, need, sut, label
from srg.srg import Question, NoSolution

ASSUMPTIONS = ['at least two rows are given, the first two vertices are adjacent, 0<k<v-1, 0<=l<k, 0<=u<=k']


def from_matrix(A):
    try:
        return Question.from_matrix(A)
    except NoSolution:
        return None
    except Exception as e:
        need(False, f'from_matrix raised {type(e).__name__}: {e}')


def admissible(P, p, row):
    """may the 0/1 row follow the rows of P?"""
    v, k, l, u = p
    R = len(P)
    return sum(row) == k and all(sum(a & b for a, b in zip(P[i], row)) == (l if P[i][R] else u) for i in range(R))


def check_system(P, p, tries):
    v, k, l, u = p
    R = len(P)
    n = v - R - 1
    A = gens.mat(P)
    keep = A.copy()
    q = from_matrix(A)
    need(np.array_equal(A, keep), 'from_matrix changed the partial matrix')
    pre = tuple(P[i][R] for i in range(R)) + (0,)
    rhs = [(l if P[i][R] else u) - sum(P[i][j] * pre[j] for j in range(R + 1)) for i in range(R)] + [k - sum(pre)]
    if q is None:
        need(min(rhs) < 0, f'{p} after {R} rows: NoSolution, but no condition is violated yet', gens.show(P))
        for x in tries:
            need(not admissible(P, p, pre + tuple(x)), f'{p}: NoSolution, but a row is possible', gens.show(P), x)
        return 'NoSolution'
    M, b = gens.rows(q.A), gens.vec(q.b)
    need(all(len(r) == n for r in M) and len(M) == len(b), f'{p}: system of shape {q.A.shape}, {len(b)} right sides')
    need(gens.vec(q.bounds) == (1,) * n, f'{p}: bounds {q.bounds.tolist()}')
    need(int(q.quota) == k - sum(pre), f'{p}: {q.quota} ones still to place instead of {k - sum(pre)}', gens.show(P))
    need(len(q.answer) == n and gens.vec(gens.counts(q.answer)) == (-1,) * n, f'{p}: the answer is not all unknown')
    need(gens.vec(q.answer.quota) == (1,) * n, f'{p}: unknowns are grouped from the start')
    yes = 0
    for x in tries:
        lhs = all(sum(a * y for a, y in zip(r, x)) == c for r, c in zip(M, b)) and sum(x) == q.quota
        ok = admissible(P, p, pre + tuple(x))
        yes += ok
        need(lhs == ok, f'{p}: the equations {"admit" if lhs else "reject"} the row {pre + tuple(x)}, which is '
             f'{"possible" if ok else "impossible"}', gens.show(P))
    return 'possible rows tried' if yes else 'impossible rows tried'


def variants(x, picks):
    """x and rows near it: one bit flipped, or two bits swapped"""
    out = [list(x)]
    n = len(x)
    for a, b in picks:
        if n:
            y = list(x)
            a, b = a % n, b % n
            if a == b:
                y[a] ^= 1
            else:
                y[a], y[b] = y[b], y[a]
            out.append(y)
    return out


picks = st.lists(st.tuples(st.integers(0, 200), st.integers(0, 200)), max_size=12)


def check_known(case):
    """first rows of a relabelled textbook graph, not necessarily in canonical form, first two vertices adjacent"""
    M = gens.ALL_GRAPHS[case['graph']]
    perm = list(case['perm'])
    j = next(i for i in range(1, len(M)) if M[perm[0]][perm[i]])
    perm[1], perm[j] = perm[j], perm[1]
    M = ref.permute(M, perm)
    n = len(M)
    R = 2 + case['row'] % (n - 2)
    P, p = M[:R], ref.params_of(M)
    tries = variants(M[R][R + 1:], case['picks'])
    if case['break']:   # a partial matrix that is no longer completable is still described faithfully
        i, c = case['break']
        i, c = 2 + i % R, c % n
        if i < R and c >= R:
            P[i] = P[i][:c] + (1 - P[i][c],) + P[i][c + 1:]
    label(check_system(P, p, tries))
    return True


def check_prefix(case):
    P, p = gens.build_prefix(case)
    if len(P) == p[0]:
        return False
    n = p[0] - len(P) - 1
    tries = []
    rows = ref.next_rows(P, p)
    for r in rows[:4]:
        tries += variants(r[len(P) + 1:], case['tries'])
    if not rows:
        tries = variants([1] * min(n, p[1]) + [0] * max(0, n - p[1]), case['tries'])
    label(check_system(P, p, tries) + ', ' + case['kind'])
    return True


@st.composite
def free_case(draw):
    """the start rows of any feasible parameters, then symmetric rows that need not be completable"""
    p = draw(st.sampled_from(gens.SMALL + gens.RICH + gens.MID))
    v, k = p[0], p[1]
    R = draw(st.integers(2, v - 1))
    own = draw(st.sampled_from(['none', 'few', 'any']))
    bits = [draw(st.integers(0, 2 ** v - 1)) if own == 'any' else 0 for _ in range(2, R)]
    n_ones = draw(st.integers(0, R - 2))
    ones = draw(st.permutations(list(range(2, R))))[:n_ones] if R > 2 else []
    flips = draw(st.lists(st.tuples(st.integers(2, v - 1), st.integers(2, v - 1)).map(list),
                          max_size=0 if own == 'none' else 12)) if v > 3 else []
    return {'p': list(p), 'R': R, 'bits': bits, 'ones': sorted(ones), 'flips': flips, 'picks': draw(picks)}


def check_free(case):
    p, R = tuple(case['p']), case['R']
    v, k = p[0], p[1]
    M = [[0] * v for _ in range(v)]
    for i, bits in enumerate(case['bits']):
        for j in range(v):
            if j != i + 2 and j >= 2:
                M[i + 2][j] = M[j][i + 2] = bits >> j & 1
    for i, j in case['flips']:
        if i != j:
            M[i][j] = M[j][i] = 1 - M[i][j]
    for i in range(2, R):   # what the next vertex is already joined to
        M[i][R] = M[R][i] = int(i in case['ones'])
    for i, r in enumerate(ref.seed(*p)):
        for j in range(v):
            M[i][j] = M[j][i] = r[j]
    P = [tuple(r) for r in M[:R]]
    n = v - R - 1
    d = k - sum(P[i][R] for i in range(R))
    x = [1] * min(max(d, 0), n)
    label(check_system(P, p, variants(x + [0] * (n - len(x)), case['picks'])))
    return True


known = gens.any_known(row=lambda n: st.integers(0, n - 3), picks=lambda n: picks, **{
    'break': lambda n: st.one_of(st.none(), st.tuples(st.integers(0, n - 3), st.integers(0, n - 1)).map(list))})

SUBS = [
    Sub('known', known, check_known, quick=2500, thorough=40000, shards=8,
        rule='first rows of a relabelled textbook graph (sometimes damaged), with its true next row and rows near it'),
    Sub('prefix', st.builds(lambda c, t: {**c, 'tries': [list(x) for x in t]}, gens.prefix_case(), picks), check_prefix,
        quick=2000, thorough=30000, shards=8,
        rule='partial matrices reached by random descent, with possible next rows and rows near them'),
    Sub('free', free_case(), check_free, quick=4000, thorough=60000, shards=8,
        rule='start rows followed by arbitrary symmetric rows (often sparse), so that single conditions are exceeded on '
             'their own'),
]
