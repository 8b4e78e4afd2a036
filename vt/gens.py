"""Case generators shared by several checks, and conversions to and from the code under test."""
import json
import os
import sys
import zlib

from . import common  # noqa: F401  (puts /repo on sys.path)
from . import graphs, ref

from hypothesis import strategies as st  # noqa: E402
import numpy as np  # noqa: E402


def data(name):
    with open(os.path.join(common.VERIF, 'data', name)) as f:
        return json.load(f)


def mat(P, dtype=None):
    if dtype is None:   # 8 bits only where no count can exceed them
        dtype = np.int8 if not P or len(P[0]) < 128 else np.int16
    return lay(np.array([list(r) for r in P], dtype=dtype).reshape(len(P), len(P[0]) if P else 0))


def lay(A):
    """the same matrix, in half of the cases column by column or as every other row and column of a larger one"""
    n = zlib.crc32(A.tobytes()) % 4
    if n == 1:
        return np.asfortranarray(A)
    if n == 2:
        big = np.full((2 * A.shape[0] + 1, 2 * A.shape[1] + 1), 1, dtype=A.dtype)
        big[::2, ::2][:A.shape[0], :A.shape[1]] = A
        return big[::2, ::2][:A.shape[0], :A.shape[1]]
    return A


def rows(M):
    """a matrix from the code under test as a list of tuples of int; entries must be integral"""
    common.need(getattr(M, 'ndim', None) == 2, 'not a 2-d matrix:', repr(M)[:200])
    out = []
    for r in M.tolist():
        for x in r:
            common.need(x == int(x), 'entry is not an integer:', x)
        out.append(tuple(int(x) for x in r))
    return out


def vec(a):
    common.need(getattr(a, 'ndim', None) == 1, 'not a 1-d array:', repr(a)[:200])
    for x in a.tolist():
        common.need(x == int(x), 'entry is not an integer:', x)
    return tuple(int(x) for x in a.tolist())


def counts(ans):
    """the array of counts (or -1) an answer holds, the real one, not a copy"""
    if hasattr(ans, '_v'):
        return ans._v
    want = eval(repr(ans), {'Answer': lambda value, location, len: value, 'array': np.array,
                            'int8': np.int8, 'int16': np.int16, 'int32': np.int32, 'int64': np.int64})
    return next(x for x in vars(ans).values() if isinstance(x, np.ndarray) and np.array_equal(x, want))


def show(P):
    return '\n' + '\n'.join(''.join(map(str, r)) for r in P)


# ---- parameters -------------------------------------------------------------------------------------------------

def measured_params(max_ms):
    """feasible parameter sets (v <= 36) that the solver finished within max_ms when data/params.json was made"""
    return [tuple(x[:4]) for x in data('params.json') if x[4] <= max_ms]


# searches with hundreds of partial matrices of the same height, up to 1932 (27,10,1,5)
WIDE = [(27, 10, 1, 5), (21, 10, 5, 4), (22, 7, 0, 3), (29, 8, 2, 2), (19, 9, 4, 4), (25, 18, 12, 15), (17, 10, 6, 5), (15, 10, 7, 5)]
SMALL = ref.feasible_params(4, 14) + [(15, 6, 1, 3), (15, 8, 4, 4), (16, 5, 0, 2), (16, 6, 2, 2), (16, 9, 4, 6),
                                      (17, 8, 3, 4), (21, 10, 3, 6), (25, 8, 3, 2)]
RICH = [(9, 4, 1, 2), (10, 3, 0, 1), (10, 6, 3, 4), (13, 6, 2, 3), (15, 6, 1, 3), (15, 8, 4, 4), (16, 5, 0, 2),
        (16, 6, 2, 2), (16, 9, 4, 6), (16, 10, 6, 6), (17, 8, 3, 4), (21, 10, 5, 4), (21, 10, 4, 5), (25, 8, 3, 2)]
MID = ref.feasible_params(15, 40)


def trivial_params(vmax):
    out = []
    for v in range(4, vmax + 1):
        for n in range(2, v // 2 + 1):
            if v % n == 0:
                out.append((v, v - n, v - 2 * n, v - n))
                out.append((v, n - 1, n - 2, 0))
    return out


LARGE = ref.feasible_params(41, 127)
HUGE = ref.feasible_params(128, 260)
TRIVIAL = trivial_params(127)
TRIVIAL_HUGE = [p for p in trivial_params(270) if p[0] in (128, 129, 130, 136, 144, 150, 180, 216, 256, 258, 264)]


@st.composite
def prefix_case(draw):
    """parameters and the choices of a random descent through the reference's tree of partial matrices"""
    kind = draw(st.sampled_from(['small', 'rich', 'rich', 'rich', 'mid', 'mid', 'mid', 'large', 'huge', 'trivial', 'trivial']))
    if kind in ('small', 'rich'):
        p = draw(st.sampled_from(SMALL if kind == 'small' else RICH))
        n = draw(st.integers(0, p[0] - 3))
    elif kind == 'mid':
        p = draw(st.sampled_from(MID))
        n = draw(st.integers(0, 2 if p[0] > 24 else 3))
    elif kind in ('large', 'huge'):
        p = draw(st.sampled_from(LARGE if kind == 'large' else HUGE))
        n = draw(st.integers(0, 1))
    else:
        p = draw(st.sampled_from(draw(st.sampled_from([TRIVIAL, TRIVIAL, TRIVIAL_HUGE]))))
        n = draw(st.integers(0, p[0] - 3))
    picks = draw(st.lists(st.integers(0, 9999), min_size=min(n, 20), max_size=min(n, 20)))
    return {'kind': kind, 'p': list(p), 'n': n, 'picks': picks}


BROAD = [(35, 18, 9, 9), (36, 15, 6, 6), (36, 20, 10, 12), (36, 21, 12, 12), (35, 16, 6, 8), (45, 22, 10, 11), (50, 21, 8, 9),
         (64, 28, 12, 12), (100, 44, 18, 20)]


@st.composite
def broad_prefix(draw):
    """partial matrices of four or five rows that often have hundreds of possible next rows"""
    p = draw(st.sampled_from(BROAD))
    n = draw(st.sampled_from([1, 2, 2, 2] if p[0] > 40 else [2, 2, 2, 3]))
    return {'kind': 'broad', 'p': list(p), 'n': n, 'picks': draw(st.lists(st.integers(0, 9999), min_size=n, max_size=n))}


def build_prefix(case, budget=20000):
    p = tuple(case['p'])
    P = ref.seed(*p)
    picks = case['picks']
    for i in range(case['n']):
        c = ref.next_rows(P, p, budget)
        if not c:
            break
        P.append(c[(picks[i % len(picks)] if picks else 0) % len(c)])
    return P, p


_GUIDED = data('guided.json')


def relabelling(v):
    return st.permutations(list(range(v)))


BRANCHING = [n for n in graphs.catalogue() if _GUIDED[n]['multi']]


@st.composite
def known_graph_row(draw, slow=False):
    """a relabelled textbook SRG and one row index; mostly rows at which the measured search branched"""
    kind = draw(st.sampled_from(['multi'] * 6 + ['fast', 'fast'] + ['slow'] * slow))
    name = draw(st.sampled_from(BRANCHING if kind == 'multi' else [n for n in graphs.catalogue() if _GUIDED[n][kind]]))
    return {'graph': name, 'row': draw(st.sampled_from(_GUIDED[name][kind])),
            'perm': draw(relabelling(len(graphs.catalogue()[name])))}


def __getattr__(name):
    if name == 'ALL_GRAPHS':   # built on first use
        return graphs.all_graphs()
    raise AttributeError(name)


LATE = data('large_rows.json')


def any_known(**more):
    """a textbook graph (half of them with more than 36 vertices) and a relabelling"""
    sizes = {n: len(M) for n, M in sorted(graphs.all_graphs().items())}   # built before the work is split up
    groups = [[n for n in sizes if sizes[n] <= 36], [n for n in sizes if 36 < sizes[n] < 128], [n for n in sizes if sizes[n] > 127]]
    return _any_known([groups[0]] * 3 + [groups[1]] * 2 + [groups[2]], sizes, more)


@st.composite
def _any_known(draw, groups, sizes, more):
    name = draw(st.sampled_from(draw(st.sampled_from(groups))))
    n = sizes[name]
    return {'graph': name, 'perm': draw(relabelling(n)), **{k: draw(f(n)) for k, f in more.items()}}


def large_known_row():
    graphs.all_graphs()
    return _large_known_row()


@st.composite
def _large_known_row(draw):
    """a relabelled textbook graph (35 to 255 vertices) and a row at which the measured search was cheap"""
    kind = draw(st.sampled_from(['multi', 'multi', 'fast']))
    name = draw(st.sampled_from([n for n in sorted(LATE) if LATE[n][kind]]))
    return {'graph': name, 'row': draw(st.sampled_from(LATE[name][kind])), 'perm': draw(relabelling(len(graphs.all_graphs()[name])))}


@st.composite
def big_graph(draw, nmin=25, nmax=150):
    """adjacency matrix of a graph with many vertices, few numbers drawn: blocks of twins with some edges changed"""
    n = draw(st.integers(nmin, nmax))
    b = draw(st.integers(1, 8))
    a, c = draw(st.integers(1, n)), draw(st.integers(0, n))
    how = draw(st.sampled_from(['runs', 'mixed', 'circulant']))
    rel = draw(st.lists(st.booleans(), min_size=b * b, max_size=b * b))
    jumps = set(draw(st.lists(st.integers(1, n // 2), max_size=12)))
    cls = [(i * b // n if how == 'runs' else (i * a + c) % n % b) for i in range(n)]
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            x, y = sorted((cls[i], cls[j]))
            M[i][j] = M[j][i] = int(min(i - j, n - i + j) in jumps if how == 'circulant' else rel[x * b + y])
    for i, j in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=10)):
        if i != j:
            M[i][j] = M[j][i] = 1 - M[i][j]
    return [''.join(map(str, r)) for r in M]


@st.composite
def simple_graph(draw, nmin=2, nmax=40):
    """adjacency matrix (upper triangle bits) of an arbitrary simple graph; many have big bundles of equal columns"""
    n = draw(st.integers(nmin, nmax))
    how = draw(st.sampled_from(['random', 'blocks', 'sparse', 'dense']))
    if how == 'random':
        rows_ = [draw(st.integers(0, 2 ** n - 1)) for _ in range(n)]
        M = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                M[i][j] = M[j][i] = rows_[i] >> j & 1
    elif how == 'blocks':
        b = draw(st.integers(1, min(n, 5)))
        cls = draw(st.lists(st.integers(0, b - 1), min_size=n, max_size=n))
        rel = draw(st.lists(st.booleans(), min_size=b * b, max_size=b * b))
        M = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                x, y = sorted((cls[i], cls[j]))
                M[i][j] = M[j][i] = int(rel[x * b + y])
    else:
        es = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=2 * n))
        base = 0 if how == 'sparse' else 1
        M = [[base if i != j else 0 for j in range(n)] for i in range(n)]
        for i, j in es:
            if i != j:
                M[i][j] = M[j][i] = 1 - base
    return [''.join(map(str, r)) for r in M]


def parse(rows_):
    return [tuple(int(c) for c in r) for r in rows_]


# ---- 0/1 systems A x = b whose equal columns stand next to each other ---------------------------------------------

@st.composite
def system(draw, groups=8, size=4, nrows=5):
    """columns in g groups of equal columns (groups pairwise different), last row all ones (the quota row)"""
    g = draw(st.integers(1, groups))
    m = draw(st.integers(max(1, (g - 1).bit_length()), nrows))
    codes = draw(st.lists(st.integers(0, 2 ** m - 1), min_size=g, max_size=g, unique=True))
    sizes = draw(st.lists(st.integers(1, size), min_size=g, max_size=g))
    x0 = [draw(st.integers(0, s)) for s in sizes]
    mode = draw(st.sampled_from(['solvable', 'solvable', 'perturbed', 'free']))
    A = [[c >> i & 1 for c in codes] for i in range(m)] + [[1] * g]
    b = [sum(a * x for a, x in zip(r, x0)) for r in A]
    if mode == 'perturbed':
        i = draw(st.integers(0, m))
        b[i] = max(0, b[i] + draw(st.sampled_from([-2, -1, 1, 2])))
    elif mode == 'free':
        b = [draw(st.integers(0, sum(a * s for a, s in zip(r, sizes)) + 1)) for r in A]
    return {'codes': codes, 'm': m, 'sizes': sizes, 'b': b, 'mode': mode}


@st.composite
def grid_system(draw, most=64, size=(1, 2, 3), loose=5, easy=False):
    """many groups of equal columns: the cells of a sparse table whose row sums and column sums are given, most of them
    leaving no choice; easy: at most about ten unknowns remain when those that must be zero are gone"""
    r, c = draw(st.integers(2, 16)), draw(st.integers(2, 16))
    step, start = 2 * draw(st.integers(0, 99)) + 1, draw(st.integers(0, 99))
    cells = [(i, j) for i in range(r) for j in range(c) if (i * 7 + j * step + start) % 5 < _density(r, c, most)]
    g = draw(st.one_of(st.just(most), st.integers(1, most)))
    cells = cells[:g] or [(0, 0)]
    if draw(st.booleans()):
        cells = cells[::-1]
    size = draw(st.sampled_from(size))
    sizes = (draw(st.lists(st.integers(1, size), min_size=4, max_size=4)) * len(cells))[:len(cells)]
    loose = draw(st.lists(st.integers(0, r - 1), min_size=min(r, 2), max_size=loose, unique=True))
    full = 0 if easy else draw(st.integers(0, 2 ** r - 1))
    while easy and len(loose) > 1 and sum(i in loose for i, j in cells) > 10:
        loose.pop()
    some = draw(st.lists(st.sampled_from([1, 0, size]), min_size=7, max_size=7))
    x0 = [min(s, some[(3 * i + j) % 7]) if i in loose else s * (full >> i & 1) for (i, j), s in zip(cells, sizes)]
    A = [[int(i == t) for i, j in cells] for t in range(r)] + [[int(j == t) for i, j in cells] for t in range(c)] + [[1] * len(cells)]
    b = [sum(a * x for a, x in zip(row, x0)) for row in A]
    mode = draw(st.sampled_from(['solvable', 'solvable', 'solvable', 'perturbed']))
    if mode == 'perturbed':
        i = draw(st.sampled_from([*loose, *range(r, r + c + 1)])) if easy else draw(st.integers(0, r + c))
        b[i] = max(0, b[i] + draw(st.sampled_from([-2, -1, 1, 2])))
    return {'codes': [1 << i | 1 << r + j for i, j in cells], 'm': r + c, 'sizes': sizes, 'b': b, 'mode': mode}


def _density(r, c, most):
    return max(1, min(5, most * 5 // (r * c)))


def system_arrays(case):
    """(A, b) with one column per unit"""
    cols = []
    for c, s in zip(case['codes'], case['sizes']):
        cols += [[c >> i & 1 for i in range(case['m'])] + [1]] * s
    dtype = np.int8 if len(cols) + max(case['b']) < 128 and case['b'][0] % 2 else np.int16
    A = lay(np.array(cols, dtype=dtype).T.copy())
    return A, np.array(case['b'], dtype=dtype)


def system_solutions(case, budget=100000):
    cols = [tuple(c >> i & 1 for i in range(case['m'])) + (1,) for c in case['codes']]
    return ref.solve_counts(cols, case['sizes'], case['b'], budget)
