"""C14 eigenvalues, multiplicities and determinant from the parameters alone."""
from math import isqrt

from hypothesis import strategies as st
import numpy as np

from .. import common, gens, graphs, ref
from ..common import Sub, need, sut, label
from srg import utils
from srg.srg import vklu

ASSUMPTIONS = ['parameters that satisfy the counting identity and the integrality conditions, or the conference condition',
               'eigenvalues of conference graphs are floating-point: compared within 1e-9 relative']


def spectrum(v, k, l, u):
    """((theta, f), (tau, g)) exactly, or None if no SRG can have these parameters; 'conference' when f == g"""
    c = 2 * k + (v - 1) * (l - u)
    if c == 0:
        return 'conference'
    d2 = (l - u) ** 2 + 4 * (k - u)
    s = isqrt(d2)
    if s * s != d2 or s == 0 or (l - u + s) % 2:
        return None
    th, ta = (l - u + s) // 2, (l - u - s) // 2
    # f + g = v - 1 and k + f * th + g * ta = 0
    num = -k - ta * (v - 1)
    if num % (th - ta):
        return None
    f = num // (th - ta)
    if not 0 <= f <= v - 1:
        return None
    return (th, f), (ta, v - 1 - f)


def enum_params(lo, hi):
    return [list(p) for p in ref.feasible_params(lo, hi) if spectrum(*p)]


def latin(n, m):
    return n * n, m * (n - 1), n - 2 + (m - 1) * (m - 2), m * (m - 1)


def neglatin(n, m):
    return n * n, m * (n + 1), -n - 2 + (m + 1) * (m + 2), m * (m + 1)


SIZES = st.one_of(st.tuples(st.integers(2, 120), st.integers(2, 120)), st.tuples(st.integers(2, 10), st.integers(2, 100000)),
                  st.tuples(st.integers(2, 100000), st.integers(2, 10)),
                  st.tuples(st.integers(2, 10**30), st.integers(2, 10**30)))   # number and size of the parts
VAST = st.integers(6, 60).flatmap(lambda d: st.integers(10**(d - 4), 10**d))


def sizes(lo, hi):
    return st.one_of(st.integers(lo, hi), VAST)


@st.composite
def family(draw):
    f = draw(st.sampled_from(['triangular', 'lattice', 'latin', 'neglatin', 'conference', 'multipartite', 'cliques',
                              'symplectic', 'steiner']))
    if f == 'triangular':
        n = draw(sizes(4, 1400))
        p = n * (n - 1) // 2, 2 * (n - 2), n - 2, 4
    elif f == 'lattice':
        n = draw(sizes(3, 1000))
        p = n * n, 2 * (n - 1), n - 2, 2
    elif f == 'latin':
        n = draw(sizes(3, 300))
        p = latin(n, draw(st.integers(2, n - 1)))
    elif f == 'neglatin':
        n = draw(sizes(4, 300))
        p = neglatin(n, draw(st.integers(1, n - 1)))
    elif f == 'conference':
        t = draw(st.one_of(st.integers(1, 60), st.integers(1, 700), VAST, VAST))
        p = 4 * t + 1, 2 * t, t - 1, t
    elif f == 'multipartite':
        m, n = draw(SIZES)
        p = m * n, (m - 1) * n, (m - 2) * n, (m - 1) * n
    elif f == 'cliques':
        m, n = draw(SIZES)
        p = m * n, n - 1, n - 2, 0
    elif f == 'symplectic':
        q, d = draw(st.sampled_from([(2, 2), (2, 3), (2, 4), (2, 5), (3, 2), (3, 3), (4, 2), (5, 2), (7, 2)]))
        v = (q ** (2 * d) - 1) // (q - 1)
        p = v, q * (q ** (2 * d - 2) - 1) // (q - 1), q * q * (q ** (2 * d - 4) - 1) // (q - 1) + q - 1, \
            (q ** (2 * d - 2) - 1) // (q - 1)
    else:   # block graph of a Steiner triple system
        t = draw(st.integers(1, 60))
        n = draw(st.sampled_from([6 * t + 7, 6 * t + 9]))
        p = n * (n - 1) // 6, 3 * (n - 3) // 2, (n + 3) // 2, 9
    if draw(st.booleans()):
        v, k, l, u = p
        p = v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l
    if not (ref.feasible(*p) and spectrum(*p)):
        p = (10, 3, 0, 1)
    kinds = ['int', 'int64', 'mixed'] if p[0] <= 10**8 else ['int']
    return {'family': f, 'p': list(p), 'kind': draw(st.sampled_from(kinds))}


def brief(x):
    return x if not isinstance(x, int) or abs(x) < 10**80 else f'{hex(x)[:40]}...'


def as_kind(p, kind):
    """python integers, or the types that reading the parameters back from a matrix gives"""
    if kind == 'int':
        return tuple(p)
    v, k, l, u = p
    l = np.int16(l) if kind == 'mixed' and l < 2**15 else np.int64(l)
    return (np.int64(v) if kind == 'int64' else v), np.int64(k), l, np.int64(u)


def check_p(p, det=True, kind='int'):
    v, k, l, u = p
    s = spectrum(*p)
    q, p = p, as_kind(p, kind)
    c = sut(utils.conference, *p)
    need(c == 2 * k + (v - 1) * (l - u), f'conference{p} is', c)
    e = sut(utils.eig, *p)
    e = [tuple(x) for x in e]
    need(len(e) == 3, f'eig{p} is', e)
    need(e[0] == (q[1], 1) and sum(m for _, m in e) == q[0], f'eig{p}: not the degree and then v - 1 others:', e)
    need(all(int(m) == m for _, m in e), f'eig{p} has a fractional multiplicity:', e)
    if s == 'conference':
        root = v ** 0.5
        want = [(k, 1), ((-1 + root) / 2, (v - 1) // 2), ((-1 - root) / 2, (v - 1) // 2)]
        need(all(abs(float(a) - b) <= 1e-9 * max(1, abs(b)) and m == n for (a, m), (b, n) in zip(e, want)),
             f'eig{p} is {e}, not {want}')
        d = k * ((1 - v) // 4) ** ((v - 1) // 2) if det else 0
    else:
        want = [(k, 1)] + list(s)
        need(e == want, f'eig{p} is {e}, not {want}')
        d = 1
        if det:
            for a, m in want:
                d *= a ** m
    if det:
        got = sut(utils.determinant, *p)
        need(got == d, f'determinant{p} is {brief(got)}, not {brief(d)}')
    label('conference' if s == 'conference' else 'integral')


def check_params(case):
    p = tuple(case)
    check_p(p)
    return p[0] > 9


def check_family(case):
    p = tuple(case['p'])
    # the determinant of a huge graph has too many digits to be worth computing
    check_p(p, det=p[0] <= 3000, kind=case['kind'])
    label(case['family'] + (', beyond 2^53' if p[0] > 2**53 else ''))
    return p[0] > 40


def bareiss(M):
    M = [list(r) for r in M]
    n, sign, prev = len(M), 1, 1
    for i in range(n - 1):
        if M[i][i] == 0:
            sw = [r for r in range(i + 1, n) if M[r][i]]
            if not sw:
                return 0
            M[i], M[sw[0]] = M[sw[0]], M[i]
            sign = -sign
        for r in range(i + 1, n):
            for c in range(i + 1, n):
                M[r][c] = (M[r][c] * M[i][i] - M[r][i] * M[i][c]) // prev
        prev = M[i][i]
    return sign * M[-1][-1]


def check_graph(case):
    """against an actual adjacency matrix: determinant by exact elimination, spectrum by traces of powers"""
    M = gens.ALL_GRAPHS[case]
    p = ref.params_of(M)
    check_p(p)
    o = list(range(len(M)))
    j = M[0].index(1)
    o[1], o[j] = o[j], o[1]
    for dtype in ('int8', 'int16', 'int64')[len(M) > 127:]:
        r = sut(vklu, np.array(M, dtype=dtype)[o][:, o])
        need(tuple(map(int, r)) == p, f'the parameters of {case} are {p}, read back: {r}')
        need(sut(utils.determinant, *r) == sut(utils.determinant, *p), f'determinant{r} is not that of {p}')
        need([tuple(x) for x in sut(utils.eig, *r)] == [tuple(x) for x in sut(utils.eig, *p)], f'eig{r} is not that of {p}')
    v = p[0]
    d = sut(utils.determinant, *p)
    need(d == bareiss(M), f'determinant{p} is {d}, but the matrix of {case} has {bareiss(M)}')
    e = sut(utils.eig, *p)
    A2 = [[sum(M[i][t] * M[t][j] for t in range(v)) for j in range(v)] for i in range(v)]
    traces = [v, 0, sum(A2[i][i] for i in range(v)), sum(A2[i][j] * M[j][i] for i in range(v) for j in range(v)),
              sum(A2[i][j] * A2[j][i] for i in range(v) for j in range(v))]
    for n, t in enumerate(traces):
        s = sum(m * a ** n for a, m in e)
        need(abs(s - t) <= 1e-6 * max(1, abs(t)), f'eig{p}: power sum {n} is {s}, the trace of {case} is {t}')
    label(case)
    return True


SUBS = [
    Sub('params', enum_params(4, 250), check_params, shards=4,
        rule='every parameter set with v<=250 whose spectrum is integral or conference, enumerated; non-trivial: v>9'),
    Sub('family', family(), check_family, quick=3000, thorough=40000, shards=8,
        rule='parameters of large known families and their complements (up to about 10^60 vertices), as Python integers or in the types of parameters read back from a matrix; non-trivial: v>40'),
    Sub('graph', sorted(n for n, M in gens.ALL_GRAPHS.items() if len(M) <= 130 or common.TIER == 'thorough'), check_graph, shards=8,
        rule='actual adjacency matrices of textbook graphs, exact determinant and traces'),
]
