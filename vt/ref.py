"""Reference model: strongly regular graphs and their row-by-row canonical enumeration.

Pure Python, exact integers, shares no code with /repo.  A (partial) matrix is a list of tuples of 0/1.

A full matrix is *canonical* when, for every row r, the columns right of r that agree on rows 0..r-1
carry their ones before their zeros in row r (equivalently: the columns right of r are in
non-increasing lexicographic order on rows 0..r).  The solver enumerates canonical matrices.
"""
from math import gcd


class TooBig(Exception):
    """The reference search exceeded its (deterministic) node budget: the case is skipped, not failed."""


def feasible(v, k, l, u):
    """The counting identity, on the range of parameters a strongly regular graph can have."""
    return 0 < k < v - 1 and 0 <= l < k and 0 <= u <= k and (v - k - 1) * u == k * (k - l - 1)


def feasible_params(vmin, vmax):
    out = []
    for v in range(vmin, vmax + 1):
        for k in range(1, v - 1):
            w = v - k - 1   # w divides k m, where m = k - l - 1 and u = k m / w
            step = w // gcd(k, w)
            for m in reversed(range(0, min(k - 1, w) + 1, step)):
                out.append((v, k, k - m - 1, k * m // w))
    return out


def seed(v, k, l, u):
    n0 = k - l - 1
    r0 = [0] + [1] * k + [0] * (v - k - 1)
    r1 = [1, 0] + [1] * l + [0] * (k - 1 - l) + [1] * n0 + [0] * (v - k - 1 - n0)
    return [tuple(r0), tuple(r1)]


def buckets(P, v):
    """[(column on the rows of P, start, size)] of the maximal runs of equal columns right of the diagonal."""
    R = len(P)
    out = []
    for c in range(R + 1, v):
        col = tuple(P[i][c] for i in range(R))
        if out and out[-1][0] == col:
            out[-1][2] += 1
        else:
            out.append([col, c, 1])
    return out


def solve_counts(cols, sizes, rhs, budget=200000):
    """all integer vectors 0 <= x <= sizes with sum_j x_j * cols[j] == rhs (componentwise)."""
    m = len(rhs)
    n = len(cols)
    cap = [[0] * m]
    for col, s in zip(reversed(cols), reversed(sizes)):
        cap.append([a + b * s for a, b in zip(cap[-1], col)])
    cap.reverse()
    out = []
    nodes = [0]

    def rec(i, rem, acc):
        nodes[0] += 1
        if nodes[0] > budget:
            raise TooBig
        c = cap[i]
        for a, b in zip(rem, c):
            if a < 0 or a > b:
                return
        if i == n:
            out.append(tuple(acc))
            return
        col = cols[i]
        for x in range(sizes[i] + 1):
            rec(i + 1, [r - x * b for r, b in zip(rem, col)] if x else rem, acc + [x])

    rec(0, list(rhs), [])
    return out


def expand(counts, sizes):
    row = []
    for x, s in zip(counts, sizes):
        row += [1] * x + [0] * (s - x)
    return tuple(row)


def next_rows(P, p, budget=200000):
    """every canonical row that can follow the rows of P (whole rows, of length v)."""
    v, k, l, u = p
    R = len(P)
    pre = [P[i][R] for i in range(R)] + [0]
    rhs = [(l if P[i][R] else u) - sum(P[i][j] * pre[j] for j in range(R)) for i in range(R)]
    rhs.append(k - sum(pre))
    bs = buckets(P, v)
    assert len({b[0] for b in bs}) == len(bs), 'prefix is not canonical'
    sizes = [b[2] for b in bs]
    return [tuple(pre) + expand(x, sizes)
            for x in solve_counts([b[0] + (1,) for b in bs], sizes, rhs, budget)]


def completions(P, p, budget=200000):
    """every canonical matrix that starts with the rows of P, as a sorted list of tuples of rows."""
    v = p[0]
    out = []
    left = [budget]

    def rec(P):
        left[0] -= 1
        if left[0] < 0:
            raise TooBig
        if len(P) == v:
            out.append(tuple(P))
            return
        for r in next_rows(P, p, budget):
            rec(P + [r])

    rec(list(P))
    return sorted(out)


def is_srg(M, p):
    """None if M is the adjacency matrix of an SRG with parameters p, else what is wrong."""
    v, k, l, u = p
    if len(M) != v or any(len(r) != v for r in M):
        return f'shape is not {v}x{v}'
    bits = []
    for i, r in enumerate(M):
        b = 0
        for j, x in enumerate(r):
            if x not in (0, 1):
                return f'entry {x} at {(i, j)}'
            if x:
                b |= 1 << j
            if M[j][i] != x:
                return f'not symmetric at {(i, j)}'
        if b >> i & 1:
            return f'nonzero diagonal at {i}'
        bits.append(b)
    for i in range(v):
        if bin(bits[i]).count('1') != k:
            return f'degree of vertex {i} is {bin(bits[i]).count("1")}, not {k}'
        for j in range(i):
            n = bin(bits[i] & bits[j]).count('1')
            if n != (l if M[i][j] else u):
                return f'{n} common neighbours of {i} and {j} ({"" if M[i][j] else "non-"}adjacent)'
    return None


def permute(M, perm):
    return [tuple(M[i][j] for j in perm) for i in perm]


def canonical(M):
    """a canonical relabelling of M (stable: equal columns keep their order)."""
    v = len(M)
    order = list(range(v))
    # row by row: the vertices after position r, stably sorted by their column on positions 0..r
    for r in range(v - 1):
        head, tail = order[:r + 1], order[r + 1:]
        tail.sort(key=lambda c: tuple(-M[i][c] for i in head))
        order = head + tail
    return permute(M, order)


def is_canonical(M):
    v = len(M)
    for r in range(v - 1):
        cols = [tuple(M[i][c] for i in range(r + 1)) for c in range(r + 1, v)]
        if any(a < b for a, b in zip(cols, cols[1:])):
            return f'columns right of the diagonal are not in order on rows 0..{r}'
    return None


def upper(M):
    """the strict upper triangle, row by row."""
    return tuple(M[i][j] for i in range(len(M)) for j in range(i + 1, len(M)))


def params_of(M):
    v, k = len(M), sum(M[0])
    l = u = None
    for i in range(v):
        for j in range(i):
            n = sum(a & b for a, b in zip(M[i], M[j]))
            if M[i][j]:
                l = n if l is None else l
            else:
                u = n if u is None else u
    return v, k, l or 0, u or 0


def complement(M):
    v = len(M)
    return [tuple(0 if i == j else 1 - M[i][j] for j in range(v)) for i in range(v)]


def invariant(M):
    """isomorphism invariant good enough to tell apart the small SRGs used here (never used to merge)."""
    v = len(M)
    bits = [sum(x << j for j, x in enumerate(r)) for r in M]
    tri = []
    for i in range(v):
        prof = {}
        for j in range(v):
            if i != j:
                nb = bits[i] & bits[j]
                e = sum(bin(nb & bits[t]).count('1') for t in range(v) if nb >> t & 1) // 2
                prof[(M[i][j], e)] = prof.get((M[i][j], e), 0) + 1
        tri.append(tuple(sorted(prof.items())))
    return tuple(sorted(tri))
