"""Families of strongly regular graphs, built from their textbook definitions (independent of /repo)."""
from functools import lru_cache
from itertools import combinations, product

from . import ref


def from_rel(pts, rel):
    return [tuple(1 if a != b and rel(a, b) else 0 for b in pts) for a in pts]


def paley(q):
    squares = {x * x % q for x in range(1, q)}
    return from_rel(range(q), lambda a, b: (a - b) % q in squares)


def paley2(p, nr):
    """Paley graph of order p*p: GF(p)[x]/(x^2 - nr), nr a non-residue."""
    el = [(a, b) for a in range(p) for b in range(p)]
    mul = lambda s, t: ((s[0] * t[0] + nr * s[1] * t[1]) % p, (s[0] * t[1] + s[1] * t[0]) % p)
    squares = {mul(e, e) for e in el} - {(0, 0)}
    return from_rel(el, lambda s, t: ((s[0] - t[0]) % p, (s[1] - t[1]) % p) in squares)


def triangular(n):
    return from_rel(list(combinations(range(n), 2)), lambda a, b: len(set(a) & set(b)) == 1)


def lattice(n):
    return from_rel(list(product(range(n), repeat=2)), lambda a, b: a[0] == b[0] or a[1] == b[1])


def latin(n, square=lambda i, j, n: (i + j) % n):
    """Latin square graph LS3(n)."""
    return from_rel([(i, j, square(i, j, n)) for i in range(n) for j in range(n)],
                    lambda a, b: any(x == y for x, y in zip(a, b)))


def multipartite(m, n):
    return from_rel(range(m * n), lambda a, b: a // n != b // n)


def cliques(m, n):
    return from_rel(range(m * n), lambda a, b: a // n == b // n)


def switch(M, S):
    v = len(M)
    return [tuple(M[i][j] ^ ((i in S) != (j in S)) if i != j else 0 for j in range(v)) for i in range(v)]


def clebsch():
    return from_rel(range(16), lambda a, b: (a ^ b) in (1, 2, 4, 8, 15))


def shrikhande():
    d = {(1, 0), (3, 0), (0, 1), (0, 3), (1, 1), (3, 3)}
    return from_rel(list(product(range(4), repeat=2)), lambda a, b: ((a[0] - b[0]) % 4, (a[1] - b[1]) % 4) in d)


def chang(i):
    """the three Chang graphs: T(8) switched on 4K2, C8, C3+C5."""
    es = list(combinations(range(8), 2))
    cyc = lambda vs: {tuple(sorted((vs[t], vs[(t + 1) % len(vs)]))) for t in range(len(vs))}
    sel = [{(0, 1), (2, 3), (4, 5), (6, 7)}, cyc(range(8)), cyc((0, 1, 2)) | cyc((3, 4, 5, 6, 7))][i]
    return switch(triangular(8), {t for t, e in enumerate(es) if e in sel})


def schlafli_complement():
    """27 lines: (27, 10, 1, 5)."""
    pts = [('a', i) for i in range(6)] + [('b', i) for i in range(6)] + [('c', e) for e in combinations(range(6), 2)]

    def meet(s, t):
        if s[0] > t[0]:
            s, t = t, s
        if s[0] == t[0]:
            return s[0] == 'c' and not set(s[1]) & set(t[1])
        if t[0] == 'c':
            return s[1] in t[1]
        return s[1] != t[1]
    return from_rel(pts, meet)


def hoffman_singleton():
    pts = [('p', h, j) for h in range(5) for j in range(5)] + [('q', i, j) for i in range(5) for j in range(5)]

    def adj(s, t):
        if s[0] == t[0]:
            d = (s[2] - t[2]) % 5
            return s[1] == t[1] and d in ((1, 4) if s[0] == 'p' else (2, 3))
        if s[0] == 'q':
            s, t = t, s
        return t[2] == (s[1] * t[1] + s[2]) % 5
    return from_rel(pts, adj)


def symplectic(q=3):
    """points of W(q): (40, 12, 2, 4) for q = 3, (15, 6, 1, 3) for q = 2."""
    pts = []
    for x in product(range(q), repeat=4):
        nz = [c for c in x if c]
        if nz and nz[0] == 1:
            pts.append(x)
    return from_rel(pts, lambda a, b: (a[0] * b[1] - a[1] * b[0] + a[2] * b[3] - a[3] * b[2]) % q == 0)


KLEIN = lambda i, j, n: i ^ j


@lru_cache(None)
def catalogue():
    """name -> matrix; every entry is validated against its own parameters when built."""
    g = {}
    for q in (5, 13, 17, 29):
        g[f'paley{q}'] = paley(q)
    g['paley9'] = paley2(3, 2)
    g['paley25'] = paley2(5, 2)
    for n in range(4, 9):
        g[f'T{n}'] = triangular(n)
    for n in range(3, 9):
        g[f'L2({n})'] = lattice(n)
    g['LS3(4)c'] = ref.complement(latin(4))
    g['LS3(5)'] = latin(5)
    g['LS3(6)'] = latin(6)
    g['LS3(4)k'] = ref.complement(latin(4, KLEIN))
    g['clebsch'] = clebsch()
    g['shrikhande'] = shrikhande()
    for i in range(3):
        g[f'chang{i}'] = chang(i)
    g['schlafli-c'] = schlafli_complement()
    g['hoffman-singleton'] = hoffman_singleton()
    g['W(3)'] = symplectic(3)
    for m, n in ((2, 2), (2, 6), (3, 4), (4, 3), (6, 2), (5, 5), (12, 2), (2, 20), (20, 2), (3, 12), (9, 7)):
        g[f'K{m}x{n}'] = multipartite(m, n)
        g[f'{m}K{n}'] = cliques(m, n)
    for name in ('T5', 'T6', 'T7', 'T8', 'L2(4)', 'L2(5)', 'L2(6)', 'clebsch', 'shrikhande', 'paley13', 'paley17',
                 'chang0', 'chang1', 'chang2', 'schlafli-c', 'LS3(5)', 'hoffman-singleton', 'W(3)'):
        g[name + "'"] = ref.complement(g[name])
    for name, M in g.items():
        p = ref.params_of(M)
        assert ref.feasible(*p) and ref.is_srg(M, p) is None, (name, p)
    return g


def rank3_gf2(n, form):
    """vectors of GF(2)^n, adjacent if the form vanishes on their sum."""
    return from_rel(range(2 ** n), lambda a, b: form(a ^ b) == 0)


def symplectic2(n):
    """points of the symplectic space over GF(2), n even: (63, 30, 13, 15) for n = 6."""
    def b(x, y):
        s = 0
        for i in range(0, n, 2):
            s ^= (x >> i & 1) & (y >> i + 1 & 1) ^ (x >> i + 1 & 1) & (y >> i & 1)
        return s
    return from_rel(range(1, 2 ** n), lambda x, y: b(x, y) == 0)


def steiner_triple():
    """blocks of PG(3, 2), adjacent if they meet: (35, 18, 9, 9)."""
    bl = sorted({tuple(sorted((a, b, a ^ b))) for a in range(1, 16) for b in range(1, 16) if a != b})
    return from_rel(bl, lambda s, t: bool(set(s) & set(t)))


def golay_blocks():
    """the 77 blocks of S(3, 6, 22): the 253 octads through a point, those through two points, with the points removed."""
    # extended binary Golay code from the quadratic residues modulo 23
    res = {x * x % 23 for x in range(1, 23)}
    g = [1 << 23 | sum(1 << (i + j) % 23 for j in res) for i in range(23)]
    basis = []
    for w in g:
        for x in basis:
            w = min(w, w ^ x)
        if w:
            basis.append(w)
    words = {0}
    for x in basis:
        words |= {w ^ x for w in words}
    octads = [w for w in words if bin(w).count('1') == 8]
    assert len(words) == 4096 and len(octads) == 759
    return sorted(w & ~3 for w in octads if w & 3 == 3)


def m22():
    """(77, 16, 0, 4)"""
    return from_rel(golay_blocks(), lambda a, b: a & b == 0)


def gewirtz():
    """(56, 10, 0, 2)"""
    return from_rel([b for b in golay_blocks() if not b >> 2 & 1], lambda a, b: a & b == 0)


def higman_sims():
    """(100, 22, 0, 6)"""
    bs = golay_blocks()
    pts = [('inf',)] + [('p', i) for i in range(2, 24)] + [('b', b) for b in bs]

    def adj(s, t):
        if s[0] > t[0]:
            s, t = t, s
        if 'inf' in (s[0], t[0]):
            return 'p' in (s[0], t[0])
        if s[0] == t[0]:
            return s[0] == 'b' and s[1] & t[1] == 0
        return bool(s[1] >> t[1] & 1)
    return from_rel(pts, adj)


def _plus(x):
    return (x & 1) & (x >> 1 & 1) ^ (x >> 2 & 1) & (x >> 3 & 1) ^ (x >> 4 & 1) & (x >> 5 & 1)


def _minus(x):
    return _plus(x) ^ (x & 1) ^ (x >> 1 & 1)


@lru_cache(None)
def large():
    """name -> matrix, graphs with up to 255 vertices, validated likewise."""
    g = {f'paley{q}': paley(q) for q in (37, 41, 53, 61, 73, 89, 97, 101, 109, 113, 137, 197)}
    g['paley49'] = paley2(7, 3)
    g['paley121'] = paley2(11, 2)
    for n in (9, 10, 11, 12, 13, 14, 15, 16, 17, 19):
        g[f'T{n}'] = triangular(n)
    for n in (9, 10, 11, 12, 14):
        g[f'L2({n})'] = lattice(n)
    for n in (7, 8, 9, 10, 11, 12):
        g[f'LS3({n})'] = latin(n)
    g['VO+(6,2)'] = rank3_gf2(6, _plus)
    g['VO-(6,2)'] = rank3_gf2(6, _minus)
    g['Sp(6,2)'] = symplectic2(6)
    g['Sp(8,2)'] = symplectic2(8)
    g['PG(3,2)'] = steiner_triple()
    g['gewirtz'] = gewirtz()
    g['m22'] = m22()
    g['higman-sims'] = higman_sims()
    for m, n in ((2, 63), (63, 2), (11, 11), (32, 3), (7, 18), (2, 65), (70, 2), (9, 20), (5, 40)):
        g[f'K{m}x{n}'] = multipartite(m, n)
        g[f'{m}K{n}'] = cliques(m, n)
    for name in [n for n in g if 'K' not in n and not n.startswith('paley')]:
        g[name + "'"] = ref.complement(g[name])
    for name, M in g.items():
        p = ref.params_of(M)
        assert ref.feasible(*p) and ref.is_srg(M, p) is None, (name, p)
    return g


@lru_cache(None)
def all_graphs():
    return {**large(), **catalogue()}
