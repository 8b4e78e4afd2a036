"""Exact isomorphism test for small graphs: colour refinement with backtracking (node budget, then TooBig)."""
from .ref import TooBig


def isomorphic(A, B, budget=600):
    n = len(A)
    if n != len(B):
        return False
    left = [budget]

    def refine(ca, cb):
        """refine both colourings together; None if they differ"""
        while True:
            sa = [(ca[i], tuple(sorted((A[i][j], ca[j]) for j in range(n) if j != i))) for i in range(n)]
            sb = [(cb[i], tuple(sorted((B[i][j], cb[j]) for j in range(n) if j != i))) for i in range(n)]
            if sorted(sa) != sorted(sb):
                return None
            names = {s: i for i, s in enumerate(sorted(set(sa)))}
            na, nb = [names[s] for s in sa], [names[s] for s in sb]
            if len(names) == len(set(ca)):
                return na, nb
            ca, cb = na, nb

    def rec(ca, cb):
        left[0] -= 1
        if left[0] < 0:
            raise TooBig
        r = refine(ca, cb)
        if r is None:
            return False
        ca, cb = r
        cells = {}
        for i, c in enumerate(ca):
            cells.setdefault(c, []).append(i)
        big = [c for c in cells if len(cells[c]) > 1]
        if not big:
            pos = {c: i for i, c in enumerate(cb)}
            m = [pos[c] for c in ca]
            return all(A[i][j] == B[m[i]][m[j]] for i in range(n) for j in range(n))
        c = min(big, key=lambda t: len(cells[t]))
        x = cells[c][0]
        ca2 = list(ca)
        ca2[x] = n
        for y in range(n):
            if cb[y] == c:
                cb2 = list(cb)
                cb2[y] = n
                if rec(ca2, cb2):
                    return True
        return False

    return rec([0] * n, [0] * n)
