"""The set of rows a solver question stands for, read off its public state (see C05, C06)."""
from . import gens, ref
from .common import need, sut
from srg.srg import Question
import numpy as np


def make(case):
    A, b = gens.system_arrays(case)
    return sut(Question, A, b, int(b[-1]), np.ones(A.shape[1], dtype=A.dtype))


def rows_of(q, case, budget=60000, how='filter'):
    """every 0/1 row, ones first within the system's groups of equal columns, that the question still admits

    how='sort': the rows it admits, each with the ones moved to the front within the groups
    """
    ans = q.answer
    vals = [int(x) for x in gens.counts(ans)]
    sizes = list(gens.vec(ans.quota))
    unknown = [i for i, x in enumerate(vals) if x == -1]
    A = gens.rows(q.A) if q.A.shape[0] else []
    b = gens.vec(q.b)
    bounds = gens.vec(q.bounds)
    n = len(unknown)
    need(q.A.shape[1] == n and len(bounds) == n, f'{n} unknowns, {q.A.shape[1]} columns, {len(bounds)} bounds')
    need(len(b) == q.A.shape[0], f'{len(b)} right sides for {q.A.shape[0]} rows')
    cols = [tuple(r[j] for r in A) + (1,) for j in range(n)]
    ub = [min(bounds[j], sizes[unknown[j]]) for j in range(n)]
    if any(not 0 <= x <= s for i, (x, s) in enumerate(zip(vals, sizes)) if x != -1):
        return set()
    out = set()
    for x in ref.solve_counts(cols, ub, list(b) + [int(q.quota)], budget):
        full = list(vals)
        for i, c in zip(unknown, x):
            full[i] = c
        row = ref.expand(full, sizes)
        if how == 'sort':
            out.add(sort_groups(row, case['sizes']))
        elif grouped(row, case['sizes']):
            out.add(row)
    return out


def grouped(row, sizes):
    i = 0
    for s in sizes:
        seg = row[i:i + s]
        if any(a < b for a, b in zip(seg, seg[1:])):
            return False
        i += s
    return True


def sort_groups(row, sizes):
    out, i = [], 0
    for s in sizes:
        out += sorted(row[i:i + s], reverse=True)
        i += s
    return tuple(out)


def reference(case):
    return {ref.expand(x, case['sizes']) for x in gens.system_solutions(case)}


def describe(q):
    return (f'A={q.A.tolist()} b={q.b.tolist()} quota={q.quota} bounds={q.bounds.tolist()} '
            f'answer={gens.counts(q.answer).tolist()} sizes={q.answer.quota.tolist()}')
