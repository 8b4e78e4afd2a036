"""C27 a problem and its complement have complementary answers."""
from hypothesis import strategies as st

from .. import common, gens, graphs, iso, ref
from ..common import Sub, need, sut, label
from srg import solver, utils
from srg.srg import SRG

ASSUMPTIONS = ['0<k<v-1, 0<=l<k, 0<=u<=k']

_solved = {}


def solve(p):
    if p not in _solved:
        _solved[p] = [tuple(gens.rows(M)) for M in sut(lambda: list(solver.solve(SRG(solver._seed(*p)))))]
    return _solved[p]


def comp(p):
    return tuple(int(x) for x in sut(utils.complement_vklu, *p))


_cheap = set(gens.measured_params(700 if common.TIER == 'quick' else 3200))


def ref_comp(p):
    v, k, l, u = p
    return v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l


PAIRS = sorted(p for p in _cheap | {q for q in gens.TRIVIAL if q[0] <= 60}
               if ref.feasible(*ref_comp(p)) and (p[0] > 36 or ref_comp(p) in _cheap))


def check_pair(case):
    p = tuple(case)
    q = comp(p)
    a, b = solve(p), solve(q)
    need(bool(a) == bool(b), f'{len(a)} answers for {p}, but {len(b)} for the complementary {q}')
    B = set(b)
    for M in a:
        C = tuple(ref.canonical(ref.complement(M)))
        need(C in B, f'the complement of an answer for {p} is no answer for {q}', gens.show(M))
    A = set(a)
    for M in b:
        C = tuple(ref.canonical(ref.complement(M)))
        need(C in A, f'the complement of an answer for {q} is no answer for {p}', gens.show(M))
    label('answers' if a else 'no answer')
    return bool(a)


RICH = [p for p in PAIRS if p in set(gens.measured_params(700)) and p[0] >= 9 and p in
        {ref.params_of(M) for M in graphs.catalogue().values()}]


def check_relabel(case):
    """the complement of an answer, relabelled at random and made canonical, is among the complementary answers"""
    p = tuple(case['p'])
    a, b = solve(p), set(solve(comp(p)))
    need(a, f'no answer for {p}, though such graphs exist')
    M = a[case['i'] % len(a)]
    C = tuple(ref.canonical(ref.permute(ref.complement(M), case['perm'])))
    need(C in b, f'the complement of an answer for {p} is not found for {comp(p)} in canonical form', gens.show(C))
    label(str(p))
    return True


relabel = st.sampled_from(RICH).flatmap(lambda p: st.fixed_dictionaries(
    {'p': st.just(list(p)), 'i': st.integers(0, 99), 'perm': gens.relabelling(p[0])}))

SUBS = [
    Sub('pair', [list(p) for p in PAIRS], check_pair, shards=8, cpu=200,
        rule='every parameter set whose problem and complementary problem are both quick, enumerated; non-trivial: '
             'there are answers'),
    Sub('relabel', relabel, check_relabel, quick=1500, thorough=20000, shards=8,
        rule='a relabelled complement of an answer, in canonical form; all non-trivial'),
]
