"""C01 every matrix the solver yields is the adjacency matrix of an SRG with the requested parameters."""
from hypothesis import strategies as st

from .. import common, gens, ref
from ..common import Sub, need, sut, label
from srg import solver
from srg.srg import SRG

ASSUMPTIONS = ['parameters with 0<k<v-1, 0<=l<k, 0<=u<=k and counts that fit the integer type of the matrices (16 bits, the default)']


def all_valid(out, p, start):
    for M in out:
        R = gens.rows(M)
        bad = ref.is_srg(R, p)
        need(bad is None, f'solve{p} yielded a matrix that is not such a graph: {bad}', gens.show(R))
        need(R[:len(start)] == [tuple(r) for r in start], f'solve{p} changed the rows it started from', gens.show(R))


def check_params(case):
    p = tuple(case)
    out = sut(lambda: list(solver.solve(SRG(solver._seed(*p)))))
    label('some answers' if out else 'no answer')
    all_valid(out, p, ref.seed(*p))
    return p[0] >= 5 and (bool(out) or bool(ref.next_rows(ref.seed(*p), p)))


def check_resume(case):
    P, p = gens.build_prefix(case)
    if len(P) == p[0]:
        return False
    comp = ref.completions(P, p, 300)   # also bounds the size of the search (TooBig)
    out = sut(lambda: list(solver.solve(SRG(gens.mat(P)))))
    label(case['kind'] + (' completes' if comp else ' dead end'))
    all_valid(out, p, P)
    return len(P) > 2 and (bool(comp) or bool(ref.next_rows(P, p)))


def check_known(case):
    from .. import graphs
    M = graphs.catalogue()[case['graph']]
    p = ref.params_of(M)
    C = ref.canonical(ref.permute(M, case['perm']))
    P = C[:case['row']]
    if len(P) == p[0]:
        return False
    ref.completions(P, p, 300)
    out = sut(lambda: list(solver.solve(SRG(gens.mat(P)))))
    label(case['graph'])
    all_valid(out, p, P)
    return bool(out)


SUBS = [
    Sub('params', [list(p) for p in gens.measured_params(400 if common.TIER == 'quick' else 60000)], check_params,
        rule='every feasible parameter set with v<=36 that the solver finishes quickly, enumerated; '
             'non-trivial: v>=5 and at least one third row exists', shards=8, cpu=400),
    Sub('trivial', [list(p) for p in gens.TRIVIAL + gens.TRIVIAL_HUGE if p[0] > 36], check_params,
        rule='complete multipartite graphs and disjoint cliques with 37..127, and with some larger numbers of vertices, enumerated', shards=8),
    Sub('resume', gens.prefix_case(), check_resume, quick=800, thorough=20000, shards=8,
        rule='random descent to a partial matrix, resume solving there; non-trivial: more than the two seed rows '
             'and at least one further row exists'),
    Sub('known', gens.known_graph_row(), check_known, quick=400, thorough=8000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='resume from the first rows of a relabelled textbook SRG; non-trivial: an answer was yielded'),
]
