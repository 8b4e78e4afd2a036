"""C02 the enumeration is complete: every SRG with the requested parameters is found, up to isomorphism."""
from hypothesis import strategies as st

from .. import common, gens, graphs, ref
from ..common import Sub, need, sut, label
from srg import solver
from srg.srg import SRG, Question, NoSolution

ASSUMPTIONS = ['parameters with 0<k<v-1, 0<=l<k, 0<=u<=k and counts that fit the integer type of the matrices (16 bits, the default)',
               'completeness up to isomorphism is decided through the canonical form the solver itself enumerates: '
               'ones before zeros among columns that agree on the earlier rows']


def found(M):
    return tuple(gens.rows(M))


def check_params(case):
    p = tuple(case)
    want = ref.completions(ref.seed(*p), p, 20000)
    got = {found(M) for M in sut(lambda: list(solver.solve(SRG(solver._seed(*p)))))}
    miss = [w for w in want if w not in got]
    need(not miss, f'solve{p} yielded {len(got)} answers and missed {len(miss)}, first one', gens.show((miss or [[]])[0]))
    label(f'{len(want)} answers')
    return bool(want)


def check_resume(case):
    P, p = gens.build_prefix(case)
    if len(P) == p[0]:
        return False
    want = ref.completions(P, p, 300)
    got = {found(M) for M in sut(lambda: list(solver.solve(SRG(gens.mat(P)))))}
    miss = [w for w in want if w not in got]
    need(not miss, f'continuing {p} from {len(P)} rows missed {len(miss)} of {len(want)} answers', gens.show(P))
    label(case['kind'] + (' completes' if want else ' dead end'))
    return bool(want) and len(P) > 2


def candidates(P):
    """the rows the solver proposes after the rows of P, as whole rows"""
    R = len(P)
    m = gens.mat(P)
    pre = tuple(P[i][R] for i in range(R)) + (0,)
    try:
        q = Question.from_matrix(m)
    except NoSolution:
        return []
    return [pre + gens.vec(a) for a in solver.solve_question(q)]


def check_row(case):
    M = gens.ALL_GRAPHS[case['graph']]
    C = ref.canonical(ref.permute(M, case['perm']))
    r = case['row']
    got = set(sut(candidates, C[:r]))
    need(C[r] in got, f'row {r} of {case["graph"]} is not among the {len(got)} rows the solver proposes', gens.show(C[:r + 1]))
    label(case['graph'])
    return len(ref.next_rows(C[:r], ref.params_of(M), 10 ** 6)) > 1


def check_rows(case):
    P, p = gens.build_prefix(case)
    if len(P) == p[0]:
        return False
    want = ref.next_rows(P, p, 60000)
    if len(want) > 1500:
        raise ref.TooBig
    new = [gens.rows(s.current_matrix) for s in sut(solver.advance, SRG(gens.mat(P)))]
    for M in new:
        need(M[:-1] == [tuple(r) for r in P], f'{p}: advancing changed the rows before the new one', gens.show(P), gens.show(M))
    got = {M[-1] for M in new}
    miss = [w for w in want if w not in got]
    need(not miss, f'{p}: {len(miss)} of {len(want)} possible rows are not proposed, first one', miss[:1], gens.show(P))
    n = len(want)
    label(f'{case["kind"]}, {n if n < 2 else "several" if n < 100 else "100 or more" if n < 257 else "257 or more"} rows')
    return len(want) > 1


_cache = {}
_CHEAP = set(gens.measured_params(700))
RELABEL = [n for n in graphs.catalogue() if ref.params_of(graphs.catalogue()[n]) in _CHEAP]


def check_relabel(case):
    M = graphs.catalogue()[case['graph']]
    p = ref.params_of(M)
    if p not in _cache:
        _cache[p] = {found(m) for m in sut(lambda: list(solver.solve(SRG(solver._seed(*p)))))}
    C = tuple(ref.canonical(ref.permute(M, case['perm'])))
    need(C in _cache[p], f'solve{p} does not contain the canonical form of a relabelled {case["graph"]}', gens.show(C))
    label(case['graph'])
    return p[0] > 6


relabel = st.sampled_from(RELABEL).flatmap(lambda n: st.fixed_dictionaries(
    {'graph': st.just(n), 'perm': gens.relabelling(len(graphs.catalogue()[n]))}))

SUBS = [
    Sub('params', [list(p) for p in gens.measured_params(700 if common.TIER == 'quick' else 60000)], check_params,
        rule='every feasible parameter set with v<=36 that the solver finishes quickly, enumerated, against the '
             'reference enumeration; non-trivial: an answer exists', shards=8, cpu=400),
    Sub('trivial', [list(p) for p in gens.TRIVIAL + gens.TRIVIAL_HUGE if p[0] > 36], check_params,
        rule='complete multipartite graphs and disjoint cliques with 37..127, and with some larger numbers of vertices, enumerated', shards=8, cpu=120),
    Sub('wide', [list(p) for p in gens.WIDE[:2]] * (common.TIER == 'quick'), check_params, shards=8, cpu=400,
        rule='some parameter sets whose search is wide (546 to 1932 partial matrices of one height), enumerated (the thorough '
             'run has them among params); non-trivial: an answer exists'),
    Sub('resume', gens.prefix_case(), check_resume, quick=1200, thorough=30000, shards=8,
        rule='random descent to a partial matrix, resume there; non-trivial: beyond the seed and completable'),
    Sub('rows', gens.prefix_case(), check_rows, quick=2400, thorough=40000, shards=8,
        rule='random descent to a partial matrix; all reference rows must be proposed; non-trivial: several rows exist'),
    Sub('broad', gens.broad_prefix(), check_rows, quick=96, thorough=6000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='the same for partial matrices with hundreds of possible next rows; non-trivial: several rows exist'),
    Sub('row', gens.known_graph_row(common.TIER == 'thorough'), check_row, quick=800, thorough=8000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='relabelled textbook SRG put in canonical form: its next row must be among the proposed ones; '
             'non-trivial: the row is not forced'),
    Sub('late', gens.large_known_row(), check_row, quick=800, thorough=20000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='the same for larger textbook graphs (up to 126 vertices) at rows the search finishes quickly; non-trivial as before'),
    Sub('relabel', relabel, check_relabel, quick=800, thorough=20000, shards=8,
        rule='canonical form of a relabelled textbook SRG must be among the complete output; non-trivial: v>6'),
]
