"""C03 each canonical completion of a partial matrix is yielded exactly once, and nothing else."""
from .. import common, gens, graphs, ref
from ..common import Sub, need, sut, label
from srg import solver
from srg.srg import SRG
import numpy as np

ASSUMPTIONS = ['parameters with 0<k<v-1, 0<=l<k, 0<=u<=k; partial matrices are in canonical form']


def compare(P, p, want, dtype=None):
    out = sut(lambda: list(solver.solve(SRG(gens.mat(P, dtype)))))
    got = [tuple(gens.rows(M)) for M in out]
    for g in got:
        bad = ref.is_canonical(g)
        need(bad is None, f'{p} from {len(P)} rows: an answer is not in canonical form: {bad}', gens.show(g))
    need(len(set(got)) == len(got), f'{p} from {len(P)} rows: {len(got) - len(set(got))} answers came twice', gens.show(P))
    need(sorted(got) == want, f'{p} from {len(P)} rows: {len(got)} answers instead of {len(want)}; '
         f'{len(set(got) - set(want))} wrong, {len(set(want) - set(got))} missing', gens.show(P))


def check_params(case):
    p = tuple(case)
    S = sut(lambda: gens.rows(solver._seed(*p)))
    need(S == ref.seed(*p), f'the first two rows for {p} are', gens.show(S))
    want = ref.completions(S, p, 20000)
    compare(S, p, want)
    label(f'{len(want)} answers')
    return bool(want)


def check_resume(case):
    P, p = gens.build_prefix(case)
    if len(P) == p[0]:
        return False
    want = ref.completions(P, p, 300)
    compare(P, p, want, np.int64 if case['n'] % 2 else None)
    label(case['kind'] + (' completes' if want else ' dead end'))
    return len(P) > 2 and (bool(want) or bool(ref.next_rows(P, p)))


def check_known(case):
    M = graphs.catalogue()[case['graph']]
    p = ref.params_of(M)
    C = ref.canonical(ref.permute(M, case['perm']))
    P = C[:case['row']]
    want = ref.completions(P, p, 300)
    compare(P, p, want, np.int64 if case['row'] % 2 else None)
    label(f'{"several" if len(want) > 1 else len(want)} answers')
    return True


SUBS = [
    Sub('params', [list(p) for p in gens.measured_params(700 if common.TIER == 'quick' else 60000)], check_params,
        rule='every feasible parameter set with v<=36 that the solver finishes quickly, enumerated; '
             'non-trivial: an answer exists', shards=8, cpu=400),
    Sub('wide', [list(p) for p in gens.WIDE] * (common.TIER == 'quick'), check_params, shards=8, cpu=400,
        rule='some parameter sets whose search is wide (28 to 1932 partial matrices of one height), enumerated (the thorough '
             'run has them among params); non-trivial: an answer exists'),
    Sub('resume', gens.prefix_case(), check_resume, quick=1600, thorough=30000, shards=8,
        rule='random descent to a partial matrix (8- or 64-bit), resume there, compare with the reference as multisets; '
             'non-trivial: beyond the seed and a further row exists'),
    Sub('trivial', [list(p) for p in gens.TRIVIAL_HUGE], check_params, shards=8, cpu=120,
        rule='complete multipartite graphs and disjoint cliques with some numbers of vertices from 128 to 264, enumerated'),
    Sub('known', gens.known_graph_row(), check_known, quick=800, thorough=10000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='resume from the first rows of a relabelled textbook SRG in canonical form; all non-trivial'),
]
