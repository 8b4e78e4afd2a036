"""C04 the rows proposed for a partial matrix (or a 0/1 system) are exactly its canonical solutions, once each."""
from .. import common, gens, graphs, ref
from ..common import Sub, need, sut, label
from .c02 import candidates
from srg import solver
from srg.srg import Question
import numpy as np

ASSUMPTIONS = ['partial matrices in canonical form; systems whose equal columns are adjacent and whose last '
               'row is the all-ones quota row, as built from partial matrices']


def exact(got, want, what):
    need(len(set(got)) == len(got), f'{what}: {len(got) - len(set(got))} rows proposed twice')
    wrong = set(got) - set(want)
    need(not wrong, f'{what}: {len(wrong)} proposed rows do not satisfy the constraints, e.g.', sorted(wrong)[:1])
    miss = set(want) - set(got)
    need(not miss, f'{what}: {len(miss)} of {len(want)} rows are not proposed, e.g.', sorted(miss)[:1])


def check_rows(case):
    P, p = gens.build_prefix(case)
    if len(P) == p[0]:
        return False
    want = ref.next_rows(P, p, 20000)
    if len(want) > 400:
        raise ref.TooBig
    exact(sut(candidates, P), want, f'{p} after {len(P)} rows {gens.show(P)}\n')
    label(f'{case["kind"]}, {"several" if len(want) > 1 else len(want)} rows')
    return len(P) > 2 or len(want) > 1


def check_known(case):
    M = gens.ALL_GRAPHS[case['graph']]
    p = ref.params_of(M)
    C = ref.canonical(ref.permute(M, case['perm']))[:case['row']]
    want = ref.next_rows(C, p, 10 ** 6)
    exact(sut(candidates, C), want, f'{case["graph"]} after {len(C)} rows {gens.show(C)}\n')
    label(f'{"several" if len(want) > 1 else len(want)} rows')
    return len(want) > 1


def check_system(case):
    A, b = gens.system_arrays(case)
    want = [ref.expand(x, case['sizes']) for x in gens.system_solutions(case)]
    if len(want) > 300:
        raise ref.TooBig
    b0 = b.copy()
    q = sut(Question, A.copy(), b, int(b[-1]), np.ones(A.shape[1], dtype=A.dtype))
    got = [gens.vec(a) for a in sut(lambda: list(solver.solve_question(q)))]
    exact(got, want, f'A={A.tolist()} b={b0.tolist()}')
    label(f'{case["mode"]}, {"several" if len(want) > 1 else len(want)} solutions')
    return A.shape[1] > 1 and (len(want) > 1 or case['mode'] != 'solvable')


SUBS = [
    Sub('rows', gens.prefix_case(), check_rows, quick=3200, thorough=60000, shards=8,
        rule='random descent to a partial matrix; non-trivial: third row or later, or several rows possible'),
    Sub('known', gens.known_graph_row(common.TIER == 'thorough'), check_known, quick=800, thorough=8000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='first rows of a relabelled textbook SRG; non-trivial: several rows possible'),
    Sub('late', gens.large_known_row(), check_known, quick=800, thorough=20000, shards=8, cpu=common.SOFT_CPU, soft=True,
        rule='the same for larger textbook graphs (up to 126 vertices); non-trivial as before'),
    Sub('systems', gens.system(), check_system, quick=6000, thorough=150000, shards=8,
        rule='random 0/1 systems, solvable or perturbed; non-trivial: several solutions, or not known to be solvable'),
    Sub('wide', gens.system(groups=6, size=20, nrows=4), check_system, quick=1600, thorough=30000, shards=8,
        rule='as systems, up to 120 columns'),
    Sub('wider', gens.system(groups=5, size=60, nrows=4), check_system, quick=800, thorough=20000, shards=8,
        rule='as systems, up to 300 columns, counts beyond 127'),
    Sub('many', gens.grid_system(60, (1, 2, 3), 3, easy=True), check_system, quick=1200, thorough=30000, shards=8,
        rule='as systems, up to 60 groups of equal columns: sparse tables with given row and column sums, most of them zero'),
    Sub('tall', gens.system(groups=5, size=4, nrows=140), check_system, quick=1600, thorough=30000, shards=8,
        rule='as systems, up to 141 rows'),
]
