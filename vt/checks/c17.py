"""C17 `python -m srg v k l u` prints exactly the answers, whole and in sorted order."""
from hypothesis import strategies as st

from .. import cli, common, gens, graphs, ref
from ..common import Sub, need, label

ASSUMPTIONS = ['parameters with 0<k<v-1, 0<=l<k, 0<=u<=k; the answers are read off standard output, '
               'whatever else is printed there']


_TRIVIAL = set(gens.TRIVIAL + gens.TRIVIAL_HUGE)


def answers(p):
    v, k, l, u = p
    if p in _TRIVIAL:   # the only such graph: cliques when u = 0, else their complement
        n = k + 1 if u == 0 else v - k
        M = graphs.cliques(v // n, n) if u == 0 else graphs.multipartite(v // n, n)
        return [tuple(ref.canonical(M))]
    return sorted(ref.completions(ref.seed(*p), p, 20000), key=ref.upper)


def check_solve(case):
    p = tuple(case)
    want = answers(p)
    code, out, err = cli.run('srg', p)
    need(code == 0, f'python -m srg {p}: exit code {code}:', err[-500:])
    got = cli.matrices(out)
    need(sorted(got) == sorted(want), f'python -m srg {p} printed {len(got)} matrices {[len(m) for m in got][:5]}, '
         f'there are {len(want)} answers of {p[0]} rows;', out[:600])
    need(got == want, f'python -m srg {p} printed the answers in another order')
    label(f'{len(want)} answers' if len(want) < 3 else '3 or more answers')
    return bool(want)


def check_bad(case):
    code, out, err = cli.run('srg', case)
    need(code != 0, f'python -m srg {case}: exit code 0;', out[:300])
    need(not cli.matrices(out), f'python -m srg {case} printed a matrix;', out[:300])
    return True


@st.composite
def bad_args(draw):
    how = draw(st.sampled_from(['infeasible', 'infeasible', 'few', 'many', 'text']))
    p = list(draw(st.sampled_from(gens.SMALL)))
    if how == 'infeasible':
        while ref.feasible(*p) or (p[0] - p[1] - 1) * p[3] == p[1] * (p[1] - p[2] - 1):
            p[draw(st.integers(0, 3))] += draw(st.integers(1, 3))
    elif how == 'few':
        p = p[:draw(st.integers(0, 3))]
    elif how == 'many':
        p += [draw(st.integers(0, 9))]
    else:
        p[draw(st.integers(0, 3))] = draw(st.sampled_from(['x', '', '3.5', 'k=3', '1e1']))
    return [str(x) for x in p]


TRIV = [p for p in gens.TRIVIAL if p[0] > 16] + [p for p in gens.TRIVIAL_HUGE if p[0] <= 180]
SEVERAL = [(16, 5, 0, 2), (16, 6, 2, 2), (16, 9, 4, 6), (21, 10, 5, 4), (25, 8, 3, 2)]
PARAMS = [list(p) for p in SEVERAL + gens.measured_params(60 if common.TIER == 'quick' else 3200)]
SUBS = [
    Sub('solve', PARAMS, check_solve, shards=8, cpu=200,
        rule='every feasible parameter set with v<=36 that the solver finishes quickly, enumerated; non-trivial: '
             'answers exist'),
    Sub('trivial', st.sampled_from(TRIV).map(list), check_solve, quick=96, thorough=800, shards=8,
        rule='complete multipartite graphs and disjoint cliques with 17..180 vertices; all non-trivial'),
    Sub('bad', bad_args(), check_bad, quick=64, thorough=400, shards=8,
        rule='infeasible parameters and malformed command lines must fail without printing a matrix'),
]
