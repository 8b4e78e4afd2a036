"""C06 branching on one unknown tries every value that unknown can take, each exactly once."""
from hypothesis import strategies as st
import numpy as np

from .. import common, gens, ref, questions
from ..common import Sub, need, sut, label
from .c05 import branch, sut_step
from srg import fork, solver
from srg.srg import NoSolution

ASSUMPTIONS = ['no bound exceeds the quota (zero_in_b has capped the bounds), and the quota can be reached']


@st.composite
def enum_case(draw):
    big = draw(st.booleans())
    bounds = draw(st.lists(st.integers(0, draw(st.sampled_from([40, 127, 300])) if big else 5), min_size=1, max_size=8))
    if draw(st.integers(0, 3)) == 0:
        bounds = (bounds * 9)[:draw(st.integers(1, 9 * len(bounds)))]
    tot = sum(bounds)
    quota = draw(st.integers(0, tot))
    return {'bounds': [min(b, quota) for b in bounds], 'quota': min(quota, sum(min(b, quota) for b in bounds)),
            'loc': draw(st.integers(0, len(bounds) - 1))}


def check_enum(case):
    bounds, quota, loc = case['bounds'], case['quota'], case['loc']
    bounds = [min(b, quota) for b in bounds]
    arr = np.array(bounds, dtype=np.int8 if sum(bounds) < 128 else np.int16)
    before = arr.copy()
    got = [(int(a), int(b)) for a, b in sut(lambda: list(fork.enum(quota, arr, loc)))]
    need(np.array_equal(arr, before), 'fork.enum changed its bounds')
    # a value is possible iff the others can take the rest
    rest = sum(bounds) - bounds[loc]
    want = sorted((x, quota - x) for x in range(bounds[loc] + 1) if 0 <= quota - x <= rest)
    need(sorted(got) == want, f'fork.enum({quota}, {bounds}, {loc}) gave {got}, possible are {want}')
    label(f'{min(len(want), 4)} values')
    return len(want) > 1 and len(want) <= bounds[loc]


SIMPLIFY = ['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']


@st.composite
def state_case(draw, groups=7, size=4, nrows=5, many=False):
    case = draw(gens.grid_system(size=(1, 1, 2)) if many else gens.system(groups=groups, size=size, nrows=nrows))
    case['sizes'] = list(case['sizes'])
    one = st.lists(st.sampled_from(SIMPLIFY), max_size=5)
    orders = st.one_of(one, st.just(SIMPLIFY), st.just(SIMPLIFY * 2), st.just(['reduce_col', 'zero_in_b']))
    case['rounds'] = draw(st.lists(st.tuples(orders, st.integers(0, 9), orders, st.integers(0, 9)).map(list), min_size=1,
                                   max_size=5))
    return case


def check_branch(case):
    """simplify in the solver's or another order, branch, simplify the branches independently; repeat on one of them"""
    q = questions.make(case)
    cur = questions.reference(case)
    forks = 0
    for before_steps, pick, kid_steps, victim in case['rounds']:
        try:
            for name in before_steps:
                sut_step(getattr(solver, name), q)
        except NoSolution:
            break
        if not q.answer.unknown:
            break
        cur = questions.rows_of(q, case)
        before = questions.describe(q)
        kids = branch(q, ['fork'])
        if kids is None:
            need(not cur, 'NoSolution while branching, but', len(cur), 'rows are possible;', before)
            break
        sets = [questions.rows_of(k, case) for k in kids]
        union = set().union(*sets)
        need(union == cur, f'branches admit {len(union)} rows instead of {len(cur)};', before)
        need(sum(map(len, sets)) == len(union), 'branches overlap;', before)
        need(all(len(k.answer.unknown_loc) == len(q.answer.unknown_loc) - 1 for k in kids), 'a branch fixed no unknown;', before)
        if not kids:
            break
        # branches are independent of each other: simplifying one leaves the others as they were
        keep = [k.copy() for k in kids]
        i = victim % len(kids)
        try:
            for name in kid_steps:
                sut_step(getattr(solver, name), kids[i])
        except NoSolution:
            pass
        for j, (a, b) in enumerate(zip(kids, keep)):
            need(j == i or a == b, f'{kid_steps} on branch {i} changed branch {j};', before)
        for x in (kids[i].A, kids[i].b, kids[i].bounds, gens.counts(kids[i].answer)):   # nor does writing to one
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = 7
        for j, (a, b) in enumerate(zip(kids, keep)):
            need(j == i or a == b, f'writing to branch {i} changed branch {j};', before)
        forks += 1
        q = keep[pick % len(kids)]
        if len(kids) > 1:
            label('several branches')
    label(f'{forks} branchings')
    return forks > 0


SUBS = [
    Sub('enum', enum_case(), check_enum, quick=8000, thorough=200000, shards=4,
        rule='quota, bounds and position; non-trivial: several values are possible but not all within the bound'),
    Sub('branch', state_case(), check_branch, quick=8000, thorough=200000, shards=8,
        rule='random system, simplification steps, branch, simplify one of the branches, descend; non-trivial: at least '
             'one branching'),
    Sub('large', state_case(4, 40, 80), check_branch, quick=2000, thorough=40000, shards=8,
        rule='the same with up to 81 equations and 160 columns'),
    Sub('many', state_case(many=True), check_branch, quick=800, thorough=20000, shards=8,
        rule='the same with up to 64 groups of equal columns: sparse tables with given row and column sums'),
]
