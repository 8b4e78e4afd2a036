"""C05 any sequence of simplification steps keeps the set of rows a question stands for."""
from hypothesis import strategies as st

from .. import common, gens, ref, questions
from ..common import Sub, need, sut, label
from srg import solver
from srg.srg import NoSolution

ASSUMPTIONS = ['systems whose equal columns are adjacent (among the unresolved ones too) and whose last row is the all-ones '
               'quota row']

STEPS = ['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row', 'fork']


@st.composite
def history(draw, groups=6, size=3, nrows=5, many=False):
    case = draw(gens.grid_system(size=(1, 1, 2)) if many else gens.system(groups=groups, size=size, nrows=nrows))
    case['steps'] = draw(st.lists(st.tuples(st.sampled_from(STEPS + STEPS[:4]), st.integers(0, 9)), max_size=14))
    return case


def check_history(case):
    return run_history(questions.make(case), questions.reference(case), case, 'filter')


def run_history(q, want, case, how):
    cur = questions.rows_of(q, case, how=how)
    need(cur == want, 'harness: reference disagrees on a fresh question')
    trace, changed = [], 0
    for name, pick in case['steps']:
        before = q.copy()
        trace.append(name)
        if name == 'fork':
            if not q.answer.unknown:
                trace.pop()
                continue
            kids = branch(q, trace)
            if kids is None:
                need(not cur, f'{trace}: NoSolution, but {len(cur)} rows are possible;', questions.describe(before))
                label('NoSolution')
                return True
            sets = [questions.rows_of(k, case, how=how) for k in kids]
            union = set().union(*sets)
            need(union == cur, f'{trace}: branches admit {len(union)} rows instead of {len(cur)};', questions.describe(before))
            need(how == 'sort' or sum(map(len, sets)) == len(union), f'{trace}: branches overlap;', questions.describe(before))
            if not kids:
                break
            q, cur = kids[pick % len(kids)], sets[pick % len(kids)]
            changed += 1
            continue
        try:
            sut_step(getattr(solver, name), q)
        except NoSolution:
            need(not cur, f'{trace}: NoSolution, but {len(cur)} rows are possible, e.g. {sorted(cur)[:1]};',
                 questions.describe(before))
            label('NoSolution')
            return True
        new = questions.rows_of(q, case, how=how)
        need(new == cur, f'{trace}: {len(cur - new)} rows lost, {len(new - cur)} rows appeared;',
             questions.describe(before), '->', questions.describe(q))
        changed += not (q == before)
    label(f'{min(changed, 4)} effective steps')
    return changed >= 2


def sut_step(f, q):
    try:
        return f(q)
    except NoSolution:
        raise
    except Exception as e:
        raise common.Violation(f'{f.__name__} raised {type(e).__name__}: {e}') from e


def branch(q, trace):
    try:
        return list(solver.fork_enum(q))
    except NoSolution:
        return None
    except Exception as e:
        raise common.Violation(f'{trace} raised {type(e).__name__}: {e}; ' + questions.describe(q)) from e


@st.composite
def bounded(draw):
    """a question some of whose unknowns already stand for several equal columns, with any bounds"""
    case = draw(gens.system(groups=5, size=4, nrows=4))
    split, bounds = [], []
    for s in case['sizes']:
        parts = []
        while s:
            parts.append(draw(st.integers(1, s)))
            s -= parts[-1]
        # equal columns stay next to each other: none of them is resolved while a later one is not
        some = [draw(st.integers(1, x)) if draw(st.booleans()) else x for x in parts]
        order = sorted(range(len(parts)), key=lambda i: some[i])
        split.append([parts[i] for i in order])
        bounds.append([some[i] for i in order] if draw(st.integers(0, 5)) else [0] * len(parts))
    case['split'], case['bounds'] = split, bounds
    case['steps'] = draw(st.lists(st.tuples(st.sampled_from(STEPS + STEPS[:4]), st.integers(0, 9)), max_size=10))
    return case


def bounded_question(case):
    from srg.srg import Answer, Question
    import numpy as np
    cols, sizes = [], []
    for c, parts in zip(case['codes'], case['split']):
        for x in parts:
            cols.append([c >> i & 1 for i in range(case['m'])] + [1])
            sizes.append(x)
    loc = [sum(sizes[:i]) for i in range(len(sizes))]
    ans = Answer(value=np.full(len(sizes), -1, dtype=np.int8), location=np.array(loc), len=sum(sizes))
    return Question(gens.lay(np.array(cols, dtype=np.int8).T.copy()), np.array(case['b'], dtype=np.int8), case['b'][-1],
                    np.array([x for bs in case['bounds'] for x in bs], dtype=np.int8), ans)


def check_bounded(case):
    ub = [sum(bs) for bs in case['bounds']]
    cols = [tuple(c >> i & 1 for i in range(case['m'])) + (1,) for c in case['codes']]
    want = {ref.expand(x, case['sizes']) for x in ref.solve_counts(cols, ub, case['b'], 200000)}
    return run_history(sut(bounded_question, case), want, case, 'sort')


def check_partial(case):
    """the same, starting from the question of a partial matrix"""
    from srg.srg import Question
    P, p = gens.build_prefix(case)
    if len(P) == p[0] or p[0] > 26:
        raise ref.TooBig
    want = ref.next_rows(P, p, 20000)
    bs = ref.buckets(P, p[0])
    sizes = [b[2] for b in bs]
    R = len(P)
    want = {w[R + 1:] for w in want}
    try:
        q = sut_step(Question.from_matrix, gens.mat(P))
    except NoSolution:
        need(not want, f'{p}: NoSolution after {R} rows, but {len(want)} rows are possible', gens.show(P))
        return True
    g = {'sizes': sizes}
    for i, name in enumerate(['reduce_col'] + case['steps']):
        before = q.copy()
        try:
            sut_step(getattr(solver, name), q)
        except NoSolution:
            need(not want, f'{p}: {name} raised NoSolution, but {len(want)} rows are possible;', questions.describe(before))
            label('NoSolution')
            return True
        new = questions.rows_of(q, g)
        need(new == want, f'{p} {name}: {len(want - new)} rows lost, {len(new - want)} appeared;',
             questions.describe(before), '->', questions.describe(q))
    label('some rows' if want else 'none')
    return len(want) > 0


steps_only = st.lists(st.sampled_from(STEPS[:4]), min_size=1, max_size=12)

SUBS = [
    Sub('history', history(), check_history, quick=8000, thorough=200000, shards=8,
        rule='random 0/1 system, random sequence of simplification and branching steps, admitted rows compared with '
             'the model after every step; non-trivial: at least two steps changed the question, or NoSolution was raised'),
    Sub('large', history(4, 12, 80), check_history, quick=2000, thorough=40000, shards=8,
        rule='the same with up to 81 equations and 48 columns'),
    Sub('many', history(many=True), check_history, quick=800, thorough=20000, shards=8,
        rule='the same with up to 64 groups of equal columns: sparse tables with given row and column sums'),
    Sub('bounded', bounded(), check_bounded, quick=4000, thorough=100000, shards=8,
        rule='the same for questions whose unknowns already stand for several columns and whose bounds are arbitrary, not decreasing '
             'within equal columns '
             '(rows compared up to the order within equal columns); non-trivial: as above'),
    Sub('partial', st.builds(lambda c, s: {**c, 'steps': s}, gens.prefix_case(), steps_only), check_partial,
        quick=2400, thorough=40000, shards=8,
        rule='question of a random partial matrix, random sequence of simplification steps; non-trivial: a row is '
             'possible, or NoSolution was raised'),
]
