"""C28 ill-formed questions, answers and rows are refused, well-formed ones accepted."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, ref, questions
from ..common import Sub, need, sut, label
from .c19 import snapshot
from srg import partition, solver
from srg.srg import Answer, Question, SRG

ASSUMPTIONS = ['the interpreter runs with assertions enabled, as the project relies on them']


def refused(f, what):
    try:
        f()
    except Exception:
        return
    need(False, f'{what} was accepted')


@st.composite
def parts(draw):
    """boundaries and counts of an answer, well-formed or with one thing wrong"""
    n = draw(st.integers(1, 9))
    sizes = draw(st.lists(st.integers(1, 6), min_size=n, max_size=n))
    if draw(st.integers(0, 4)) == 0:   # many buckets
        sizes = (sizes * 60)[:draw(st.integers(1, 200))]
        n = len(sizes)
    loc = [sum(sizes[:i]) for i in range(n)]
    v = [draw(st.integers(-1, s)) for s in sizes[:9]]
    v = (v * n)[:n]
    v = [min(x, s) for x, s in zip(v, sizes)]
    length = sum(sizes)
    how = draw(st.sampled_from(['fine', 'first', 'equal', 'descend', 'end', 'short', 'long']))
    i = draw(st.integers(0, n - 1))
    if how == 'first':
        loc = [x + 1 for x in loc]
        length += 1
    elif how == 'equal' and n > 1:
        i = max(i, 1)
        loc[i] = loc[i - 1]
    elif how == 'descend' and n > 2:
        i = 1 + i % (n - 2)
        loc[i], loc[i + 1] = loc[i + 1], loc[i]
    elif how == 'end':
        length = loc[-1] - draw(st.integers(0, loc[-1]))
    elif how == 'short':
        v = v[:-1]
    elif how == 'long':
        v = v + [draw(st.integers(-1, 1))]
    else:
        how = 'fine'
    return {'v': v, 'loc': loc, 'len': length, 'how': how}


def check_answer(case):
    v, loc = np.array(case['v'], dtype=np.int8), np.array(case['loc'], dtype=np.int64)
    fine = (len(v) == len(loc) and loc[0] == 0 and all(a < b for a, b in zip(loc, loc[1:])) and loc[-1] < case['len'])
    label(case['how'])
    if fine:
        a = sut(Answer, v, loc, case['len'])
        need(len(a) == case['len'] and sum(gens.vec(a.quota)) == case['len'], 'sizes of', case)
        return False
    refused(lambda: Answer(v, loc, case['len']), f'an answer with counts {case["v"]}, boundaries {case["loc"]} and length {case["len"]}')
    return True


@st.composite
def bad_question(draw):
    case = draw(st.one_of(gens.system(groups=5, size=3, nrows=4), gens.system(groups=5, size=3, nrows=4),
                          gens.system(groups=4, size=30, nrows=60), gens.grid_system()))
    case['steps'] = draw(st.lists(st.sampled_from(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']), max_size=3))
    case['what'] = draw(st.sampled_from(['none', 'b value', 'bound value', 'quota value', 'b length', 'bounds length', 'columns',
                                         'set b', 'set bounds', 'set quota', 'set answer', 'fork']))
    case['i'], case['amount'] = draw(st.integers(0, 200)), draw(st.integers(1, 9))
    return case


def check_question(case):
    from srg.srg import NoSolution
    q = questions.make(case)
    for name in case['steps']:
        try:
            sut_step(name, q)
        except NoSolution:
            return False
    A, b, bounds, quota, ans = q.A.copy(), q.b.copy(), q.bounds.copy(), int(q.quota), q.answer
    what, i, d = case['what'], case['i'], case['amount']
    label(what)
    again = sut(Question, A.copy(), b.copy(), quota, bounds.copy(), ans.copy())
    need(snapshot(again) == snapshot(q), 'a question made of the parts of another differs from it;', questions.describe(q))
    show = questions.describe(q)
    if what == 'none':
        return False
    if what == 'fork':
        done = Answer(np.zeros(len(ans), dtype=np.int8), np.arange(len(ans)), len(ans))
        full = Question(np.zeros((len(b), 0), dtype=np.int8), np.zeros(len(b), dtype=np.int8), 0, np.zeros(0, dtype=np.int8), done)
        refused(lambda: list(solver.fork_enum(full)), 'branching on a question without unknowns')
        return True
    if what in ('b value', 'set b'):
        if not len(b):
            return False
        b[i % len(b)] = -d
        before = snapshot(q)
        if what == 'set b':
            refused(lambda: setattr(q, 'b', b), f'right-hand side {b.tolist()}')
            need(snapshot(q) == before, 'refusing a right-hand side changed the question')
        else:
            refused(lambda: Question(A, b, quota, bounds, ans), f'right-hand side {b.tolist()} for {show}')
        return True
    if what in ('bound value', 'set bounds'):
        if not len(bounds):
            return False
        bounds[i % len(bounds)] = -d
        before = snapshot(q)
        if what == 'set bounds':
            refused(lambda: setattr(q, 'bounds', bounds), f'bounds {bounds.tolist()}')
            need(snapshot(q) == before, 'refusing bounds changed the question')
        else:
            refused(lambda: Question(A, b, quota, bounds, ans), f'bounds {bounds.tolist()} for {show}')
        return True
    if what in ('quota value', 'set quota'):
        before = snapshot(q)
        if what == 'set quota':
            refused(lambda: setattr(q, 'quota', -d), f'quota {-d}')
            need(snapshot(q) == before, 'refusing a quota changed the question')
        else:
            refused(lambda: Question(A, b, -d, bounds, ans), f'quota {-d} for {show}')
        return True
    if what == 'b length':
        bad = np.concatenate([b, np.zeros(d, dtype=np.int8)]) if i % 2 or len(b) < d else b[d:]
        refused(lambda: Question(A, bad, quota, bounds, ans), f'{len(bad)} right-hand sides for {len(b)} rows')
    elif what == 'bounds length':
        bad = np.concatenate([bounds, np.ones(d, dtype=np.int8)]) if i % 2 or len(bounds) < d else bounds[d:]
        refused(lambda: Question(A, b, quota, bad, ans), f'{len(bad)} bounds for {A.shape[1]} columns')
    elif what == 'columns':
        bad = np.concatenate([A, np.ones((len(A), d), dtype=np.int8)], axis=1)
        refused(lambda: Question(bad, b, quota, bounds, ans), f'{bad.shape[1]} columns for {len(bounds)} bounds')
    else:
        n = A.shape[1] + d if i % 2 or A.shape[1] < d else A.shape[1] - d
        before = snapshot(q)
        refused(lambda: setattr(q, 'answer', Answer.default(n)), f'an answer with {n} unknowns for {A.shape[1]} columns')
        need(snapshot(q) == before, 'refusing an answer changed the question')
    return True


def sut_step(name, q):
    from srg.srg import NoSolution
    try:
        getattr(solver, name)(q)
    except NoSolution:
        raise
    except Exception as e:
        need(False, f'{name} raised {type(e).__name__}: {e}')


@st.composite
def debugged(draw):
    case = draw(st.one_of(gens.system(groups=5, size=3, nrows=4), gens.system(groups=5, size=3, nrows=4),
                          gens.system(groups=4, size=30, nrows=60), gens.grid_system()))
    case['steps'] = draw(st.lists(st.sampled_from(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']), max_size=4))
    case['what'] = draw(st.sampled_from(['none', 'b', 'bounds', 'rows', 'columns', 'unknowns', 'value', 'left over']))
    case['i'], case['amount'] = draw(st.integers(0, 200)), draw(st.integers(1, 9))
    return case


def check_debug(case):
    """a step that leaves a question ill-formed is reported by the debug wrapper; the setters are bypassed by writing in place"""
    from srg import utils
    from srg.srg import NoSolution
    q = questions.make(case)
    what, i, d = case['what'], case['i'], case['amount']
    for name in case['steps'] + ['fork'] * (what in ('value', 'left over')) * (1 + i % 9):
        try:
            if name != 'fork':
                sut_step(name, q)
            elif q.answer.unknown and (what == 'left over' or all(x == -1 for x in gens.counts(q.answer))):
                kids = list(solver.fork_enum(q))
                q = kids[i % len(kids)] if kids else q
        except NoSolution:
            return False

    def step(Q):
        if what == 'b' and len(Q.b):
            Q.b[i % len(Q.b)] = -d
        elif what == 'bounds' and len(Q.bounds):
            Q.bounds[i % len(Q.bounds)] = -d
        elif what == 'rows':
            Q.b = np.concatenate([Q.b, np.zeros(d, dtype=np.int8)])
        elif what == 'columns':
            Q.bounds = np.concatenate([Q.bounds, np.ones(d, dtype=np.int8)])
        elif what == 'unknowns' and len(Q.answer.unknown_loc):
            gens.counts(Q.answer)[Q.answer.unknown_loc[i % len(Q.answer.unknown_loc)]] = 0
        elif what == 'value' and not all(x == -1 for x in gens.counts(Q.answer)):
            j = [j for j, x in enumerate(gens.counts(Q.answer)) if x != -1]
            gens.counts(Q.answer)[j[i % len(j)]] = Q.answer.quota[j[i % len(j)]] + d
        elif what == 'left over' and len(Q.b) and Q.A.shape[1] == 0:
            Q.b[i % len(Q.b)] = d
        else:
            return 'fine'
        return 'broken'
    probe = step(q.copy())
    label(what if probe == 'broken' else 'nothing broken')
    f = sut(utils.debug, step)
    if probe == 'fine':
        sut(f, q)
        return False
    try:
        f(q)
    except AssertionError:
        return True
    except Exception as e:
        need(False, f'debug raised {type(e).__name__}: {e} instead of an AssertionError for a step that broke {what}')
    need(False, f'debug did not report a step that broke {what}:', questions.describe(q))


def check_row(case):
    """rows of the wrong length, rows for a complete matrix"""
    M = ref.permute(gens.ALL_GRAPHS[case['graph']], case['perm'])
    n = len(M)
    r = 2 + case['row'] % (n - 1)
    s = SRG(gens.mat(M[:r]))
    if r == n:
        refused(lambda: list(solver.advance(s)), f'continuing a complete matrix ({case["graph"]})')
        label('complete')
        return True
    m = n - r - 1 + case['off']
    if m < 0:
        return False
    row = (M[r][r + 1:] + (0,) * 9)[:m]
    if case['off']:
        refused(lambda: s.append_and_return_new(np.array(row, dtype=np.int8)), f'{m} entries for the {n - r - 1} open places')
    else:
        sut(s.append_and_return_new, np.array(row, dtype=np.int8))
    label('wrong length' if case['off'] else 'right length')
    return bool(case['off'])


def check_sum(case):
    if case['s'] < 0 or not case['bounds']:
        refused(lambda: list(partition.enum(case['s'], case['bounds'])), f'placing {case["s"]} in {case["bounds"]}')
        return True
    sut(lambda: list(partition.enum(case['s'], case['bounds'])))
    return False


row = gens.any_known(row=lambda n: st.one_of(st.integers(0, n - 2), st.just(n - 2)), off=lambda n: st.integers(-3, 3))

SUBS = [
    Sub('answer', parts(), check_answer, quick=5000, thorough=60000, shards=8,
        rule='parts of an answer with one of the conditions broken; non-trivial: it must be refused'),
    Sub('question', bad_question(), check_question, quick=5000, thorough=60000, shards=8,
        rule='a question after some simplification, taken apart and put together with one part ill-formed; non-trivial: it must '
             'be refused'),
    Sub('debug', debugged(), check_debug, quick=3000, thorough=40000, shards=8,
        rule='a step that leaves one condition of a question broken, under the debug wrapper; non-trivial: broken'),
    Sub('row', row, check_row, quick=1200, thorough=10000, shards=8,
        rule='rows of wrong length for the first rows of a textbook graph, and continuing a complete one; non-trivial: to be refused'),
    Sub('sum', st.fixed_dictionaries({'s': st.integers(-5, 6), 'bounds': st.lists(st.integers(0, 4), max_size=5)}), check_sum,
        quick=1000, thorough=10000, rule='sums and bounds; non-trivial: a negative sum or no position, which must be refused'),
]
