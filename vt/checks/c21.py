"""C21 the debug wrapper only observes: same effect, result and exceptions as the wrapped step."""
from hypothesis import strategies as st

from .. import gens, questions, ref
from ..common import Sub, need, sut, label, Violation
from .c19 import snapshot
from srg import solver, utils
from srg.srg import NoSolution

ASSUMPTIONS = ['questions reached by the solver\'s own simplification steps']
STEPS = ['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']


@st.composite
def case_(draw):
    case = draw(st.one_of(gens.system(groups=6, size=3, nrows=5), gens.system(groups=6, size=3, nrows=5),
                          gens.system(groups=4, size=30, nrows=60), gens.grid_system()))
    case['steps'] = draw(st.lists(st.sampled_from(STEPS), min_size=1, max_size=9))
    return case


def outcome(f, q):
    try:
        r = f(q)
    except NoSolution:
        return 'NoSolution', None
    except Exception as e:
        return f'{type(e).__name__}: {e}', None
    return 'ok', r


def check(case):
    q = questions.make(case)
    n = 0
    for name in case['steps']:
        step = getattr(solver, name)
        a, b = q.copy(), q.copy()
        ra = outcome(step, a)
        rb = outcome(sut(utils.debug, step), b)
        if ra[0] == 'AssertionError':
            return False
        need(ra == rb, f'{name} ended with {ra}, its debug version with {rb};', questions.describe(q))
        need(snapshot(a) == snapshot(b), f'debug version of {name} has another effect:', snapshot(a), snapshot(b))
        n += snapshot(a) != snapshot(q)
        if ra[0] != 'ok':
            label(ra[0])
            return True
        sut(str, a)
        q = a
    # a wrapped function's result is passed on
    got = outcome(utils.debug(lambda Q: ('x', Q.quota)), q)
    need(got == ('ok', ('x', q.quota)), 'debug lost the result of the function', got)
    got = outcome(utils.debug(raising), q)
    need(got[0].startswith('KeyError'), 'debug lost an exception of the function', got)
    label(f'{min(n, 3)} effective steps')
    return n > 0


def raising(Q):
    raise KeyError('k')


SUBS = [
    Sub('debug', case_(), check, quick=4000, thorough=60000, shards=8,
        rule='random question and sequence of steps, each run plain and wrapped on copies; non-trivial: a step changed '
             'the question or found it unsolvable'),
]
