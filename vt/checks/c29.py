"""C29 the printed forms of questions and answers, and the debug output, show what is there."""
import contextlib
import io
import re

from hypothesis import strategies as st
import numpy as np

from .. import gens, graphs, ref, questions
from ..common import Sub, need, sut, label
from .c19 import snapshot
from srg import solver, utils
from srg.srg import Answer, Question, SRG, NoSolution

ASSUMPTIONS = ['the output may break long lines; a matrix of more than 1000 entries is abridged by numpy (not claimed)']

NAMES = {'Answer': Answer, 'array': np.array,
         **{t: getattr(np, t) for t in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')}}
_ANSI = re.compile(r'\x1b\[[0-9;?]*[A-Za-z]')


def ints(s):
    need('...' not in s, 'abridged:', s)
    return tuple(int(x) for x in s.replace(',', ' ').split())


def check_text(text, q):
    """does the text show the whole question q"""
    rows, b = gens.rows(q.A), gens.vec(q.b)
    head = text[:text.index('Answer(')]
    eqs = [(int(x), ints(r)) for x, r in re.findall(r'^\s*(-?\d+)\s*\[([^\]]*)\]', head, re.M)]
    need(eqs == list(zip(b, rows)), f'a question with equations {list(zip(b, rows))} prints {eqs}')
    m = re.search(r'quota\D*?(-?\d+)', head)
    need(m and int(m[1]) == int(q.quota), f'quota {q.quota} is not shown in', head)
    m = re.search(r'bnd\s*\[([^\]]*)\]', head)
    need(m and ints(m[1]) == gens.vec(q.bounds), f'bounds {q.bounds.tolist()} are not shown in', head)
    i = text.index('Answer(')
    depth = 0
    for j in range(i, len(text)):
        depth += {'(': 1, ')': -1}.get(text[j], 0)
        if text[j] == ')' and not depth:
            break
    check_answer_text(text[i:j + 1], q.answer)


def check_answer_text(text, a):
    got = sut(eval, text, NAMES)
    need(gens.vec(gens.counts(got)) == gens.vec(gens.counts(a)) and gens.vec(got.quota) == gens.vec(a.quota) and len(got) == len(a),
         'the printed answer', text, 'is not the answer', gens.counts(a).tolist(), a.quota.tolist(), len(a))
    need(bool(sut(lambda: got == a)), 'the printed answer evaluates to a different one', text)


@st.composite
def case_(draw):
    case = draw(gens.system(groups=draw(st.sampled_from([3, 6])), size=draw(st.sampled_from([2, 4, 16])), nrows=4)
                if draw(st.integers(0, 4)) else st.one_of(gens.system(groups=4, size=30, nrows=60), gens.grid_system()))
    case['steps'] = draw(st.lists(st.sampled_from(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']), max_size=7))
    return case


def check(case):
    q = questions.make(case)
    n = 0
    for name in [None] + case['steps']:
        if name:
            before, old = snapshot(q), q.copy()
            out = io.StringIO()
            try:
                with contextlib.redirect_stdout(out):
                    sut_step(utils.debug(getattr(solver, name)), q)
            except NoSolution:
                label('NoSolution')
                return n > 0
            text = _ANSI.sub('', out.getvalue())
            if snapshot(q) == before:
                need('No change' in text and name in text, f'{name} changed nothing, but the debug output is', text)
            else:
                need('No change' not in text and name in text, f'{name} changed the question, but the debug output is', text)
                at = [m.start() for m in re.finditer('performing', text)]
                need(len(at) == 1, 'debug output', text)
                check_text(text[:at[0]], old)
                check_text(text[at[0]:].split('\n', 1)[1], q)
                n += 1
        check_text(sut(str, q), q)
        check_text(sut(repr, q), q)
    label(f'{min(n, 3)} effective steps')
    return n > 0


def sut_step(f, q):
    try:
        f(q)
    except NoSolution:
        raise
    except Exception as e:
        need(False, f'raised {type(e).__name__}: {e}')


def check_answer(case):
    from .c11 import make
    a = make(case)
    check_answer_text(sut(repr, a), a)
    return len(case['v']) > 1


def check_matrix(case):
    M = ref.permute(graphs.catalogue()[case['graph']], case['perm'])
    P = M[:2 + case['row'] % (len(M) - 1)]
    if len(P) * len(M) > 1000:
        return False
    A = gens.mat(P, case['dtype'])
    text = sut(repr, SRG(A))
    got = sut(eval, text, NAMES)
    need(gens.rows(np.asarray(got)) == P, 'the printed partial matrix', text, 'is not', gens.show(P))
    return True


def _answers():
    from .c11 import answer
    return answer()


matrix = st.sampled_from(sorted(graphs.catalogue())).flatmap(lambda n: st.fixed_dictionaries(
    {'graph': st.just(n), 'perm': gens.relabelling(len(graphs.catalogue()[n])), 'row': st.integers(0, 63),
     'dtype': st.sampled_from(['int8', 'int16', 'int32', 'int64'])}))

SUBS = [
    Sub('question', case_(), check, quick=3000, thorough=40000, shards=8,
        rule='random question through random steps run under debug; the printed question and the debug output are read back; '
             'non-trivial: a step changed the question'),
    Sub('answer', _answers(), check_answer, quick=3000, thorough=40000, shards=8,
        rule='answers read back from their printed form; non-trivial: several buckets'),
    Sub('matrix', matrix, check_matrix, quick=800, thorough=8000, shards=8,
        rule='first rows of a relabelled textbook graph read back from their printed form; non-trivial: at most 1000 entries'),
]
