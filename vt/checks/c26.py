"""C26 ordering equations by right-hand side keeps every equation intact."""
from hypothesis import strategies as st
import numpy as np

from .. import gens
from ..common import Sub, need, sut, label
from srg import gauss_elim

ASSUMPTIONS = ['any integer matrix and right-hand side of the same height']


@st.composite
def case_(draw):
    R, C = draw(st.one_of(st.integers(0, 12), st.integers(13, 127), st.integers(128, 300))), draw(st.integers(1, 8))
    few = [draw(st.lists(st.integers(0, 1), min_size=C, max_size=C)) for _ in range(min(R, 60))]
    rows = [few[(i * i + i // 60) % len(few)] if i >= 60 else few[i] for i in range(R)]
    dtype = draw(st.sampled_from(['int8', 'int16', 'int32', 'int64']))
    top = draw(st.sampled_from([3, 127, {'int8': 127, 'int16': 32767, 'int32': 2 ** 31 - 1, 'int64': 10 ** 15}[dtype]]))
    b = draw(st.lists(st.one_of(st.integers(0, top), st.integers(max(0, top - 3), top)), min_size=min(R, 60), max_size=min(R, 60)))
    b = [b[i % 60] if i % 7 else i % 5 for i in range(R)] if R > 60 else b
    return {'C': C, 'A': rows, 'b': b, 'dtype': dtype}


def check(case):
    A = gens.lay(np.array(case['A'], dtype=case['dtype']).reshape(len(case['b']), case['C']))
    b = np.array(case['b'], dtype=case['dtype'])
    before = sorted(zip(case['b'], map(tuple, case['A'])))
    r = sut(gauss_elim.sort, A, b)
    need(r is None, 'sort works in place, but returned', r)
    eqs = list(zip(gens.vec(b), gens.rows(A)))
    need([e[0] for e in eqs] == sorted(case['b']), f'right-hand sides {case["b"]} became {[e[0] for e in eqs]}')
    need(sorted(eqs) == before, f'equations {before} became {sorted(eqs)}')
    label(f'{len(eqs)} equations' if len(eqs) < 2 else 'several equations')
    return list(case['b']) != sorted(case['b']) and len(set(map(tuple, case['A']))) > 1


SUBS = [Sub('sort', case_(), check, quick=5000, thorough=60000, shards=4,
            rule='random equations; non-trivial: the order changes and the rows are not all the same')]
