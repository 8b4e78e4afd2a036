"""C25 coloured printing shows the whole value, and compose applies functions right to left."""
import io
import re
import contextlib

from hypothesis import strategies as st
import numpy as np

from .. import gens
from ..common import Sub, need, sut, label
from srg import pprint

ASSUMPTIONS = ['output goes to a stream that may or may not keep colour codes']

_ANSI = re.compile(r'\x1b\[[0-9;?]*[A-Za-z]')
values = st.one_of(st.text(alphabet=st.characters(codec='utf-8', exclude_characters='\x1b', exclude_categories=['Cs']), max_size=30),
                   st.integers(), st.booleans(), st.none(), st.lists(st.integers(-5, 5), max_size=5),
                   gens.simple_graph(2, 9), st.integers(1, 6000).map(lambda n: [n] * n), st.integers(1, 9000).map(lambda n: 'ab c' * n),
                   gens.big_graph(20, 60))


def check_print(case):
    x = case['value']
    if case['array'] and isinstance(x, list) and x and isinstance(x[0], str):
        x = gens.mat(gens.parse(x))
    f = getattr(pprint, case['colour'])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sut(f, x)
    got = _ANSI.sub('', out.getvalue())
    need(got == repr(x) + '\n', f'{case["colour"]}({x!r}) printed {got!r}')
    return len(repr(x)) > 3


STEPS = {'inc': lambda x: x + 1, 'dbl': lambda x: 2 * x, 'neg': lambda x: -x, 'sq': lambda x: x * x}


def check_compose(case):
    log = []

    def step(i, name):
        def f(x):
            log.append(i)
            return STEPS[name](x)
        return f
    fs = [step(i, n) for i, n in enumerate(case['fs'])]

    def first(*a, **kw):
        log.append('first')
        return sum(a) + 10 * sum(kw.values())
    h = sut(pprint.compose, *fs, first)
    got = sut(h, *case['args'], **case['kw'])
    want = sum(case['args']) + 10 * sum(case['kw'].values())
    for n in reversed(case['fs']):
        want = STEPS[n](want)
    need(got == want, f'compose({case["fs"]}, sum)({case["args"]}, {case["kw"]}) is {got}, not {want}')
    need(log == ['first'] + list(range(len(fs)))[::-1], 'order of calls', log)
    return len(set(case['fs'])) > 1


SUBS = [
    Sub('print', st.fixed_dictionaries({'value': values, 'array': st.booleans(),
                                        'colour': st.sampled_from(['green', 'blue', 'red', 'yellow'])}),
        check_print, quick=3000, thorough=30000, shards=4,
        rule='random values and small matrices; non-trivial: longer than three characters'),
    Sub('compose', st.fixed_dictionaries({'fs': st.lists(st.sampled_from(sorted(STEPS)), max_size=20),
                                          'args': st.lists(st.integers(-9, 9), max_size=3),
                                          'kw': st.dictionaries(st.sampled_from('ab'), st.integers(-9, 9), max_size=2)}),
        check_compose, quick=2000, thorough=30000, shards=2,
        rule='chains of up to 21 functions; non-trivial: two different functions besides the innermost'),
]
