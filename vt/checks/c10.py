"""C10 bounded-sum enumeration lists every way to place a sum within the bounds, once."""
from hypothesis import strategies as st
from itertools import product
import numpy as np

from .. import common, gens, ref
from ..common import Sub, need, sut, label
from srg import partition

ASSUMPTIONS = ['non-negative sum and bounds, at least one bound']

ARRAYS = {t: (lambda b, t=t: np.array(b, dtype=t)) for t in ('int8', 'uint8', 'int16', 'int64')}
KINDS = ['list', 'tuple', 'int8', 'uint8', 'int16', 'int64']

case_ = st.fixed_dictionaries({'s': st.integers(0, 14), 'bounds': st.lists(st.integers(0, 5), min_size=1, max_size=6),
                               'kind': st.sampled_from(KINDS)})


def check(case):
    bs = case['bounds']
    arg = {'list': list, 'tuple': tuple, **ARRAYS}[case['kind']](bs)
    got = [tuple(int(x) for x in t) for t in sut(lambda: list(partition.enum(case['s'], arg)))]
    want = sorted(t for t in product(*[range(b + 1) for b in bs]) if sum(t) == case['s'])
    need(sorted(got) == want, f'enum({case["s"]}, {bs}) gave {len(got)} tuples, expected {len(want)}:', got[:5])
    label(f'{"many" if len(want) > 9 else len(want)} ways')
    return len(want) > 1 and len(bs) > 1


def ways(s, bs):
    w = [1] + [0] * s
    for b in bs:
        w = [sum(w[t - x] for x in range(min(b, t) + 1)) for t in range(s + 1)]
    return w[s]


def check_long(case):
    """many positions, or large bounds: every tuple valid, none twice, and as many as there are"""
    bs, s = case['bounds'], case['s']
    n = ways(s, bs)
    if n > 3000:
        raise ref.TooBig
    kind = case['kind'] if sum(bs) < 128 or case['kind'] not in ('int8', 'uint8') else 'int16'   # a type that holds the sums
    arg = {'list': list, 'tuple': tuple, **ARRAYS}[kind](bs)
    got = [tuple(int(x) for x in t) for t in sut(lambda: list(partition.enum(s, arg)))]
    for t in got:
        need(len(t) == len(bs) and all(0 <= x <= b for x, b in zip(t, bs)) and sum(t) == s, f'enum({s}, {bs}) gave {t}')
    need(len(set(got)) == len(got) == n, f'enum({s}, {bs}) gave {len(got)} tuples, {len(set(got))} different ones, expected {n}')
    label(f'{"many" if n > 9 else n} ways')
    return n > 1


@st.composite
def long(draw):
    """few things in many positions, or nearly full positions, or large bounds in two or three positions"""
    kind = draw(st.sampled_from(['few', 'nearly full', 'large', 'large']))
    if kind == 'large':
        bs = draw(st.lists(st.one_of(st.sampled_from([126, 127]), st.integers(0, 127)), min_size=1, max_size=3))
        s = draw(st.one_of(st.integers(0, 20).map(lambda t: max(0, sum(bs) - t)), st.integers(0, sum(bs))))
    else:
        bs = draw(st.lists(st.integers(0, 3 if kind == 'few' else 2), min_size=7, max_size=12 if kind == 'few' else 9))
        if kind == 'few' and draw(st.integers(0, 3)) == 0:
            bs = (bs * 4)[:draw(st.integers(13, 45))]
        s = draw(st.integers(0, 4 if len(bs) < 20 else 2))
        s = s if kind == 'few' else max(0, sum(bs) - s)
    return {'s': s, 'bounds': bs, 'kind': draw(st.sampled_from(KINDS))}


SUBS = [
    Sub('long', long(), check_long, quick=2000, thorough=40000, shards=8,
        rule='up to 45 positions, or bounds up to 127; counted by an independent recurrence; non-trivial: two ways'),
    Sub('enum', case_, check, quick=6000, thorough=100000, shards=4,
        rule='sum and bounds against brute force; non-trivial: at least two bounds and two ways'),
]
