"""C11 an answer in buckets and the 0/1 row it stands for."""
from hypothesis import strategies as st
import numpy as np

from ..common import Sub, need, sut, label, Violation
from .. import gens
from srg.srg import Answer

ASSUMPTIONS = ['bucket counts are -1 (unknown) or non-negative; buckets are non-empty']


@st.composite
def answer(draw):
    n = draw(st.integers(0, 14))
    sizes = draw(st.lists(st.integers(1, draw(st.sampled_from([1, 4, 9, 40, 150]))), min_size=n, max_size=n))
    while sum(sizes) > 300:
        sizes.pop()
    if draw(st.integers(0, 3)) == 0:   # many buckets
        sizes = (sizes * 60)[:draw(st.integers(15, 260))]
        for i in draw(st.lists(st.integers(0, max(0, len(sizes) - 1)), max_size=6 if sizes else 0)):
            sizes[i] = 1 + sizes[i] % 5
        while sum(sizes) > 2000:
            sizes.pop()
    n = len(sizes)
    how = draw(st.sampled_from(['full', 'full', 'full', 'unknown', 'over']))
    share = [draw(st.integers(0, 20)) for _ in sizes[:17]]
    v = [min(s, share[i % 17] * (s + 1) // 20) for i, s in enumerate(sizes)]
    for i in draw(st.lists(st.integers(0, n - 1), max_size=6)) if n else []:
        v[i] = draw(st.integers(0, sizes[i]))
    if n and how != 'full':
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3)):
            v[i] = -1 if how == 'unknown' else sizes[i] + draw(st.integers(1, 3))
    return {'sizes': sizes, 'v': v, 'dtype': draw(st.sampled_from(['int8', 'int16', 'int64'][max(sizes + [0]) > 120:]))}


def make(case):
    sizes = case['sizes']
    loc = [sum(sizes[:i]) for i in range(len(sizes))]
    return sut(Answer, np.array(case['v'], dtype=case['dtype']), np.array(loc, dtype=np.int64), sum(sizes))


def refuses(f):
    try:
        r = f()
    except Exception:
        return None
    return repr(r)[:200]


def check(case):
    sizes, v = case['sizes'], case['v']
    a = make(case)
    need(len(a) == sum(sizes), 'length', len(a))
    need(gens.vec(sut(lambda: a.quota)) == tuple(sizes), f'bucket sizes {a.quota.tolist()} instead of {sizes}')
    unk = [i for i, x in enumerate(v) if x == -1]
    need(gens.vec(a.unknown_loc) == tuple(unk), f'unknown positions {a.unknown_loc.tolist()} instead of {unk}')
    need(bool(a.unknown) == bool(unk), 'unknown is', a.unknown, 'for', v)
    over = any(x > s for x, s in zip(v, sizes))
    if unk or over:
        r = refuses(a.binarize)
        need(r is None, f'an answer {v} with bucket sizes {sizes} was turned into the row', r)
        label('unknown' if unk else 'over quota')
        return len(sizes) > 1
    row = gens.vec(sut(a.binarize))
    want = []
    for x, s in zip(v, sizes):
        want += [1] * x + [0] * (s - x)
    need(list(row) == want, f'answer {v} with bucket sizes {sizes} gave row {list(row)}')
    need(gens.vec(gens.counts(a)) == tuple(v), 'binarize changed the answer')
    first = a.binarize()   # the row is the caller's to write to
    if first.flags.writeable:
        first[:] = 1 - first
    need(gens.vec(gens.counts(a)) == tuple(v), 'writing to the row of an answer changed the answer')
    again = gens.vec(sut(a.binarize))
    need(list(again) == want, f'answer {v} with bucket sizes {sizes} gave row {list(again)} the second time')
    if sizes:   # one more or less in a bucket of the same answer
        i = case['v'][0] % len(sizes)
        w = v[i] - 1 if v[i] else 1
        b = a.copy()
        gens.counts(b)[i] = w
        sut_row = gens.vec(sut(b.binarize))
        start = sum(sizes[:i])
        need(gens.vec(gens.counts(b))[i] != w or list(sut_row) == want[:start] + [1] * w + [0] * (sizes[i] - w) + want[start + sizes[i]:],
             f'answer {v} with bucket {i} set to {w} and sizes {sizes} gave row {list(sut_row)}')
    label('row' if len(sizes) < 15 else 'row, many buckets')
    return any(0 < x < s for x, s in zip(v, sizes))


@st.composite
def pair(draw):
    a = draw(answer())
    b = dict(a)
    if not a['v']:
        return {'a': a, 'b': b, 'how': 'same'}
    n = len(a['v'])
    i = draw(st.integers(0, n - 1))
    how = draw(st.sampled_from(['same', 'value', 'size', 'length']))
    if how == 'value':
        w = draw(st.integers(-1, a['sizes'][i]))
        b['v'] = a['v'][:i] + [w] + a['v'][i + 1:]
    elif how == 'size':   # moves a boundary between two buckets, or the end
        s = list(a['sizes'])
        s[i] += 1
        if i + 1 < n and s[i + 1] > 1:
            s[i + 1] -= 1
        b['sizes'] = s
    elif how == 'length':
        b['v'], b['sizes'] = a['v'] + [0], a['sizes'] + [1]
    return {'a': a, 'b': b, 'how': how}


def check_copy(case):
    a, b = make(case['a']), make(case['b'])
    same = case['a']['v'] == case['b']['v'] and case['a']['sizes'] == case['b']['sizes']
    need(bool(sut(lambda: a == b)) == same, f'{case["a"]} == {case["b"]} is', a == b)
    need(bool(sut(lambda: b == a)) == same, f'{case["b"]} == {case["a"]} is', b == a)
    need(bool(sut(lambda: a != b)) != same, f'{case["a"]} != {case["b"]} is', a != b)
    c = sut(a.copy)
    need(c == a and len(c) == len(a), 'a copy differs from the original')
    before = gens.vec(gens.counts(a))
    gens.counts(c)[:] = 0
    need(gens.vec(gens.counts(a)) == before, 'writing to a copy changed the original')
    c = a.copy()
    gens.counts(a)[:] = 0
    need(gens.vec(gens.counts(c)) == before, 'writing to the original changed its copy')
    n = len(before)
    d = sut(Answer.default, n)
    need(len(d) == n and gens.vec(gens.counts(d)) == (-1,) * n and gens.vec(d.quota) == (1,) * n, 'default answer', repr(d))
    label(case['how'])
    return not same


SUBS = [
    Sub('row', answer(), check, quick=8000, thorough=200000, shards=8,
        rule='up to 260 bucket sizes and counts, complete, unknown or over quota; non-trivial: some bucket is partly filled, '
             'or the answer must be refused and has several buckets'),
    Sub('copy', pair(), check_copy, quick=6000, thorough=100000, shards=8,
        rule='pairs of answers that differ in one count, one boundary or the length; non-trivial: they differ'),
]
