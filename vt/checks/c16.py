"""C16 the stored database: valid, distinct, canonical, and complete where it does not say otherwise."""
import os
import re

from hypothesis import strategies as st

from .. import common, gens, graphs, ref
from ..common import Sub, need, sut, label
from srg import database as db
from srg import solver, sorter
from srg.srg import SRG
import numpy as np

ASSUMPTIONS = ['three entries are not claimed complete: (25,12,5,6) and (26,10,3,4) are documented as listing only the '
               'first graphs, and (29,14,6,7) is a placeholder without graphs',
               'the order of the stored graphs is not claimed']

PARTIAL = {(25, 12, 5, 6), (26, 10, 3, 4), (29, 14, 6, 7)}


def file_params():
    """the entries present in the source tree, read from the file names"""
    out = []
    for f in sorted(os.listdir(os.path.join(common.REPO, 'srg', 'database'))):
        m = re.fullmatch(r'problem_(\d+)_(\d+)_(\d+)_(\d+)\.py', f)
        if m:
            out.append(tuple(map(int, m.groups())))
    return sorted(out)


FILES = file_params()
_stored = {}


def stored(p):
    """the entry for p, as the public interface returns it"""
    if p not in _stored:
        _stored[p] = [tuple(gens.rows(np.asarray(m))) for m in sut(db.get_solutions, *p)]
    return _stored[p]


def check_names(case):
    names = sut(lambda: list(db.list_problems()))
    got = [tuple(sut(db.extract_vklu, n)) for n in names]
    need(len(set(got)) == len(got), 'a problem is listed twice')
    need(sorted(got) == FILES, f'listed problems {sorted(got)}, stored ones {FILES}')
    return True


def check_entry(case):
    p = tuple(case)
    need(ref.feasible(*p), f'{p} is not feasible')
    sols = stored(p)
    for i, M in enumerate(sols):
        bad = ref.is_srg(M, p)
        need(bad is None, f'stored graph {i} of {p} is wrong: {bad}', gens.show(M))
        bad = ref.is_canonical(M)
        need(bad is None, f'stored graph {i} of {p} is not canonical: {bad}', gens.show(M))
        need(list(M[:2]) == ref.seed(*p), f'stored graph {i} of {p} does not start as it should', gens.show(M))
    need(len(set(sols)) == len(sols), f'{p} stores a graph twice')
    again = [tuple(gens.rows(np.asarray(m))) for m in sut(db.get_solutions, *p)]
    need(again == sols, f'get_solutions{p} gave something else the second time')
    label(f'{len(sols)} graphs')
    return bool(sols)


COSTLY = {(27, 10, 1, 5)}
COMPLETE = [p for p in FILES if p not in PARTIAL]


def check_complete(case):
    p = tuple(case)
    want = ref.completions(ref.seed(*p), p, 10 ** 7)
    got = set(stored(p))
    need(got == set(want), f'{p} stores {len(got)} graphs, {len(want)} exist in canonical form; '
         f'{len(set(want) - got)} missing, {len(got - set(want))} too many')
    label(f'{len(want)} graphs')
    return bool(want)


def check_solver(case):
    p = tuple(case)
    out = sut(lambda: list(solver.solve(SRG(solver._seed(*p)))))
    got = sorted(tuple(gens.rows(M)) for M in out)
    need(got == sorted(stored(p)), f'the solver finds {len(got)} graphs for {p}, the database stores {len(stored(p))}')
    return bool(got)


RELABEL = [p for p in COMPLETE if p != (21, 10, 4, 5)]   # no such graph exists for the one left out


@st.composite
def relabelled(draw):
    p = draw(st.sampled_from(RELABEL))
    return {'p': list(p), 'i': draw(st.integers(0, 9999)), 'perm': draw(gens.relabelling(p[0]))}


def check_relabel(case):
    p = tuple(case['p'])
    M = stored(p)
    need(M, f'{p} stores no graph')
    C = tuple(ref.canonical(ref.permute(M[case['i'] % len(M)], case['perm'])))
    need(C in set(M), f'a relabelling of graph {case["i"]} of {p} is missing from the database', gens.show(C))
    label(str(p))
    return C != M[case['i'] % len(M)]


TEXTBOOK = [n for n, M in sorted(graphs.catalogue().items()) if ref.params_of(M) in COMPLETE]


def check_textbook(case):
    M = graphs.catalogue()[case['graph']]
    p = ref.params_of(M)
    C = tuple(ref.canonical(ref.permute(M, case['perm'])))
    need(C in set(stored(p)), f'a relabelled {case["graph"]} is missing from entry {p}', gens.show(C))
    label(case['graph'])
    return True


def comp(p):
    v, k, l, u = p
    return v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l


PAIRS = [p for p in RELABEL if comp(p) in RELABEL]


@st.composite
def complements(draw):
    p = draw(st.sampled_from(PAIRS))
    return {'p': list(p), 'i': draw(st.integers(0, 9999)), 'perm': draw(gens.relabelling(p[0]))}


def check_complement(case):
    p = tuple(case['p'])
    need(stored(p), f'{p} stores no graph')
    M = stored(p)[case['i'] % len(stored(p))]
    C = tuple(ref.canonical(ref.permute(ref.complement(M), case['perm'])))
    need(C in set(stored(comp(p))), f'the complement of graph {case["i"]} of {p} is missing from {comp(p)}', gens.show(C))
    label(f'{p} -> {comp(p)}')
    return True


def check_missing(case):
    p = tuple(case)
    if p in FILES:
        return False
    try:
        r = db.get_solutions(*p)
    except Exception:
        return True
    need(False, f'get_solutions{p} returned {str(r)[:200]} though nothing is stored')


ABSENT = sorted({tuple(p) for p in ref.feasible_params(4, 70)} | {comp(p) for p in FILES} |
                {tuple(x + (i == j) * d for i, x in enumerate(p)) for p in FILES for j in range(4) for d in (-1, 1)} - set(FILES))
ABSENT = [list(p) for p in ABSENT if p not in FILES]
textbook = st.sampled_from(TEXTBOOK).flatmap(lambda n: st.fixed_dictionaries(
    {'graph': st.just(n), 'perm': gens.relabelling(len(graphs.catalogue()[n]))}))
_fast = set(gens.measured_params(4000))

SUBS = [
    Sub('names', [0], check_names, rule='the listing'),
    Sub('entry', [list(p) for p in FILES], check_entry, shards=4,
        rule='every stored entry, enumerated; non-trivial: it stores graphs'),
    Sub('complete', [list(p) for p in sorted(COMPLETE, reverse=True) if p not in COSTLY], check_complete, shards=8, cpu=600,
        rule='every entry claimed complete against the full reference enumeration; non-trivial: graphs exist'),
    Sub('solver', [list(p) for p in COMPLETE if p in _fast], check_solver, shards=4, cpu=200,
        rule='every complete entry against a fresh run of the solver (entries it solves in seconds)'),
    Sub('relabel', relabelled(), check_relabel, quick=4000, thorough=60000, shards=8,
        rule='random relabelling of a stored graph, put in canonical form, must be stored; non-trivial: another matrix'),
    Sub('textbook', textbook, check_textbook, quick=1500, thorough=20000, shards=8,
        rule='random relabelling of a textbook graph, in canonical form, must be stored'),
    Sub('complement', complements(), check_complement, quick=1500, thorough=20000, shards=8,
        rule='canonical form of a relabelled complement of a stored graph must be stored under the complementary parameters'),
    Sub('absent', ABSENT, check_missing, shards=4, rule='parameters without an entry: feasible ones with v<=70, and those near an entry, enumerated'),
    Sub('absent2', st.tuples(*[st.integers(0, 40)] * 4).map(list), check_missing, quick=300, thorough=2000,
        rule='arbitrary parameters without an entry'),
]
