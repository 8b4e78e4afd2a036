"""C19 searches do not interfere: inputs stay as they are, and interleaved searches give what they give alone."""
import sys
import threading

from hypothesis import strategies as st
import numpy as np

from .. import gens, ref
from ..common import Sub, need, sut, label
from srg import solver
from srg.srg import SRG, Question, NoSolution

ASSUMPTIONS = ['a caller may write to an answer it received, but not to the matrix a running search started from']

# partial matrices whose completion is quick: (parameters, rows)
_starts = []


def starts():
    if not _starts:
        for p in [(5, 2, 0, 1), (9, 4, 1, 2), (10, 3, 0, 1), (10, 6, 3, 4), (13, 6, 2, 3), (15, 6, 1, 3), (16, 5, 0, 2),
                  (16, 6, 2, 2), (12, 6, 0, 6), (12, 3, 2, 0), (14, 6, 1, 3), (15, 8, 4, 4), (16, 9, 4, 6), (17, 8, 3, 4)]:
            full = ref.completions(ref.seed(*p), p)
            for M in full[:4] or [ref.seed(*p)]:
                for r in {2, 3, len(M) // 2, len(M) - 2, len(M) - 1}:
                    if 2 <= r < p[0] and r <= len(M) and list(M[:r]) not in [s[1] for s in _starts]:
                        if r == 2 and p[0] > 13:
                            continue
                        _starts.append((p, list(M[:r])))
    return _starts


history = st.lists(st.tuples(st.sampled_from(['start', 'start', 'step', 'step', 'step', 'step', 'scribble', 'drop',
                                              'row', 'again']),
                             st.integers(0, 9999)), min_size=8, max_size=26).map(lambda l: [list(x) for x in l])


def check_history(case):
    S = starts()
    live, held, started, answers = [], [], 0, 0
    overlap = False
    last = None
    for op, n in case:
        if op in ('start', 'again'):
            if op == 'again' and last is None:
                continue
            p, P = S[n % len(S)] if op == 'start' else last
            last = (p, P)
            A = gens.mat(P, np.int64 if n % 3 == 0 else np.int8)
            held.append((A, A.copy(), p))
            live.append([iter(sut(solver.solve, SRG(A))), p, P, []])
            started += 1
            overlap |= len(live) > 1
        elif op == 'row' and held:
            A, keep, p = held[n % len(held)]
            s = SRG(A)
            sut(solver.advance, s)
            need(s.current_matrix is A or np.array_equal(s.current_matrix, keep), 'advance changed the partial matrix')
            try:
                sut_q(A)
            except NoSolution:
                pass
        elif not live:
            continue
        elif op == 'drop':
            finish(live.pop(n % len(live)), n % 2)
        else:
            g = live[n % len(live)]
            if op == 'step':
                M = sut(lambda: next(g[0], None))
                if M is None:
                    finish(g, True)
                    live.remove(g)
                else:
                    g[3].append([M, tuple(gens.rows(M))])
                    answers += 1
            elif g[3]:   # the caller writes to an answer it was given
                M, _ = g[3][n % len(g[3])]
                if M.flags.writeable:
                    M[:] = 7
        for A, keep, p in held:
            need(np.array_equal(A, keep) and A.dtype == keep.dtype, f'a search changed the matrix it started from {p}',
                 gens.show(keep.tolist()))
    for g in live:
        finish(g, True)
    for A, keep, p in held:
        need(np.array_equal(A, keep), f'a search changed the matrix it started from {p}', gens.show(keep.tolist()))
    label(('interleaved' if overlap else 'one at a time') + (', answers' if answers else ''))
    return started > 1 and answers > 0


def sut_q(A):
    try:
        q = Question.from_matrix(A)
    except NoSolution:
        raise
    except Exception as e:
        need(False, f'from_matrix raised {type(e).__name__}: {e}')
    list(solver.solve_question(q))


_want = {}


def finish(g, whole):
    it, p, P, got = g
    if not whole:
        if hasattr(it, 'close'):
            it.close()
        return
    rows = [r for _, r in got] + [tuple(gens.rows(M)) for M in sut(lambda: list(it))]
    key = tuple(P)
    if key not in _want:
        _want[key] = ref.completions(P, p)
    need(sorted(rows) == _want[key], f'a search for {p} from {len(P)} rows gave {len(rows)} answers among other searches, '
         f'{len(_want[key])} are right', gens.show(P))


@st.composite
def question(draw):
    case = draw(st.one_of(gens.system(groups=5, size=3, nrows=4), gens.system(groups=5, size=3, nrows=4),
                          gens.system(groups=4, size=30, nrows=60), gens.grid_system()))
    case['steps'] = draw(st.lists(st.sampled_from(['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']),
                                  max_size=4))
    case['touch'] = draw(st.sampled_from(['A', 'b', 'quota', 'bounds', 'answer', 'step', 'solve', 'none'] if len(case['codes']) < 9 else
                                         ['A', 'b', 'quota', 'bounds', 'answer', 'step', 'none']))
    return case


def snapshot(q):
    return (gens.rows(q.A) if q.A.size else q.A.shape, gens.vec(q.b), int(q.quota), gens.vec(q.bounds), gens.vec(gens.counts(q.answer)),
            gens.vec(q.answer.quota))


def check_copy(case):
    from .. import questions
    q = questions.make(case)
    for name in case['steps']:
        try:
            getattr(solver, name)(q)
        except NoSolution:
            return False
        except Exception as e:
            need(False, f'{name} raised {type(e).__name__}: {e}')
    a, b = q, sut(q.copy)
    need(bool(sut(lambda: a == b)) and snapshot(a) == snapshot(b), 'a copied question differs', questions.describe(a))
    before = snapshot(a)
    t = case['touch']
    changed = t not in ('none',)
    if t in ('A', 'b', 'bounds'):
        m = getattr(b, t)
        if m.size == 0:
            return False
        m.flat[0] += 1
    elif t == 'quota':
        b.quota = b.quota + 1
    elif t == 'answer':
        if len(gens.counts(b.answer)) == 0:
            return False
        gens.counts(b.answer)[0] = 0 if gens.counts(b.answer)[0] else 1
    elif t == 'step':
        try:
            for name in ('reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row'):
                getattr(solver, name)(b)
        except NoSolution:
            pass
        changed = False   # may or may not
    elif t == 'solve':
        sut(lambda: list(solver.solve_question(b)))
        changed = False
    need(snapshot(a) == before, f'after {t} on a copy, the original question changed', before, '->', snapshot(a))
    if changed:
        need(not sut(lambda: a == b), f'questions that differ in {t} compare equal', questions.describe(a))
    label(t)
    return True


def check_row_iso(case):
    """appending a row makes a new matrix and leaves the old one alone"""
    M = ref.permute(gens.ALL_GRAPHS[case['graph']], case['perm'])
    n = len(M)
    r = 2 + case['row'] % (n - 2)
    A = gens.mat(M[:r], case['dtype'])
    keep = A.copy()
    s = SRG(A)
    need(not sut(s.solved), f'a matrix of {r} of {n} rows counts as solved')
    rest = np.array(M[r][r + 1:], dtype=case['dtype'])
    new = sut(s.append_and_return_new, rest)
    need(gens.rows(new.current_matrix) == M[:r + 1], 'appending a row gave', gens.show(gens.rows(new.current_matrix)))
    need(np.array_equal(A, keep) and np.array_equal(s.current_matrix, keep), 'appending a row changed the old matrix')
    need(bool(sut(new.solved)) == (r + 1 == n), f'a matrix of {r + 1} of {n} rows: solved is', new.solved())
    new.current_matrix[:] = 5
    need(np.array_equal(A, keep), 'old and new matrix share memory')
    done = SRG(gens.mat(M))
    a, b = sut(solver.partition_by_done, [s, done, s])
    need([x is done for x in a] == [True] and len(b) == 2 and all(x is s for x in b), 'partition_by_done mixed them up')
    label('last row' if r + 1 == n else 'inner row')
    return True


append = gens.any_known(row=lambda n: st.one_of(st.integers(0, n - 3), st.just(n - 3)),
                        dtype=lambda n: st.sampled_from(['int8', 'int16', 'int32', 'int64']))

@st.composite
def searches(draw):
    systems = draw(st.lists(gens.system(groups=6, size=3, nrows=4), min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(st.sampled_from(['start', 'step', 'step', 'step', 'drop', 'rest', 'write']),
                                  st.integers(0, 99)), min_size=6, max_size=24))
    return {'systems': systems, 'ops': [list(o) for o in ops]}


def check_rows(case):
    """searches for one row, side by side"""
    from .. import questions
    systems = case['systems']
    wants = [questions.reference(c) for c in systems]
    live = [[i, iter(sut(solver.solve_question, questions.make(c))), []] for i, c in enumerate(systems)]
    stepped, done = set(), 0

    def end(g):
        i, it, got = g
        got += [gens.vec(x) for x in sut(lambda: list(it))]
        need(sorted(got) == sorted(wants[i]), f'a row search for {systems[i]} among others gave {got} '
             f'instead of {sorted(wants[i])}')

    for op, n in case['ops']:
        if op == 'start' and len(live) < 7:
            i = n % len(systems)
            live.append([i, iter(sut(solver.solve_question, questions.make(systems[i]))), []])
        elif not live:
            continue
        elif op == 'drop':
            g = live.pop(n % len(live))
            if hasattr(g[1], 'close'):
                g[1].close()
        elif op == 'rest':
            end(live.pop(n % len(live)))
        else:
            g = live[n % len(live)]
            x = sut(lambda: next(g[1], None))
            if x is None:
                live.remove(g)
                end(g)
            else:
                g[2].append(gens.vec(x))
                stepped.add(g[0])
                done += 1
                if op == 'write' and x.flags.writeable:
                    x[:] = 1
    for g in live:
        end(g)
    label(f'{len(stepped)} systems stepped')
    return len(stepped) > 1


@st.composite
def threaded(draw):
    return {'starts': draw(st.lists(st.integers(0, 9999), min_size=2, max_size=3)),
            'systems': draw(st.lists(gens.system(groups=6, size=3, nrows=4), min_size=2, max_size=4))}


def check_threads(case):
    """searches in threads of one process"""
    from .. import questions
    S = [s for s in starts() if s[0][0] <= 13]
    jobs = []
    for n in case['starts']:
        p, P = S[n % len(S)]
        key = tuple(P)
        if key not in _want:
            _want[key] = ref.completions(P, p)
        jobs.append((f'search for {p} from {len(P)} rows', _want[key],
                     lambda P=P: sorted(tuple(gens.rows(M)) for M in solver.solve(SRG(gens.mat(P))))))
    for c in case['systems']:
        want = sorted(questions.reference(c))
        jobs.append((f'row search for {c}', want,
                     lambda c=c: sorted(gens.vec(x) for x in solver.solve_question(questions.make(c)))))
    got = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(i):
        gate.wait()
        try:
            got[i] = jobs[i][2]()
        except Exception as e:
            got[i] = e

    was = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            while t.is_alive():
                t.join(0.5)
    finally:
        sys.setswitchinterval(was)
    for (what, want, _), g in zip(jobs, got):
        need(not isinstance(g, Exception), f'a {what} in a thread raised {type(g).__name__}: {g}')
        need(g == want, f'a {what} gave {len(g)} results among searches in other threads, {len(want)} are right')
    label(f'{len(jobs)} threads')
    return sum(bool(w) for _, w, _ in jobs) > 1


SUBS = [
    Sub('threads', threaded(), check_threads, quick=400, thorough=8000, shards=8,
        rule='2 or 3 graph searches and 2 to 4 row searches, each in its own thread with very frequent switches, against the '
             'reference results; non-trivial: at least two of them have results'),
    Sub('rows', searches(), check_rows, quick=2500, thorough=40000, shards=8,
        rule='histories of starting, stepping, finishing and abandoning searches for one row over 2 to 4 random systems; '
             'non-trivial: at least two of them gave a row while others were under way'),
    Sub('history', history, check_history, quick=900, thorough=20000, shards=8,
        rule='histories of starting, stepping, abandoning and repeating searches, with answers overwritten by the caller, '
             'against the reference results of each search alone; non-trivial: several searches and an answer'),
    Sub('copy', question(), check_copy, quick=4000, thorough=60000, shards=8,
        rule='a simplified random question is copied and one part of the copy is changed; all non-trivial'),
    Sub('append', append, check_row_iso, quick=1000, thorough=20000, shards=8,
        rule='first rows of a relabelled textbook graph, extended by its next row; all non-trivial'),
]
