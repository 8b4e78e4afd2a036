"""C18 `python -m srg.database` lists what is stored, and draws every stored graph faithfully."""
import importlib
import os
import re
import shutil
import sys
import tempfile

from hypothesis import strategies as st
import numpy as np

from .. import cli, common, gens, graphs, ref
from ..common import Sub, need, sut, label
from .c16 import FILES, stored
from srg import database as db

ASSUMPTIONS = ['a picture is judged by what it shows: an edge between two numbered points is drawn if and only if the '
               'two vertices are adjacent; colours, layout and sizes are free']


# ---- pictures ---------------------------------------------------------------------------------------------------

class Recorder:
    """records, for every figure saved, the vertex numbers and the segments drawn"""

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg', force=True)
        from matplotlib.figure import Figure
        self.Figure, self.saved = Figure, {}
        self.real = Figure.savefig
        rec = self

        def savefig(fig, fname, *a, **kw):
            rec.saved.setdefault(os.path.basename(str(fname)), []).append(picture(fig))
            return rec.real(fig, fname, *a, **kw)
        Figure.savefig = savefig
        return self

    def __exit__(self, *_):
        import matplotlib.pyplot as plt
        self.Figure.savefig = self.real
        plt.close('all')


def picture(fig):
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch
    labels, segs = [], []
    for ax in fig.axes:
        for t in ax.texts:
            labels.append((t.get_text(), tuple(map(float, t.get_position()))))
        for c in ax.collections:
            if isinstance(c, LineCollection):
                for s in c.get_segments():
                    segs.append((tuple(map(float, s[0])), tuple(map(float, s[-1]))))
        for q in ax.patches:
            if isinstance(q, FancyArrowPatch):
                segs.append(tuple(tuple(map(float, x)) for x in q._posA_posB))
    return labels, segs


def adjacency(pic, n):
    """the graph that the picture shows"""
    labels, segs = pic
    at = {}
    for text, pos in labels:
        need(text.strip().isdigit() and int(text) < n, f'the picture has a label {text!r} ({n} vertices)')
        need(at.setdefault(int(text), pos) == pos, f'vertex {text} is shown at two places')
    need(len(at) == n, f'the picture numbers {len(at)} of {n} vertices')
    pts = sorted(at.items())
    need(len({(round(x, 6), round(y, 6)) for _, (x, y) in pts}) == n, 'two vertices are shown at one place')

    def nearest(z):
        d, i = min(((x - z[0]) ** 2 + (y - z[1]) ** 2, i) for i, (x, y) in pts)
        need(d < 1e-4, 'a line does not end at a vertex')
        return i
    M = [[0] * n for _ in range(n)]
    for a, b in segs:
        i, j = nearest(a), nearest(b)
        M[i][j] = M[j][i] = 1
    return [tuple(r) for r in M]


def check_pictures(p, want, db=db):
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='vt-draw-')
    try:
        os.chdir(tmp)
        if want:   # left over from elsewhere
            with open('srg_%d_%d_%d_%d_%d.png' % (*p, p[1] % len(want)), 'w') as h:
                h.write('not this')
        with Recorder() as rec:
            sut(db.draw, *p)
        files = sorted(os.listdir(tmp))
        names = [f'srg_{p[0]}_{p[1]}_{p[2]}_{p[3]}_{i}.png' for i in range(len(want))]
        need(files == sorted(names), f'drawing {p}: files {files[:20]}, expected {names[:20]}')
        for f in files:
            with open(f, 'rb') as h:
                need(h.read(8) == b'\x89PNG\r\n\x1a\n', f'{f} is not a PNG picture')
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    for name, M in zip(names, want):
        need(name in rec.saved, f'{name} was not drawn as a figure')
        got = adjacency(rec.saved[name][-1], p[0])
        need(got == [tuple(r) for r in M], f'{name} does not show the stored graph; shown', gens.show(got),
             '\nstored', gens.show(M))


def check_stored_pictures(case):
    p = tuple(case)
    check_pictures(p, stored(p))
    label(f'{len(stored(p))} pictures')
    return bool(stored(p))


FRESH = sorted(n for n, M in graphs.catalogue().items() if len(M) <= 40 and ref.params_of(M) not in FILES)


@st.composite
def fresh(draw):
    name = draw(st.sampled_from(FRESH))
    n = len(graphs.catalogue()[name])
    return {'graph': name, 'perms': [draw(gens.relabelling(n)) for _ in range(draw(st.integers(0, 3)))],
            'command': draw(st.integers(0, 3)) == 0}


class Scratch:
    """the project copied to a scratch directory and imported from there"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vt-entry-')
        shutil.copytree(os.path.join(common.REPO, 'srg'), os.path.join(self.dir, 'srg'), ignore=shutil.ignore_patterns('__pycache__'))
        self.keep = {m: x for m, x in sys.modules.items() if m == 'srg' or m.startswith('srg.')}
        return self

    def load(self):
        for m in self.keep:
            sys.modules.pop(m, None)
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        fresh_db = importlib.import_module('srg.database')
        if not fresh_db.__file__.startswith(self.dir):
            raise common.HarnessError(f'srg.database was imported from {fresh_db.__file__}')
        return fresh_db

    def __exit__(self, *_):
        for m in [m for m in sys.modules if m == 'srg' or m.startswith('srg.')]:
            del sys.modules[m]
        sys.modules.update(self.keep)
        if self.dir in sys.path:
            sys.path.remove(self.dir)
        shutil.rmtree(self.dir, ignore_errors=True)


def check_fresh(case):
    """a file with a new entry is put into a scratch copy of the project"""
    M = graphs.catalogue()[case['graph']]
    p = ref.params_of(M)
    Ms = [ref.permute(M, q) for q in case['perms']]
    with Scratch() as scratch:
        with open(os.path.join(scratch.dir, 'srg', 'database', 'problem_%d_%d_%d_%d.py' % p), 'w') as f:
            f.write('from numpy import array\n\nv, k, l, u = %d, %d, %d, %d\nsolutions: list = [' % p +
                    ',\n    '.join(f'array({[list(r) for r in m]})' for m in Ms) + ']\n')
        fdb = scratch.load()
        got = [tuple(sut(fdb.extract_vklu, n)) for n in sut(lambda: list(fdb.list_problems()))]
        need(sorted(got) == sorted(FILES + [p]), f'listed problems {sorted(got)}, stored ones {FILES} and {p}')
        got = [tuple(gens.rows(np.asarray(m))) for m in sut(fdb.get_solutions, *p)]
        need(got == [tuple(m) for m in Ms], f'get_solutions{p} does not return the {len(Ms)} stored graphs')
        check_pictures(p, Ms, fdb)
        if case['command'] and Ms:
            code, out, err = cli.run('srg.database', ['list', *p], repo=scratch.dir)
            need(code == 0, f'python -m srg.database list {p}: exit code {code}:', err[-500:])
            need(cli.matrices(out) == got, f'python -m srg.database list {p} printed other graphs than the stored ones;', out[:300])
    label(case['graph'])
    return len(Ms) > 0


# ---- the command line -------------------------------------------------------------------------------------------

def check_list(case):
    p = tuple(case)
    code, out, err = cli.run('srg.database', ['list', *p])
    need(code == 0, f'python -m srg.database list {p}: exit code {code}:', err[-500:])
    got = cli.matrices(out)
    need(got == stored(p), f'python -m srg.database list {p} printed {len(got)} graphs, {len(stored(p))} are stored, '
         'or they differ')
    return bool(got)


def check_overview(case):
    code, out, err = cli.run('srg.database', case)
    need(code == 0, f'python -m srg.database {case}: exit code {code}:', err[-500:])
    got = [tuple(map(int, m)) for m in re.findall(r'problem_(\d+)_(\d+)_(\d+)_(\d+)', out)]
    need(sorted(got) == FILES, f'python -m srg.database {case} mentions {got}, stored are {FILES}')
    return True


def check_draw(case):
    p = tuple(case)
    tmp = tempfile.mkdtemp(prefix='vt-cli-')
    try:
        code, out, err = cli.run('srg.database', ['draw', *p], cwd=tmp)
        files = sorted(os.listdir(tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    need(code == 0, f'python -m srg.database draw {p}: exit code {code}:', err[-500:])
    names = sorted('srg_%d_%d_%d_%d' % p + f'_{i}.png' for i in range(len(stored(p))))
    need(files == names, f'python -m srg.database draw {p} left {files[:20]}, expected {names[:20]}')
    return bool(names)


@st.composite
def bad(draw):
    how = draw(st.sampled_from(['infeasible', 'absent', 'command', 'command']))
    if how == 'absent':
        p = list(draw(st.sampled_from([q for q in ref.feasible_params(6, 40) if q not in FILES])))
    else:
        p = list(draw(st.sampled_from(FILES)))
        while how == 'infeasible' and (p[0] - p[1] - 1) * p[3] == p[1] * (p[1] - p[2] - 1):
            p[draw(st.integers(0, 3))] += draw(st.integers(1, 3))
    words = st.one_of(st.sampled_from(['paint', 'DRAW ', 'remove', '--help me', '', 'List', 'lis', 'listing', 'drawn', 'dra']),
                      st.text('abcdefghijklmnopqrstuvwxyzABC-_0129', min_size=1, max_size=6))
    cmd = draw(words.filter(lambda w: w not in ('list', 'draw'))) if how == 'command' else \
        draw(st.sampled_from(['list', 'draw']))
    return [cmd, *map(str, p)]


def check_bad(case):
    tmp = tempfile.mkdtemp(prefix='vt-cli-')
    try:
        code, out, err = cli.run('srg.database', case, cwd=tmp)
        files = os.listdir(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    need(code != 0, f'python -m srg.database {case}: exit code 0;', out[:300])
    need(not files and not cli.matrices(out), f'python -m srg.database {case} failed, but listed or drew something')
    return True


SUBS = [
    Sub('pictures', [list(p) for p in FILES if p != (28, 12, 6, 4)] +
        [[28, 12, 6, 4]] * (common.TIER == 'thorough'), check_stored_pictures, shards=6, cpu=200,
        rule='every stored entry drawn (the one with 161 graphs only in the thorough run), read back from the figure '
             'segments and labels; non-trivial: it stores graphs'),
    Sub('fresh', fresh(), check_fresh, quick=120, thorough=1500, shards=8,
        rule='a file with up to 3 random relabellings of a textbook graph up to 40 vertices, put into a scratch copy of the '
             'project: listed, retrieved, drawn, and printed by the command; non-trivial: not empty'),
    Sub('list', [list(p) for p in FILES], check_list, shards=4, rule='the list command on every entry'),
    Sub('overview', [[], ['list']], check_overview,
        rule='the overview, without complete parameters'),
    Sub('draw', [list(p) for p in FILES if p not in ((28, 12, 6, 4), (16, 9, 4, 6))], check_draw, shards=4,
        rule='the draw command in an empty directory'),
    Sub('bad', bad(), check_bad, quick=96, thorough=300, shards=8,
        rule='unknown commands, infeasible parameters, parameters without an entry: must fail and leave nothing'),
]
