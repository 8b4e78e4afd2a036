"""C20 the cythonized build gives the same results as the interpreted one.

Builds a scratch copy of the project with its own cythonize.sh, puts it in front of /repo on sys.path, and runs the
generated checks of the other properties against the compiled modules.
"""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

from .. import common
from ..common import Sub, Violation, need

ASSUMPTIONS = ['built by cythonize.sh with the installed Cython and gcc, without C optimisation (-O0)']
MODULES = ['srg', 'utils', 'bounds', 'fork', 'gauss_elim', 'partition', 'solver', 'unique']


def cythonize(dst, tmp):
    """run the project's script in a copy of the project"""
    env = dict(os.environ, PATH=os.path.join(tmp, 'bin') + ':' + os.environ.get('PATH', '/usr/bin:/bin'), HOME=tmp,
               CFLAGS='-O0', PYTHONPATH='')
    p = subprocess.run(['bash', 'cythonize.sh'], cwd=dst, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    so = compiled(dst)
    return p.returncode, p.stdout[-1500:], [m for m in MODULES if not any(f.startswith(m + '.') for f in so)]


def compiled(dst):
    return [f for f in os.listdir(os.path.join(dst, 'srg')) if f.endswith('.so')]


def build():
    tmp = tempfile.mkdtemp(prefix='vt-cy-')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(tmp, ignore_errors=True))
    dst = os.path.join(tmp, 'repo')
    shutil.copytree(common.REPO, dst, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.so', '*.pyx', '*.c', 'build'))
    bin_ = os.path.join(tmp, 'bin')
    os.mkdir(bin_)
    with open(os.path.join(bin_, 'python3'), 'w') as f:
        f.write(f'#!/bin/sh\nexec {common.PYTHON} "$@"\n')
    os.chmod(os.path.join(bin_, 'python3'), 0o755)
    return (dst, *cythonize(dst, tmp))


DIR, CODE, LOG, MISSING = build()
BUILT = CODE == 0 and not MISSING
if BUILT:
    sys.path.insert(0, DIR)
    for m in [m for m in sys.modules if m == 'srg' or m.startswith('srg.')]:
        del sys.modules[m]


def check_build(case):
    need(BUILT, f'cythonize.sh ended with {CODE}, modules not built: {MISSING};', LOG)
    import importlib
    try:
        m = importlib.import_module('srg.' + case)
    except Exception as e:
        raise Violation(f'the compiled module srg.{case} cannot be imported: {type(e).__name__}: {e}')
    if not m.__file__.endswith('.so'):
        raise common.HarnessError(f'srg.{case} was imported from {m.__file__}')
    return True


def sources(d):
    out = {}
    for top, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in ('build', '__pycache__', '.git')]
        for f in files:
            with open(os.path.join(top, f), 'rb') as h:
                out[os.path.relpath(os.path.join(top, f), d)] = h.read()
    return out


def ask(dst, tmp, code):
    p = subprocess.run([common.PYTHON, '-B', '-c', code], cwd=dst, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=dict(os.environ, HOME=tmp, PYTHONPATH=dst))
    need(p.returncode == 0, f'{code}: exit code {p.returncode}:', p.stderr[-600:])
    return p.stdout


def check_history(case):
    """histories of building, cleaning and editing in one working tree"""
    tmp = tempfile.mkdtemp(prefix='vt-cyh-')
    try:
        shutil.copytree(os.path.join(os.path.dirname(DIR), 'bin'), os.path.join(tmp, 'bin'))
        dst = os.path.join(tmp, 'repo')
        shutil.copytree(DIR, dst, ignore=shutil.ignore_patterns('*.so', '*.pyx', '*.c', 'build', '__pycache__'))
        plain = sources(dst)
        shutil.rmtree(os.path.join(dst, 'srg'))
        shutil.copytree(os.path.join(DIR, 'srg'), os.path.join(dst, 'srg'))   # with the products of the build
        is_built, edits, marks = True, 0, {}
        for op in case:
            if op == 'build':
                code, log, missing = cythonize(dst, tmp)
                need(code == 0 and not missing, f'{case}: cythonize.sh ended with {code}, not built: {missing};', log)
                is_built = True
            elif op == 'clean':
                p = subprocess.run(['bash', 'uncythonize.sh'], cwd=dst, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                need(p.returncode == 0, f'{case}: uncythonize.sh ended with {p.returncode}', p.stdout[-500:])
                is_built = False
                now = sources(dst)
                need(now == plain, f'{case}: after uncythonize.sh these files are missing, additional or changed:',
                     sorted(set(now.items()) ^ set(plain.items()), key=lambda x: x[0])[:1] and
                     sorted({f for f, _ in set(now.items()) ^ set(plain.items())}))
            else:
                edits += 1
                f = os.path.join('srg', op[5:] + '.py')
                with open(os.path.join(dst, f), 'a') as h:
                    h.write(f'\n\nVT_MARK = {edits}\n')
                marks[op[5:]] = edits
                plain[f] = sources(dst)[f]
                continue
            for m in MODULES:
                out = ask(dst, tmp, f'import srg.{m} as m; print(m.__file__, getattr(m, "VT_MARK", 0))').split()
                need(out[-2].startswith(dst) and out[-2].endswith('.so') == is_built,
                     f'{case}: srg.{m} is imported from {out[-2]}')
                need(int(out[-1]) == marks.get(m, 0), f'{case}: srg.{m} is not the current source')
            out = ask(dst, tmp, 'from srg import solver, srg; print(len(list(solver.solve(srg.SRG(solver._seed(9, 4, 1, 2))))))')
            need(out.split()[-1:] == ['1'], f'{case}: 9 4 1 2 has {out} answers')
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


HISTORIES = [['clean'], ['edit fork', 'build', 'clean'], ['clean', 'edit unique', 'build'], ['build', 'edit srg', 'clean', 'clean']]


def check_command(case):
    module, args = case[0], case[1:]
    code, out, err = cli.run(module, args, repo=DIR)
    got = cli.matrices(out)
    ok = len(args) >= 4 and ref.feasible(*map(int, args[-4:]))
    need((code == 0) == ok, f'python -m {module} {args} on the compiled modules: exit code {code};', err[-500:])
    if not ok:
        need(not got, f'python -m {module} {args} printed a matrix;', out[:300])
    elif module == 'srg':
        want = c17.answers(tuple(map(int, args)))
        need(got == want, f'python -m srg {args} on the compiled modules printed {len(got)} matrices, there are {len(want)}',
             'answers, or another order')
    else:
        want = cli.matrices(cli.run(module, args)[1])
        need(got == want and got, f'python -m {module} {args} on the compiled modules printed other matrices')
    label(f'{module}, {"answers" if ok else "refused"}')
    return True


COMMANDS = [['srg', *map(str, p)] for p in [(5, 2, 0, 1), (9, 4, 1, 2), (10, 3, 0, 1), (10, 6, 3, 4), (12, 6, 0, 6), (13, 6, 2, 3),
                                            (15, 6, 1, 3), (16, 5, 0, 2), (16, 6, 2, 2), (7, 2, 0, 1), (9, 4, 1, 3), (16, 5, 0, 3),
                                            (40, 38, 36, 38)]]
COMMANDS += [['srg.database', 'list', *map(str, p)] for p in [(16, 9, 4, 6), (25, 8, 3, 2), (9, 4, 1, 3)]]

SUBS = [Sub('build', MODULES, check_build, rule='the modules cythonize.sh is meant to build, imported')]
if BUILT:
    try:
        from .. import cli, ref
        from ..common import label
        from . import c01, c03, c04, c05, c06, c07, c08, c09, c10, c11, c14, c15, c17, c19, c22, c23, c28
        assert c01.solver.__file__.startswith(DIR)
    except ImportError:
        BUILT = None
if BUILT:
    QUICK = {'c03.params': 1, 'c03.resume': .5, 'c03.known': .4, 'c04.': .4, 'c05.': .3, 'c06.': .3, 'c07.': .4, 'c08.': .4,
             'c09.': .3, 'c10.': 1, 'c11.': .3, 'c14.family': .3, 'c15.': .3, 'c19.': .3, 'c22.': .2, 'c23.known': .2,
             'c23.large': .2, 'c28.': .3}
    SUBS += [Sub('history', HISTORIES, check_history, shards=len(HISTORIES),
                 rule='histories of building, cleaning and editing in one working tree: which files are there, what is imported'),
             Sub('command', COMMANDS, check_command, shards=8, cpu=120,
                 rule='the solver and the listing command on the compiled modules')]
    for mod in (c03, c04, c05, c06, c07, c08, c09, c10, c11, c14, c15, c19, c22, c23, c28):
        name = mod.__name__.rsplit('.', 1)[1]
        for s in mod.SUBS:
            if s.thorough_only and common.TIER == 'quick':
                continue
            f = [v for k, v in QUICK.items() if (name + '.' + s.name).startswith(k)]
            if not f:
                continue
            t = Sub(f'{name}-{s.name}', s.gen, s.check, rule=f'as in {name.upper()} ({s.name}), on the compiled modules: ' + s.rule,
                    shards=s.shards, cpu=s.cpu, soft=s.soft)
            t.n = s.n if s.finite else max(1, int(s.n * f[0]))
            t.shards = s.shards
            SUBS.append(t)
