"""Running the command-line programs of the code under test."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

from . import common


def run(module, args, cwd=None, timeout=240, repo=None):
    env = dict(os.environ, PYTHONPATH=repo or common.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', LC_ALL='C.UTF-8')
    for k in ('COLUMNS', 'LINES', 'TERM'):
        env.pop(k, None)
    tmp = None
    if cwd is None:
        cwd = tmp = tempfile.mkdtemp(prefix='vt-cli-')
    try:
        p = subprocess.run([sys.executable, '-B', '-m', module, *map(str, args)], cwd=cwd, env=env, timeout=timeout,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    except subprocess.TimeoutExpired:
        raise common.Violation(f'python -m {module} {" ".join(map(str, args))} did not end within {timeout} s')
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return p.returncode, p.stdout, p.stderr


_ANSI = re.compile(r'\x1b\[[0-9;?]*[A-Za-z]')
_MATRIX = re.compile(r'\[\s*(?:\[[\d\s,.…-]*\]\s*,?\s*(?:\.\.\.\s*,?)?\s*)+\]')


def matrices(text):
    """the 0/1 matrices printed in text, in order"""
    out = []
    for m in _MATRIX.findall(_ANSI.sub('', text)):
        common.need('...' not in m, 'a printed matrix has elements left out:', m[:300])
        out.append(tuple(tuple(int(x) for x in re.findall(r'-?\d+', r)) for r in re.findall(r'\[([^\[\]]*)\]', m)))
    return out
