"""Measures, per textbook graph of graphs.large() and row, the cost of the row search under random relabellings.

Writes data/large_rows.json: name -> {'fast': rows, 'multi': rows}. Only used to choose affordable cases.
Run with /opt/venv/bin/python tools/measure_rows.py JOBS
"""
import json
import multiprocessing
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import gens, graphs, ref  # noqa: E402
from vt.checks import c02  # noqa: E402


class Late(BaseException):  # numpy swallows Exception in places
    pass


def late(*_):
    raise Late


def one(job):
    name, r = job
    signal.signal(signal.SIGVTALRM, late)
    M = graphs.large()[name]
    rnd = random.Random(f'{name} {r}')
    worst, most = 0, 0
    for _ in range(3):
        perm = list(range(len(M)))
        rnd.shuffle(perm)
        C = ref.canonical(ref.permute(M, perm))[:r]
        signal.setitimer(signal.ITIMER_VIRTUAL, 2)
        t = time.process_time()
        try:
            c02.candidates(C)
            most = max(most, len(ref.next_rows(C, ref.params_of(M), 100000)))
        except (Late, ref.TooBig):
            return name, r, 9, 0
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        worst = max(worst, time.process_time() - t)
    return name, r, worst, most


if __name__ == '__main__':
    have = gens.data('large_rows.json') if os.path.exists('data/large_rows.json') else {}   # delete the file to start afresh
    todo = [(n, r) for n, M in graphs.large().items() if n not in have and not ('K' in n and len(M) > 127) for r in range(2, len(M) - 1, 1 if len(M) < 128 else 5)]
    out = {n: have.get(n, {'fast': [], 'multi': []}) for n in graphs.large()}
    with multiprocessing.Pool(int(sys.argv[1])) as pool:
        for n, r, t, most in pool.imap(one, todo, chunksize=4):
            if t <= .5 and most > 1:
                out[n]['multi'].append(r)
            elif t <= .5:
                out[n]['fast'].append(r)
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'large_rows.json'), 'w') as f:
        f.write('{\n' + ',\n'.join(f' {json.dumps(n)}: {json.dumps(x)}' for n, x in sorted(out.items())) + '\n}\n')
