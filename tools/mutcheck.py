"""Evaluate mutants (result of `mutate.py test`) with checks

usage: mutcheck.py SURVIVORS.jsonl OUT.jsonl [FILE...]

Checks of mutated file are run (cheap ones first) until one finds the mutant.
At most MUT_LINE (2) mutants of single line are evaluated, subtle ones first.
"""

import collections
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent

CHECKS = {
    'adminer/': 'C27 C32 C30',
    'backends/dummy.py': 'C24',
    'backends/lmdb/backend.py': 'C13 C17 C15 C06 C28 C16 C19 C18 C29 C23',
    'backends/lmdb/common.py': 'C05 C13 C14 C15 C18 C26 C29 C16',
    'backends/lmdb/conditions.py': 'C28',
    'backends/lmdb/convert/': 'C25',
    'backends/lmdb/environment.py': 'C13 C17 C16 C19 C23 C29',
    'backends/lmdb/latestdb.py': 'C13 C29 C16',
    'backends/lmdb/manager/': 'C26',
    'backends/lmdb/refdb.py': 'C15 C13 C14 C16 C18 C20 C19 C29',
    'backends/lmdb/systemdb.py': 'C06 C17 C29 C16',
    'backends/lmdb/timeseriesdb.py': 'C14 C18 C15 C29 C16 C19',
    'backends/memory.py': 'C24 C20',
    'common/collection/': 'C03',
    'common/matches.py': 'C01',
    'common/subscription/': 'C02 C01 C03',
    'common/encoder.py': 'C04 C05',
    'common/common.py': 'C04 C05',
    'common/': 'C05 C07 C06',
    'component.py': 'C36 C22',
    'eventer/client.py': 'C32 C09 C10 C12 C30',
    'eventer/server.py': 'C09 C10 C12 C11 C30',
    'eventer/common.py': 'C05 C09',
    'manager/': 'C31',
    'server/adminer_server.py': 'C27',
    'server/engine.py': 'C06 C07 C08 C23',
    'server/engine_runner.py': 'C21 C34 C23 C33',
    'server/eventer_client.py': 'C20 C21 C12',
    'server/eventer_client_runner.py': 'C21',
    'server/eventer_server.py': 'C11 C12 C09',
    'server/main.py': 'C35 C23',
    'server/main_runner.py': 'C34 C23 C21 C35'}


def checks_of(name):
    for key, value in CHECKS.items():
        if name.startswith(key):
            return value.split()
    return []


def rank(line):
    name, lineno, func, what, _ = json.loads(line)
    kinds = ['drop ', '` -> <', '` -> >', ' -> or', ' -> and', '+ 1', '- 1',
             'flipped', '-> truth', 'no filter', 'always if', 'never if',
             '-> .', 'swap', '']
    return (list(CHECKS).index(next(i for i in CHECKS if name.startswith(i))),
            name, lineno,
            next(i for i, k in enumerate(kinds) if k in what))


EQUIVALENT = ('no result `return False`', 'no result `return None`')


def main():
    src, dst, *names = sys.argv[1:]
    done = set()
    if os.path.exists(dst):
        for line in open(dst):
            done.add(tuple(json.loads(line)[:4]))
    count = collections.Counter()
    work = pathlib.Path(tempfile.mkdtemp(prefix='mutcheck-', dir='/dev/shm'))
    repo = work / 'repo'
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
    verif = work / 'verif'
    verif.mkdir()
    for i in ('checks', 'mc', 'cext', 'check.sh', 'known_findings.json'):
        (shutil.copytree if (VERIF / i).is_dir() else shutil.copy)(
            VERIF / i, verif / i)
    limit = os.environ.get('MUT_TIME', '8')
    for line in sorted(open(src), key=rank):
        name, lineno, func, what, result = json.loads(line)
        if names and not any(name.startswith(i) for i in names):
            continue
        if what in EQUIVALENT:
            continue
        if count[name, lineno] >= int(os.environ.get('MUT_LINE', '2')):
            continue
        count[name, lineno] += 1
        if (name, lineno, func, what) in done:
            continue
        path = repo / 'src_py/hat/event' / name
        original = path.read_text()
        path.write_text(result)
        verdict = 'MISSED'
        try:
            for check in checks_of(name):
                try:
                    rc = subprocess.run(
                        ['./check.sh', check], cwd=verif, env={
                            **os.environ, 'MC_REPO': str(repo),
                            'MC_TIME': limit}, stdout=subprocess.DEVNULL,
                        stderr=subprocess.DEVNULL, timeout=600).returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    verdict = f'{check} rc={rc}'
                    break
        finally:
            path.write_text(original)
        with open(dst, 'a') as f:
            f.write(json.dumps([name, lineno, func, what, verdict]) + '\n')
        if not verdict.endswith('rc=1'):
            print(f'{name}:{lineno} {func}: {what}: {verdict}', flush=True)


main()
