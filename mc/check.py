"""Check runner: evidence, violations, replay artefacts, known findings."""

import argparse
import hashlib
import importlib
import json
import os
import pathlib
import shutil
import sys
import tempfile
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MC_REPO', '/repo'))

_start = time.time()
_time = time.time


class Check:
    """Single run of single check"""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.assumptions = []
        self.exhaustive = True
        self.distinct = 0
        self.extra = {}

    def elapsed(self):
        return _time() - _start

    # E1

    def explore(self, scenarios, *, bound, extra=1, thorough_extra=3,
                time_limit=30, thorough_time_limit=1500, cpu_limit=30):
        """scenarios: list of (name, harness, params, options)

        Everything within `bound` is explored (exhaustive), executions up to
        `bound + extra` are explored while there is time.
        """
        from mc import explore
        if self.thorough:
            extra = thorough_extra
            time_limit = thorough_time_limit
        if os.environ.get('MC_TIME'):
            time_limit = float(os.environ['MC_TIME'])
        if os.environ.get('MC_ONLY'):
            scenarios = [i for i in scenarios if os.environ['MC_ONLY'] in i[0]]
        explore.check_determinism(scenarios[:2])
        t = _time()
        stats = explore.explore(scenarios, bound=bound + extra,
                                time_limit=time_limit, cpu_limit=cpu_limit)
        stats.exhaustive = all(i >= bound for i in stats.complete.values())
        self.states += stats.states
        self.transitions += stats.transitions
        self.traces += stats.executions
        self.samples.extend(stats.samples[:3])
        self.exhaustive = self.exhaustive and stats.exhaustive
        outcomes = {n: len(o) for n, (_, o) in stats.per_harness.items()}
        self.distinct += sum(outcomes.values())
        self.parts.append({
            'engine': 'E1 schedules', 'scenarios': len(scenarios),
            'executions': stats.executions, 'loop_iterations': stats.steps,
            'distinct_outcomes': outcomes,
            'cost_bound': bound,
            'completed_cost_bound': stats.complete,
            'seconds': round(_time() - t, 1)})
        for v in stats.violations:
            self.violation(f"[{v['scenario']}] {v['message']}", v['key'],
                           {'engine': 'E1', 'scenario': v['scenario'],
                            'deviations': v['choices'],
                            'schedule': v['schedule']})
        return stats

    # E2

    def enumerate(self, name, cases, fn, *, time_limit=60,
                  thorough_time_limit=1500, chunk=None, cpu_limit=60,
                  crash=False):
        """Run fn(case) on each case (list or iterable of picklable values)

        fn returns (states, transitions, traces, outcome) and raises Violation;
        with `crash`, end of worker process is violation too
        """
        from mc import enum
        if self.thorough:
            time_limit = thorough_time_limit
        if os.environ.get('MC_TIME'):
            time_limit = float(os.environ['MC_TIME'])
        if os.environ.get('MC_ONLY') and os.environ['MC_ONLY'] not in name:
            return
        t = _time()
        stats = enum.enumerate_cases(name, cases, fn, time_limit=time_limit,
                                     chunk=chunk, cpu_limit=cpu_limit,
                                     crash=crash)
        self.states += stats.states
        self.transitions += stats.transitions
        self.traces += stats.traces
        self.samples.extend(stats.samples[:2])
        self.exhaustive = self.exhaustive and stats.complete
        self.distinct += len(stats.outcomes)
        self.parts.append({
            'engine': 'E2 histories', 'name': name, 'cases': stats.cases,
            'states': stats.states, 'transitions': stats.transitions,
            'distinct_outcomes': len(stats.outcomes),
            'complete': stats.complete,
            'seconds': round(_time() - t, 1)})
        for v in stats.violations:
            self.violation(v['message'], v['key'],
                           {'engine': 'E2', 'name': name,
                            'case_repr': repr(v['case'])})
        return stats

    def violation(self, message, key, artefact):
        self.violations.append((message, key, artefact))

    # finishing

    def finish(self):
        known = load_known(self.prop)
        replays = []
        new = []
        seen_known = {}
        for message, key, artefact in self.violations:
            if key is not None and key in known:
                seen_known[key] = known[key]
                continue
            new.append((message, key, artefact))
        out_dir = ROOT / 'out' / self.prop
        for path in out_dir.glob('*.json'):
            path.unlink(missing_ok=True)
        for message, key, artefact in new:
            out_dir.mkdir(parents=True, exist_ok=True)
            data = {'property': self.prop, 'message': message, 'key': key,
                    'tier': self.tier, **artefact}
            text = json.dumps(data, indent=1, default=repr)
            path = out_dir / (hashlib.sha1(text.encode()).hexdigest()[:12] +
                              '.json')
            path.write_text(text)
            replays.append((path, message))
        for key, text in seen_known.items():
            print(f'KNOWN-FINDING: property={self.prop} {text}')
        evidence = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states,
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'distinct_outcomes': self.distinct,
                'samples': self.samples[:8],
                'exhaustive': self.exhaustive and not new,
                'parts': self.parts,
                **self.extra},
            'assumptions': self.assumptions,
            'wall_s': round(self.elapsed(), 2),
            'violations': len(new)}
        (ROOT / 'evidence').mkdir(exist_ok=True)
        path = ROOT / 'evidence' / f'{self.prop}.json'
        path.write_text(json.dumps(evidence, indent=1, default=repr) + '\n')
        for path, message in replays[:3]:
            print(f'VIOLATION property={self.prop} replay={path}')
            for line in message.splitlines()[:24]:
                print(f'    {line}')
        print(f'{self.prop}: states={self.states} '
              f'transitions={self.transitions} traces={self.traces} '
              f'outcomes={self.distinct} exhaustive={self.exhaustive} '
              f'wall={self.elapsed():.1f}s')
        sys.stdout.flush()
        return 1 if new else 0


def load_known(prop):
    path = ROOT / 'known_findings.json'
    if not path.exists():
        return {}
    return {i['key']: i['what'] for i in json.loads(path.read_text())
            if i.get('property') == prop and i.get('status') == 'known'}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER',
                                                         'quick'))
    parser.add_argument('--replay', default=None)
    args = parser.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    from mc import prepare
    prepare.prepare(REPO)

    check = Check(args.prop, args.tier, seed)
    scratch = tempfile.mkdtemp(prefix='verif-', dir=_scratch_root())
    tempfile.tempdir = os.environ['TMPDIR'] = scratch
    try:
        module = importlib.import_module(f'checks.{args.prop.lower()}')
        if args.replay:
            from mc import replay
            return replay.replay(module, check,
                                 json.loads(open(args.replay).read()))
        module.run(check)
    except ImportErrorInRepo as e:
        check.violation(str(e), None, {'engine': 'import'})
    finally:
        # including what killed workers left behind
        shutil.rmtree(scratch, ignore_errors=True)
    return check.finish()


def _scratch_root():
    path = '/dev/shm'
    return path if os.path.isdir(path) and os.access(path, os.W_OK) else None


class ImportErrorInRepo(Exception):
    pass


if __name__ == '__main__':
    # modules refer to mc.check
    from mc.check import main as _main
    try:
        rc = _main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
