"""Replay of recorded violation (E1: schedule deviations, E2: single case)"""

import sys

from mc.core import Violation


class _Done(BaseException):
    pass


class Replayer:
    """Stands in for Check while the module enumerates its scenarios"""

    def __init__(self, check, data):
        self._data = data
        self._found = False
        self.result = None
        self.prop = check.prop
        self.tier = data.get('tier', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = check.seed
        self.assumptions = []
        self.extra = {}

    def explore(self, scenarios, **kwargs):
        from mc import explore
        if self._data['engine'] != 'E1':
            return
        for name, harness, params, options, *_ in scenarios:
            if name != self._data['scenario']:
                continue
            deviations = [tuple(i) for i in self._data['deviations']]
            result = explore.execute(harness, params, options, deviations)
            print('schedule:')
            for item in result.log:
                print('   ', item)
            self.result = result.violation
            raise _Done()

    def enumerate(self, name, cases, fn, **kwargs):
        from mc import explore
        if self._data['engine'] != 'E2' or name != self._data['name']:
            return
        explore.patch_process()
        for case in cases:
            if repr(case) != self._data['case_repr']:
                continue
            print('case:', self._data['case_repr'][:2000])
            try:
                fn(case)
            except Violation as e:
                self.result = str(e)
            raise _Done()


def replay(module, check, data):
    replayer = Replayer(check, data)
    try:
        module.run(replayer)
    except _Done:
        if replayer.result is None:
            print(f'{check.prop}: replayed, property holds')
            return 0
        print(f'VIOLATION property={check.prop} replay=-')
        print(replayer.result)
        return 1
    print('recorded scenario is not known to this check', file=sys.stderr)
    return 2
