"""Common definitions shared by both exploration engines."""

import os
import signal


class Violation(Exception):
    """Property violated on explored execution.

    `key` identifies the failing input/history/call site independently of
    incidental details (used for matching known findings).
    """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key
        raised.append(self)


raised = []
"""Violations of current execution (including those which are raised in
callbacks and swallowed by the code under test)"""


class Divergence(BaseException):
    """Replay of recorded prefix did not reproduce recorded choices (this is
    an error of the machinery, never a verdict)"""


class Watchdog(KeyboardInterrupt):
    """Execution used up its CPU budget (does not terminate)"""


def _on_alarm(signum, frame):
    _expired[0] = True
    raise Watchdog()


_expired = [False]


def watchdog_start(cpu_seconds):
    _expired[0] = False
    signal.signal(signal.SIGPROF, _on_alarm)
    # repeated: exception can be swallowed by finalisers
    signal.setitimer(signal.ITIMER_PROF, cpu_seconds, 0.5)


def watchdog_stop():
    signal.setitimer(signal.ITIMER_PROF, 0, 0)


def watchdog_expired():
    return _expired[0]


def cpu_count():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except Exception:
        return os.cpu_count() or 1
