"""Pool of forked worker processes

Each worker has its own pipe and nothing is shared between workers, so workers
can be killed at any moment (``multiprocessing.Pool.terminate`` can deadlock)
and death of a worker is reported instead of waited for.
"""

import collections
import multiprocessing
import multiprocessing.connection
import os
import pickle
import signal
import time

_time = time.time
_small = 16 * 1024


class WorkerError(Exception):
    """Worker process failed (error of the machinery, never a verdict)"""


class Future:

    def __init__(self, pool):
        self._pool = pool
        self.done = False
        self.value = self.error = None

    def get(self, timeout):
        end = _time() + timeout
        while not self.done:
            left = end - _time()
            if left <= 0:
                raise WorkerError('timeout of worker process')
            self._pool._pump(left)
        if self.error is not None:
            raise self.error
        return self.value


class Pool:

    def __init__(self, processes, fn):
        self._queue = collections.deque()
        self._workers = {}
        context = multiprocessing.get_context('fork')
        for _ in range(processes):
            parent, child = context.Pipe()
            pid = os.fork()
            if pid == 0:
                status = 1
                try:
                    parent.close()
                    for conn in self._workers:
                        conn.close()
                    _work(child, fn)
                    status = 0
                finally:
                    os._exit(status)
            child.close()
            self._workers[parent] = pid, collections.deque()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.terminate()

    def submit(self, item):
        future = Future(self)
        self._queue.append((future, pickle.dumps(item)))
        self._dispatch()
        return future

    def terminate(self):
        workers, self._workers = self._workers, {}
        for conn, (pid, _) in workers.items():
            os.kill(pid, signal.SIGKILL)
            conn.close()
        for pid, _ in workers.values():
            os.waitpid(pid, 0)

    def _dispatch(self):
        for limit in (1, 2):
            for conn, (pid, tasks) in self._workers.items():
                if not self._queue:
                    return
                if len(tasks) >= limit:
                    continue
                # next one waits in (not blocking) pipe
                if tasks and len(self._queue[0][1]) > _small:
                    return
                future, data = self._queue.popleft()
                try:
                    conn.send_bytes(data)
                except OSError as e:
                    raise WorkerError('worker process died') from e
                tasks.append(future)

    def _pump(self, timeout):
        self._dispatch()
        for conn in multiprocessing.connection.wait(
                list(self._workers), timeout):
            try:
                data = conn.recv_bytes()
            except (EOFError, OSError) as e:
                raise WorkerError('worker process died') from e
            future = self._workers[conn][1].popleft()
            future.value, future.error = pickle.loads(data)
            future.done = True
        self._dispatch()


def _work(conn, fn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            data = conn.recv_bytes()
        except EOFError:
            return
        value = error = None
        try:
            value = fn(pickle.loads(data))
        except BaseException as e:
            error = e
        try:
            data = pickle.dumps((value, error))
            if error is not None:
                pickle.loads(data)
        except Exception:
            data = pickle.dumps((None, WorkerError(
                f'{type(error or value).__name__}: {error or "result"!s}')))
        conn.send_bytes(data)
