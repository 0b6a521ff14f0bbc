"""Environments shared by checks: scratch databases and simple execution"""

import itertools
import shutil
import tempfile
import pathlib

from mc.core import Violation

MAX_DB = 64 * 1024 * 1024


class Scratch:
    """Scratch directory which is always removed"""

    def __enter__(self):
        self.path = pathlib.Path(tempfile.mkdtemp(prefix='scratch-'))
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def lmdb_conf(path, *, latest=(('*',),), timeseries=(), identifier=None,
              flush_period=1e6, cleanup_period=1e6, conditions=(),
              max_results=4096, cache_size=256):
    """timeseries: (order_by name, subscriptions[, limit])"""
    return {
        'db_path': str(path),
        'identifier': identifier,
        'flush_period': flush_period,
        'cleanup_period': cleanup_period,
        'conditions': list(conditions),
        'latest': {'subscriptions': [list(i) for i in latest]},
        'timeseries': [
            {'order_by': i[0],
             'subscriptions': [list(j) for j in i[1]],
             **({'limit': i[2]} if len(i) > 2 and i[2] is not None else {})}
            for i in timeseries],
        'timeseries_max_results': max_results,
        'timeseries_event_type_cache_size': cache_size}


async def _harness(ctx):
    return await ctx.params(ctx)


def run(fn, options=None, cpu_limit=30):
    """Run `fn(ctx)` coroutine on deterministic loop (default schedule)"""
    from mc.explore import env_harness, execute
    from mc.loop import Options

    box = []

    async def call(ctx):
        box.append(await fn(ctx))

    env_harness[0] = _harness
    result = execute(_harness, call, options or Options(split_executor=False),
                     [], cpu_limit=cpu_limit)
    if result.violation is not None:
        raise Violation(result.violation, result.key)
    return box[0]


def run_scratch(fn, options=None, cpu_limit=30):
    """Run `fn(ctx, path)` with path of database in scratch directory"""
    with Scratch() as path:
        return run(lambda ctx: fn(ctx, path / 'event.db'), options,
                   cpu_limit)


def scripted_backend(ctx=None, name=None):
    """Backend which keeps the history in memory (test double with the
    contract of `hat.event.common.Backend`, independent of the real ones)"""
    from hat import aio
    from hat.event import common

    class Backend(common.Backend):

        def __init__(self):
            self._async_group = aio.Group()
            self.batches = []
            self.flushes = 0
            self.fail = None        # register result is failure
            self.on_register = None
            self.queries = []
            self.before_register = None

        @property
        def async_group(self):
            return self._async_group

        @property
        def events(self):
            return [e for batch in self.batches for e in batch]

        async def get_last_event_id(self, server_id):
            ids = [e.id for e in self.events if e.id.server == server_id]
            return max(ids) if ids else common.EventId(server_id, 0, 0)

        async def register(self, events):
            events = list(events)
            if self.before_register:
                await self.before_register(events)
            if self.fail and self.fail(events):
                return None
            self.batches.append(events)
            if self.on_register:
                await self.on_register(events)
            return events

        async def query(self, params):
            self.queries.append(params)
            events = self.events
            if params.__class__.__name__ == 'QueryLatestParams':
                latest = {}
                for e in events:
                    latest[e.type] = e
                events = list(latest.values())
            return common.QueryResult(events, False)

        async def flush(self):
            self.flushes += 1

    return Backend()


def install_module(name, create):
    """Make python module `name` importable as event server module"""
    import sys
    import types
    from hat.event import common

    module = types.ModuleType(name)
    module.info = common.ModuleInfo(create=create)
    sys.modules[name] = module
    return {'module': name}


def install_backend(name, create):
    """Make python module `name` importable as event server backend"""
    import sys
    import types
    from hat.event import common

    module = types.ModuleType(name)
    module.info = common.BackendInfo(create=create)
    sys.modules[name] = module


def observer_module(on_process, name='verif_observer'):
    """Module which is subscribed to everything and produces nothing"""
    from hat import aio
    from hat.event import common

    class Observer(common.Module):

        def __init__(self):
            self._async_group = aio.Group()

        @property
        def async_group(self):
            return self._async_group

        @property
        def subscription(self):
            return common.create_subscription([('*',)])

        async def process(self, source, event):
            on_process(source, event)

    async def create(conf, engine, source):
        return Observer()

    return install_module(name, create)
