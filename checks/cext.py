"""C implementations of subscription and collection

Extensions are compiled from repository's `src_c`.  Hash table of hat-util is
not available, it is replaced with one written for its interface (`cext/`).
"""

import importlib
import importlib.util
import pathlib
import subprocess
import sys
import sysconfig
import tempfile

_dir = pathlib.Path(__file__).resolve().parent.parent / 'cext'


def load(check):
    """Returns (create subscription, create collection) or None if extensions
    can not be built"""
    from mc.check import REPO
    try:
        work = pathlib.Path(tempfile.mkdtemp())
        for name in ('subscription', 'collection'):
            module = {'subscription': '_csubscription',
                      'collection': '_ctree'}[name]
            path = work / f'{module}.so'
            subprocess.run(
                ['gcc', '-std=gnu11', '-O1', '-g', '-w', '-shared', '-fPIC',
                 '-I', str(_dir), '-I', sysconfig.get_paths()['include'],
                 str(REPO / 'src_c/py' / name / f'{module}.c'),
                 str(_dir / 'ht.c'), '-o', str(path)],
                check=True, capture_output=True, timeout=120)
            package = importlib.import_module(f'hat.event.common.{name}')
            spec = importlib.util.spec_from_file_location(
                f'{package.__name__}.{module}', path)
            ext = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(ext)
            sys.modules[spec.name] = ext
            setattr(package, module, ext)
        from hat.event.common.collection.ctree import CTreeEventTypeCollection
        from hat.event.common.subscription.csubscription import CSubscription
    except (OSError, subprocess.SubprocessError, ImportError) as e:
        text = getattr(e, 'stderr', b'') or b''
        check.extra['c_extensions'] = (
            f'not built: {e} {text.decode(errors="replace")[:500]}')
        return None
    check.extra['c_extensions'] = 'compiled from src_c'
    return CSubscription, CTreeEventTypeCollection
