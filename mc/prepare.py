"""Prepare repository's generated (git ignored) files from current tree."""

import os
import pathlib
import subprocess
import sys
import tempfile
import warnings


def prepare(repo):
    src = repo / 'src_py'
    if str(src) not in sys.path:
        sys.path.insert(0, str(src))
    else:
        sys.path.remove(str(src))
        sys.path.insert(0, str(src))
    warnings.simplefilter('ignore')
    dst = src / 'hat/event/common'
    with tempfile.TemporaryDirectory(prefix='hat-event-mc-') as tmp:
        tmp = pathlib.Path(tmp)
        _generate(repo, tmp)
        for name in ('json_schema_repo.json', 'sbs_repo.json'):
            data = (tmp / name).read_bytes()
            path = dst / name
            if path.exists() and _same(path.read_bytes(), data):
                continue
            part = path.with_name(name + f'.{os.getpid()}.part')
            part.write_bytes(data)
            os.replace(part, path)


def _generate(repo, tmp):
    from hat import json, sbs
    schemas = [i for i in sorted((repo / 'schemas_json').rglob('*'))
               if i.suffix == '.yaml']
    json.encode_file(json.create_schema_repository(*schemas),
                     tmp / 'json_schema_repo.json')
    schemas = sorted((repo / 'schemas_sbs').rglob('*.sbs'))
    json.encode_file(sbs.Repository(*schemas).to_json(),
                     tmp / 'sbs_repo.json')


def _same(first, second):
    import json
    try:
        return json.loads(first) == json.loads(second)
    except ValueError:
        return False
