""" runs the real code (a copy of the package made in a scratch directory) on requests read from stdin

Every directory creation outside the scratch directory is refused.
"""
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
scratch = os.path.realpath(sys.argv[1])
sys.path.insert(0, os.path.join(scratch, 'pkg'))
real_mkdir = os.mkdir


def mkdir(path, *a, **k):
    p = os.path.abspath(os.fspath(path))
    if not os.path.realpath(p).startswith(os.path.join(scratch, 'cwd')) and not p.startswith(os.path.join(scratch, 'pkg')):
        raise RuntimeError('creation outside the scratch directory: %s' % p)
    return real_mkdir(path, *a, **k)


os.mkdir = mkdir

import razorback as rzb  # noqa: E402
import razorback.cli  # noqa: E402
from click.testing import CliRunner  # noqa: E402

assert os.path.realpath(rzb.__file__).startswith(os.path.join(scratch, 'pkg')), rzb.__file__
out = os.fdopen(os.dup(1), 'w')
for line in sys.stdin:
    q = json.loads(line)
    os.chdir(q['cwd'])
    try:
        if q['op'] == 'file':
            r = str(rzb.data.get_data_file(q['filename'], q['dirname']))
        elif q['op'] == 'path':
            r = str(rzb.data.data_path(q['dirname']))
        else:
            x = CliRunner().invoke(razorback.cli.cli, q['args'])
            r = dict(code=x.exit_code, out=x.output)
        a = dict(result=r)
    except Exception as e:
        a = dict(error=type(e).__name__)
    os.chdir(scratch)
    out.write(json.dumps(a) + '\n')
    out.flush()
