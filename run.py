#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]: run one check against /repo's working tree.

The parent builds a scratch package tree (see mc/env.py), runs the check in a
child process with a fixed environment and removes the tree afterwards.
"""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def parent(argv):
    from mc import env
    tmp = env.scratch()
    try:
        env.build_tree(tmp)
        e = dict(os.environ)
        e.update(PYTHONPATH=tmp + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                 TZ='UTC', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(tmp, 'mpl'), OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', HOME='/root', LANG='C.UTF-8', MC_TREE=tmp, MC_CHILD='1',
                 TMPDIR=tmp)
        e.setdefault('VERIF_SEED', '1')
        e.setdefault('VERIF_TIER', 'quick')
        p = subprocess.Popen([PY, '-W', 'ignore', os.path.abspath(__file__)] + argv, env=e, cwd=HERE)
        try:
            return p.wait()
        except BaseException:
            p.kill()
            raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def child(argv):
    import importlib
    import traceback
    from mc import choice, report
    import pandas  # noqa  (libraries see the original numpy.random)
    import scipy.spatial  # noqa
    import scipy.stats  # noqa
    choice.install()
    prop = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    mod = importlib.import_module('checks.' + prop.lower())
    ck = report.Check(prop, mod.LEVEL, os.environ['VERIF_TIER'], int(os.environ['VERIF_SEED']), replay)
    try:
        mod.build(ck)
    except Exception as ex:
        tb = ex.__traceback__
        if report.from_demod(tb) and not isinstance(ex, choice.HarnessError):
            # the code under test cannot even be imported or set up
            what = 'set-up raised %s: %s' % (type(ex).__name__, ex)
            detail = traceback.format_exception(ex)[-8:]

            def broken(rec, _):
                rec.fail(what, detail)
            ck.jobs = []
            ck.add('set-up', broken)
            ck.replay = None
        else:
            traceback.print_exc()
            return 2
    try:
        return ck.run(getattr(mod, 'WORKERS', None))
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    if os.environ.get('MC_CHILD') == '1':
        sys.exit(child(sys.argv[1:]))
    sys.exit(parent(sys.argv[1:]))
