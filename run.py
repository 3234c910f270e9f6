#!/usr/bin/env python
"""run.py <ID> [--tier quick|thorough] [--replay FILE] [--procs N]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int)
    a = ap.parse_args()
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.path.join(HERE, 'mc'), os.path.join(HERE, 'checks'), REPO]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % a.id)
    os.environ['VERIF_SCRATCH'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    import warnings
    warnings.filterwarnings('ignore')
    import core
    import memo
    memo.install()
    try:
        import falco
        assert os.path.realpath(falco.__file__).startswith(os.path.realpath(REPO)), falco.__file__
        mod = importlib.import_module(a.id)
        return core.main(mod, a.tier, procs=a.procs, replay=a.replay)
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    rc = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
