#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--case SUBSTRING] [--budget S] [-v]"""
import argparse
import os
import sys

VT = '/opt/veriftools/pyvenv/bin/python'


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if os.environ.get('SYMEX_CHILD') != '1':
        env = dict(os.environ, SYMEX_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
        env.pop('PYTHONPATH', None)
        import shutil
        py = VT if os.path.exists(VT) else shutil.which('python3-vt') or sys.executable
        os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, here)
    sys.setrecursionlimit(8000)
    if a.selftest:
        from symex import selftest
        sys.exit(selftest.main())
    from symex import runner
    rc = runner.main(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1')), a.jobs, a.case, a.budget, a.v)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
