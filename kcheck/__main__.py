import importlib
import os
import sys

from . import runtime

IDS = [f'C{i:02d}' for i in (*range(1, 23), 24, 25, 26, 27, 28, 29)]


def get_check(pid):
    return importlib.import_module(f'kcheck.props.{pid.lower()}').CHECK


def main():
    what = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if what == 'replay':
        return runtime.replay(get_check, sys.argv[2])
    if what == 'all':
        rc = 0
        for pid in IDS:
            rc |= os.system(f'{sys.argv[0] and sys.executable} -W ignore -m kcheck {pid}') and 1
        return rc
    return runtime.main(get_check(what), tier, seed)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
