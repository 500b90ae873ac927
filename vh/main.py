import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--limit', type=float, default=None)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or '1')
    from vh import core
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    os.dup2(devnull, 1)   # the code under test prints while it is imported
    try:
        mod = importlib.import_module('vh.props.{}'.format(a.prop.lower()))
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        n = getattr(m, '__name__', '')
        if n.startswith('neuro_shooting') and f and not os.path.abspath(f).startswith(core.REPO + os.sep):
            print('HARNESS-ERROR {} imported from {} instead of {}'.format(n, f, core.REPO), file=sys.stderr)
            return 2
    return core.run_check(mod.check, a.tier, seed, only=a.only, workers=a.workers, limit_s=a.limit)


if __name__ == '__main__':
    sys.exit(main())
