import argparse
import importlib
import os
import pkgutil
import sys

sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--repo', default=os.environ.get('SA_REPO', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    from . import props, report
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module('sa.props.' + m.name)
    ids = a.props or sorted(report.REGISTRY)
    rc = 0
    for p in ids:
        rc = max(rc, report.run(p, a.repo, a.tier, a.seed))
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 3)
