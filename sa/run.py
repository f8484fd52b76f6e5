"""python3 -m sa.run P01 [P02 ...] [--tier quick|thorough]"""
import importlib
import os
import pkgutil
import sys
import threading


def load():
    from . import check, props
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module(f"sa.props.{m.name}")
    return check


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    check = load()
    ids = argv or sorted(check.REGISTRY)
    if ids == ["all"]:
        ids = sorted(check.REGISTRY)
    rc = 0
    for pid in ids:
        rc = max(rc, check.run(pid, tier, seed))
    return rc


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    out = []
    th = threading.Thread(target=lambda: out.append(main(sys.argv[1:])))
    th.start()
    th.join()
    sys.stdout.flush()
    sys.exit(out[0] if out else 2)
