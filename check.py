#!/opt/venv/bin/python
"""Runs one property's simulations: ``check.py P01`` or ``check.py --replay FILE``."""

import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
os.environ["TZ"] = "UTC"

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import importlib  # noqa: E402
import time  # noqa: E402

time.tzset()

from sim import engine  # noqa: E402


def load_property(prop):
    engine.setup_library()
    pkg = os.path.join(HERE, "sim", "props")
    for name in sorted(os.listdir(pkg)):
        if name.endswith(".py") and name.split("_")[0].upper() == prop.upper():
            return importlib.import_module("sim.props." + name[:-3])
    raise SystemExit(f"no such property: {prop}")


def selftest():
    """Is everything here that the checks need?"""
    import more_itertools
    import typing_extensions

    assert sys.version_info >= (3, 12), sys.version
    assert sys.monitoring and more_itertools and typing_extensions
    pkg = os.path.join(HERE, "sim", "props")
    names = [n for n in os.listdir(pkg) if n.startswith("p")]
    for name in names:
        with open(os.path.join(pkg, name)) as fp:
            compile(fp.read(), name, "exec")
    print(f"{len(names)} properties, Python {sys.version.split()[0]}")
    return 0


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        data, sim, v, err = engine.replay_file(argv[1], load_property)
        for e in sim.events:
            print(" ", engine._short(e, 2000))
        print(f"digest={sim.digest()}")
        if err is not None:
            print(err)
            print("HARNESS-ERROR")
            return 2
        if v is None:
            print(f"property={data['property']}: the replay didn't fail")
            return 0
        print(f"kind={v.kind}")
        print(f"VIOLATION property={data['property']} replay={argv[1]}")
        return 1
    if argv == ["--selftest"]:
        return selftest()
    if len(argv) != 1:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load_property(argv[0])
    return engine.run_check(mod, tier if tier in mod.RUNS else "quick", seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
