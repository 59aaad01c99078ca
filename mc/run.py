"""Entry point: python -m mc.run <PROPERTY> [--replay FILE]"""
import importlib
import json
import os
import sys


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    from . import engine
    scratch = engine.make_scratch()
    try:
        mod = importlib.import_module(f'mc.checks.{pid.lower()}')
        if hasattr(mod, 'before_import'): mod.before_import()
        engine.import_library(getattr(mod, 'NEEDS', ('dataset',)))
        if hasattr(mod, 'after_import'): mod.after_import()
        eng = engine.Engine(pid, mod, tier, seed, scratch)
        if replay:
            with open(replay) as f: rc = eng.replay(json.load(f))
        else:
            rc = eng.run()
    finally:
        engine.remove_scratch(scratch)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
