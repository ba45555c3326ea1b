"""Entry point: python -m mc.run C01 [quick|thorough] [--replay FILE]."""
import argparse
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    from mc.harness import Run

    only = None
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)['key']
    run = Run(a.pid, a.tier, only=only)
    repo = os.environ['VERIF_REPO']
    import aviary

    if not os.path.abspath(aviary.__file__).startswith(repo + os.sep):
        print(f'HARNESS ERROR: aviary imported from {aviary.__file__}, not {repo}')
        return 2
    mod = importlib.import_module(f'checks.{a.pid.lower()}')
    try:
        mod.main(run)
    except Exception as e:
        traceback.print_exc()
        from mc.harness import to_blame

        if to_blame(e) and only is None:
            # the code under test raised where the check allows no exception
            run.violation(f'uncaught {type(e).__name__}', f'unexpected exception from the code: {e}')
        if run.violations:
            return run.finish()
        print('HARNESS ERROR: the check itself failed')
        return 2
    return run.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
