import argparse
import importlib
import json
import os
import pickle
import sys
import traceback

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--family', action='append')
    a = ap.parse_args()
    sys.path.insert(0, core.HERE)
    mod = importlib.import_module(f'checks.{a.pid.lower()}')
    ctx = core.Ctx(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1')))
    ctx._only = a.family
    try:
        if a.replay:
            with open(a.replay) as fh:
                rep = json.load(fh)
            ctx.tier = rep['tier']
            ctx._only = ['-none-']
            mod.run(ctx)
            fn = ctx.fns[rep['family']]
            kind, msg = core.run_forked(fn, pickle.loads(bytes.fromhex(rep['pickle'])), 300., ctx.scratch)
            print(kind, msg or '')
            if kind == 'fail':
                print(f'VIOLATION property={a.pid} replay={a.replay}')
            return 1 if kind == 'fail' else 0
        mod.run(ctx)
        return ctx.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
