import gc
import importlib
import json
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = json.load(open(args.pop(0)))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from mc.core import Ctx
    ctx = Ctx(prop, tier, seed, replay)
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    logging.disable(logging.WARNING)
    mod = None
    # The code under test may print; keep the report readable.
    sys.stdout.flush()
    report = os.fdopen(os.dup(1), 'w', buffering=1)
    if os.environ.get('MC_NOISE') is None:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        import torch
        torch.set_num_threads(1)
        torch.manual_seed(0)
        for name in ('models', 'engine', 'datasets', 'implementations'):
            try:  # before the workers are forked; the cases report failures
                importlib.import_module(f'mmrazor.{name}')
            except Exception:  # noqa
                pass
        mod = importlib.import_module(f'mc.props.{prop}')
        gc.freeze()
        mod.run(ctx)
    except BaseException as e:  # noqa
        # The driver itself could not complete: public behaviour it needs is
        # gone.  Never report "held".
        ctx.violation('driver', dict(), f'{type(e).__name__}: {e}\n' +
                      traceback.format_exc(limit=-8), 'driver-incomplete')
    if mod is None:
        class mod:  # noqa
            RULE = 'the property module could not be loaded'
    sys.stdout = report
    code = ctx.finish(mod)
    report.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
