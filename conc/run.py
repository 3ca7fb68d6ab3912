import sys, json, os, importlib, traceback, time
from .base import Ctx, Stop, jsonable


def main():
    pid, out = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    budget = float(sys.argv[3]) if len(sys.argv) > 3 else 60
    m = importlib.import_module('conc.' + pid.lower())
    ctx = Ctx(pid, seed, tier, budget, out + '.cur')
    t = time.time()
    try:
        m.run(ctx)
    except Stop:
        pass
    except Exception as e:
        # an exception inside the library on valid input breaks the contract of the call
        tb = traceback.format_exc()
        lib = any(('/pymaster/' in fr.filename) for fr in traceback.extract_tb(e.__traceback__))
        if not lib:
            ctx.failures.append({'check': 'harness', 'inputs': jsonable(ctx.cur), 'detail': tb[-1500:], 'harness_error': True})
        else:
            ctx.failures.append({'check': 'unexpected exception on valid input', 'inputs': jsonable(ctx.cur), 'detail': tb[-1500:]})
    json.dump({'evaluations': ctx.evals, 'distinct': len(ctx.keys), 'checks': ctx.names, 'samples': ctx.samples,
               'failures': ctx.failures, 'known': ctx.known, 'wall': time.time() - t}, open(out, 'w'))


main()
