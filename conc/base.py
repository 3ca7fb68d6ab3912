"""Runtime evaluation of the contracts on the real code (freshly built library).

Used (a) to search for an input that violates an obligation the verifier could
not discharge, (b) as the labelled bounded stand-in for functions out of the
verifier's reach."""
import json, os, time, sys
import numpy as np


def jsonable(x, lim=64):
    if isinstance(x, np.ndarray):
        if x.size > lim:
            return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:lim])}
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x[:lim]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, pid, seed, tier, budget, curfile=None):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = np.random.default_rng(seed * 7919 + sum(map(ord, pid)))
        self.t_end = time.time() + budget
        self.evals = 0
        self.keys = set()
        self.names = {}
        self.samples = []
        self.failures = []
        self.known = []
        self.cur = None
        self.curfile = curfile
        self.thorough = tier == 'thorough'

    def case(self, **inputs):
        """start a new case; its inputs are kept for the replay file"""
        self.cur = inputs
        if self.curfile:
            with open(self.curfile, 'w') as f:
                json.dump(jsonable(inputs), f)
        if len(self.samples) < 5 and (len(self.samples) == 0 or self.evals % 17 == 0):
            self.samples.append(jsonable(inputs))

    def more(self):
        return time.time() < self.t_end

    def note(self, name, key=None):
        self.evals += 1
        self.names[name] = self.names.get(name, 0) + 1
        self.keys.add((name, json.dumps(jsonable(self.cur), sort_keys=True, default=str)[:2000]))

    def fail(self, name, detail):
        self.failures.append({'check': name, 'inputs': jsonable(self.cur), 'detail': detail})
        if len(self.failures) > (int(__import__("os").environ.get("MAXF", 5))):
            raise Stop()

    def close(self, name, got, want, rtol=1e-8, atol=0.0, scale=None):
        self.note(name)
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(name, 'shape %s, expected %s' % (got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        s = scale if scale is not None else np.max(np.abs(want)) if want.size else 0
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
        bad = ~(err <= atol + rtol * s)
        bad &= ~((got == want) | (np.isnan(got.astype(complex)) & np.isnan(want.astype(complex))))
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(err, nan=1e300), -1)), err.shape) if err.ndim else ()
            self.fail(name, 'at %s: got %r, expected %r' % ([int(k) for k in i], got[i].item(), want[i].item()))
            return False
        return True

    def true(self, name, cond, detail=''):
        self.note(name)
        if not cond:
            self.fail(name, str(detail)[:600])
            return False
        return True

    def raises(self, name, f, exc=Exception, must_name=None):
        self.note(name)
        try:
            f()
        except exc:
            return True
        except Exception as e:
            if exc is Exception:
                return True
            self.fail(name, 'raised %s instead of %s' % (type(e).__name__, exc))
            return False
        self.fail(name, 'no exception raised')
        return False
