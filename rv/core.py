"""Recorder: the oracle interface the monitors use."""
import os, traceback, zlib
import numpy as np

REPO = os.environ.get('RV_REPO', '/repo')


def quiet():
    import dolfin as df
    df.set_log_level(50)
    try:
        import logging
        for n in ('FFC', 'UFL', 'UFL_LEGACY', 'dijitso'):
            logging.getLogger(n).setLevel(logging.CRITICAL)
    except Exception:
        pass


def one_builder():
    """Concurrent workers share the JIT cache: one process at a time builds a given module (dijitso has no such lock)"""
    import dijitso, fcntl, functools
    inner = dijitso.jit
    where = os.path.join(os.environ['DIJITSO_CACHE_DIR'], 'locks')
    os.makedirs(where, exist_ok=True)

    @functools.wraps(inner)
    def jit(jitable, name, params, *args, **kwargs):
        with open(os.path.join(where, '%s.lock' % name), 'w') as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            return inner(jitable, name, params, *args, **kwargs)
    dijitso.jit = jit


class Stop(Exception):
    """End the current case after a violation that makes going on meaningless"""


class Recorder:
    def __init__(self, prop, seed, case):
        self.prop, self.case = prop, case
        self.rng = np.random.default_rng([seed, case, zlib.crc32(prop.encode())])
        self.evals, self.keys, self.events, self.oracles = 0, set(), {}, {}
        self.violations, self.errors, self.samples = [], [], []
        self.ctx = ''

    # -- running
    def run(self, f, case):
        try:
            f(self, case)
        except Stop:
            pass
        except Exception as e:
            self.exception(e, case)

    def exception(self, e, case, key=None):
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO + '/xii')]
        text = '%s: %s' % (type(e).__name__, str(e)[:300].replace('\n', ' '))
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
        if not inside and isinstance(e, (ImportError, NameError)) and not isinstance(e, UnboundLocalError):
            self.errors.append('case %s %s: %s [%s]' % (self.case, case, text, where))
            return
        site = ('%s:%s' % (os.path.basename(inside[-1].filename), inside[-1].name)) if inside else self.ctx
        key = key or 'exception:%s:%s' % (site, type(e).__name__)
        self.bad(key, 'valid input was not processed: %s [%s] (%s)' % (text, where, self.ctx))

    # -- oracles
    def bad(self, key, msg):
        key = key.replace(' ', '_')
        if sum(v['key'] == key for v in self.violations) < 3:
            self.violations.append({'case': self.case, 'key': key, 'msg': str(msg)[:1500]})

    def check(self, ok, oracle, msg=''):
        self.evals += 1
        self.oracles[oracle] = self.oracles.get(oracle, 0) + 1
        if not ok:
            self.bad(oracle, '%s %s' % (self.ctx, msg() if callable(msg) else msg))
        return bool(ok)

    def close(self, a, b, oracle, msg='', rtol=1E-8, atol=1E-10):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.check(False, oracle, '%s: shapes %s vs %s' % (msg, a.shape, b.shape))
        if a.size == 0:
            return self.check(True, oracle)
        scale = max(np.max(np.abs(b)), np.max(np.abs(a))) if np.all(np.isfinite(a)) else 1.
        err = np.max(np.abs(a - b)) if np.all(np.isfinite(a)) else np.inf
        return self.check(err <= atol + rtol*scale, oracle,
                          lambda: '%s: |difference| %.3e, scale %.3e; got %s expected %s' % (
                              msg, err, scale, np.ravel(a)[:6], np.ravel(b)[:6]))

    def guard(self, oracle, f, *args, **kw):
        """Run f; an exception is a violation under `oracle` and ends nothing"""
        try:
            return True, f(*args, **kw)
        except Stop:
            raise
        except Exception as e:
            self.evals += 1
            self.oracles[oracle] = self.oracles.get(oracle, 0) + 1
            self.exception(e, self.ctx, key=oracle)
            return False, None

    def raises(self, exc, oracle, f, msg=''):
        try:
            f()
        except exc:
            return self.check(True, oracle)
        except Exception as e:
            return self.check(False, oracle, '%s: raised %r' % (msg, e))
        return self.check(False, oracle, '%s: did not raise' % msg)

    # -- coverage
    def seen(self, *key):
        self.keys.add('|'.join(map(str, key)))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:400])

    def report(self):
        return {'k': 'case', 'case': self.case, 'evals': self.evals, 'keys': sorted(self.keys),
                'events': self.events, 'oracles': self.oracles, 'violations': self.violations,
                'errors': self.errors, 'samples': self.samples}
