"""Monitor bookkeeping shared by all properties."""
import contextlib, io, json, os, sys, hashlib, traceback
import numpy as np

REPO = os.environ.get("RFSED_REPO", "/repo")
SRC = os.path.join(REPO, "src")

class Abandon(Exception):
    """The case cannot go on (a violation has been recorded)."""

def import_rfsed():
    """Import rfsed from the working tree, never from stale bytecode."""
    import scipy.signal, scipy.fft, matplotlib, matplotlib.pyplot, obspy, rf, seaborn  # noqa
    import sklearn.metrics, obspy.taup, obspy.signal.tf_misfit                        # noqa
    sys.pycache_prefix = os.path.join(os.getcwd(), "pyc")
    import rfsed
    where = os.path.realpath(os.path.dirname(rfsed.__file__))
    want = os.path.realpath(os.path.join(SRC, "rfsed"))
    if where != want:
        raise RuntimeError("rfsed imported from %s, not %s" % (where, want))

class Monitor:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.evaluations = 0
        self.counters, self.signatures, self.nontrivial = {}, set(), set()
        self.samples, self.violations, self.errors = [], [], []
        self.case = None; self.desc = {}; self._dirs = 0
        self.rng = self.np = None
        self.stdout = ""
        self.out = None; self.stop = False      # stop: this process is no longer fit to go on

    # -- case life cycle
    def begin(self, i):
        self.case, self.desc, self._nontriv = i, {}, False
        self._before = len(self.violations)

    def end(self):
        self.evaluations += 1
        h = hashlib.sha1(json.dumps(self.desc, sort_keys=True, default=str).encode()).hexdigest()[:16]
        self.signatures.add(h)
        if self._nontriv:
            self.nontrivial.add(h)
        if len(self.samples) < 2:
            self.samples.append(dict(self.desc, case=self.case))

    def describe(self, **kw):
        self.desc.update(kw)

    def nontriv(self, flag=True):
        if flag:
            self._nontriv = True

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + int(n)

    # -- verdicts
    def violation(self, key, message, **detail):
        self.violations.append({"key": key, "message": str(message)[:2000], "case": self.case,
                                "description": self.desc,
                                "detail": {k: str(v)[:1500] for k, v in detail.items()}})
        if self.out:
            self.dump(self.out, False)           # a hang later on must not lose it

    def check(self, cond, key, message="", **detail):
        self.count("checks")
        if not cond:
            self.violation(key, message or key, **detail)
        return bool(cond)

    def require(self, cond, key, message="", **detail):
        if not self.check(cond, key, message, **detail):
            raise Abandon()

    def call(self, what, fn, *args, **kw):
        """Call the code under test; an exception on this (valid) input is a violation."""
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                r = fn(*args, **kw)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            self.violation("raises:" + what, "%s raised %s: %s" % (what, type(e).__name__, e),
                           traceback=traceback.format_exc()[-1500:])
            raise Abandon()
        self.stdout = buf.getvalue()
        self.count("calls " + what)
        return r

    def newdir(self):
        self._dirs += 1
        d = os.path.join(self.scratch, "d%d" % self._dirs)
        os.makedirs(d)
        return d

    def dump(self, path, finished):
        d = dict(evaluations=self.evaluations, counters=self.counters,
                 signatures=sorted(self.signatures), nontrivial=sorted(self.nontrivial),
                 samples=self.samples, violations=self.violations, errors=self.errors,
                 finished=finished)
        with open(path + ".tmp", "w") as f:
            json.dump(d, f, default=str)
        os.replace(path + ".tmp", path)

def close(a, b, tol):
    """Element-wise |a-b| <= tol, false for NaN, shape mismatch or wrong type."""
    try:
        a = np.asarray(a, dtype=complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float)
        b = np.asarray(b, dtype=a.dtype)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = np.abs(a - b)
    return bool(np.all(np.isfinite(d)) and np.all(d <= tol))

def maxdiff(a, b):
    try:
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            return "shapes %s %s" % (a.shape, b.shape)
        return float(np.max(np.abs(a - b))) if a.size else 0.0
    except Exception as e:
        return repr(e)
