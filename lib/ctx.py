"""What a check sees: the context which counts and judges."""
import hashlib
import json
import os


class Violation(Exception):
    """The code under test broke the property."""


class Ctx:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.compared = 0
        self.samples = []
        self.case = None

    # ---- counting -------------------------------------------------------
    def state(self, *key):
        """A distinct state (of the reference model) was visited."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.states.add(h)

    def step(self, n=1):
        """n calls of the implementation were made and followed by the model."""
        self.transitions += n

    def trace(self, sample=None):
        """One complete behaviour was replayed and compared."""
        self.traces += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(str(sample)[:400])

    # ---- judging --------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def true(self, cond, msg):
        self.compared += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got, want, what):
        self.compared += 1
        if not got == want:
            raise Violation(f"{what}: got {_short(got)}, want {_short(want)}")

    def close(self, got, want, what, tol=1e-8, scale=None):
        import numpy as np
        self.compared += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, want {w.shape}")
        if g.size == 0:
            return
        if g.dtype == object:
            raise Violation(f"{what}: dtype object")
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(w))))
        d = np.abs(g - w)
        if not np.all(np.isfinite(d)):
            raise Violation(f"{what}: not finite: got {_short(g)}, want {_short(w)}")
        if float(d.max()) > tol * scale:
            i = np.unravel_index(int(d.argmax()), d.shape) if d.shape else ()
            raise Violation(f"{what}: differs by {float(d.max()):.3g} at {list(map(int, i))}"
                            f" (got {g[i]!r}, want {w[i]!r}); got {_short(g)} want {_short(w)}")

    def raises(self, fn, what, exc=Exception):
        """fn must be refused; returns the exception."""
        self.compared += 1
        try:
            r = fn()
        except exc as e:
            if isinstance(e, Violation):
                raise
            return e
        raise Violation(f"{what}: accepted (returned {_short(r)}) though it must be refused")

    def workdir(self):
        os.makedirs(self.scratch, exist_ok=True)
        return self.scratch


def _short(x):
    s = repr(x).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


def canon(case):
    return json.loads(json.dumps(case))
