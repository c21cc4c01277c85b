"""Worker-side machinery: event log, monitors' verdicts, seeded randomness."""
from __future__ import annotations

import contextlib
import hashlib
import json
import math
import traceback
import zlib

import numpy as np

ENV_MARKERS = ("LLVM", "Failed to materialize", "Cannot allocate memory",
               "RESOURCE_EXHAUSTED", "MemoryError", "INTERNAL: ", "can't start new thread",
               "XLA compilation error", "Resource temporarily unavailable")


class EnvError(Exception):
    """The sandbox (not the code under test) failed; retry in a fresh process."""


class SutError(Exception):
    """The code under test raised on an input in the property's domain."""


class Skip(Exception):
    """The generated case is outside of the property's domain."""


def is_env(exc):
    s = f"{type(exc).__name__}: {exc}"
    return isinstance(exc, MemoryError) or any(m in s for m in ENV_MARKERS)


@contextlib.contextmanager
def sut(what=""):
    try:
        yield
    except (EnvError, SutError, Skip):
        raise
    except Exception as e:  # noqa: BLE001
        if is_env(e):
            raise EnvError(str(e)[:300]) from e
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/src/')[-1]}:{f.lineno}" for f in tb if "smolgp" in f.filename][-3:]
        raise SutError(f"{what}: {type(e).__name__}: {str(e)[:300]} at {where}") from e


def rng_for(*key):
    ints = [k if isinstance(k, int) else zlib.crc32(str(k).encode()) for k in key]
    return np.random.default_rng(ints)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.floating, float)):
        f = float(x)
        return f if math.isfinite(f) else repr(f)
    if isinstance(x, (np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray) or hasattr(x, "__array__"):
        a = np.asarray(x)
        return jsonable(a.tolist()) if a.size <= 64 else {"shape": list(a.shape), "head": jsonable(a.ravel()[:24].tolist())}
    return x


class Ctx:
    """Collects what the monitors of one job observed."""

    def __init__(self, prop, tier, seed, job, only_case=None):
        self.prop, self.tier, self.seed, self.job = prop, tier, seed, job
        self.only_case = only_case
        self.cases = 0            # cases executed
        self.nontrivial = set()   # fingerprints of distinct non-trivial cases
        self.clauses = {}         # clause -> [observations, worst err/tol]
        self.violations = []
        self.known = []
        self.skips = 0
        self.samples = []
        self.dims = {}            # coverage dimension -> {value: count}
        self._case = None

    # ------------------------------------------------------------- bookkeeping
    def rng(self, *key):
        return rng_for(self.seed, self.prop, *key)

    @contextlib.contextmanager
    def case(self, i, desc, nontrivial=True):
        """One generated execution; `desc` is what is needed to read it."""
        self._case = (i, desc)
        nv = len(self.violations)
        try:
            yield
        except Skip:
            self.skips += 1
            self._case = None
            return
        except SutError as e:
            self.violate("raises", str(e))
        if not (len(self.violations) > nv):
            pass
        self.cases += 1
        if nontrivial:
            fp = hashlib.sha1(json.dumps(jsonable(desc), sort_keys=True, default=str).encode()).hexdigest()
            self.nontrivial.add(fp[:16])
        if len(self.samples) < 1:
            self.samples.append({"job": self.job["i"], "case": i, **jsonable(desc)})
        self._case = None

    def want_case(self, i):
        return self.only_case is None or self.only_case == i

    def cover(self, **dims):
        for k, v in dims.items():
            d = self.dims.setdefault(k, {})
            d[str(v)] = d.get(str(v), 0) + 1

    # ---------------------------------------------------------------- verdicts
    def violate(self, clause, detail, key=None):
        i, desc = self._case if self._case else (None, None)
        self.violations.append({"clause": clause, "detail": jsonable(detail), "job": self.job,
                                "case": i, "desc": jsonable(desc), "key": key})

    def note(self, clause, margin=None):
        c = self.clauses.setdefault(clause, [0, 0.0])
        c[0] += 1
        if margin is not None and math.isfinite(margin):
            c[1] = max(c[1], float(margin))

    def true(self, clause, ok, detail="", key=None):
        self.note(clause)
        if not bool(ok):
            self.violate(clause, detail, key)
        return bool(ok)

    def close(self, clause, got, want, tol, detail=None, key=None):
        """|got - want| <= tol elementwise; NaN/shape mismatches are violations."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.note(clause)
            self.violate(clause, {"why": "shape", "got": got.shape, "want": want.shape, "info": detail}, key)
            return False
        tol = np.broadcast_to(np.asarray(tol, float), want.shape)
        with np.errstate(invalid="ignore"):
            err = np.abs(got - want)
            r = np.where(np.isfinite(got) & np.isfinite(want), err / tol, np.inf)
        r = np.where((got == want), 0.0, r)  # equal infinities
        worst = float(np.max(r)) if r.size else 0.0
        self.note(clause, worst)
        if not worst <= 1.0:
            j = int(np.argmax(r)) if r.size else 0
            self.violate(clause, {"index": j, "got": got.ravel()[j], "want": want.ravel()[j],
                                  "err/tol": worst, "tol": float(tol.ravel()[j]),
                                  "n_bad": int(np.sum(r > 1)), "n": int(r.size), "info": detail}, key)
            return False
        return True

    def result(self):
        return {"job": self.job["i"], "cases": self.cases, "nontrivial": sorted(self.nontrivial),
                "clauses": self.clauses, "violations": self.violations[:20], "skips": self.skips,
                "samples": self.samples, "dims": self.dims, "n_viol": len(self.violations)}
