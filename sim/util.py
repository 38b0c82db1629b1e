"""Shared helpers: outcomes, canonical forms, comparison, digests."""
import hashlib
import json
import math
import traceback


class Violation(Exception):
    """A property does not hold.  cls is stable across shrinking."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Invalid(Exception):
    """The scenario is outside the property's domain (only while shrinking)."""


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def canon(x):
    """JSON-able canonical form of whatever the API returned."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        return x
    return x


def same(a, b, tol=1e-9, path=""):
    """None if equal, otherwise the path and values of the first difference."""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b and isinstance(a, bool) == isinstance(b, bool) else f"{path}: {a!r} != {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return None
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            extra, miss = sorted(set(a) - set(b)), sorted(set(b) - set(a))
            return f"{path}: keys differ, unexpected {extra[:4]} missing {miss[:4]}"
        for k in sorted(a):
            d = same(a[k], b[k], tol, f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}: {str(a)[:200]} vs {str(b)[:200]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"


def expect_same(cls, got, want, what="", tol=1e-9):
    d = same(got, want, tol)
    if d:
        raise Violation(cls, f"{what} got != expected at {d}"[:1500])


class Outcome:
    __slots__ = ("value", "error")

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    @property
    def ok(self):
        return self.error is None

    def __repr__(self):
        return f"ok" if self.ok else f"{type(self.error).__name__}: {self.error}"


def attempt(fn, *a, **k):
    """Run code under test and capture a raised Exception.

    The traceback is cleared, as it would keep locals of failed calls alive.
    """
    try:
        return Outcome(fn(*a, **k))
    except (Violation, Invalid):
        raise
    except Exception as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception_only(type(e), e)).strip()
        e.__traceback__ = None
        c = e.__context__
        while c is not None:
            c.__traceback__ = None
            c = c.__context__
        o = Outcome(error=e)
        return o
