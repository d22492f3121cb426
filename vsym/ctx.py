"""Harness contexts: the same harness body runs symbolically (SymCtx) and on the unpatched code (ConCtx)."""
import math
import random
from fractions import Fraction

import numpy as np


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__('%s %s' % (label, detail))
        self.label = label
        self.detail = detail


class AssumeFailed(BaseException):
    pass


class Ctx:
    """interface shared by both contexts"""

    def fork_signs(self):
        """split paths on the signs of absolute values that are not determined"""
        if self.symbolic:
            self.e.fork_signs = True

    def fork_extremes(self):
        if self.symbolic:
            self.e.fork_extremes = True

    def fork_floors(self):
        """split paths on the value of integer parts"""
        if self.symbolic:
            self.e.fork_floors = True

    def expect_raise(self, label, exc, f):
        try:
            r = f()
        except exc:
            self.check(label, True)
            return None
        self.check(label, False)
        return r


class ConCtx(Ctx):
    symbolic = False

    def __init__(self, values, seed=0):
        self.values = values
        self.rng = random.Random(seed)
        self.used = {}
        self.n_checks = 0

    def _get(self, name, shape, gen, typ):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        while name in self.used:
            name += "'"
        if name in self.values:
            a = np.array(self.values[name], dtype=typ).reshape(shape)
        else:
            n = int(np.prod(shape)) if shape else 1
            a = np.array([gen() for _ in range(n)], dtype=typ).reshape(shape)
        self.used[name] = a.tolist()
        return a if shape else a.item()

    def real(self, name, shape=(), lo=-1, hi=1):
        def g():
            l = -3 if lo is None else lo
            h = 3 if hi is None else hi
            # awkward values first: bounds, zero, ties
            r = self.rng.random()
            if r < .05:
                return float(l)
            if r < .1:
                return float(h)
            return self.rng.uniform(l, h)
        return self._get(name, shape, g, float)

    def int(self, name, shape=(), lo=0, hi=1):
        return self._get(name, shape, lambda: self.rng.randint(lo, hi), int)

    def bool(self, name, shape=()):
        return self._get(name, shape, lambda: self.rng.random() < .5, bool)

    def perm(self, name, n):
        while name in self.used:
            name += "'"
        if name in self.values:
            a = np.array(self.values[name], dtype=int)
        else:
            l = list(range(n))
            self.rng.shuffle(l)
            a = np.array(l)
        self.used[name] = a.tolist()
        return a

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFailed()

    def assume_lt(self, a, b):
        if not a < b + 1e-12:
            raise AssumeFailed()

    def check(self, label, c):
        self.n_checks += 1
        if not bool(np.all(np.asarray(c))):
            raise CheckFailed(label)

    def eq(self, label, a, b):
        self.n_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise CheckFailed(label, 'shapes %s vs %s' % (a.shape, b.shape))
        if not bool(np.all(a == b)):
            raise CheckFailed(label, '%s != %s' % (short(a), short(b)))

    def close(self, label, a, b, tol=1e-6, scale=1.0):
        self.n_checks += 1
        a, b = np.asarray(dense(a), dtype=float), np.asarray(dense(b), dtype=float)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b) if a.ndim == 0 or b.ndim == 0 else (a, b)
            except ValueError:
                pass
        if a.shape != b.shape:
            raise CheckFailed(label, 'shapes %s vs %s' % (a.shape, b.shape))
        if a.size == 0:
            return
        with np.errstate(all='ignore'):
            err = np.abs(a - b)
            lim = 0.5 * tol * scale + 1e-9 * np.maximum(np.abs(a), np.abs(b))
            bad = ~(err <= lim)
        if bad.any():
            raise CheckFailed(label, 'max error %s; %s vs %s' % (err[bad].max() if np.isfinite(err[bad]).all() else 'nan', short(a), short(b)))

    def leq(self, label, a, b, tol=1e-6):
        self.n_checks += 1
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        if not bool(np.all(a <= b + tol * .5)):
            raise CheckFailed(label, '%s > %s' % (short(a), short(b)))

    def note(self, s):
        pass


def short(a):
    s = np.array2string(np.asarray(a), threshold=40, precision=6).replace('\n', ' ')
    return s[:300]


def dense(a):
    if hasattr(a, 'toarray'):
        return a.toarray()
    return a
