import random
from fractions import Fraction

import numpy as np
import z3

from vsym import arr as A
from vsym.arr import SymArr, wrap
from vsym.core import S, SBool, Engine, Unsupported, Infeasible, tobool, truth, zval, poly_z3, cmp0, is_sym, num, \
    PathAbort, padd, pmul
from vsym.ctx import Ctx, dense


class Violation(PathAbort):
    pass


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.meta = {}
        self.found = []        # (label, detail, inputs)
        self.inconclusive = []

    # -- inputs
    def _unique(self, name):
        while name in self.e.inputs:
            name += "'"
        return name

    def _mk(self, name, shape, is_int, lo, hi, dt):
        name = self._unique(name)
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        r = np.empty(n, object)
        for i in range(n):
            r[i] = self.e.var('%s[%d]' % (name, i), is_int, lo, hi)
        self.e.inputs[name] = (shape, dt, r.tolist())
        if not shape:
            return r[0]
        a = np.ndarray.view(r.reshape(shape), SymArr)
        a._dt = np.dtype({'f': float, 'i': int, 'b': bool}[dt])
        return a

    def real(self, name, shape=(), lo=-1, hi=1):
        return self._mk(name, shape, False, lo, hi, 'f')

    def int(self, name, shape=(), lo=0, hi=1):
        return self._mk(name, shape, True, lo, hi, 'i')

    def bool(self, name, shape=()):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        name = self._unique(name)
        n = int(np.prod(shape)) if shape else 1
        r = np.empty(n, object)
        ss = []
        for i in range(n):
            z = z3.Bool('%s[%d]' % (name, i))
            r[i] = SBool(z)
            ss.append(SBool(z))
        self.e.inputs[name] = (shape, 'b', ss)
        if not shape:
            return r[0]
        a = np.ndarray.view(r.reshape(shape), SymArr)
        a._dt = np.dtype(bool)
        return a

    def perm(self, name, n):
        a = self.int(name, n, 0, n - 1)
        zs = [x.z3() for x in a.view_raw().tolist()]
        if n > 1:
            self.e.add(z3.Distinct(*zs))
        return a

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = np.all(wrap(c))
        self.e.add(tobool(c))

    def assume_lt(self, a, b):
        self.assume(a < b)

    # -- model
    def model_inputs(self, m):
        out = {}
        for name, (shape, dt, xs) in self.e.inputs.items():
            vs = []
            for x in xs:
                if isinstance(x, SBool):
                    vs.append(bool(z3.is_true(m.eval(x.z, model_completion=True))))
                else:
                    v = m.eval(x.z3(), model_completion=True)
                    if z3.is_int_value(v):
                        vs.append(v.as_long())
                    elif z3.is_rational_value(v):
                        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                        vs.append(float(f))
                    elif z3.is_algebraic_value(v):
                        a = v.approx(30)
                        vs.append(float(Fraction(a.numerator_as_long(), a.denominator_as_long())))
                    else:
                        vs.append(0.0)
            out[name] = vs
        return out

    def fresh_solver(self, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', self.e.seed)
        for c in self.e.constraints:
            s.add(c)
        return s

    def _run(self, s, *extra):
        import time
        st = self.e.stats
        t = time.time()
        r = s.check(*extra)
        st.solver_s += time.time() - t
        st.queries += 1
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def decide(self, label, neg, detail=''):
        """neg: z3 Bool whose satisfiability under the path means violation"""
        st = self.e.stats
        st.checks += 1
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            s = z3.Solver()
            s.add(neg)
            assert self._run(s) == z3.unsat
            st.discharged += 1
            return True
        # the bounds of the variables alone, then the linear part, before the full query
        s = z3.SimpleSolver()
        s.set('timeout', 300)
        for nm, z, isint, lo, hi in self.e.vars:
            if lo is not None:
                s.add(z >= zval(lo, isint))
            if hi is not None:
                s.add(z <= zval(hi, isint))
        s.add(neg)
        r = self._run(s)
        if r != z3.unsat:
            r = self.e.narrow(neg) or r
        if r != z3.unsat and self.e.rules:
            s = z3.SimpleSolver()
            s.set('timeout', 700)
            for c in self.e.constraints:
                s.add(c)
            s.add(neg)
            r = self._run(s)
        if r == z3.unsat:
            st.discharged += 1
            return True
        s = self.fresh_solver(self.e.check_timeout_ms)
        s.add(neg)
        r = self._run(s)
        if r == z3.unsat:
            st.discharged += 1
            return True
        if r == z3.sat:
            self.found.append((label, detail, self.model_inputs(self.nice_model(neg, s.model()))))
            raise Violation(label)
        # unknown: look for a counterexample on a random slice of the inputs
        m = self.slice_search(neg)
        if m is not None:
            self.found.append((label, detail, m))
            raise Violation(label)
        self.inconclusive.append(label)
        return False

    def nice_model(self, neg, m):
        """try to move the counterexample away from degenerate values"""
        return m

    def slice_search(self, neg, tries=6):
        rng = random.Random(self.e.seed)
        for t in range(tries):
            s = self.fresh_solver(3000)
            s.add(neg)
            names = []
            for name, (shape, dt, xs) in self.e.inputs.items():
                for x in xs:
                    if isinstance(x, S):
                        names.append(x)
            free = set(rng.sample(range(len(names)), min(len(names), 1 if t % 2 else 2)))
            for i, x in enumerate(names):
                if i in free:
                    continue
                (mm,) = x.n.keys()
                nm, z, isint, lo, hi = self.e.vars[mm[0]]
                lo_ = -1 if lo is None else lo
                hi_ = 1 if hi is None else hi
                if isint:
                    continue
                v = lo_ + (hi_ - lo_) * Fraction(rng.randint(1, 63), 64)
                s.add(z == zval(Fraction(v)))
            r = self._run(s)
            if r == z3.sat:
                return self.model_inputs(s.model())
        return None

    # -- assertions
    def check(self, label, c):
        if isinstance(c, np.ndarray):
            c = np.all(wrap(c))
        return self.decide(label, z3.Not(tobool(c)))

    def eq(self, label, a, b):
        a, b = np.asarray(dense(a)) if not isinstance(a, np.ndarray) else a, np.asarray(dense(b)) if not isinstance(b, np.ndarray) else b
        a, b = wrap(a), wrap(b)
        if a.shape != b.shape:
            return self.decide(label, z3.BoolVal(True), 'shapes %s vs %s' % (a.shape, b.shape))
        negs = []
        for x, y in zip(a.view_raw().ravel().tolist(), b.view_raw().ravel().tolist()):
            if is_sym(x) or is_sym(y):
                if isinstance(x, SBool) or isinstance(y, SBool):
                    negs.append(tobool(truth(x != y)))
                else:
                    d = S.of(x) - S.of(y)
                    negs.append(cmp0(d, 'ne'))
            elif x != y:
                negs.append(z3.BoolVal(True))
        return self.decide(label, z3.Or(negs) if negs else z3.BoolVal(False))

    def close(self, label, a, b, tol=1e-6, scale=1.0):
        a, b = dense(a), dense(b)
        a, b = wrap(a), wrap(b)
        if a.shape != b.shape:
            if a.ndim == 0 or b.ndim == 0:
                q = np.broadcast_arrays(a.view_raw(), b.view_raw())
                a, b = wrap(q[0]), wrap(q[1])
            else:
                return self.decide(label, z3.BoolVal(True), 'shapes %s vs %s' % (a.shape, b.shape))
        negs = []
        nl = False
        for x, y in zip(a.view_raw().ravel().tolist(), b.view_raw().ravel().tolist()):
            if not is_sym(x) and not is_sym(y):
                if not (abs(x - y) <= tol * scale + 1e-9 * max(abs(x), abs(y))):
                    negs.append(z3.BoolVal(True))
                continue
            z, lin = self.differs(S.of(x), S.of(y), tol * scale)
            if z is not None:
                if lin:
                    negs.append(z)
                else:
                    self.decide(label, z)
        return self.decide(label, z3.Or(negs) if negs else z3.BoolVal(False))

    def mono_bound(self, m):
        b = 1.0
        for v in m:
            name, z, isint, lo, hi = self.e.vars[v]
            if lo is None or hi is None:
                return None
            b *= max(abs(lo), abs(hi))
        return b

    def differs(self, x, y, tol):
        """z3 condition |x-y| > tol (None when the difference is within rounding of zero), is it linear"""
        na, nb, d = x._common(y)
        p = padd(na, nb, -1)
        mag = max([abs(c) for c in na.values()] + [abs(c) for c in nb.values()] + [0])
        drop = 0.0
        clean = {}
        for m, c in p.items():
            if abs(c) <= 1e-11 * mag or (abs(c) < 1e-13 and d is None):
                mb = self.mono_bound(m)
                if mb is not None and d is None:
                    drop += float(abs(c)) * mb
                continue
            clean[m] = c
        if not clean:
            return None, True
        t = tol - drop
        if t <= 0:
            t = tol / 2
        lin = all(len(m) <= 1 for m in clean)
        if d is None:
            z = poly_z3(clean)
            if z.is_int():
                z = z3.ToReal(z)
            tz = zval(Fraction(t).limit_denominator(10 ** 12))
            return z3.Or(z > tz, z < -tz), lin
        z = poly_z3(clean)
        den = S({(): 1}, d).den_poly()
        dz = poly_z3(den)
        if z.is_int():
            z = z3.ToReal(z)
        if dz.is_int():
            dz = z3.ToReal(dz)
        tz = zval(Fraction(t).limit_denominator(10 ** 12))
        return z3.And(dz != 0, z * z > tz * tz * dz * dz), False

    def leq(self, label, a, b, tol=1e-6):
        q = np.broadcast_arrays(wrap(a).view_raw(), wrap(b).view_raw())
        negs = []
        for x, y in zip(q[0].ravel().tolist(), q[1].ravel().tolist()):
            d = S.of(x) - S.of(y) - num(tol)
            c = d.const()
            if c is not None:
                negs.append(z3.BoolVal(c > 0))
            else:
                negs.append(z3.Not(cmp0(d, 'le')))
        return self.decide(label, z3.Or(negs) if negs else z3.BoolVal(False))

    def note(self, s):
        self.meta.setdefault('notes', []).append(s)
