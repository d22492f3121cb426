"""Symbolic scalars (rational functions over z3 variables), path forking, solver bookkeeping.

Semantics: integers are mathematical, reals are exact (float constants of the code are read as the
simple rational they round, see `num`), and every fork on a symbolic condition is decided by z3.
"""
import math
import time
from fractions import Fraction

import numpy as _np
import z3


class Unsupported(Exception):
    """The symbolic model does not cover an operation the code performed"""


class PathAbort(BaseException):
    """path-steering: this path is not to be explored further"""


class Infeasible(PathAbort):
    pass


class Budget(PathAbort):
    pass


# ----------------------------------------------------------------------------------------
# numbers

def num(x):
    """exact rational denoted by a concrete number of the code"""
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf meets a symbolic value')
        if x == int(x):
            return int(x)
        f = Fraction(x)
        g = f.limit_denominator(100000)
        if abs(float(g) - x) <= 4e-16 * max(abs(x), 1e-3):
            return g
        return f
    raise Unsupported('not a number: %r' % (type(x),))


def is_number(x):
    return isinstance(x, (bool, int, float, Fraction, _np.bool_, _np.integer, _np.floating))


# ----------------------------------------------------------------------------------------
# polynomials: dict monomial(tuple of sorted var ids, repeated) -> int/Fraction

def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, s):
    if s == 0:
        return {}
    if s == 1:
        return a
    return {m: c * s for m, c in a.items()}


def pmul(a, b):
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    n = len(a) * len(b)
    if n > 400000:
        raise Unsupported('polynomial blow-up')
    for m, c in a.items():
        for k, d in b.items():
            if not m:
                q = k
            elif not k:
                q = m
            else:
                q = tuple(sorted(m + k))
            v = r.get(q, 0) + c * d
            if v == 0:
                r.pop(q, None)
            else:
                r[q] = v
    return r


def ppow(a, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(a):
    return frozenset(a.items())


def pconst(a):
    """value if constant polynomial else None"""
    if not a:
        return 0
    if len(a) == 1 and () in a:
        return a[()]
    return None


def pdivexact(a, b):
    """a / b if exact (multivariate, lex order), else None"""
    if not a:
        return {}
    lb = max(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    # a quick necessary test on degrees
    for _ in range(200):
        if not r:
            return q
        lr = max(r)
        # monomial division lr / lb
        rem = list(lr)
        try:
            for v in lb:
                rem.remove(v)
        except ValueError:
            return None
        m = tuple(rem)
        c = Fraction(r[lr]) / cb
        c = num(c)
        q[m] = q.get(m, 0) + c
        r = padd(r, pmul({m: c}, b), -1)
        if r and max(r) >= lr:
            return None
    return None


# ----------------------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.paths = 0
        self.infeasible_paths = 0
        self.checks = 0
        self.discharged = 0
        self.terms = 0

    def as_dict(self):
        return dict(self.__dict__)


_VN, _VS = {}, {}


def varnames(e):
    """names of the constants of a z3 term"""
    k = e.get_id()
    if k in _VN and _VN[k][0].eq(e):
        return _VN[k][1]
    r = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ch = x.children()
        if not ch:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(str(x))
        st.extend(ch)
    if len(_VN) > 20000:
        _VN.clear()
        _VS.clear()
    _VN[k] = (e, r)
    _VS[k] = len(seen)
    return r


class Engine:
    """one symbolic exploration (all paths of one obligation)"""
    cur = None

    def __init__(self, seed=1, check_timeout_ms=20000, fork_timeout_ms=4000):
        self.stats = Stats()
        self.seed = seed
        self.check_timeout_ms = check_timeout_ms
        self.fork_timeout_ms = fork_timeout_ms
        self.assumed_nonzero = set()
        self.uf_used = set()
        self.reset_path([])

    # -- path state
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []          # list of (taken, alternative_open)
        self.vars = []           # (name, z3 const, is_int, lo, hi)
        self.roots = []          # (radicand, variable)
        self.rules = {}          # var id -> S : square of the variable
        self.inputs = {}         # name -> (shape, kind, [S...])
        self.hc = {}             # hash-cons table for derived variables
        self.bcache = {}
        self.zcache = {}
        self.constraints = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.fork_timeout_ms)
        self.solver.set('random_seed', self.seed)
        self.nonzero_keys = set()
        self.div_mode = 'assume'
        self.fork_signs = False
        self.fork_extremes = False
        self.fork_floors = False

    # -- variables
    def new_var(self, name, is_int=False, lo=None, hi=None):
        i = len(self.vars)
        z = (z3.Int if is_int else z3.Real)('%s!%d' % (name, i))
        self.vars.append((name, z, is_int, lo, hi))
        if lo is not None:
            self.add(z >= zval(lo, is_int))
        if hi is not None:
            self.add(z <= zval(hi, is_int))
        return i

    def var(self, name, is_int=False, lo=None, hi=None):
        i = self.new_var(name, is_int, lo, hi)
        return S({(i,): 1})

    def add(self, c):
        self.constraints.append(c)
        self.solver.add(c)

    def _check(self, *extra, timeout=None):
        t = time.time()
        self.solver.set('timeout', timeout or self.fork_timeout_ms)
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def quick_unsat(self, cond, ms=400):
        """is the condition impossible on this path (cheap attempt; False means not shown)"""
        q = z3.SimpleSolver()
        q.set('timeout', ms)
        for c in self.constraints:
            q.add(c)
        q.add(cond)
        return self.counted(q) == z3.unsat

    def narrow(self, cond):
        """unsat when a condition on a single real variable contradicts the constraints on that variable alone, else None"""
        if not self.rules:
            return None
        names = varnames(cond)
        if len(names) != 1:
            return None
        q = z3.Tactic('qfnra-nlsat').solver()
        q.set('timeout', 2000)
        for x in self.constraints:
            if varnames(x) <= names and _VS.get(x.get_id(), 0) <= 200:
                q.add(x)
        if _VS.get(cond.get_id(), 0) > 200:
            return None
        q.add(cond)
        try:
            return z3.unsat if self.counted(q) == z3.unsat else None
        except z3.Z3Exception:
            return None

    def known_sign(self, s):
        """1 / -1 when s >= 0 / s <= 0 can be shown on this path; with fork_signs, the path is split when it is not known"""
        aux = self.rules
        if not any(v in aux for m in s.n for v in m) and not (s.d and any(v in aux for p, _ in s.d.values() for m in p for v in m)):
            # only the inputs matter
            vs = {v for m in s.n for v in m} | {v for p, _ in (s.d or {}).values() for m in p for v in m}
            names = {str(self.vars[v][1]) for v in vs}
            if len(names) == 1:
                cs = [c for c in self.constraints if varnames(c) <= names and _VS.get(c.get_id(), 0) <= 200]
                for g, c in ((1, cmp0(s, 'lt')), (-1, cmp0(-s, 'lt'))):
                    q = z3.Tactic('qfnra-nlsat').solver()
                    q.set('timeout', 2000)
                    for x in cs:
                        q.add(x)
                    q.add(c)
                    r = self.counted(q)
                    if r == z3.unsat:
                        return g
            else:
                names = None
        else:
            names = None
        if names is None:
            if self.quick_unsat(cmp0(s, 'lt')):
                return 1
            if self.quick_unsat(cmp0(-s, 'lt')):
                return -1
        if self.fork_signs:
            return 1 if self.fork(z3.Not(cmp0(s, 'lt'))) else -1
        return None

    def counted(self, q):
        t = time.time()
        r = q.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def fork(self, cond):
        """decide a symbolic condition on this path"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.bcache:
            return self.bcache[key][0]
        neg = z3.Not(cond)
        i = len(self.trace)
        if i < len(self.prefix):
            taken, alt = self.prefix[i]
        else:
            self.stats.forks += 1
            rt = self.narrow(cond) or self._check(cond)
            if rt == z3.unsat:
                taken, alt = False, False
            else:
                rf = self.narrow(neg) or self._check(neg)
                if rf == z3.unsat:
                    taken, alt = True, False
                else:
                    taken, alt = True, True
        self.trace.append((taken, alt))
        self.add(cond if taken else neg)
        self.bcache[key] = (taken, cond)
        kn = z3.simplify(neg)
        self.bcache[kn.get_id()] = (not taken, kn)
        return taken

    def concretize(self, s):
        """force an integer symbolic value to a concrete one, exploring all feasible values"""
        c = s.const()
        if c is not None:
            return int(c)
        if not s.is_int():
            raise Unsupported('a symbolic real is forced to an integer')
        z = s.z3()
        key = ('conc', pkey(s.n))
        if key in self.hc:
            return self.hc[key]
        while True:
            i = len(self.trace)
            if i < len(self.prefix) and len(self.prefix[i]) == 3:
                v = self.prefix[i][2]
            else:
                r = self._check()
                if r != z3.sat:
                    raise Infeasible() if r == z3.unsat else Unsupported('unknown while concretising')
                v = self.solver.model().eval(z, model_completion=True).as_long()
            if i < len(self.prefix):
                taken, alt = self.prefix[i][:2]
            else:
                self.stats.forks += 1
                taken = True
                alt = self._check(z != v) != z3.unsat
            self.trace.append((taken, alt, v))
            if taken:
                self.add(z == v)
                self.hc[key] = v
                return v
            self.add(z != v)


def zval(x, is_int=False):
    x = num(x)
    if isinstance(x, int):
        return z3.IntVal(x) if is_int else z3.RealVal(x)
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))


def E():
    e = Engine.cur
    if e is None:
        raise Unsupported('no engine')
    return e


def poly_is_int(p):
    vs = E().vars
    for m, c in p.items():
        if not isinstance(c, int):
            return False
        for v in m:
            if not vs[v][2]:
                return False
    return True


def poly_z3(p):
    e = E()
    k = pkey(p)
    if k in e.zcache:
        return e.zcache[k]
    isint = poly_is_int(p)
    vs = e.vars
    terms = []
    for m in sorted(p):
        c = p[m]
        zs = []
        for v in m:
            z = vs[v][1]
            if vs[v][2] and not isint:
                z = z3.ToReal(z)
            zs.append(z)
        if c != 1 or not zs:
            zs.insert(0, zval(c, isint))
        t = zs[0]
        for q in zs[1:]:
            t = t * q
        terms.append(t)
    e.stats.terms += len(terms)
    if not terms:
        r = z3.IntVal(0) if isint else z3.RealVal(0)
    elif len(terms) == 1:
        r = terms[0]
    else:
        r = z3.Sum(terms)
    e.zcache[k] = r
    return r


_ONE = {(): 1}


class S:
    """symbolic number: polynomial numerator over factored polynomial denominator"""
    __slots__ = ('n', 'd')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or None      # dict key -> (poly, power)

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, SBool):
            return x.as_num()
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return S.of(x.item())
        c = num(x)
        return S({(): c} if c != 0 else {})

    def const(self):
        if self.d is None:
            return pconst(self.n)
        return 0 if not self.n else None

    def is_int(self):
        return self.d is None and poly_is_int(self.n)

    def den_poly(self):
        p = _ONE
        if self.d:
            for q, k in self.d.values():
                p = pmul(p, ppow(q, k))
        return p

    def z3(self):
        if self.d is None:
            return poly_z3(self.n)
        n = poly_z3(self.n)
        d = poly_z3(self.den_poly())
        if n.is_int():
            n = z3.ToReal(n)
        if d.is_int():
            d = z3.ToReal(d)
        return n / d

    # -- arithmetic
    def _common(a, b):
        """numerators over the common denominator"""
        if a.d is None and b.d is None:
            return a.n, b.n, None
        da, db = a.d or {}, b.d or {}
        if da.keys() == db.keys() and all(da[k][1] == db[k][1] for k in da):
            return a.n, b.n, a.d
        na, nb = a.n, b.n
        d = dict(da)
        for k, (p, e) in db.items():
            ea = da[k][1] if k in da else 0
            if e > ea:
                na = pmul(na, ppow(p, e - ea))
                d[k] = (p, e)
        for k, (p, e) in da.items():
            eb = db[k][1] if k in db else 0
            if e > eb:
                nb = pmul(nb, ppow(p, e - eb))
        return na, nb, d

    def __add__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__radd__')
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        if self.d is None and o.d is None:
            return S(padd(self.n, o.n))
        if not o.n:
            return self
        if not self.n:
            return o
        na, nb, d = self._common(o)
        return mk(padd(na, nb), d)
    __radd__ = __add__

    def __neg__(self):
        return S(pscale(self.n, -1), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__rsub__')
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        if self.d is None and o.d is None:
            return S(padd(self.n, o.n, -1))
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__sub__')
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o - self

    def __mul__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__rmul__')
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        if not self.n or not o.n:
            return S({})
        n = pmul(self.n, o.n)
        if self.d is None and o.d is None:
            return reduce_rules(S(n))
        d = dict(self.d or {})
        for k, (p, e) in (o.d or {}).items():
            d[k] = (p, e + (d[k][1] if k in d else 0))
        return reduce_rules(mk(n, d))
    __rmul__ = __mul__

    def inverse(self):
        e = E()
        c = self.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError
            return S({(): num(Fraction(1) / c)}, None) * S(self.den_poly())
        # numerator becomes denominator
        note_nonzero(self.n)
        d = {}
        scale = factor_into(self.n, d)
        r = mk({(): num(Fraction(1) / scale)}, d)
        if self.d:
            r = r * S(self.den_poly())
        return r

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__rtruediv__')
        if not isinstance(o, S):
            if is_number(o):
                c = num(o)
                if c == 0:
                    if not self.n:
                        return float('nan')
                    raise Unsupported('symbolic value divided by zero')
                return S(pscale(self.n, num(Fraction(1) / c)), self.d)
            o = _coerce(o)
            if o is NotImplemented:
                return o
        c = o.const()
        if c is not None:
            if c == 0:
                if not self.n:
                    return float('nan')
                raise Unsupported('symbolic value divided by zero')
            return S(pscale(self.n, num(Fraction(1) / c)), self.d)
        return self * o.inverse()

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__truediv__')
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, k, mod=None):
        if isinstance(k, _np.ndarray):
            return _arr(self, k, '__rpow__')
        if isinstance(k, S):
            k = k.const()
            if k is None:
                raise Unsupported('symbolic exponent')
        k = num(k)
        if isinstance(k, int):
            if k >= 0:
                r = S.of(1)
                for _ in range(k):
                    r = r * self
                return r
            return (self ** (-k)).inverse()
        if k.denominator == 2:
            r = self.sqrt()
            return r ** int(k.numerator)
        return uf('pow[%s]' % k, self)

    def __rpow__(self, o):
        return uf('exp[%s]' % (o,), self)

    def __floordiv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__rfloordiv__')
        return self.divmod(o)[0]

    def __mod__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__rmod__')
        return self.divmod(o)[1]

    def __rfloordiv__(self, o):
        return S.of(o).divmod(self)[0]

    def __rmod__(self, o):
        return S.of(o).divmod(self)[1]

    def divmod(self, o):
        o = S.of(o).const()
        if o is None or o <= 0:
            raise Unsupported('symbolic or non-positive divisor in floor division')
        c = self.const()
        if c is not None:
            q = S.of(math.floor(Fraction(c) / Fraction(o)))
            return q, self - q * o
        e = E()
        key = ('floor', pkey((self / o).n), dkey(self))
        if key in e.hc:
            q = e.hc[key]
        else:
            q = e.var('floor', True)
            e.hc[key] = q
            t = (self / o)
            e.add(z3.And(ge0(t - q), gt0(q + 1 - t)))
            if e.fork_floors:
                q = e.hc[key] = S.of(int(q))
        return q, self - q * o

    def __divmod__(self, o):
        return self.divmod(o)

    def __floor__(self):
        return self.divmod(1)[0]

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        return ite(self >= 0, self.__floor__(), self.__ceil__())

    def __round__(self, n=0):
        raise Unsupported('round')

    def __abs__(self):
        c = self.const()
        if c is not None:
            return S.of(abs(c))
        e = E()
        key = ('abs', min(skey(self), skey(-self)))
        if key in e.hc:
            return e.hc[key]
        if not self.is_int():
            g = e.known_sign(self)
            if g is not None:
                r = self if g > 0 else -self
                e.hc[key] = r
                return r
        a = e.var('abs', self.is_int(), 0)
        z = self.z3()
        az = a.z3()
        e.add(z3.Or(z3.And(z >= 0, az == z), z3.And(z <= 0, az == -z)))
        sq = self * self
        e.rules[a_id(a)] = sq
        e.hc[key] = a
        return a
    fabs = __abs__

    def sqrt(self):
        c = self.const()
        e = E()
        if c is not None:
            if c < 0:
                raise Unsupported('sqrt of a negative constant')
            f = Fraction(c)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return S.of(Fraction(a, b))
        key = ('sqrt', skey(self))
        if key in e.hc:
            return e.hc[key]
        # perfect square of a polynomial?
        s = perfect_sqrt(self)
        if s is not None:
            r = abs(s)
            e.hc[key] = r
            return r
        # a known root times a perfect square?
        if len(self.n) <= 400:
            for r, v in e.roots[-60:]:
                if len(r.n) > len(self.n) and self.d is None:
                    continue
                q = self / r
                s = S.of(1) if q.const() == 1 else perfect_sqrt(q)
                if s is not None:
                    r = abs(s) * v
                    e.hc[key] = r
                    return r
            if e.fork_signs:
                rs = e.roots[-40:]
                for i in range(len(rs)):
                    qi = self / rs[i][0]
                    for j in range(i):
                        q = qi / rs[j][0]
                        s = S.of(1) if q.const() == 1 else perfect_sqrt(q)
                        if s is not None:
                            r = abs(s) * rs[i][1] * rs[j][1]
                            e.hc[key] = r
                            return r
        v = e.var('sqrt', False, 0)
        e.roots.append((self, v))
        if c is None:
            # definedness is an assumption of the real-number reading
            e.add(ge0(self))
        zn, zd = poly_z3(self.n), poly_z3(self.den_poly())
        e.add(v.z3() * v.z3() * zd == zn)
        e.rules[a_id(v)] = self
        e.hc[key] = v
        return v

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def rint(self):
        raise Unsupported('rint')

    def __getattr__(self, name):
        if name in UFS:
            return lambda *a: uf(name, self, *a)
        if name == 'real':
            return self
        if name == 'imag':
            return 0
        if name in ('shape',):
            return ()
        if name in ('ndim',):
            return 0
        if name in ('size',):
            return 1
        if name == 'T':
            return self
        raise AttributeError(name)

    __iter__ = None

    def __getitem__(self, key):
        from vsym.arr import wrap
        return wrap(self)[key]

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, {'lt': '__gt__', 'le': '__ge__', 'eq': '__eq__', 'ne': '__ne__'}[op])
        if not isinstance(o, S):
            if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
                if o != o:
                    return op == 'ne'
                return {'lt': o > 0, 'le': o > 0, 'eq': False, 'ne': True}[op]
            try:
                o = _coerce(o)
            except Unsupported:
                return NotImplemented
            if o is NotImplemented:
                return {'eq': False, 'ne': True}.get(op, o)
        d = self - o
        c = d.const()
        if c is not None:
            return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op]
        return SBool(cmp0(d, op))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__lt__')
        if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            return bool(o < 0)
        o = _coerce(o)
        return o if o is NotImplemented else o < self

    def __ge__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr(self, o, '__le__')
        if isinstance(o, (float, _np.floating)) and not math.isfinite(o):
            return bool(o < 0)
        o = _coerce(o)
        return o if o is NotImplemented else o <= self

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, 'ne')

    def __hash__(self):
        # a set or a dictionary needs that equal values have the same hash
        c = self.const()
        if c is not None:
            return hash(c)
        if self.is_int():
            return hash(E().concretize(self))
        raise Unsupported("a symbolic real in a set or as a key")

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return E().fork(cmp0(self, 'ne'))

    def __index__(self):
        return E().concretize(self)
    __int__ = __index__

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        if self.is_int():
            return float(E().concretize(self))
        raise Unsupported('a symbolic real is forced to a float')

    def astype(self, dt):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def all(self):
        return self != 0
    any = all

    def __repr__(self):
        try:
            return 'S(%s)' % (str(self.z3())[:60].replace('\n', ' '),)
        except Exception:
            return 'S(?)'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


UFS = {'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'exp', 'log', 'log2', 'log10',
       'sinh', 'cosh', 'tanh', 'cbrt', 'expm1', 'log1p', 'hypot', 'deg2rad', 'rad2deg'}


def a_id(s):
    (m,) = s.n.keys()
    return m[0]


def dkey(s):
    return frozenset((k, e) for k, (p, e) in s.d.items()) if s.d else None


def skey(s):
    # total order not needed for hashing; use hash for min() tie-breaks
    k = (pkey(s.n), dkey(s))
    return _Key(k)


class _Key:
    __slots__ = ('k', 'h')

    def __init__(self, k):
        self.k = k
        self.h = hash(k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.k == o.k

    def __lt__(self, o):
        return self.h < o.h


def uf(name, *args):
    """uninterpreted function, hash-consed"""
    e = E()
    args = [S.of(a) for a in args]
    cs = [a.const() for a in args]
    if all(c is not None for c in cs) and hasattr(_np, name):
        return S.of(float(getattr(_np, name)(*[float(c) for c in cs])))
    key = ('uf', name) + tuple(skey(a) for a in args)
    if key in e.hc:
        return e.hc[key]
    if name in ('cos', 'sin', 'tan') and len(args[0].n) == 1 and args[0].d is None:
        ((m, c),) = args[0].n.items()
        if len(m) == 1 and c == 1 and ('acos', m[0]) in e.hc:
            x = e.hc['acos', m[0]]
            if name == 'cos':
                return x
            y = (S.of(1) - x * x).sqrt()
            return y if name == 'sin' else y / x
    e.uf_used.add(name)
    if name == 'arccos':
        v = e.var(name, False, 0, 3.1415927)
        e.hc[key] = v
        e.hc['acos', a_id(v)] = args[0]
        return v
    if name in ('sin', 'cos'):
        v = e.var(name, False, -1, 1)
        e.hc[key] = v
        other = ('uf', 'cos' if name == 'sin' else 'sin') + tuple(skey(a) for a in args)
        if other in e.hc:
            # sin^2 = 1 - cos^2
            e.rules[a_id(v)] = S.of(1) - e.hc[other] * e.hc[other]
            e.add(v.z3() * v.z3() + e.hc[other].z3() * e.hc[other].z3() == 1)
        return v
    lo, hi = {'arccos': (0, None), 'exp': (0, None)}.get(name, (None, None))
    v = e.var(name, False, lo, hi)
    e.hc[key] = v
    return v


def factor_into(p, d):
    """add polynomial p as factors to denominator dict d; returns scalar such that p = scalar*prod"""
    # monomial content
    ms = list(p)
    common = list(ms[0])
    for m in ms[1:]:
        mm = list(m)
        new = []
        for v in common:
            if v in mm:
                mm.remove(v)
                new.append(v)
        common = new
        if not common:
            break
    if common:
        q = {}
        for m, c in p.items():
            mm = list(m)
            for v in common:
                mm.remove(v)
            q[tuple(mm)] = c
        p = q
        for v in common:
            f = {(v,): 1}
            k = pkey(f)
            d[k] = (f, d[k][1] + 1 if k in d else 1)
    c = pconst(p)
    if c is not None:
        return c
    lead = p[max(p)]
    if lead != 1:
        p = {m: num(Fraction(v) / lead) for m, v in p.items()}
    k = pkey(p)
    d[k] = (p, d[k][1] + 1 if k in d else 1)
    return lead


def univariate(p):
    """the only variable of a polynomial (-1 for constants, None when there are several)"""
    v = -1
    for m in p:
        if m:
            if v < 0:
                v = m[0]
            if m[0] != v or m[-1] != v:
                return None
    return v


def pscale(p, c):
    return {m: num(x * c) for m, x in p.items()}


def ugcd(a, b, v):
    """monic greatest common divisor of two univariate polynomials, None when it is constant"""
    def dense_(p):
        r = [Fraction(0)] * (max(len(m) for m in p) + 1)
        for m, c in p.items():
            r[len(m)] = Fraction(c)
        return r
    a, b = dense_(a), dense_(b)
    if len(a) > 60 or len(b) > 60:
        return None
    while b:
        if len(a) >= len(b):
            while len(a) >= len(b):
                f = a[-1] / b[-1]
                o = len(a) - len(b)
                for i, c in enumerate(b):
                    a[o + i] -= f * c
                while a and a[-1] == 0:
                    a.pop()
        a, b = b, a
    if len(a) <= 1:
        return None
    l = a[-1]
    return {(v,) * i: num(c / l) for i, c in enumerate(a) if c}


def mk(n, d):
    """normalise: cancel denominator factors dividing the numerator"""
    if not n:
        return S({})
    if not d:
        return S(n)
    out = {}
    for k, (p, e) in d.items():
        while e > 0:
            if len(n) * len(p) > 20000:
                break
            q = pdivexact(n, p)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out[k] = (p, e)
    v = univariate(n)
    if v is not None and v >= 0:
        for k, (p, e) in list(out.items()):
            if univariate(p) != v:
                continue
            while e > 0:
                g = ugcd(n, p, v)
                if g is None:
                    break
                n = pdivexact(n, g)
                q = pdivexact(p, g)
                e -= 1
                if e:
                    out[k] = (p, e)
                else:
                    del out[k]
                c = pconst(q)
                if c is not None:
                    n = pscale(n, 1 / Fraction(c))
                else:
                    lc = Fraction(q[max(q, key=len)])
                    q = pscale(q, 1 / lc)
                    n = pscale(n, 1 / lc)
                    kq = pkey(q)
                    out[kq] = (q, out[kq][1] + 1 if kq in out else 1)
                if k not in out:
                    break
                e = out[k][1]
    eng = Engine.cur
    if eng is not None and eng.rules:
        for k, (p, e) in out.items():
            if e >= 2 and len(p) == 1:
                ((m, c),) = p.items()
                if len(m) == 1 and c == 1 and m[0] in eng.rules:
                    # a squared root in the denominator
                    d2 = dict(out)
                    if e > 2:
                        d2[k] = (p, e - 2)
                    else:
                        del d2[k]
                    return mk(n, d2) / eng.rules[m[0]]
    return S(n, out)


def reduce_rules(s):
    """replace squares of root-like variables by their radicand"""
    e = Engine.cur
    if e is None or not e.rules:
        return s
    rules = e.rules
    hit = None
    for m in s.n:
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in rules:
                hit = m[i]
                break
        if hit is not None:
            break
    if hit is None:
        return s
    r = rules[hit]
    rest, sq = {}, {}
    for m, c in s.n.items():
        k = m.count(hit)
        if k >= 2:
            mm = list(m)
            mm.remove(hit)
            mm.remove(hit)
            sq[tuple(mm)] = c
        else:
            rest[m] = c
    out = S(rest, s.d) + S(sq, s.d) * r
    return reduce_rules(out)


def perfect_sqrt(s):
    """polynomial square root for the simple cases: even monomial times constant square, or square of a
    single polynomial found by leading-term extraction"""
    if s.d is None and s.n:
        r = poly_sqrt(s.n)
        return None if r is None else S(r)
    if s.n:
        n = s.n
        d = {}
        for k, (p, e) in s.d.items():
            if e % 2:
                if len(n) * len(p) > 2000:
                    return None
                n = pmul(n, p)
            d[k] = (p, (e + 1) // 2)
        r = poly_sqrt(n)
        if r is None:
            return None
        return mk(r, d)
    return None


def poly_sqrt(p):
    def csq(c):
        f = Fraction(c)
        if f < 0:
            return None
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return num(Fraction(a, b))
        return None
    if len(p) > 200:
        return None
    lead = max(p, key=lambda m: (len(m), m))
    c = csq(p[lead])
    if c is None or len(lead) % 2 or any(lead.count(v) % 2 for v in set(lead)):
        return None
    half = tuple(sorted(v for v in set(lead) for _ in range(lead.count(v) // 2)))
    r = {half: c}
    rem = padd(p, pmul(r, r), -1)
    for _ in range(60):
        if not rem:
            return r
        m = max(rem, key=lambda m: (len(m), m))
        mm = list(m)
        try:
            for v in half:
                mm.remove(v)
        except ValueError:
            return None
        t = {tuple(mm): num(Fraction(rem[m]) / (2 * c))}
        if tuple(mm) in r:
            return None
        r = padd(r, t)
        rem = padd(p, pmul(r, r), -1)
    return None


def note_nonzero(p):
    e = E()
    k = pkey(p)
    if k in e.nonzero_keys:
        return
    e.nonzero_keys.add(k)
    c = poly_z3(p) != 0
    if e.div_mode == 'fork':
        if not e.fork(c):
            raise ZeroDivisionError('symbolic divisor can be zero')
    else:
        e.add(c)
        e.assumed_nonzero.add(len(p))


def cmp0(s, op):
    """z3 condition  s op 0"""
    if s.d is None:
        p = s.n
    else:
        p = s.n
        for q, k in s.d.values():
            if k % 2:
                p = pmul(p, q)
        if op in ('eq', 'ne'):
            p = s.n
    # normalise the sign/scale so that equal conditions share a term
    z = poly_z3(p)
    return {'lt': z < 0, 'le': z <= 0, 'eq': z == 0, 'ne': z != 0}[op]


def ge0(s):
    return cmp0(-s, 'le')


def gt0(s):
    return cmp0(-s, 'lt')


def _coerce(o):
    if isinstance(o, S):
        return o
    if isinstance(o, SBool):
        return o.as_num()
    if is_number(o):
        return S.of(o)
    if isinstance(o, z3.ExprRef):
        raise Unsupported('z3 expression in arithmetic')
    return NotImplemented


def _arr(self, o, op):
    from vsym.arr import wrap
    return getattr(wrap(o), op)(self)


class SBool:
    __slots__ = ('z',)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E().fork(self.z)

    def as_num(self):
        e = E()
        z = z3.simplify(self.z)
        if z3.is_true(z):
            return S.of(1)
        if z3.is_false(z):
            return S({})
        key = ('bool', z.get_id())
        if key not in e.hc:
            v = e.var('bool', True, 0, 1)
            e.add((v.z3() == 1) == z)
            e.hc[key] = v
            e.hc[('keep', z.get_id())] = z
            e.rules[a_id(v)] = v     # idempotent
        return e.hc[key]

    def _b(self, o, f):
        if isinstance(o, _np.ndarray):
            from vsym.arr import wrap
            name = {z3.And: '__and__', z3.Or: '__or__', z3.Xor: '__xor__'}[f]
            return getattr(wrap(o), name)(self)
        if isinstance(o, SBool):
            return SBool(f(self.z, o.z))
        if isinstance(o, (bool, _np.bool_)):
            return SBool(z3.simplify(f(self.z, z3.BoolVal(bool(o)))))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return ~(self ^ o)
        return self.as_num() == o

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return self ^ o
        return self.as_num() != o

    def __hash__(self):
        return self.z.get_id()

    def all(self):
        return self
    any = all

    def item(self):
        return self

    def astype(self, dt):
        if _np.dtype(dt) == bool:
            return self
        return self.as_num()

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SBool(%s)' % (str(self.z)[:60],)


for _n in ['__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
           '__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__floordiv__', '__pow__']:
    setattr(SBool, _n, (lambda n: lambda self, o: getattr(self.as_num(), n)(o))(_n))
SBool.__neg__ = lambda self: -self.as_num()
SBool.__abs__ = lambda self: self.as_num()


def tobool(x):
    """anything boolean-like -> z3 Bool"""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, S):
        c = x.const()
        return z3.BoolVal(c != 0) if c is not None else cmp0(x, 'ne')
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def truth(x):
    """scalar truth value, concrete when constant"""
    if isinstance(x, SBool):
        z = z3.simplify(x.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool(z)
    if isinstance(x, S):
        c = x.const()
        return (c != 0) if c is not None else SBool(cmp0(x, 'ne'))
    return bool(x)


def ite(c, a, b):
    c = truth(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
        return SBool(z3.If(c.z, tobool(a), tobool(b)))
    a, b = S.of(a), S.of(b)
    if (a - b).const() == 0:
        return a
    e = E()
    # c known on this path?
    k = z3.simplify(c.z).get_id()
    if k in e.bcache:
        return a if e.bcache[k][0] else b
    key = ('ite', k, skey(a), skey(b))
    if key in e.hc:
        return e.hc[key]
    v = e.var('ite', a.is_int() and b.is_int())
    vz = v.z3()
    e.add(z3.And(z3.Implies(c.z, SBool(cmp0(v - a, 'eq')).z), z3.Implies(z3.Not(c.z), cmp0(v - b, 'eq'))))
    e.hc[key] = v
    e.hc[('keep', k)] = c.z
    return v


def is_sym(x):
    return isinstance(x, (S, SBool))
