"""helpers shared by the harnesses; everything here is the independent oracle side (plain python)"""
import itertools

import numpy as np




def rows(a):
    """nested python lists of an array (symbolic or concrete)"""
    if isinstance(a, np.ndarray) and type(a).__name__ == 'SymArr':
        return a.view_raw().tolist()
    return np.asarray(a).tolist()


def same(a, b):
    """concrete truth of equality (forks / decided by the solver when symbolic)"""
    return bool(a == b)


def perm_sign(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


def match(src, dst):
    """permutation q with src[q[i]] == dst[i], or None"""
    q = []
    for d in dst:
        hit = [i for i, s in enumerate(src) if same(s, d)]
        if len(hit) != 1:
            return None
        q.append(hit[0])
    return q if len(set(q)) == len(q) else None


def dense(m):
    a = m.toarray() if hasattr(m, 'toarray') else m
    return a


def imat(m):
    """concrete integer entries of a (sparse) matrix as nested lists"""
    a = dense(m)
    if type(a).__name__ == 'SymArr':
        a = a.plain()
    return np.asarray(a).astype(int)


def sym_vector(ctx, name, n, lo=-1, hi=1):
    return ctx.real(name, (n,), lo, hi)


def apply(m, x):
    """matrix (scipy sparse / dense) times vector"""
    return m * x if hasattr(m, 'tocsr') else np.dot(m, x)


def zeros(n):
    return np.zeros(n)


def plain(a):
    """concrete numpy array (for values that do not depend on the inputs)"""
    a = dense(a)
    if type(a).__name__ == 'SymArr':
        return a.plain()
    return np.asarray(a)
