"""registry of obligations of one property module"""


class Registry:
    def __init__(self, pid, bounds, assumptions=(), extra_modules=()):
        self.pid = pid
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.extra_modules = extra_modules
        self.obs = {}

    def ob(self, name, *args, tier='quick', paths=20000, timeout=150, check_ms=20000, **kw):
        """register  f(ctx, *args, **kw)  as obligation `name`"""
        def deco(f):
            if name in self.obs:
                raise ValueError('duplicate obligation ' + name)
            self.obs[name] = dict(f=f, args=args, kw=kw, tier=tier, paths=paths, timeout=timeout, check_ms=check_ms)
            return f
        return deco

    def family(self, fmt, params, tier='quick', **opt):
        def deco(f):
            for p in params:
                if not isinstance(p, tuple):
                    p = (p,)
                self.ob(fmt.format(*p), *p, tier=tier, **opt)(f)
            return f
        return deco
