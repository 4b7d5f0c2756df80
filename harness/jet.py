"""
Second-order forward-mode automatic differentiation ("jets") on numpy arrays.

Independent of the code under test: the derivative oracle for C02/C03/C09.
A Jet carries, for P scalar seeds, a value of shape S, a gradient of shape
(P,)+S and a Hessian of shape (P,P)+S.  Binary operations require operands of
equal ndim (numpy broadcasting between size-1 axes is allowed).
"""
import numpy as np


class Jet(object):
    __slots__ = ("v", "g", "h")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(v, P):
        v = np.asarray(v, dtype=float)
        return Jet(v, np.zeros((P,) + (1,) * v.ndim),
                   np.zeros((P, P) + (1,) * v.ndim))

    @property
    def P(self):
        return self.g.shape[0]

    @property
    def ndim(self):
        return self.v.ndim

    @property
    def shape(self):
        return self.v.shape

    def full(self):
        """value, gradient and Hessian broadcast to full shape"""
        S = np.broadcast_shapes(self.v.shape, self.g.shape[1:],
                                self.h.shape[2:])
        P = self.P
        return (np.broadcast_to(self.v, S),
                np.broadcast_to(self.g, (P,) + S),
                np.broadcast_to(self.h, (P, P) + S))

    def _coerce(self, o):
        if isinstance(o, Jet):
            assert o.v.ndim == self.v.ndim, (o.v.shape, self.v.shape)
            return o
        o = np.asarray(o, dtype=float)
        if o.ndim == 0:
            o = o.reshape((1,) * self.v.ndim)
        assert o.ndim == self.v.ndim, (o.shape, self.v.shape)
        return Jet.const(o, self.P)

    # -- arithmetic ----------------------------------------------------------
    def __add__(self, o):
        o = self._coerce(o)
        return Jet(self.v + o.v, self.g + o.g, self.h + o.h)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, -self.g, -self.h)

    def __sub__(self, o):
        return self + (-self._coerce(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._coerce(o)
        v = self.v * o.v
        g = self.g * o.v + self.v * o.g
        cross = self.g[:, None] * o.g[None, :]
        h = self.h * o.v + self.v * o.h + cross + np.swapaxes(cross, 0, 1)
        return Jet(v, g, h)
    __rmul__ = __mul__

    def unary(self, f, df, d2f):
        v = self.v
        d, d2 = df(v), d2f(v)
        return Jet(f(v), d * self.g,
                   d * self.h + d2 * (self.g[:, None] * self.g[None, :]))

    def recip(self):
        return self.unary(lambda x: 1 / x, lambda x: -1 / x ** 2,
                          lambda x: 2 / x ** 3)

    def __truediv__(self, o):
        return self * self._coerce(o).recip()

    def __rtruediv__(self, o):
        return self.recip() * o

    def ipow(self, k):
        """integer power k >= 0"""
        if k == 0:
            return self.unary(np.ones_like, np.zeros_like, np.zeros_like)
        if k == 1:
            return self
        return self.unary(lambda x: x ** k, lambda x: k * x ** (k - 1),
                          lambda x: k * (k - 1) * x ** (k - 2))

    def exp(self):
        return self.unary(np.exp, np.exp, np.exp)

    def log(self):
        return self.unary(np.log, lambda x: 1 / x, lambda x: -1 / x ** 2)

    def logistic(self):
        s = lambda x: 1 / (1 + np.exp(-x))
        return self.unary(s, lambda x: s(x) * s(-x),
                          lambda x: s(x) * s(-x) * (s(-x) - s(x)))

    def arctan(self):
        return self.unary(np.arctan, lambda x: 1 / (1 + x * x),
                          lambda x: -2 * x / (1 + x * x) ** 2)

    # -- layout --------------------------------------------------------------
    def lay(self, fn):
        """apply a shape-only function to the S part (vectorised over seeds)"""
        P = self.P
        v, g, h = self.full()
        return Jet(fn(v),
                   np.stack([fn(x) for x in g]) if P else
                   np.zeros((0,) + fn(v).shape),
                   np.stack([np.stack([fn(x) for x in r]) for r in h]) if P
                   else np.zeros((0, 0) + fn(v).shape))

    def sum(self, axes):
        axes = tuple(axes)
        return self.lay(lambda a: a.sum(axes))


def seeds(params):
    """list of Jets (one per array in params), seeded in flattened order"""
    params = [np.asarray(p, dtype=float) for p in params]
    P = sum(p.size for p in params)
    out, k = [], 0
    for p in params:
        g = np.zeros((P,) + p.shape)
        for idx in np.ndindex(*p.shape):
            g[(k,) + idx] = 1
            k += 1
        out.append(Jet(p, g, np.zeros((P, P) + p.shape)))
    return out


def stack_last(jets):
    fs = [j.full() for j in jets]
    S = np.broadcast_shapes(*[f[0].shape for f in fs])
    P = jets[0].P
    return Jet(np.stack([np.broadcast_to(f[0], S) for f in fs], -1),
               np.stack([np.broadcast_to(f[1], (P,) + S) for f in fs], -1),
               np.stack([np.broadcast_to(f[2], (P, P) + S) for f in fs], -1))
