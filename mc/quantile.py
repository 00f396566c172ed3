"""A numpy Generator whose draws are the quantiles of chosen numbers in (0, 1).

Enumerating all points of a grid of quantiles integrates exactly (up to the grid) over all
random choices, whichever distribution methods the code draws from.  If anything is drawn in
another way, the underlying bit generator moves; `foreign()` tells."""
import numpy as np
from scipy import special


class Quantiles(np.random.Generator):
    def __init__(self):
        super().__init__(np.random.PCG64(12345))
        self._start = str(self.bit_generator.state)
        self.load(())

    def load(self, us):
        self.us, self.used = list(us), 0

    def foreign(self):
        return str(self.bit_generator.state) != self._start

    def _u(self, size):
        n = 1 if size is None else int(np.prod(size))
        out = np.empty(n)
        for i in range(n):
            out[i] = self.us[self.used] if self.used < len(self.us) else 0.5
            self.used += 1
        return out[0] if size is None else out.reshape(size)

    def _inv(self, func, size, *args):
        if size is None:
            size = np.broadcast_shapes(*(np.shape(a) for a in args)) or None
        return func(*args, self._u(size))

    def random(self, size=None, *a, **k):
        return self._u(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * self._u(size)

    def beta(self, a, b, size=None):
        return self._inv(special.betaincinv, size, a, b)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * special.ndtri(self._u(size))

    def standard_normal(self, size=None, *a, **k):
        return special.ndtri(self._u(size))

    def exponential(self, scale=1.0, size=None):
        return -np.log1p(-self._u(size)) * scale

    def standard_exponential(self, size=None, *a, **k):
        return -np.log1p(-self._u(size))

    def gamma(self, shape, scale=1.0, size=None):
        return self._inv(special.gammaincinv, size, shape) * scale

    def standard_gamma(self, shape, size=None, *a, **k):
        return self._inv(special.gammaincinv, size, shape)

    def dirichlet(self, alpha, size=None):
        shape = (len(alpha),) if size is None else tuple(np.atleast_1d(size)) + (len(alpha),)
        g = special.gammaincinv(np.asarray(alpha, float), self._u(shape))
        return g / g.sum(-1, keepdims=True)
