"""Python's random module as the package uses it: every draw is any value, and equal seeds draw equal values."""
from . import ctx as C
from .ctx import Unsupported

class Random:
    def __init__(self, seed=None):
        self.seed(seed)
    def seed(self, seed=None, version=2):
        self._seed, self._i = seed, 0
    def _draw(self, n, what):
        c = C.CTX
        if n <= 0:
            raise ValueError("empty range for " + what)
        def new():
            c.nchoice = getattr(c, "nchoice", 0) + 1
            return c.choose(n, f"draw{c.nchoice}") if n > 1 else 0
        if self._seed is None:
            return new()
        d = c.__dict__.setdefault("pydraws", {})
        k = (self._seed, self._i, n, what)
        self._i += 1
        if k not in d:
            d[k] = new()
        return d[k]
    def randrange(self, a, b=None, step=1):
        if step != 1:
            raise Unsupported("randrange with a step")
        if b is None:
            a, b = 0, a
        return a + self._draw(b - a, "randrange()")
    def randint(self, a, b):
        return self.randrange(a, b + 1)
    def choice(self, xs):
        return xs[self._draw(len(xs), "choice")]
    def sample(self, xs, k, counts=None):
        pool, out = list(xs), []
        if k > len(pool):
            raise ValueError("Sample larger than population or is negative")
        for _ in range(k):
            out.append(pool.pop(self._draw(len(pool), "sample")))
        return out
    def shuffle(self, xs):
        xs[:] = self.sample(xs, len(xs))

class Module:
    """stands in for the module in the namespace of the code under execution"""
    Random = Random
    SystemRandom = Random
    def __init__(self):
        self._inst = Random()
        for k in ("seed", "randrange", "randint", "choice", "sample", "shuffle"):
            setattr(self, k, getattr(self._inst, k))
    def __getattr__(self, k):
        raise Unsupported("random." + k)

def install(mod):
    if "random" in vars(mod):
        mod.random = Module()
    if "Random" in vars(mod):
        mod.Random = Random
