"""A random generator whose every draw is arbitrary, and a function of
(seed, position): equal seeds replay equal streams."""
import numpy as np


def make_rng(pick, uni, vec):
    memo = {}
    ids = [0]

    class RandomState:
        def __init__(self, seed=None):
            self.seed(seed)

        def seed(self, seed=None):
            if seed is None:
                ids[0] += 1
                self.key = f"u{ids[0]}"
            elif hasattr(seed, "key"):
                self.key = seed.key
            else:
                self.key = f"s{seed}"
            self.pos = 0

        def _draw(self, kind, *a):
            k = (self.key, self.pos, kind) + a
            name = f"rng_{self.key}_{self.pos}"
            self.pos += 1
            if k not in memo:
                if any(m[0] == self.key and m[1] == self.pos - 1 for m in memo):
                    name += f"_{kind}{'_'.join(map(str, a))}"
                memo[k] = pick(name, *a) if kind == "i" else uni(name, *a)
            return memo[k]

        def _pick(self, n):
            n = int(n)
            if n < 1:
                raise ValueError("empty range")
            if n == 1:
                return 0
            return self._draw("i", n)

        def shuffle(self, x):
            n = len(x)
            for i in range(n - 1):
                j = i + self._pick(n - i)
                if j != i:
                    a, b = x[j], x[i]
                    x[i], x[j] = a, b

        def permutation(self, x):
            l = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
            self.shuffle(l)
            return np.array(l)

        def choice(self, a, size=None, replace=True, p=None):
            l = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            if p is not None:
                p = list(p)
                if len(p) != len(l):
                    raise ValueError("'a' and 'p' must have same size")
                if any(x != x for x in p):
                    raise ValueError("probabilities contain NaN")
                if any(bool(x < 0) for x in p):
                    raise ValueError("probabilities are not non-negative")
                if not bool(abs(sum(p) - 1) < 1e-8):
                    raise ValueError("probabilities do not sum to 1")
                l = [x for x, w in zip(l, p) if bool(w > 0)]
            if size is None:
                return l[self._pick(len(l))]
            out = []
            for _ in range(int(size)):
                if not l:
                    raise ValueError("Cannot take a larger sample than population when replace is False")
                j = self._pick(len(l))
                out.append(l[j])
                if not replace:
                    l = l[:j] + l[j + 1:]
            return np.array(out) if all(isinstance(v, (int, np.integer)) for v in out) else out

        def _u(self, lo=0, hi=1):
            return self._draw("u", lo, hi)

        def rand(self, *shape):
            if not shape:
                return self._u()
            n = int(np.prod(shape))
            return vec([self._u() for _ in range(n)]).reshape(shape)

        def random(self, size=None):
            return self._u() if size is None else self.rand(*(size if isinstance(size, tuple) else (size,)))

        random_sample = random

        def uniform(self, low=0.0, high=1.0, size=None):
            if size is not None:
                return vec([low + (high - low) * self._u() for _ in range(int(size))])
            return low + (high - low) * self._u()

        def exponential(self, scale=1.0, size=None):
            # any positive real
            if size is not None:
                return vec([self._draw("u", 0.001, 50) * scale for _ in range(int(size))])
            return self._draw("u", 0.001, 50) * scale

        def randint(self, low, high=None, size=None, **k):
            if high is None:
                low, high = 0, low
            if size is None:
                return low + self._pick(high - low)
            return np.array([low + self._pick(high - low) for _ in range(int(size))])

        integers = randint

        def get_state(self):
            return (self.key, self.pos)

        def set_state(self, s):
            self.key, self.pos = s

        def __deepcopy__(self, memo_):
            c = RandomState(0)
            c.key, c.pos = self.key, self.pos
            return c

    return RandomState, RandomState()
