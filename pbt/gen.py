"""Generators. Everything random is drawn from Hypothesis; arrays are drawn as bytes (fast, shrinkable)."""
import numpy as np
from hypothesis import strategies as st

from .engine import Violation  # noqa

_bytes = {}


class D:
    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def bool(self):
        return self.draw(st.booleans())

    def pick(self, xs):
        xs = list(xs)
        return xs[self.draw(st.integers(0, len(xs) - 1))]

    def often(self, usual, *others):
        """`usual` in about half of the cases."""
        return usual if self.draw(st.booleans()) else self.pick(others)

    def f(self, lo, hi, steps=1000):
        return lo + (hi - lo) * self.int(0, steps) / steps

    def perm(self, n):
        return list(self.draw(st.permutations(list(range(n)))))

    def u16(self, n):
        b = self.draw(st.binary(min_size=2 * n, max_size=2 * n))
        return np.frombuffer(b, dtype='<u2').astype(np.int64)

    def arr(self, shape, lo, hi, kind='cont'):
        """cont: (nearly) tie-free; grid: 16 levels; coarse: few levels, many ties; int: integers."""
        shape = tuple(shape)
        n = int(np.prod(shape))
        if n > 1500:
            rng = np.random.default_rng(self.int(0, 2 ** 32 - 1))
            u = rng.integers(0, 65536, n)
        else:
            u = self.u16(n)
        if kind == 'cont':
            x = lo + (hi - lo) * (u + 0.5) / 65536.
        elif kind == 'grid':
            x = lo + (hi - lo) * (u % 17) / 16.
        elif kind == 'coarse':
            x = lo + (hi - lo) * (u % 4) / 3.
        elif kind == 'int':
            x = np.floor(lo) + u % max(1, int(np.floor(hi) - np.floor(lo) + 1))
        elif kind == 'prec':      # like precipitation: half zeros
            v = lo + (hi - lo) * (u // 2 + 0.5) / 32768.
            x = np.where(u % 2 == 0, 0., v)
        else:
            raise ValueError(kind)
        return np.asarray(x, dtype=float).reshape(shape)

    def kind(self):
        return self.pick(['cont', 'cont', 'grid', 'coarse', 'int'])

    def shape(self, min_dim=1, max_dim=3, max_side=5, min_size=1, max_size=120):
        nd = self.int(min_dim, max_dim)
        s = [self.int(1, max_side) for _ in range(nd)]
        while int(np.prod(s)) > max_size:
            s[int(np.argmax(s))] -= 1
        i = 0
        while int(np.prod(s)) < min_size:
            s[i % nd] += 1
            i += 1
        return tuple(s)

    def big_shape(self, min_dim=1, max_dim=3, lo=150, hi=3000):
        """Long and odd sides: sizes at which chunking, blocking or caching could matter."""
        nd = self.int(min_dim, max_dim)
        n = self.pick([lo, lo + 1, 256, 257, 999, 1000, 1001, 1024, 1025, 2047, hi])
        n = max(lo, min(hi, n))
        s = [1] * nd
        for i in range(nd - 1):
            s[i] = self.int(1, max(1, int(round(n ** (1. / nd) * 1.5))))
        s[-1] = max(1, n // int(np.prod(s[:-1])))
        k = self.perm(nd)
        return tuple(s[i] for i in k)

    def axis(self, nd, neg=True, allow_none=True, mixed=True):
        """avg_axis in every accepted spelling: None, int, tuple or list; any order; negative ones."""
        form = self.pick((['none'] if allow_none else []) + ['int', 'tuple', 'tuple', 'list'])
        if form == 'none':
            return None
        if form == 'int':
            a = self.int(0, nd - 1)
            return a - nd if neg and self.int(0, 2) == 0 else a
        k = self.int(1, nd)
        axes = self.perm(nd)[:k]
        if neg:
            mode = self.pick(['pos', 'pos', 'neg'] + (['mixed'] if mixed else []))
            if mode == 'neg':
                axes = [a - nd for a in axes]
            elif mode == 'mixed':
                axes = [a - nd if self.bool() else a for a in axes]
        return tuple(axes) if form == 'tuple' else list(axes)


class RD(D):
    """The same generators over a list of choices: random when new, given when replayed (shrinking)."""

    def __init__(self, rng=None, choices=None):
        self.rng, self.given, self.choices, self.limit = rng, choices, [], 10 ** 5

    def _next(self, n, k):
        """n choices out of 0..k-1, recorded as one block."""
        if len(self.choices) > self.limit:
            raise RuntimeError('a generator does not end')
        if self.rng is not None:
            v = [self.rng.randrange(k) for _ in range(n)]
        else:
            i = len(self.choices)
            v = list(self.given[i]) if i < len(self.given) else []
            v = [x % k for x in v[:n]] + [0] * (n - len(v))
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self._next(1, hi - lo + 1)[0]

    def bool(self):
        return bool(self._next(1, 2)[0])

    def pick(self, xs):
        xs = list(xs)
        return xs[self._next(1, len(xs))[0]]

    def often(self, usual, *others):
        return self.pick(others) if self.bool() else usual

    def perm(self, n):
        xs, out = list(range(n)), []
        for i in range(n):
            out.append(xs.pop(self._next(1, len(xs))[0]))
        return out

    def u16(self, n):
        return np.array(self._next(n, 65536), dtype=np.int64)


def shrink_choices(gen, choices, body):
    """Greedy: smaller choices, block by block, while the case still fails. body raises Violation on failure."""
    best = [list(b) for b in choices]

    def fails(ch):
        d = RD(choices=ch)
        try:
            case = gen(d)
        except Exception:
            return None
        try:
            body(case)
        except Violation:
            return d.choices
        return None

    def size(ch):
        return sum(len(b) for b in ch), sum(sum(b) for b in ch)

    changed = True
    while changed:
        changed = False
        i = 0
        while i < len(best):
            b = best[i]
            tries = []
            if any(b):
                tries.append([0] * len(b))
                if len(b) == 1:
                    tries += [[v] for v in (1, b[0] // 2, b[0] - 1) if 0 <= v < b[0]]
                else:
                    h = len(b) // 2
                    tries += [[0] * h + b[h:], b[:h] + [0] * (len(b) - h)]
                    if len(b) <= 40:
                        tries += [b[:j] + [0] + b[j + 1:] for j in range(len(b)) if b[j]]
                        tries += [b[:j] + [b[j] // 2] + b[j + 1:] for j in range(len(b)) if b[j] > 1]
            for t in tries:
                r = fails(best[:i] + [t] + best[i + 1:])
                if r is not None and size(r) < size(best):
                    best, changed = r, True
                    break
            i += 1


def norm_axis(axis, nd):
    """The set of averaged axes, as sorted non-negative integers."""
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, int):
        axis = (axis,)
    return tuple(sorted(a + nd if a < 0 else a for a in axis))


def slices(shape, axis):
    """(output index, full index) for every slice that avg_axis averages over."""
    nd = len(shape)
    ax = norm_axis(axis, nd)
    keep = [i for i in range(nd) if i not in ax]
    for idx in np.ndindex(*[shape[i] for i in keep]):
        full = [slice(None)] * nd
        for i, j in zip(keep, idx):
            full[i] = j
        yield idx, tuple(full)


def out_shape(shape, axis):
    ax = norm_axis(axis, len(shape))
    return tuple(s for i, s in enumerate(shape) if i not in ax)


def close(a, b, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def need_close(a, b, what, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation('{}: shape {} instead of {}'.format(what, a.shape, b.shape))
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation('{}: got {} expected {}'.format(what, a.tolist(), b.tolist()))
