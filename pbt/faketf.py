"""The few functions of TensorFlow that the gamma CRPS may use, on NumPy and SciPy (TensorFlow is not installed)."""
import sys
import types

import numpy as np
from scipy import special


class Unsupported(Exception):
    """The code asks for a function that this stand-in does not have: nothing can be said."""


class Tensor(np.ndarray):
    def numpy(self):
        return np.array(self)


def tensor(x):
    return np.asarray(x, dtype=float).view(Tensor)


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(name)


def lbeta(x):
    x = np.asarray(x, dtype=float)
    return tensor(np.sum(special.gammaln(x), axis=-1) - special.gammaln(np.sum(x, axis=-1)))


def make():
    tf, math = Module('tensorflow'), Module('tensorflow.math')
    math.lbeta = lbeta
    math.igamma = lambda a, x: tensor(special.gammainc(a, x))
    math.igammac = lambda a, x: tensor(special.gammaincc(a, x))
    math.lgamma = lambda x: tensor(special.gammaln(x))
    math.exp = lambda x: tensor(np.exp(x))
    tf.math = math
    tf.stack = lambda xs, axis=0: tensor(np.stack([np.asarray(x, float) for x in xs], axis=axis))
    tf.constant = tf.convert_to_tensor = lambda x, *a, **k: tensor(x)
    return tf, math


class installed:
    """with faketf.installed(): ..."""

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ('tensorflow', 'tensorflow.math')}
        sys.modules['tensorflow'], sys.modules['tensorflow.math'] = make()

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False
