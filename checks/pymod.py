"""The Python side of the model under the Python abstract interpreter."""
import os
from phys import *          # noqa
import numpy as np
import pyai
from pyai import Py, PyError, PyUnmodelled, Rec as PRec, merge

PYROOT = os.path.join(REPO, 'code', 'python')


def pyprog():
    return Py(PYROOT)


def pmat(name, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = S(name + ''.join(str(k) for k in i))
    return a


def pmp(**fix):
    """Material parameters of a symbolic material."""
    names = fix.pop('fields', None)

    def default(n):
        if names is not None and n not in names:
            return None
        if n == 'δp':
            return np.array([S('MP.δp[%d]' % i) for i in range(3)], dtype=object)
        return S('MP.' + n)
    return PRec(None, default, 'MP', **fix)


def flat(x):
    if isinstance(x, np.ndarray):
        return [lift(v) for v in x.ravel()]
    return [lift(x)]
