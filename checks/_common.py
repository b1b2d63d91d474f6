"""Generators and comparison helpers shared by the checks."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import (Ctx, Known, Reject, Violation,  # noqa: F401
                          subtest)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, what, rtol=1e-9, atol=1e-12):
    """Same shape and values within tolerances (nan and inf must match)."""
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape,
            b.shape)
    if a.size == 0:
        return
    with np.errstate(all='ignore'):
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        ok = same | (np.abs(a - b) <= atol + rtol * np.abs(b))
    if not np.all(ok):
        i = np.unravel_index(np.argmin(ok), ok.shape)
        fail('%s: got %r instead of %r at %s (tolerance %g rel %g abs)', what,
             a[i], b[i], list(map(int, i)), rtol, atol)


def exact(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, '%s: shape %s instead of %s', what, a.shape,
            b.shape)
    if a.size and not np.array_equal(a, b):
        i = np.unravel_index(np.argmin(a == b), a.shape)
        fail('%s: got %r instead of %r at %s', what, a[i], b[i],
             list(map(int, i)))


def raises(exc, fn, what, match=None):
    """fn() must raise exc (a class or a tuple); return the exception."""
    try:
        r = fn()
    except exc as e:
        if match is not None:
            require(match in str(e), '%s: message %r lacks %r', what, str(e),
                    match)
        return e
    except Exception as e:
        fail('%s: raised %s (%s) instead of %s', what, type(e).__name__, e,
             exc)
    fail('%s: no error raised, got %r', what, r)


class Caught(object):
    """Context recording the warnings."""

    def __enter__(self):
        self._c = warnings.catch_warnings(record=True)
        self.log = self._c.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        return self._c.__exit__(*a)

    def has(self, cls, text=''):
        return any(issubclass(w.category, cls) and text in str(w.message)
                   for w in self.log)


# ---------------------------------------------------------------- generators

def dyadic(lo, hi, den):
    """Multiples of 1/den in [lo, hi], exactly representable."""
    return st.integers(int(round(lo * den)),
                       int(round(hi * den))).map(lambda i: i / den)


def reals(lo, hi, digits=None):
    """Finite floats in [lo, hi], with exact zeros and short values likely."""
    f = st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                  allow_subnormal=False)
    g = dyadic(lo, hi, 8) if hi - lo >= .25 else f
    return st.one_of(f, g)


def cplx(v):
    """JSON pair(s) -> complex."""
    a = np.asarray(v, dtype=float)
    if a.size == 0:
        return np.zeros(a.shape[:-1] if a.ndim > 1 else (0,), dtype=complex)
    return a[..., 0] + 1j * a[..., 1]


def pairs(z):
    """complex -> JSON."""
    return [[float(np.real(x)), float(np.imag(x))] for x in np.ravel(z)]


@st.composite
def conj_roots(draw, n, rmin=0., rmax=0.95, circle=False, tiny=False):
    """n roots closed under conjugation (as JSON pairs), in an annulus."""
    out = []
    npair = draw(st.integers(0, n // 2))
    for _ in range(npair):
        r = 1. if circle else draw(st.floats(max(rmin, .05), rmax))
        th = draw(st.floats(.02, 3.12))
        if tiny and draw(st.booleans()):     # close to the real axis
            th = th * 10 ** draw(st.floats(-4, -1))
        z = r * np.exp(1j * th)
        out += [[float(z.real), float(z.imag)],
                [float(z.real), -float(z.imag)]]
    for _ in range(n - 2 * npair):
        if circle:
            x = draw(st.sampled_from([1., 1., 1., -1.]))
        else:
            x = draw(st.floats(rmin, rmax)) * draw(st.sampled_from([1, -1]))
        out.append([float(x), 0.])
    return out


def poly(roots):
    """Real monic polynomial, from scratch (no numpy.poly rounding games)."""
    p = np.array([1. + 0j])
    for r in np.ravel(roots):
        p = np.convolve(p, [1., -r])
    return p.real


def layouts(a, how):
    """The same array in another guise of array_like."""
    a = np.asarray(a)
    if how == 'list':
        return a.tolist()
    if how == 'tuple':
        return tuple(map(tuple, a.tolist())) if a.ndim > 1 \
            else tuple(a.tolist())
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full(tuple(2 * s for s in a.shape), np.nan, dtype=a.dtype) \
            if a.dtype.kind in 'fc' else np.zeros(
                tuple(2 * s for s in a.shape), dtype=a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return b[s]
    if how == 'reversed':
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return a[s].copy()[s]
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a.copy()


LAYOUTS = ['plain', 'list', 'F', 'strided', 'reversed', 'readonly', 'tuple']


def snapshot(x):
    """Deep, comparable copy of (nested) arrays."""
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    return repr(x)


# ------------------------------------------------------ related runs in a row

def nearly(x, eps):
    """All the floats made a little smaller, in modulus."""
    if isinstance(x, float):
        return x * (1 - eps)
    if isinstance(x, list):
        return [nearly(y, eps) for y in x]
    if isinstance(x, dict):
        return {k: nearly(v, eps) for k, v in x.items()}
    return x


def related(prop, name, strategy, fn, keys, quick, fix=lambda c: c, near=None,
            **kw):
    """Another sub-test, for many runs in the same process of a given one.

    Each case differs from the previous one for one or more of the entries in
    ``keys``, either taken from another case or (those in ``near``) nearly the
    same: nothing that is remembered of a run may have a part in the others.
    ``fix`` makes valid what it is given.
    """
    near = keys if near is None else near

    @st.composite
    def cases(draw):
        runs = [fix(draw(strategy()))]
        for _ in range(draw(st.integers(1, 3))):
            c = dict(runs[-1])
            if near and draw(st.booleans()):
                eps = 10. ** -draw(st.integers(2, 6))
                for k in draw(st.lists(st.sampled_from(near), min_size=1,
                                       max_size=2)):
                    c[k] = nearly(c[k], eps)
            else:
                other = fix(draw(strategy()))
                for k in draw(st.lists(st.sampled_from(keys), min_size=1,
                                       max_size=2)):
                    c[k] = other[k]
            runs.append(fix(c))
        if draw(st.booleans()):
            runs.append(runs[0])
        return {'runs': runs}

    def many(case, ctx):
        done = 0
        for c in case['runs']:
            one = Ctx()
            try:
                fn(c, one)
            except Reject:
                continue
            done += one._nontrivial
            for k in one.labels:
                ctx.label(k)
        ctx.nontrivial(done > 1)
    kw.setdefault('rule', 'at least two runs which are not trivial')
    subtest(prop, name, cases, quick=quick, **kw)(many)
