"""Filters and weightings as JSON cases, with independent evaluations."""
import numpy as np

from ._common import conj_roots, cplx, poly, st

GX, GW = np.polynomial.legendre.leggauss(24)


def integral(fun, a, b, points=(), panels=48):
    """Composite Gauss-Legendre quadrature, split at the points."""
    cuts = sorted({a, b} | {p for p in points if a < p < b})
    tot = 0.
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        e = np.linspace(lo, hi, panels + 1)
        m, h = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        x = m[:, None] + h[:, None] * GX
        tot += np.sum(h[:, None] * GW * fun(x.ravel()).reshape(x.shape))
    return float(tot)


def mag2(zpk, f):
    """Squared magnitude by the products of distances."""
    z, p, k = zpk
    e = np.exp(2j * np.pi * np.asarray(f, float))
    r = np.full(e.shape, float(k) ** 2)
    for a in np.ravel(z):
        r = r * np.abs(e - a) ** 2
    for a in np.ravel(p):
        r = r / np.abs(e - a) ** 2
    return r


@st.composite
def filters(draw, nmax=4, rmax=.9, circle=None, square=True, kmax=4.):
    """{'z':, 'p':, 'k':}, as many zeros as poles when square."""
    n = draw(st.integers(1, nmax))
    c = draw(st.booleans()) if circle is None else circle
    nz = n if square else draw(st.integers(0, n))
    return {'z': draw(conj_roots(nz, rmax=1.2, circle=c)),
            'p': draw(conj_roots(n, rmax=rmax)),
            'k': draw(st.one_of(st.just(1.), st.floats(.1, kmax)))}


def zpk_of(d):
    return cplx(d['z']), cplx(d['p']), d['k']


def ba_of(d):
    return d['k'] * poly(cplx(d['z'])), poly(cplx(d['p']))


def as_form(d, form):
    """The argument for the code under test."""
    if form == 'ba':
        return ba_of(d)
    if form == 'zpk_list':
        z, p, k = zpk_of(d)
        return list(z), list(p), k
    return zpk_of(d)


def ir_of(d, n):
    """Impulse response of the filter by the plain recursion."""
    b, a = ba_of(d)
    # b may be shorter: the powers of z are aligned on the highest, as in a
    # difference equation of scipy.signal.lfilter
    b = list(b) + [0.] * max(0, len(a) - len(b))
    a = list(a) + [0.] * max(0, len(b) - len(a))
    m = len(a) - 1
    h = np.zeros(n)
    ar = np.array(a[1:][::-1])
    for i in range(n):
        acc = b[i] if i <= m else 0.
        lo = max(0, i - m)
        if i > lo:
            acc -= np.dot(ar[m - (i - lo):], h[lo:i])
        h[i] = acc
    return h


FORMS = ['zpk', 'ba', 'zpk_list']


@st.composite
def simple_weights(draw, kinds=('trig', 'bump', 'step', 'filter')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'trig':
        n = draw(st.integers(1, 4))
        return {'kind': kind, 'c': [draw(st.floats(-2, 2)) for _ in range(n)],
                'eps': draw(st.floats(.01, 1))}
    if kind == 'bump':
        return {'kind': kind, 'f0': draw(st.floats(0, .5)),
                'w': draw(st.floats(.03, .5)), 'a': draw(st.floats(.1, 20)),
                'eps': draw(st.floats(0, 1))}
    if kind == 'step':
        a = draw(st.integers(0, 15))
        b = draw(st.integers(a + 1, 16))
        return {'kind': kind, 'a': a / 32, 'b': b / 32,
                'in': draw(st.floats(.1, 10)),
                'out': draw(st.sampled_from([0., .01, 1.]))}
    return {'kind': 'filter', 'filter': draw(filters()),
            'form': draw(st.sampled_from(FORMS))}


@st.composite
def weights(draw, **kw):
    """Simple weights or products of them."""
    if draw(st.integers(0, 4)) == 0:
        return {'kind': 'mult', 'w': [draw(simple_weights(**kw)) for _ in
                                      range(draw(st.integers(1, 3)))]}
    return draw(simple_weights(**kw))


def wfun(d):
    """Reference: vectorised function of f."""
    k = d['kind']
    if k == 'trig':
        return lambda f: sum(c * np.cos(2 * np.pi * i * np.asarray(f)) for
                             i, c in enumerate(d['c'])) ** 2 + d['eps']
    if k == 'bump':
        return lambda f: d['a'] * np.exp(
            -((np.asarray(f) - d['f0']) / d['w']) ** 2) + d['eps']
    if k == 'step':
        return lambda f: np.where((np.asarray(f) >= d['a']) &
                                  (np.asarray(f) <= d['b']), d['in'],
                                  d['out'])
    if k == 'filter':
        return lambda f: mag2(zpk_of(d['filter']), f)
    if k == 'mult':
        ws = [wfun(x) for x in d['w']]

        def prod(f):
            r = 1.
            for w in ws:
                r = r * w(f)
            return r
        return prod
    raise KeyError(k)


def warg(d):
    """What is passed to the code under test."""
    if d['kind'] == 'filter':
        return as_form(d['filter'], d['form'])
    if d['kind'] == 'mult':
        from pydsm.NTFdesign.weighting import mult_weightings
        return mult_weightings(*[warg(x) for x in d['w']])
    return wfun(d)


def wpoints(d):
    if d['kind'] == 'step':
        return [x for x in (d['a'], d['b']) if 0 < x < .5]
    if d['kind'] == 'mult':
        return sorted(set(sum((wpoints(x) for x in d['w']), [])))
    return []
