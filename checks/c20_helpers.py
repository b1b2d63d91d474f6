"""C20, C21: the Matlab-like helpers and the general purpose ones."""
import math
from collections import Counter

import numpy as np

from ._common import (LAYOUTS, close, cplx, dyadic, exact, layouts,
                      raises, reals, require, snapshot, st, subtest)

from pydsm import relab, utilities

# ------------------------------------------------------------- C20: cplxpair

grid = dyadic(-2, 2, 4)
posgrid = dyadic(.25, 2, 4)


@st.composite
def pair_sets(draw, npair=None, nreal=None):
    """A multiset closed under conjugation on a coarse grid, shuffled."""
    npair = draw(st.integers(0, 5)) if npair is None else npair
    nreal = draw(st.integers(0, 4)) if nreal is None else nreal
    res = draw(st.lists(grid, min_size=1, max_size=3))
    ims = draw(st.lists(posgrid, min_size=1, max_size=3))
    out = []
    for _ in range(npair):
        re, im = draw(st.sampled_from(res)), draw(st.sampled_from(ims))
        out += [[re, im], [re, -im]]
    out += [[draw(grid), 0.] for _ in range(nreal)]
    return draw(st.permutations(out))


def pair_check(y, x, tol, what):
    """y is x paired; x is on the grid up to perturbations within tol."""
    def ongrid(v):
        return np.round(np.asarray(v, dtype=complex) * 4) / 4
    gx = ongrid(x)
    gy = ongrid(y)
    require(np.shape(y) == np.shape(x), '%s: shape %s', what, np.shape(y))
    require(Counter(gx.tolist()) == Counter(gy.tolist()),
            '%s: %s is not a permutation of %s', what, y, x)
    close(np.asarray(y, dtype=complex), gy, what, 2 * tol, 2 * tol)
    nc = int(np.count_nonzero(gx.imag))
    c, r = np.asarray(y)[:nc], np.asarray(y)[nc:]
    require(np.all(np.imag(r) == 0), '%s: real entries are not last: %s',
            what, y)
    require(np.all(np.diff(np.real(r)) >= 0), '%s: real entries are not '
            'sorted: %s', what, r)
    require(np.all(np.imag(c[1::2]) > 0), '%s: the negative imaginary part '
            'is not first: %s', what, c)
    exact(c[0::2], np.conj(c[1::2]), what + ': couples')
    require(np.all(np.diff(np.real(gy[:nc:2])) >= 0),
            '%s: couples are not sorted: %s', what, c)


@st.composite
def pair_cases(draw):
    x = draw(pair_sets())
    return {'x': x, 'dtype': draw(st.sampled_from(
        ['complex128', 'complex128', 'complex64'])),
        'tol': draw(st.sampled_from([None, None, 1e-3, 1e-6, 0])),
        'jitter': draw(st.lists(st.integers(-3, 3), min_size=2 * len(x),
                                max_size=2 * len(x))),
        'layout': draw(st.sampled_from(LAYOUTS))}


@subtest('C20', 'cplxpair', pair_cases, quick=1500, thorough=30000,
         rule='at least two couples')
def c20_pair(c, ctx):
    x = cplx(c['x'])
    dt = np.dtype(c['dtype'])
    if c['layout'] in ('list', 'tuple'):
        dt = np.dtype(complex)
    ctx.nontrivial(np.count_nonzero(x.imag) >= 4)
    ctx.label('tol %s' % c['tol'])
    tol = 100 * np.finfo(dt).eps if c['tol'] is None else c['tol']
    x = x.astype(dt)
    if tol:
        # Jitter well within the tolerance, that is relative to the modulus
        j = np.reshape(np.array(c['jitter'], dtype=float), (2, -1)) / 16
        x = x + (tol * np.abs(x) * (j[0] + 1j * j[1])).astype(dt)
        require(x.dtype == dt, 'harness')
    a = layouts(x, c['layout'])
    snap = snapshot(a)
    kw = {} if c['tol'] is None else {'tol': c['tol']}
    y = relab.cplxpair(a, **kw)
    require(snapshot(a) == snap, 'argument changed')
    pair_check(y, x, tol + 0., 'cplxpair')
    # Pairing is idempotent, up to the order of couples that are alike
    pair_check(relab.cplxpair(y, **kw), y, tol, 'cplxpair twice')


@st.composite
def bad_pair_cases(draw):
    x = [list(v) for v in draw(pair_sets(npair=draw(st.integers(1, 4))))]
    ci = [i for i, v in enumerate(x) if v[1] != 0]
    i = draw(st.sampled_from(ci))
    how = draw(st.sampled_from(['drop', 're', 'im', 'flip', 'add', 'eps']))
    if how == 'drop':
        del x[i]
    elif how == 're':
        x[i][0] += draw(st.sampled_from([.125, -.25, 1., 1e-6]))
    elif how == 'im':
        x[i][1] += draw(st.sampled_from([.125, .5, 1e-6]))
    elif how == 'flip':
        x[i][1] *= -1
    elif how == 'eps':      # ten times the default tolerance
        x[i][0] += 1000 * 2.3e-16 * (abs(x[i][0]) + abs(x[i][1]))
    else:
        x.insert(draw(st.integers(0, len(x))), [draw(grid), draw(posgrid)])
    return {'x': x, 'how': how}


@subtest('C20', 'cplxpair_refused', bad_pair_cases, quick=800,
         thorough=10000, rule='always')
def c20_unpaired(c, ctx):
    x = cplx(c['x'])
    if Counter(x.tolist()) == Counter(np.conj(x).tolist()):
        ctx.nontrivial(False)
        pair_check(relab.cplxpair(x), np.round(x * 8) / 8, 1e-3, 'cplxpair')
        return
    ctx.label(c['how'])
    raises(ValueError, lambda: relab.cplxpair(x), 'cplxpair(%s)' % x,
           'Complex numbers cannot be paired')


@st.composite
def pair_nd_cases(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    dim = draw(st.one_of(st.none(), st.integers(-len(shape),
                                                len(shape) - 1)))
    kind = draw(st.sampled_from(['complex', 'complex', 'real', 'int']))
    d = dim if dim is not None else next(
        (i for i, v in enumerate(shape) if v > 1), 0)
    n = shape[d]
    m = int(np.prod(shape)) // n
    vecs = []
    for _ in range(m):
        if kind == 'complex':
            k = draw(st.integers(0, n // 2))
            vecs.append(draw(pair_sets(npair=k, nreal=n - 2 * k)))
        else:
            vecs.append([[float(draw(st.integers(-5, 5))), 0.]
                         for _ in range(n)])
    return {'shape': shape, 'dim': dim, 'kind': kind, 'vecs': vecs}


@subtest('C20', 'cplxpair_nd', pair_nd_cases, quick=600, thorough=10000,
         rule='two or more vectors of two or more entries')
def c20_pair_nd(c, ctx):
    shape, dim, kind = tuple(c['shape']), c['dim'], c['kind']
    d = dim if dim is not None else next(
        (i for i, v in enumerate(shape) if v > 1), 0)
    n = shape[d]
    ctx.nontrivial(len(c['vecs']) > 1 and n > 1)
    ctx.label(kind)
    x = cplx(c['vecs']).reshape(-1, n)
    if kind != 'complex':
        x = x.real.astype(float if kind == 'real' else int)
    rest = tuple(v for i, v in enumerate(shape) if i != d % len(shape))
    x = np.moveaxis(x.reshape(rest + (n,)), -1, d)
    require(x.shape == shape, 'harness')
    y = relab.cplxpair(x, **({} if dim is None else {'dim': dim}))
    require(y.shape == shape, 'shape %s instead of %s', y.shape, shape)
    if kind != 'complex':
        exact(y, np.sort(x, axis=d), 'cplxpair of reals')
        return
    xs = np.moveaxis(x, d, -1).reshape(-1, n)
    ys = np.moveaxis(y, d, -1).reshape(-1, n)
    for a, b in zip(xs, ys):
        pair_check(b, a, 1e-13, 'cplxpair along %s' % dim)
        exact(b + 0j, relab.cplxpair(a) + 0j, 'cplxpair of a vector alone')


# ------------------------------------------------------------- C20: shiftdim

@st.composite
def shift_cases(draw):
    shape = draw(st.lists(st.sampled_from([1, 1, 2, 3, 0, 4]), min_size=1,
                          max_size=4))
    return {'shape': shape, 'n': draw(st.one_of(
        st.none(), st.integers(-3, 9))),
        'nargout': draw(st.sampled_from([None, 1, 2])),
        'layout': draw(st.sampled_from(LAYOUTS))}


@subtest('C20', 'shiftdim', shift_cases, quick=1500, thorough=20000,
         rule='more than one dimension and a shift that is not null')
def c20_shift(c, ctx):
    shape, n = tuple(c['shape']), c['n']
    nd = len(shape)
    x = np.arange(int(np.prod(shape))).reshape(shape)
    how = c['layout']
    if x.size == 0 or how in ('list', 'tuple') and nd > 2:
        how = 'plain'
    a = layouts(x, how)
    lead = next((i for i, v in enumerate(shape) if v != 1), 0)
    ctx.nontrivial(nd > 1 and (n != 0 if n is not None else lead > 0))
    kw = {} if c['nargout'] is None else {'nargout': c['nargout']}
    r = relab.shiftdim(a, n, **kw)
    if c['nargout'] == 1:
        y, m = r, None
    else:
        require(isinstance(r, tuple) and len(r) == 2, 'returned %r', r)
        y, m = r
    # The order of the entries and the resulting shape
    s = lead if n is None else n
    if s < 0:
        ref = x.reshape((1,) * -s + shape)
    else:
        s = s % nd
        ref = x.transpose([(i + s) % nd for i in range(nd)])
        if s <= lead:
            ref = ref.reshape(shape[s:])    # trailing unitary axes
    exact(y, ref, 'shiftdim(%s, %s)' % (shape, n))
    if m is not None:
        require(m == s, 'the shift is %s instead of %s', m, s)
    if n is None:
        require(y.shape[0] != 1 or y.size == 1, 'leading axis of length 1')
    # Going back
    if s <= lead and s > 0:
        exact(relab.shiftdim(y, -s, nargout=1), x, 'shifting back')
    elif s > 0 and all(v != 1 for v in shape):
        exact(relab.shiftdim(y, nd - s, nargout=1), x, 'shifting round')


# ------------------------------------------------------------- C20: eps, db

@st.composite
def eps_cases(draw):
    dt = draw(st.sampled_from(['float64', 'float64', 'float32', 'float16',
                               'int']))
    if dt == 'int':
        v = st.integers(-2 ** 53, 2 ** 53)
    else:
        width = int(dt[5:])
        m = {64: 1e300, 32: 2. ** 120, 16: 2. ** 14}[width]
        v = st.floats(-m, m, width=width)
    shape = draw(st.sampled_from([None, None, [3], [2, 2], [0], [1, 3]]))
    n = 1 if shape is None else int(np.prod(shape))
    return {'dt': dt, 'shape': shape, 'layout': draw(
        st.sampled_from(LAYOUTS)),
        'v': draw(st.lists(v, min_size=n, max_size=n))}


@subtest('C20', 'eps', eps_cases, quick=1500, thorough=20000,
         rule='an entry other than a power of two')
def c20_eps(c, ctx):
    dt = c['dt']
    v = np.array(c['v'], dtype=dt)
    ctx.label(dt)
    f = np.abs(v).astype(float if dt == 'int' else dt)
    ctx.nontrivial(np.any(np.frexp(f.astype(float))[0] != .5))
    up = np.nextafter(f, np.array(np.inf, dtype=f.dtype))
    ref = up - f
    if c['shape'] is None:
        x = int(v[0]) if dt == 'int' else float(v[0]) \
            if dt == 'float64' else v[0]
        ref = ref[0]
        if dt in ('int', 'float64'):
            require(math.ulp(float(abs(x))) == ref, 'harness')
    else:
        lay = c['layout']
        if lay in ('list', 'tuple') and (dt in ('float32', 'float16') or
                                         v.size == 0):
            lay = 'plain'
        x = layouts(v.reshape(c['shape']), lay)
        ref = ref.reshape(c['shape'])
    got = relab.eps(x)
    exact(np.asarray(got), np.asarray(ref), 'eps(%r)' % (x,))
    if dt not in ('int',):
        exact(relab.eps(np.dtype(dt)), np.finfo(dt).eps, 'eps of the dtype')
        exact(relab.eps(getattr(np, dt)), np.finfo(dt).eps, 'eps of the type')
    require(relab.eps() == 2. ** -52 and relab.eps(float) == 2. ** -52,
            'eps of 1')


@st.composite
def db_cases(draw):
    return {'v': draw(st.lists(st.floats(1e-12, 1e12), min_size=1,
                               max_size=4)),
            'sign': draw(st.sampled_from([1, -1])),
            'phase': draw(st.sampled_from([0, 0, .7, 2.5])),
            'type': draw(st.sampled_from([None, 'voltage', 'power'])),
            'R': draw(st.sampled_from([None, 1, 50, .1, 600.])),
            'scalar': draw(st.booleans()),
            'layout': draw(st.sampled_from(LAYOUTS))}


@subtest('C20', 'db', db_cases, quick=800, thorough=10000,
         rule='a value other than 1')
def c20_db(c, ctx):
    v = np.array(c['v'])
    ctx.nontrivial(np.any(v != 1))
    kw = {}
    if c['type']:
        kw['signal_type'] = c['type']
    if c['R']:
        kw['R'] = c['R']
    if c['type'] == 'power':
        x = v
        ref = [10 * math.log10(a) for a in v]       # whatever R
    else:
        x = c['sign'] * v
        if c['phase']:
            x = x * np.exp(1j * c['phase'])
        ref = [20 * math.log10(a) - 10 * math.log10(c['R'] or 1) for a in v]
    if c['scalar']:
        close(relab.db(x[0], **kw), ref[0], 'db', 1e-12, 1e-9)
    else:
        x = layouts(x, c['layout'] if c['layout'] not in ('list', 'tuple')
                    else 'plain')
        snap = snapshot(x)
        close(relab.db(x, **kw), ref, 'db', 1e-12, 1e-9)
        require(snapshot(x) == snap, 'argument changed')


# ----------------------------------------------------------------------- C21

special = st.sampled_from([0., -0., 1e-14, -1e-14, 2.220446049250313e-14,
                           2.3e-14, 1., -1., 1e-300, float('inf'),
                           float('-inf'), float('nan'), .5, -.5, 1e-3])
anyreal = st.one_of(special, reals(-2, 2), st.floats(-1e-13, 1e-13))


@st.composite
def chop_cases(draw):
    shape = draw(st.sampled_from([None, [], [3], [2, 2], [0], [1, 4],
                                  [2, 1, 2]]))
    n = 1 if not shape else int(np.prod(shape))
    kind = draw(st.sampled_from(['real', 'complex', 'int', 'float32']))
    if kind == 'int':
        v = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n))
    elif kind == 'complex':
        v = [[draw(anyreal), draw(anyreal)] for _ in range(n)]
    else:
        v = draw(st.lists(anyreal, min_size=n, max_size=n))
    return {'shape': shape, 'kind': kind,
            'v': [[repr(b) for b in a] if isinstance(a, list) else repr(a)
                  for a in v],
            'tol': draw(st.sampled_from([None, None, .5, 1e-3, 0, 2,
                                         1e-300])),
            'layout': draw(st.sampled_from(LAYOUTS))}


def zeroed(v, tol):
    """Reference for a real number."""
    return 0. if abs(v) < tol else v


@subtest('C21', 'chop', chop_cases, quick=2000, thorough=40000,
         rule='something is chopped and something is kept')
def c21_chop(c, ctx):
    kind, shape = c['kind'], c['shape']
    tol = 100 * 2. ** -52 if c['tol'] is None else c['tol']
    if kind == 'complex':
        v = [complex(float(a), float(b)) for a, b in c['v']]
        ref = [complex(zeroed(a.real, tol), zeroed(a.imag, tol)) for a in v]
        x = np.array(v, dtype=complex)
    elif kind == 'int':
        x = np.array([int(a) for a in c['v']], dtype=int)
        ref = [zeroed(int(a), tol) for a in x]
    else:
        x = np.array([float(a) for a in c['v']],
                     dtype=np.float32 if kind == 'float32' else float)
        ref = [zeroed(float(a), tol) for a in x]
        if kind == 'float32' and (tol == 1e-300 or any(
                abs(abs(float(a)) - tol) <= 1e-6 * tol
                for a in x)):
            # the precision in which they are compared is not stated
            x = x[:0]
            ref = []
            shape = [0]
    negl = [bool(abs(a) < tol) for a in x.tolist()]
    ref = np.array(ref, dtype=complex if kind == 'complex' else x.dtype)
    nz = np.count_nonzero(np.nan_to_num(ref) != np.nan_to_num(x))
    ctx.nontrivial(0 < nz)
    ctx.label(kind)
    if shape is None:
        a = x[0].item() if kind != 'float32' else x[0]
        refa, negla = ref[0], negl[0]
    else:
        a = x.reshape(shape)
        lay = c['layout']
        if a.ndim == 0 or a.size == 0 or a.ndim > 2 and \
                lay in ('list', 'tuple') or kind == 'float32':
            lay = 'plain'
        a = layouts(a, lay)
        refa = ref.reshape(shape)
        negla = np.reshape(negl, shape).astype(bool)
    kw = {} if c['tol'] is None else {'tol': c['tol']}
    snap = snapshot(a)
    y = utilities.chop(a, **kw)
    require(np.shape(y) == np.shape(refa), 'shape %s', np.shape(y))
    for part in (np.real, np.imag):
        g, r = part(np.asarray(y)), part(np.asarray(refa))
        same = (g == r) | (np.isnan(g) & np.isnan(r))
        require(np.all(same), 'chop(%r, %s) = %r instead of %r', a, tol, y,
                refa)
    require(np.iscomplexobj(y) == (kind == 'complex'), 'type of %r', y)
    if isinstance(a, np.ndarray):
        require(not np.shares_memory(a, y), 'not a copy')
    g = utilities.is_negligible(a, **kw)
    exact(np.asarray(g), np.asarray(negla), 'is_negligible(%r, %s)' % (
        a, tol))
    require(snapshot(a) == snap, 'argument changed')


@st.composite
def mdot_cases(draw):
    """Factors with 0 to 3 dimensions, that can be multiplied in turn."""
    shapes, cur = [], None
    for i in range(draw(st.integers(1, 5))):
        nd = draw(st.sampled_from([2, 2, 2, 2, 1, 1, 3, 0]))
        s = [draw(st.integers(1, 4)) for _ in range(nd)]
        if cur and nd:
            s[-2 if nd > 1 else -1] = cur[-1]
        if cur is None or not cur or not nd:
            cur = s if not cur else cur
        else:
            cur = cur[:-1] + s[:-2] + s[-1:] if nd > 1 else cur[:-1]
        if len(cur) > 5:
            break
        shapes.append(s)
    mats = []
    for s in shapes:
        n = int(np.prod(s)) if s else 1
        mats.append({'s': s, 'v': draw(st.lists(
            st.integers(-9, 9), min_size=n, max_size=n))})
    return {'mats': mats, 'layout': draw(st.sampled_from(LAYOUTS)),
            'scale': draw(st.sampled_from([1, .5, .1]))}


def dot2(a, b):
    """Product of two arrays, by definition."""
    if not np.ndim(a) or not np.ndim(b):
        return a * b
    out = np.zeros(np.shape(a)[:-1] + np.shape(b)[:-2] + (
        np.shape(b)[-1:] if np.ndim(b) > 1 else ()))
    for i in np.ndindex(*np.shape(a)[:-1]):
        for j in np.ndindex(*out.shape[np.ndim(a) - 1:]):
            col = b[j[:-1] + (slice(None),) + j[-1:]] if np.ndim(b) > 1 \
                else b
            out[i + j] = sum(x * y for x, y in zip(a[i], col))
    return out


@subtest('C21', 'mdot', mdot_cases, quick=800, thorough=10000,
         rule='three or more factors')
def c21_mdot(c, ctx):
    ms = [np.reshape(np.array(m['v']) * c['scale'], m['s'])
          for m in c['mats']]
    ctx.nontrivial(len(ms) > 2)
    ref = ms[0]
    for m in ms[1:]:
        ref = dot2(ref, m)
    args = [layouts(m, c['layout']) if m.ndim else m[()] for m in ms]
    snap = snapshot(args)
    scale = np.prod([np.max(np.abs(m)) * 4 + 1e-300 for m in ms])
    close(utilities.mdot(*args), ref, 'mdot', 1e-12, 1e-13 * scale)
    require(snapshot(args) == snap, 'argument changed')


names = ['a', 'b', 'c', 'd', 'e']


@st.composite
def digest_cases(draw):
    keys = draw(st.lists(st.sampled_from(names), unique=True))
    multi = [n for n in names if n not in keys and draw(st.booleans())]
    sub = st.dictionaries(st.sampled_from(['x', 'y', 'z']),
                          st.integers(0, 9), max_size=3)
    defaults = {k: draw(sub) if k in multi else draw(st.integers(0, 9))
                for k in names}
    opts = {k: (draw(sub) if k in multi else draw(st.one_of(
        st.none(), st.integers(10, 19))))
        for k in names + ['f'] if draw(st.integers(0, 3)) == 0 or (
            k in keys + multi and draw(st.booleans()))}
    return {'keys': keys, 'multi': multi, 'defaults': defaults,
            'opts': opts, 'empty': draw(st.sampled_from([None, True,
                                                         False]))}


@subtest('C21', 'digested_options', digest_cases, quick=2000,
         thorough=20000, rule='an option is given and one is not')
def c21_digest(c, ctx):
    opts = {k: dict(v) if isinstance(v, dict) else v
            for k, v in c['opts'].items()}
    given = dict(opts)
    kw = {}
    if c['empty'] is not None:
        kw['emptycheck'] = c['empty']
    known = c['keys'] + c['multi']
    left = {k: v for k, v in c['opts'].items() if k not in known}
    ctx.nontrivial(0 < len([k for k in known if k in opts]) < len(known))
    ctx.label('refused' if left and c['empty'] is not False else 'accepted')
    dflt = {k: dict(v) if isinstance(v, dict) else v
            for k, v in c['defaults'].items()}

    def call():
        return utilities.digested_options(opts, dflt, list(c['keys']),
                                          list(c['multi']), **kw)
    if left and c['empty'] is not False:
        e = raises(TypeError, call, 'digested_options')
        require(all(repr(k) in str(e) for k in left), 'message %s', e)
        require(dflt == c['defaults'], 'defaults changed')
        return
    out = call()
    ref = {k: c['opts'].get(k, c['defaults'][k]) for k in c['keys']}
    for k in c['multi']:
        d = dict(c['defaults'][k])
        d.update(c['opts'].get(k, {}))
        ref[k] = d
    require(out == ref, 'digested_options: %s instead of %s', out, ref)
    require(opts == left, 'options left: %s instead of %s', opts, left)
    # What is returned is not tied to the defaults, nor to the options given
    for k in c['multi']:
        out[k]['new'] = 1
    require(dflt == c['defaults'], 'defaults changed')
    require(all(given[k] == c['opts'][k] for k in given),
            'nested options changed')
