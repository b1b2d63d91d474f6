"""C01-C04: the Delta-Sigma modulator simulator."""
from fractions import Fraction as Fr

import numpy as np

from ._common import (Ctx, LAYOUTS, close, conj_roots, cplx, dyadic, exact,
                      fail, layouts, nearly, poly, reals, require, snapshot,
                      st, subtest)

from pydsm.delsig import ds_quantize, simulateDSM

BACKENDS = ['scipy', 'scipy_blas', 'cblas', 'auto']


# ------------------------------------------------------------ reference model

def q_exact(y, n):
    """Level of an n level quantiser with step 2, centred about 0, ties up."""
    off = 1 if n % 2 == 0 else 0      # levels are odd, or even, integers
    # nearest k such that k = off mod 2
    k = ((Fr(y) - off) / 2 + Fr(1, 2)).__floor__() * 2 + off
    return max(-(n - 1), min(n - 1, k))


def reference(ABCD, u, nlev, x0, limit=2 ** 51):
    """Exact simulation, for as long as doubles can follow without rounding.

    Returns v, xn, y as lists of per-sample lists of Fractions."""
    _nu, nq = len(u), len(nlev)
    M = [[Fr(c) for c in row] for row in ABCD]
    order = len(M) - nq
    x = [Fr(c) for c in x0]
    vs, xs, ys = [], [], []
    for i in range(len(u[0])):
        ui = [Fr(r[i]) for r in u]

        def row(r, vec):
            terms = [a * b for a, b in zip(r, vec)]
            den = max([t.denominator for t in terms] + [1])
            if sum(abs(t) for t in terms) * den >= limit:
                raise OverflowError
            return sum(terms, Fr(0))
        try:
            y = [row(M[order + k], x + ui) for k in range(nq)]
            v = [q_exact(y[k], nlev[k]) for k in range(nq)]
            x1 = [row(M[k], x + ui + v) for k in range(order)]
        except OverflowError:
            break
        vs.append(v)
        ys.append(y)
        xs.append(x1)
        x = x1
    return vs, xs, ys


def tofloat(rows, n):
    """Per-sample lists -> (signals, samples) float array."""
    a = np.array([[float(c) for c in r] for r in rows],
                 dtype=float).reshape(len(rows), n)
    return a.T


# ----------------------------------------------------------------- generators

@st.composite
def abcd_cases(draw, max_n=40):
    order = draw(st.sampled_from([1, 2, 3, 4, 5] * 2 + [0]))
    nu = draw(st.sampled_from([1, 1, 1, 2, 3]))
    nq = draw(st.sampled_from([1, 1, 1, 2, 3]))
    ca = draw(st.sampled_from([1, 1, 2, 4]))
    a = dyadic(-1, 1, ca)
    g = dyadic(-2, 2, draw(st.sampled_from([1, 2, 4])))
    kind = draw(st.sampled_from(['random', 'chain', 'chain', 'zero']))
    ABCD = [[draw(g) for _ in range(order + nu + nq)]
            for _ in range(order + nq)]
    for i in range(order):
        for j in range(order):
            if kind == 'random':
                ABCD[i][j] = draw(a)
            elif kind == 'chain':    # cascade of accumulators
                ABCD[i][j] = 1. if i == j or i == j + 1 else 0.
            else:                    # pure delays
                ABCD[i][j] = 1. if i == j + 1 else 0.
    n = draw(st.integers(1, max_n))
    ud = draw(st.sampled_from([1, 8, 64]))
    u = [[draw(dyadic(-3, 3, ud)) for _ in range(n)] for _ in range(nu)]
    nlev = [draw(st.integers(2, 9)) for _ in range(nq)]
    x0 = [draw(dyadic(-2, 2, 8)) for _ in range(order)] \
        if draw(st.booleans()) else [0.] * order
    return {'ABCD': ABCD, 'u': u, 'nlev': nlev, 'x0': x0}


@st.composite
def guises(draw):
    return {'backend': draw(st.sampled_from(BACKENDS)),
            'u': draw(st.sampled_from(LAYOUTS)),
            'flat': draw(st.booleans()),
            'int': draw(st.booleans()),
            'ABCD': draw(st.sampled_from(LAYOUTS)),
            'x0': draw(st.sampled_from(['zero', 'flat', 'row', 'col', 'list',
                                        'Fcol'])),
            'scalar_nlev': draw(st.booleans()),
            'xn': draw(st.booleans()), 'xmax': draw(st.booleans()),
            'y': draw(st.booleans())}


def make_args(c, g, u=None, x0=None):
    """The call arguments, in the guise asked for."""
    u = np.array(c['u'] if u is None else u, dtype=float)
    if g['int'] and np.all(u == np.round(u)):
        u = u.astype(int)
    if g['flat'] and u.shape[0] == 1:
        u = u[0]
    x0 = np.array(c['x0'] if x0 is None else x0, dtype=float)
    if g['x0'] == 'zero' and not np.any(x0):
        x0 = 0
    elif g['x0'] == 'row':
        x0 = x0.reshape(1, -1)
    elif g['x0'] == 'col':
        x0 = x0.reshape(-1, 1)
    elif g['x0'] == 'Fcol':
        x0 = np.asfortranarray(x0.reshape(-1, 1))
    elif g['x0'] == 'list':
        x0 = x0.tolist()
    nlev = c['nlev']
    if len(nlev) == 1 and g['scalar_nlev']:
        nlev = nlev[0]
    # a tuple of length 3 is read as zeros, poles, gain
    how = 'list' if g['ABCD'] == 'tuple' else g['ABCD']
    ABCD = layouts(np.array(c['ABCD'], dtype=float), how)
    return layouts(u, g['u']), ABCD, nlev, x0


def call(args, g):
    return simulateDSM(*args, store_xn=g['xn'], store_xmax=g['xmax'],
                       store_y=g['y'], backend=g['backend'])


def shaped(a, rows, cols, what):
    a = np.asarray(a)
    want = tuple(s for s in (rows, cols) if s != 1)
    require(a.shape == want, '%s has shape %s instead of %s', what, a.shape,
            want)
    return a.reshape(rows, cols)


# ------------------------------------------------------------------------ C01

@st.composite
def c01_cases(draw):
    return {'m': draw(abcd_cases()), 'g': draw(guises())}


@subtest('C01', 'state_equations_exact', c01_cases, quick=1500,
         rule='at least 3 samples simulated and the output not constant')
def c01_exact(case, ctx):
    c, g = case['m'], case['g']
    order = len(c['x0'])
    nq = len(c['nlev'])
    v, xn, y = reference(c['ABCD'], c['u'], c['nlev'], c['x0'])
    n = len(v)
    if n == 0:
        ctx.nontrivial(False)
        return
    u = [r[:n] for r in c['u']]
    out = call(make_args(c, g, u=u), g)
    v, y, xn = tofloat(v, nq), tofloat(y, nq), tofloat(xn, order)
    ctx.nontrivial(n >= 3 and np.ptp(v) > 0)
    ctx.label(g['backend'])
    ctx.label('nq=%d' % nq)
    ctx.label('nu=%d' % len(u))
    exact(shaped(out[0], nq, n, 'v'), v, 'v')
    if g['xn']:
        exact(shaped(out[1], order, n, 'xn'), xn, 'xn')
    else:
        exact(np.reshape(out[1], -1), xn[:, -1], 'last state')
    if g['y']:
        exact(shaped(out[3], nq, n, 'y'), y, 'y')
    if g['xmax']:
        exact(np.reshape(out[2], -1), np.max(np.abs(np.hstack((
            np.reshape(np.array(c['x0']), (-1, 1)), xn))), axis=1), 'xmax')


@st.composite
def c01_float(draw):
    order = draw(st.integers(0, 7))
    nu = draw(st.integers(1, 3))
    nq = draw(st.integers(1, 3))
    f = reals(-2, 2)
    ABCD = [[draw(f) for _ in range(order + nu + nq)]
            for _ in range(order + nq)]
    for i in range(order):     # contractive, so that rounding does not grow
        s = sum(abs(ABCD[i][j]) for j in range(order))
        for j in range(order):
            ABCD[i][j] *= .95 / max(s, .95)
    n = draw(st.integers(1, 30))
    u = [[draw(reals(-4, 4)) for _ in range(n)] for _ in range(nu)]
    return {'m': {'ABCD': ABCD, 'u': u,
                  'nlev': [draw(st.integers(2, 17)) for _ in range(nq)],
                  'x0': [draw(reals(-3, 3)) for _ in range(order)]},
            'reps': draw(st.sampled_from([1, 1, 1, 2, 50])),
            'g': draw(guises())}


@subtest('C01', 'state_equations_float', c01_float, quick=800,
         rule='at least 3 samples and some quantiser not stuck')
def c01_flt(case, ctx):
    """The returned signals satisfy the difference equations."""
    c, g = case['m'], dict(case['g'], xn=True, y=True)
    c = dict(c, u=np.tile(c['u'], case['reps']))
    order, nq, nu = len(c['x0']), len(c['nlev']), len(c['u'])
    n = len(c['u'][0])
    out = call(make_args(c, g), g)
    v = shaped(out[0], nq, n, 'v')
    xn = shaped(out[1], order, n, 'xn')
    y = shaped(out[3], nq, n, 'y')
    M = np.array(c['ABCD'])
    x = np.hstack((np.reshape(c['x0'], (-1, 1)), xn))
    u = np.array(c['u'])
    ctx.nontrivial(n >= 3 and np.ptp(v) > 0)
    ctx.label(g['backend'])
    close(y, M[order:, :order].dot(x[:, :-1]) +
          M[order:, order:order + nu].dot(u), 'y', 1e-11, 1e-10)
    close(xn, M[:order, :order].dot(x[:, :-1]) +
          M[:order, order:order + nu].dot(u) +
          M[:order, order + nu:].dot(v), 'xn', 1e-11, 1e-10)
    for k in range(nq):
        legal_levels(v[k], y[k], c['nlev'][k])


@subtest('C01', 'no_inputs', c01_cases, quick=400,
         rule='at least 3 samples simulated and the output not constant')
def c01_auto(case, ctx):
    """A modulator with no inputs is one whose inputs are null."""
    c, g = dict(case['m']), dict(case['g'], flat=False)
    if g['u'] in ('list', 'tuple'):      # [] does not tell the length
        g['u'] = 'plain'
    nu, n, nq = len(c['u']), len(c['u'][0]), len(c['nlev'])
    order = len(c['x0'])
    v, xn, y = reference(c['ABCD'], [[0.] * n] * nu, c['nlev'], c['x0'])
    n = len(v)
    if n == 0:
        ctx.nontrivial(False)
        return
    c['ABCD'] = [r[:order] + r[order + nu:] for r in c['ABCD']]
    out = call(make_args(c, g, u=np.empty((0, n))), g)
    ctx.label(g['backend'])
    v, y, xn = tofloat(v, nq), tofloat(y, nq), tofloat(xn, order)
    ctx.nontrivial(n >= 3 and np.ptp(v) > 0)
    exact(shaped(out[0], nq, n, 'v'), v, 'v')
    if g['xn']:
        exact(shaped(out[1], order, n, 'xn'), xn, 'xn')
    else:
        exact(np.reshape(out[1], -1), xn[:, -1], 'last state')
    if g['y']:
        exact(shaped(out[3], nq, n, 'y'), y, 'y')


def legal_levels(v, y, n):
    """v is the level nearest to y (within rounding of y at the ties)."""
    levels = np.arange(-(n - 1), n, 2, dtype=float)
    require(np.all(np.isin(v, levels)), 'output %r is not among the %d levels',
            v[~np.isin(v, levels)][:1], n)
    best = np.min(np.abs(y[:, None] - levels), axis=1)
    bad = np.abs(y - v) > best + 1e-12 * (1 + np.abs(y))
    if np.any(bad):
        i = int(np.argmax(bad))
        fail('quantiser with %d levels turns %r into %r', n, y[i], v[i])


# ------------------------------------------------------------------------ C02

NEAR = [0., 1e-9, -1e-9, .25, -.25, .5, -.5, .999, -.999]


@st.composite
def q_inputs(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(reals(-20, 20))
    if k == 1:       # around the thresholds and the levels
        return float(draw(st.integers(-20, 20))) + draw(st.sampled_from(NEAR))
    if k == 2:
        return draw(st.sampled_from([1., -1.])) * 10. ** draw(
            st.integers(-300, 300))
    return draw(dyadic(-40, 40, 16))


@st.composite
def c02_cases(draw):
    nq = draw(st.integers(1, 4))
    n = draw(st.integers(1, 12))
    return {'y': [[draw(q_inputs()) for _ in range(n)] for _ in range(nq)],
            'nlev': [draw(st.one_of(st.integers(2, 9), st.integers(10, 40)))
                     for _ in range(nq)],
            'backend': draw(st.sampled_from(BACKENDS)),
            'order': draw(st.integers(0, 2)),
            'how': draw(st.sampled_from(['scalar', 'column', 'flat_n']))}


def q_check(v, y, n):
    v, y = np.asarray(v, float), np.asarray(y, float)
    legal_levels(v, y, n)
    # away from rounding troubles the ties go up
    small = (np.abs(y) < 1000) & (y * 2 ** 20 == np.round(y * 2 ** 20))
    for a, b in zip(v[small], y[small]):
        require(a == q_exact(b, n), 'level %r for %r with %d levels', a, b, n)
    # beyond the outermost level: saturation
    require(np.all(v[y >= n - 1] == n - 1) and np.all(
        v[y <= -(n - 1)] == -(n - 1)), 'no saturation with %d levels', n)


@subtest('C02', 'ds_quantize', c02_cases, quick=1500,
         rule='some input neither a level nor saturating')
def c02_q(case, ctx):
    y, nlev = np.array(case['y']), case['nlev']
    nq = len(nlev)
    inner = np.abs(y) < np.reshape(nlev, (-1, 1))
    ctx.nontrivial(np.any(inner & (y != np.round(y))))
    ctx.label(case['how'])
    for i in range(y.shape[1]):
        if case['how'] == 'scalar':
            for k in range(nq):
                r = ds_quantize(float(y[k, i]), nlev[k])
                require(np.ndim(r) == 0, 'scalar turned into %r', r)
                q_check([r], y[k, i:i + 1], nlev[k])
            continue
        col = y[:, i:i + 1].copy()
        keep = col.copy()
        r = ds_quantize(col, np.array(nlev) if case['how'] == 'column'
                        else list(nlev))
        require(np.shape(r) == (nq, 1), 'column gives shape %s', np.shape(r))
        exact(col, keep, 'argument changed')
        for k in range(nq):
            q_check(r[k], y[k, i:i + 1], nlev[k])


@subtest('C02', 'simulator_quantiser', c02_cases, quick=1500,
         rule='some input neither a level nor saturating')
def c02_sim(case, ctx):
    """Memoryless structure: each quantiser sees its own input."""
    y, nlev = np.array(case['y']), case['nlev']
    nq, n = y.shape
    order = case['order']
    ABCD = np.zeros((order + nq, order + 2 * nq))
    ABCD[order:, order:order + nq] = np.eye(nq)
    inner = np.abs(y) < np.reshape(nlev, (-1, 1))
    ctx.nontrivial(np.any(inner & (y != np.round(y))))
    ctx.label(case['backend'])
    v, _, _, yo = simulateDSM(y, ABCD, nlev, store_y=True,
                              backend=case['backend'])
    v, yo = shaped(v, nq, n, 'v'), shaped(yo, nq, n, 'y')
    exact(yo, y, 'quantiser input')
    for k in range(nq):
        q_check(v[k], y[k], nlev[k])


# ------------------------------------------------------------------------ C03

@st.composite
def c03_cases(draw):
    m = draw(abcd_cases(max_n=30))
    n = len(m['u'][0])
    chunks = []
    left = n
    while left > 0:
        k = draw(st.integers(1, left))
        chunks.append([k, draw(guises())])
        left -= k
    return {'m': m, 'chunks': chunks}


@subtest('C03', 'restart_history', c03_cases, quick=1000,
         rule='at least two calls, with a non-null state in between')
def c03_hist(case, ctx):
    """Splitting the input, in any way, over many calls, gives the same."""
    c = case['m']
    order, nq = len(c['x0']), len(c['nlev'])
    v, xn, y = reference(c['ABCD'], c['u'], c['nlev'], c['x0'])
    n = len(v)
    v, y, xn = tofloat(v, nq), tofloat(y, nq), tofloat(xn, order)
    x = np.hstack((np.reshape(np.array(c['x0']), (-1, 1)), xn))
    u = np.array(c['u'])[:, :n]
    ctx.nontrivial(False if len(case['chunks']) < 2 or n < 2 else
                   np.any(x[:, case['chunks'][0][0]]
                          if case['chunks'][0][0] < n else False))
    pos = 0
    state = np.array(c['x0'])
    kept = []
    for k, g in case['chunks']:
        k = min(k, n - pos)
        if k <= 0:
            break
        ctx.label(g['backend'])
        args = make_args(c, g, u=u[:, pos:pos + k], x0=state)
        before = snapshot(args)
        out = call(args, g)
        require(snapshot(args) == before, 'arguments changed by the call')
        exact(shaped(out[0], nq, k, 'v'), v[:, pos:pos + k], 'v')
        if g['xn']:
            a = shaped(out[1], order, k, 'xn')
            exact(a, xn[:, pos:pos + k], 'xn')
            state = a[:, -1]
        else:
            state = np.reshape(out[1], -1)
            exact(state, xn[:, pos + k - 1], 'last state')
        if g['xmax']:
            exact(np.reshape(out[2], -1),
                  np.max(np.abs(x[:, pos:pos + k + 1]), axis=1), 'xmax')
        else:
            require(np.size(out[2]) == 0, 'xmax not null')
        if g['y']:
            exact(shaped(out[3], nq, k, 'y'), y[:, pos:pos + k], 'y')
        else:
            require(np.size(out[3]) == 0, 'y not null')
        kept.append((out, snapshot(out)))
        pos += k
    for out, s in kept:
        require(snapshot(out) == s, 'a later call changed earlier results')


@st.composite
def c03_ntf(draw):
    order = draw(st.integers(1, 6))
    n = draw(st.integers(2, 40))
    return {'z': draw(conj_roots(order, circle=True, tiny=True)),
            'p': draw(conj_roots(order, rmax=.9, tiny=True)),
            'u': [draw(reals(-1, 1)) for _ in range(n)],
            'cut': draw(st.integers(1, n - 1)),
            'reps': draw(st.sampled_from([1, 1, 1, 3, 40])),
            'nlev': draw(st.sampled_from([2, 3, 5, 8, 17])),
            'x0': draw(st.one_of(st.none(), st.lists(
                reals(-1, 1), min_size=order, max_size=order))),
            'backend': draw(st.sampled_from(BACKENDS))}


@subtest('C03', 'causality', c03_ntf, quick=500,
         rule='the quantiser is not stuck on a level')
def c03_causal(case, ctx):
    """What happens up to a sample does not depend on what comes next; flags
    select what is returned and have no other effect; deterministic."""
    ntf = (cplx(case['z']), cplx(case['p']), 1.)
    u = np.array(case['u'])
    x0 = 0 if case['x0'] is None else np.array(case['x0'])
    k, order = case['cut'], len(ntf[0])
    a = simulateDSM(u, ntf, case['nlev'], x0, True, True, True,
                    backend=case['backend'])
    b = simulateDSM(u[:k], ntf, case['nlev'], x0, True, True, True,
                    backend=case['backend'])
    d = simulateDSM(u, ntf, case['nlev'], x0, backend=case['backend'])
    e = simulateDSM(np.concatenate((u[:k], -u[k:] + .5)), ntf, case['nlev'],
                    x0, True, True, True, backend=case['backend'])
    n = len(u)
    ctx.nontrivial(np.ptp(np.reshape(a[0], -1)) > 0)
    ctx.label(case['backend'])
    sh = [('v', 0, 1), ('xn', 1, order), ('y', 3, 1)]
    for name, i, r in sh:
        full = shaped(a[i], r, n, name)
        exact(shaped(b[i], r, k, name), full[:, :k], name + ' of the prefix')
        exact(shaped(e[i], r, n, name)[:, :k], full[:, :k],
              name + ' before the input changes')
    exact(np.reshape(d[0], -1), np.reshape(a[0], -1), 'v, nothing stored')
    exact(np.reshape(d[1], -1), shaped(a[1], order, n, 'xn')[:, -1],
          'last state')
    start = np.zeros(order) if case['x0'] is None else np.array(case['x0'])
    exact(np.reshape(a[2], -1), np.max(np.abs(np.hstack((
        start.reshape(-1, 1), shaped(a[1], order, n, 'xn')))), axis=1),
        'xmax')
    require(np.size(d[2]) == 0 and np.size(d[3]) == 0, 'unasked xmax, y')


@st.composite
def c03_many(draw):
    """Modulators alike, or not, simulated by turns."""
    runs = [draw(c03_ntf())]
    for _ in range(draw(st.integers(1, 4))):
        c = dict(draw(st.sampled_from(runs)))
        how = draw(st.sampled_from(['near', 'near', 'same', 'other', 'poles']))
        if how == 'near':
            eps = 10. ** -draw(st.integers(2, 8))
            c['p'] = nearly(c['p'], eps)
        elif how == 'other':
            c = draw(c03_ntf())
        elif how == 'poles':
            c['p'] = draw(conj_roots(len(c['p']), rmax=.9))
        else:
            k = draw(st.sampled_from(['u', 'nlev', 'backend']))
            c[k] = draw(c03_ntf())[k]
            c['cut'] = min(c['cut'], len(c['u']) - 1)
        if draw(st.booleans()):
            c['backend'] = draw(st.sampled_from(BACKENDS))
        runs.append(c)
    return {'runs': runs, 'x0': draw(st.booleans())}


@subtest('C03', 'many_modulators', c03_many, quick=500,
         rule='two modulators or more whose quantisers are not stuck')
def c03_turns(case, ctx):
    """What was simulated before has no part in a simulation."""
    done = 0
    first = {}
    for c in case['runs'] + case['runs'][::-1]:
        c = dict(c, reps=1)
        if not case['x0']:
            c['x0'] = None
        one = Ctx()
        c04_ntf(c, one)
        done += one._nontrivial
        ctx.label(c['backend'])
        ntf = (cplx(c['z']), cplx(c['p']), 1.)
        r = simulateDSM(np.array(c['u']), ntf, c['nlev'],
                        0 if c['x0'] is None else np.array(c['x0']), True,
                        True, True, backend=c['backend'])
        s = snapshot(r)
        require(first.setdefault(repr(c), s) == s,
                'another outcome when repeated')
    ctx.nontrivial(done > 2)


# ------------------------------------------------------------------------ C04

@subtest('C04', 'error_feedback', c03_ntf, quick=1000,
         rule='the quantiser is not stuck on a level')
def c04_ntf(case, ctx):
    """v = STF u + NTF e, with unitary STF and e = v-y, for any start."""
    zf, pf = cplx(case['z']), cplx(case['p'])
    u = np.tile(case['u'], case['reps'])
    x0 = 0 if case['x0'] is None else np.array(case['x0'])
    # all the ways of splitting in two, with different state forms
    k = case['cut']
    v1, s, _, y1 = simulateDSM(u[:k], (zf, pf, 1.), case['nlev'], x0,
                               store_y=True, backend=case['backend'])
    v2, _, _, y2 = simulateDSM(u[k:], (zf, pf, 1.), case['nlev'],
                               np.reshape(s, -1), store_y=True,
                               backend=case['backend'])
    v = np.concatenate((np.reshape(v1, -1), np.reshape(v2, -1)))
    y = np.concatenate((np.reshape(y1, -1), np.reshape(y2, -1)))
    ctx.nontrivial(np.ptp(v) > 0)
    ctx.label(case['backend'])
    ctx.label('order %d' % len(zf))
    legal_levels(v, y, case['nlev'])
    # an overloaded modulator diverges: follow it to a reasonable extent
    ok = np.cumprod(np.abs(y) < 1e9).astype(bool)
    ctx.label('diverging' if not np.all(ok) else 'not diverging')
    u, v, y = u[ok], v[ok], y[ok]
    e = v - y
    b, a = poly(zf), poly(pf)
    n = len(u)
    # a*(v-u) = b*e from the first sample if started at rest
    lhs = np.convolve(a, v - u)[:n]
    rhs = np.convolve(b, e)[:n]
    first = 0 if case['x0'] is None else len(zf)
    scale = 1e-7 * np.cumsum(1 + np.abs(e) + np.abs(y)) * (
        np.sum(np.abs(b)) + np.sum(np.abs(a)))
    bad = np.abs(lhs - rhs)[first:] > scale[first:] * 1e-2
    if np.any(bad):
        i = int(np.argmax(bad)) + first
        fail('a*(v-u) is %r and b*e is %r at sample %d', lhs[i], rhs[i], i)


@subtest('C04', 'backends_agree', c03_ntf, quick=500,
         rule='the quantiser is not stuck on a level')
def c04_backends(case, ctx):
    ntf = (cplx(case['z']), cplx(case['p']), 1.)
    u = np.array(case['u'])
    x0 = 0 if case['x0'] is None else np.array(case['x0'])
    r = [simulateDSM(u, ntf, case['nlev'], x0, store_y=True, backend=b)
         for b in BACKENDS]
    y = np.array([np.reshape(a[3], -1) for a in r])
    v = np.array([np.reshape(a[0], -1) for a in r])
    ctx.nontrivial(np.ptp(v[0]) > 0)
    # up to the first sample where rounding may decide of the quantiser, whose
    # thresholds are the even (odd) numbers if nlev is even (odd)
    s = np.maximum.accumulate(1 + np.abs(y[0]))
    dist = np.abs(np.remainder(y[0] + case['nlev'] % 2 + 1, 2) - 1)
    risky = np.flatnonzero((dist < 1e-6 * s) & (np.abs(y[0]) < case['nlev']))
    n = int(risky[0]) if len(risky) else len(u)
    # there, and until there, the inputs of the quantisers are the same
    m = min(n + 1, len(u))
    for i in range(1, len(BACKENDS)):
        require(np.all(np.abs(y[i] - y[0])[:m] <= 1e-7 * s[:m]),
                'y of %s and %s differ', BACKENDS[i], BACKENDS[0])
        exact(v[i, :n], v[0, :n], 'v of %s' % BACKENDS[i])
