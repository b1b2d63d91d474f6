"""C30: the atoms of the bundled CVXPY compute their functions."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import log_ndtr

from ._common import Known, Reject, dyadic, fail, raises, require, subtest
from ._dcp import (Domain, analyse, atom_value, atoms_in, build, evaluate,
                   expr)
from .c27_cvxpy import lib

RT, AT = 1e-4, 2e-6
LOUD = (ArithmeticError, OverflowError, ValueError, TypeError)

# name: (numerical twin, parameter, range of the elements)
ELEMENT = {
    'abs': (lambda x, p: np.abs(x), None, (-8, 8)),
    'exp': (lambda x, p: np.exp(x), None, (-5, 4)),
    'log': (lambda x, p: np.log(x), None, (.125, 12)),
    'sqrt': (lambda x, p: np.sqrt(x), None, (.125, 16)),
    'square': (lambda x, p: x**2, None, (-8, 8)),
    'huber': (lambda x, p: np.where(np.abs(x) <= p, x**2,
                                    p * (2 * np.abs(x) - p)),
              [.5, 1., 2., 3.5], (-8, 8)),
    'log_norm_cdf': (lambda x, p: log_ndtr(x), None, (-3, 2)),
    'power_abs': (lambda x, p: np.abs(x)**p, [1, 1., 1.5, 2, 3.], (-4, 4)),
    'power_p': (lambda x, p: x**p, [1, 1., 1.5, 2, 3.], (.125, 4)),
    'power_pos': (lambda x, p: np.maximum(x, 0)**p, [1, 1., 1.5, 2, 3.],
                  (-4, 4)),
}
CONCAVE = ('log', 'sqrt', 'log_norm_cdf', 'min', 'geo_mean', 'lambda_min',
           'det_rootn')


def elements(draw, m, n, rng):
    return [[draw(dyadic(rng[0], rng[1], 8)) for _ in range(n)]
            for _ in range(m)]


def tolerance(name, ref):
    return AT + RT * np.abs(ref) + (1e-4 if name in (
        'sqrt', 'geo_mean', 'power_abs', 'power_p', 'power_pos', 'log',
        'log_norm_cdf', 'det_rootn') else 0)


def same(got, ref, name, what):
    got, ref = np.asarray(got, dtype=float), np.asarray(ref, dtype=float)
    require(got.shape == ref.shape, '%s of %s: shape %s instead of %s', what,
            name, got.shape, ref.shape)
    bad = np.abs(got - ref) > tolerance(name, ref)
    bad |= np.isnan(got)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0]) if got.ndim else ()
        fail('%s of %s is %r instead of %r', what, name, got[i], ref[i])


def pinned(cvx, name, fn, x, how):
    """Value by optimising over a variable pinned at x."""
    x = np.atleast_2d(x)
    m, n = x.shape
    var = cvx.variable(m, n, name='x') if m * n > 1 else \
        cvx.variable(name='x')
    val = cvx.matrix(x) if m * n > 1 else float(x[0, 0])
    if how == 'eq':
        cons = [cvx.eq(var, val)]
    elif how == 'sandwich':
        cons = [cvx.leq(var, val), cvx.geq(var, val)]
    else:
        par = cvx.parameter(m, n) if m * n > 1 else cvx.parameter()
        par.value = val
        cons = [cvx.eq(par, var)]
    e = fn(var)
    act = cvx.maximize if name in CONCAVE else cvx.minimize
    return var, cons, e, act


def solve(prog, ctx):
    try:
        v, valid = prog.solve(quiet=True, return_status=True)
    except LOUD:
        ctx.label('solver failure')
        return None
    if not valid:
        ctx.label('not solved')
        return None
    return v


@st.composite
def element_case(draw):
    name = draw(st.sampled_from(sorted(ELEMENT)))
    f, ps, rng = ELEMENT[name]
    m, n = draw(st.sampled_from([[1, 1], [1, 1], [2, 1], [1, 2], [2, 2]]))
    return {'name': name, 'x': elements(draw, m, n, rng),
            'p': draw(st.sampled_from(ps)) if ps else None,
            'default': draw(st.booleans()),
            'how': draw(st.sampled_from(['eq', 'parameter'])),
            'obj': draw(st.sampled_from(['bound', 'elements', 'sum']))}


@subtest('C30', 'elementwise', element_case(), quick=420, budget=45,
         rule='an argument not null')
def elementwise(c, ctx):
    """Element-wise atoms on numbers, matrices, pinned variables."""
    cvx = lib()
    name, p = c['name'], c['p']
    x = np.array(c['x'], dtype=float)
    f = ELEMENT[name][0]
    ref = f(x, p)
    atom = getattr(cvx, name)
    ctx.nontrivial(np.any(x != 0))
    ctx.label(name)
    if name == 'huber' and p == 1. and c['default']:
        fn = atom
    elif p is not None:
        fn = lambda y: atom(y, p)
    else:
        fn = atom
    scalar = x.shape == (1, 1)
    got = fn(float(x[0, 0]) if scalar else cvx.matrix(x))
    if scalar:
        require(np.isscalar(got), 'the outcome on a number is a %s',
                type(got).__name__)
        same(got, ref[0, 0], name, 'value')
        one = fn(cvx.matrix(x))
        require(np.isscalar(one), 'the outcome on a 1x1 matrix is a %s',
                type(one).__name__)
        same(one, ref[0, 0], name, 'value')
    else:
        require(type(got).__name__ == 'cvxpy_matrix', 'the outcome on a '
                'matrix is a %s', type(got).__name__)
        same(got, ref, name, 'value')
    # The atom over a variable
    var, cons, e, act = pinned(cvx, name, fn, x, c['how'])
    if scalar:
        goal = e
    else:
        require(e.shape == x.shape, 'array of shape %s instead of %s',
                e.shape, x.shape)
        if c['obj'] == 'sum':
            goal = cvx.sum(e)
        elif c['obj'] == 'elements':
            goal = None
        else:
            # A bound on each of them
            t = cvx.variable(*x.shape)
            cons.append(cvx.geq(e, t) if name in CONCAVE else
                        cvx.leq(e, t))
            goal = cvx.sum(t)
    if goal is not None:
        v = solve(cvx.program(act(goal), cons), ctx)
        if v is not None:
            require(abs(v - np.sum(ref)) <= np.sum(tolerance(name, ref)),
                    '%s over a variable pinned at %s gives %r, the sum is '
                    '%r', name, x.tolist(), v, np.sum(ref))
    else:
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                v = solve(cvx.program(act(e[i, j]), cons), ctx)
                if v is not None:
                    same(v, ref[i, j], name, 'element %d, %d' % (i, j))
    if x.size and goal is not None:
        xv = np.atleast_2d(np.asarray(var.value, dtype=float))
        require(np.all(np.abs(xv - x) < 1e-4) or v is None,
                'the pinned variable is %r', xv)


# ------------------------------------------------------------- whole argument

def _geo(x):
    return np.prod(x)**(1. / x.size)


WHOLE = {
    # name: (twin, shapes, range)
    'max': (np.max, [[2, 1], [1, 3], [2, 2], [3, 2], [1, 1]], (-8, 8)),
    'min': (np.min, [[2, 1], [1, 3], [2, 2], [3, 2], [1, 1]], (-8, 8)),
    'norm1': (lambda x: np.linalg.norm(x, 1),
              [[2, 1], [1, 3], [2, 2], [3, 2], [1, 1]], (-8, 8)),
    'norm_inf': (lambda x: np.linalg.norm(x, np.inf),
                 [[2, 1], [1, 3], [2, 2], [2, 3], [1, 1]], (-8, 8)),
    'norm2': (lambda x: np.linalg.norm(x, 2),
              [[2, 1], [4, 1], [1, 3], [2, 2], [3, 2], [2, 3], [1, 1]],
              (-8, 8)),
    'nuclear_norm': (lambda x: np.sum(np.linalg.svd(x)[1]),
                     [[2, 1], [1, 3], [2, 2], [3, 2], [1, 1]], (-8, 8)),
    'geo_mean': (_geo, [[1, 1], [2, 1], [3, 1], [4, 1], [5, 1]], (.25, 9)),
    'log_sum_exp': (lambda x: np.log(np.sum(np.exp(x))),
                    [[1, 1], [2, 1], [3, 1], [4, 1]], (-3, 3)),
}
SYM = {
    'lambda_max': lambda x: np.linalg.eigvalsh(x)[-1],
    'lambda_min': lambda x: np.linalg.eigvalsh(x)[0],
    'det_rootn': lambda x: np.linalg.det(x)**(1. / len(x)),
}


@st.composite
def whole_case(draw):
    name = draw(st.sampled_from(sorted(WHOLE) + sorted(SYM)))
    if name in WHOLE:
        f, shapes, rng = WHOLE[name]
        m, n = draw(st.sampled_from(shapes))
        x = elements(draw, m, n, rng)
    else:
        n = draw(st.integers(1, 3))
        a = np.array(elements(draw, n, n, (-3, 3)))
        x = (a + a.T) if name != 'det_rootn' else a.dot(a.T) + np.eye(n)
        x = x.tolist()
    return {'name': name, 'x': x,
            'how': draw(st.sampled_from(['eq', 'parameter'])),
            'sym': draw(st.booleans()),
            'shift': draw(st.sampled_from([0., 0., 1., -2.]))}


@subtest('C30', 'whole_argument', whole_case(), quick=420, budget=45,
         rule='more than one element')
def whole_argument(c, ctx):
    """Norms, eigenvalues, means, ..., on numbers and pinned variables."""
    cvx = lib()
    name = c['name']
    x = np.array(c['x'], dtype=float)
    ref = float((WHOLE[name][0] if name in WHOLE else SYM[name])(x))
    fn = getattr(cvx, name)
    ctx.nontrivial(x.size > 1)
    ctx.label(name)
    got = fn(cvx.matrix(x))
    require(np.isscalar(got), 'the outcome on numbers is a %s',
            type(got).__name__)
    same(got, ref, name, 'value')
    if x.size == 1:
        same(fn(float(x[0, 0])), ref, name, 'value')
    if name in SYM and x.size > 1 and c['sym']:
        # Symmetric variable, and expression
        var = cvx.variable(len(x), len(x), 'symmetric')
        k = c['shift']
        cons = [cvx.eq(var, cvx.matrix(x - k))]
        e = fn(var + k) if k else fn(var)
        act = cvx.maximize if name in CONCAVE else cvx.minimize
    else:
        var, cons, e, act = pinned(cvx, name, fn, x, c['how'])
    v = solve(cvx.program(act(e), cons), ctx)
    if v is not None:
        same(v, ref, name, 'value over a pinned variable')


LARGER = {
    'max': [[9, 1], [1, 7], [4, 5]], 'min': [[9, 1], [1, 7], [4, 5]],
    'norm1': [[9, 1], [1, 7], [4, 5]], 'norm_inf': [[9, 1], [1, 7], [4, 5]],
    'norm2': [[9, 1], [1, 7], [3, 4], [4, 3]],
    'nuclear_norm': [[5, 1], [1, 5], [2, 4], [4, 2], [3, 3]],
    'geo_mean': [[k, 1] for k in range(6, 18)],
    'log_sum_exp': [[k, 1] for k in (5, 8, 11)],
    'lambda_max': [[4, 4], [5, 5], [6, 6]],
    'lambda_min': [[4, 4], [5, 5], [6, 6]],
    'det_rootn': [[4, 4], [5, 5]],
}


@st.composite
def larger_case(draw):
    name = draw(st.sampled_from(sorted(LARGER) + ['geo_mean'] * 3))
    m, n = draw(st.sampled_from(LARGER[name]))
    rng = WHOLE[name][2] if name in WHOLE else (-2, 2)
    return {'name': name, 'shape': [m, n], 'rng': list(rng),
            'seed': draw(st.integers(0, 10**6)),
            'how': draw(st.sampled_from(['eq', 'parameter']))}


@subtest('C30', 'larger', larger_case(), quick=150, thorough=2000, budget=45,
         rule='always')
def larger(c, ctx):
    """Arguments of some more elements."""
    rng = np.random.RandomState(c['seed'])
    x = np.round(rng.uniform(c['rng'][0], c['rng'][1], c['shape']) * 8) / 8
    name = c['name']
    if name in SYM:
        x = x + x.T if name != 'det_rootn' else \
            x.dot(x.T) + np.eye(len(x))
    whole_argument(dict(name=name, x=x.tolist(), how=c['how'],
                           sym=c['seed'] % 2 == 0, shift=0.), ctx)


# -------------------------------------------------------------- two arguments

@st.composite
def pair_case(draw):
    name = draw(st.sampled_from(['quad_form', 'quad_over_lin', 'kl_div']))
    n = draw(st.integers(1, 3))
    rng = (.25, 4) if name == 'kl_div' else (-4, 4)
    x = elements(draw, n, 1, rng)
    if name == 'quad_form':
        a = np.array(elements(draw, n, n, (-2, 2)))
        y = a.dot(a.T)
        if draw(st.booleans()):
            y = y + .5 * np.eye(n)
        y = y.tolist()
    elif name == 'quad_over_lin':
        y = [[draw(dyadic(.25, 4, 8))]]
    else:
        y = elements(draw, n, 1, rng)
    return {'name': name, 'x': x, 'y': y,
            'fix': draw(st.sampled_from(['both', 'first', 'second',
                                         'numbers']))}


@subtest('C30', 'two_arguments', pair_case(), quick=300, budget=40,
         rule='value not null')
def two_arguments(c, ctx):
    cvx = lib()
    name = c['name']
    x, y = np.array(c['x']), np.array(c['y'])
    n = len(x)
    ctx.label(name)
    if name == 'quad_form':
        ref = float(x.T.dot(y).dot(x)[0, 0])
    elif name == 'quad_over_lin':
        ref = float(np.sum(x**2) / y[0, 0])
    else:
        ref = float(np.sum(x * np.log(x / y) - x + y))
    ctx.nontrivial(abs(ref) > 1e-3)
    fn = getattr(cvx, name)
    num = [cvx.matrix(x) if n > 1 else float(x[0, 0]),
           cvx.matrix(y) if y.size > 1 else float(y[0, 0])]
    same(fn(*num), ref, name, 'value')
    if c['fix'] == 'numbers':
        return
    args, cons = list(num), []
    for i, (a, k) in enumerate(((x, 'first'), (y, 'second'))):
        if c['fix'] in (k, 'both') and not (i == 1 and
                                            name == 'quad_form'):
            args[i] = cvx.variable(*a.shape) if a.size > 1 else \
                cvx.variable()
            cons.append(cvx.eq(args[i], num[i]))
    if not cons:
        return
    v = solve(cvx.program(cvx.minimize(fn(*args)), cons), ctx)
    if v is not None:
        # The solver works close to the optimum of a smooth function
        require(abs(v - ref) <= AT + 1e-3 * (1 + abs(ref)),
                '%s over pinned variables is %r instead of %r', name, v, ref)


# ------------------------------------------------- out of the domain, arguments

DOMAIN = [
    ('power_p', lambda cvx, a: cvx.power_p(-a, 2), np.inf),
    ('power_p', lambda cvx, a: cvx.power_p(-a, 1), np.inf),
    ('sqrt', lambda cvx, a: cvx.sqrt(-a), -np.inf),
    ('kl_div', lambda cvx, a: cvx.kl_div(-a, a), np.inf),
    ('kl_div', lambda cvx, a: cvx.kl_div(a, 0), np.inf),
    ('kl_div', lambda cvx, a: cvx.kl_div(cvx.vstack((a, 0.)),
                                         cvx.vstack((a, a))), np.inf),
    ('geo_mean', lambda cvx, a: cvx.geo_mean(cvx.matrix([[a], [-a]])),
     -np.inf),
    ('lambda_max', lambda cvx, a: cvx.lambda_max(
        cvx.matrix([[0., a], [0., 1.]])), np.inf),
    ('lambda_min', lambda cvx, a: cvx.lambda_min(
        cvx.matrix([[0., a], [0., 1.]])), -np.inf),
    ('det_rootn', lambda cvx, a: cvx.det_rootn(
        cvx.matrix([[0., a], [0., 1.]])), -np.inf),
    ('det_rootn', lambda cvx, a: cvx.det_rootn(
        cvx.matrix([[1., 0.], [0., -a]])), -np.inf),
    ('quad_over_lin', lambda cvx, a: cvx.quad_over_lin(
        cvx.matrix([[1.], [a]]), -a), np.inf),
]

ERRORS = [
    ('power_abs', lambda c, x: c.power_abs(x, .5), ValueError),
    ('power_p', lambda c, x: c.power_p(x, .5), ValueError),
    ('power_pos', lambda c, x: c.power_pos(x, 0), ValueError),
    ('power_abs', lambda c, x: c.power_abs(x, x), TypeError),
    ('power_p', lambda c, x: c.power_p(x, x), TypeError),
    ('power_pos', lambda c, x: c.power_pos(x, x), TypeError),
    ('huber', lambda c, x: c.huber(x, 0), ValueError),
    ('huber', lambda c, x: c.huber(x, -1), ValueError),
    ('huber', lambda c, x: c.huber(x, x), TypeError),
    ('geo_mean', lambda c, x: c.geo_mean(c.variable(2, 2)), ValueError),
    ('log_sum_exp', lambda c, x: c.log_sum_exp(c.variable(1, 2)),
     ValueError),
    ('lambda_max', lambda c, x: c.lambda_max(c.variable(2, 1)), ValueError),
    ('lambda_min', lambda c, x: c.lambda_min(c.variable(1, 2)), ValueError),
    ('det_rootn', lambda c, x: c.det_rootn(c.variable(2, 3)), ValueError),
    ('kl_div', lambda c, x: c.kl_div(c.variable(2, 1), x), ValueError),
    ('kl_div', lambda c, x: c.kl_div(c.variable(1, 2), c.variable(1, 2)),
     ValueError),
    ('quad_form', lambda c, x: c.quad_form(c.variable(2, 1), c.variable(
        2, 2)), (TypeError, ValueError)),
    ('quad_form', lambda c, x: c.quad_form(c.variable(2, 1), c.matrix(
        [[1., 0.], [0., -1.]])), ValueError),
    ('quad_form', lambda c, x: c.quad_form(c.variable(2, 1), c.matrix(
        [[1., 1.], [0., 1.]])), ValueError),
    ('quad_form', lambda c, x: c.quad_form(c.variable(3, 1), c.eye(2)),
     ValueError),
    ('quad_over_lin', lambda c, x: c.quad_over_lin(c.variable(2, 1),
                                                   c.variable(2, 1)),
     (ValueError, TypeError)),
    ('second_order_cone', lambda c, x: c.belongs(
        c.variable(2, 2), c.second_order_cone), ValueError),
    ('semidefinite_cone', lambda c, x: c.belongs(
        c.variable(2, 3), c.semidefinite_cone), ValueError),
    ('exp_cone', lambda c, x: c.belongs(
        c.variable(4, 1), c.exp_cone), ValueError),
    ('kl_div_epi', lambda c, x: c.belongs(
        c.variable(4, 1), c.kl_div_epi), ValueError),
    ('geo_mean_cone', lambda c, x: c.belongs(
        c.variable(2, 2), c.geo_mean_cone), ValueError),
    ('log_norm_cdf_hypo', lambda c, x: c.belongs(
        c.variable(3, 1), c.log_norm_cdf_hypo), ValueError),
    ('not a set', lambda c, x: c.belongs(c.variable(3, 1), 3), TypeError),
    ('scalar in set', lambda c, x: c.belongs(1., c.exp_cone), TypeError),
]


@subtest('C30', 'domain', cases=lambda: [
    {'i': i, 'a': a} for i in range(len(DOMAIN)) for a in (.25, 1., 3.)],
    rule='always')
def domain(c, ctx):
    """Value of the atoms on numbers out of their domain (enumerated)."""
    name, f, exp = DOMAIN[c['i']]
    ctx.label(name)
    got = f(lib(), c['a'])
    require(got == exp, '%s out of its domain is %r instead of %r', name,
            got, exp)


@subtest('C30', 'arguments', cases=lambda: [
    {'i': i} for i in range(len(ERRORS))], rule='always')
def arguments(c, ctx):
    """Arguments that are refused (enumerated)."""
    name, f, exc = ERRORS[c['i']]
    ctx.label(name)
    cvx = lib()
    raises(exc, lambda: f(cvx, cvx.variable()), name)


# ------------------------------------------------------------------------ sets

@st.composite
def set_case(draw):
    name = draw(st.sampled_from([
        'second_order_cone', 'exp_cone', 'geo_mean_cone', 'kl_div_epi',
        'log_norm_cdf_hypo', 'power_pos_epi', 'semidefinite_cone']))
    n = draw(st.integers(1, 3))
    pos = dyadic(.25, 3, 8)
    gen = dyadic(-2, 2, 8)
    x = [draw(pos if name in ('geo_mean_cone', 'kl_div_epi',
                              'power_pos_epi') else gen) for _ in range(n)]
    y = [draw(pos) for _ in range(n)]
    off = [draw(gen) for _ in range(3)]
    mode = draw(st.sampled_from(['numbers', 'pinned', 'shifted',
                                 'repeated']))
    if mode == 'repeated':
        x = [x[0]] * n
        y = [x[0] if x[0] > 0 else y[0]] * n
    return {'set': name, 'x': x, 'y': y, 'off': off, 'mode': mode,
            'p': draw(st.sampled_from([1.5, 2., 3.]))}


def boundary(c):
    """Elements of the vector but the last; extreme value of the last; sense:
    1 if the last element is bounded below."""
    name, x, y = c['set'], c['x'], c['y']
    if name == 'second_order_cone':
        return x, float(np.linalg.norm(x)), 1
    if name == 'exp_cone':
        return [x[0], y[0]], y[0] * np.exp(x[0] / y[0]), 1
    if name == 'geo_mean_cone':
        return x, float(np.prod(x)**(1. / len(x))), -1
    if name == 'kl_div_epi':
        a, b = np.array(x), np.array(y)
        return x + y, float(np.sum(a * np.log(a / b) - a + b)), 1
    if name == 'log_norm_cdf_hypo':
        return [x[0]], float(log_ndtr(x[0])), -1
    if name == 'power_pos_epi':
        return [x[0]], x[0]**c['p'], 1
    raise KeyError(name)


@subtest('C30', 'sets', set_case(), quick=300, budget=40,
         rule='not only numbers')
def sets(c, ctx):
    """The last element of the vector has the extreme value that the set
    allows; with repeated variables, too."""
    cvx = lib()
    name, mode = c['set'], c['mode']
    ctx.label('%s %s' % (name, mode))
    ctx.nontrivial(mode != 'numbers')
    if name == 'semidefinite_cone':
        # [[a, o], [o, t]]: t >= o**2/a
        a, o = c['y'][0], c['off'][0]
        t = cvx.variable()
        cons = []
        if mode != 'numbers':
            va, vo = cvx.variable(), cvx.variable()
            cons = [cvx.eq(va, a), cvx.eq(vo, o)]
            a_, o_ = va, vo
        else:
            a_, o_ = a, o
        if mode == 'shifted':
            o_ = o_ * 2 - o
        cons.append(cvx.belongs(cvx.vstack((cvx.hstack((a_, o_)),
                                            cvx.hstack((o_, t)))),
                                cvx.semidefinite_cone))
        v = solve(cvx.program(cvx.minimize(t), cons), ctx)
        require(v is not None, 'not solved')
        require(abs(v - o * o / a) < 1e-4 * (1 + o * o / a),
                'got %r instead of %r', v, o * o / a)
        return
    head, ext, sense = boundary(c)
    s = getattr(cvx, name)
    if name == 'power_pos_epi':
        s = s(c['p'])
    t = cvx.variable()
    cons = []
    if mode == 'numbers':
        vec = list(head)
    else:
        vec, seen = [], {}
        for h in head:
            if mode == 'repeated' and h in seen:
                # The same variable at two places
                vec.append(seen[h])
                continue
            v = cvx.variable()
            cons.append(cvx.eq(v, h))
            seen[h] = v
            vec.append(2 * v - h if mode == 'shifted' else v)
    cons.append(cvx.belongs(cvx.vstack(vec + [t]), s))
    prog = cvx.program((cvx.minimize if sense > 0 else cvx.maximize)(t),
                       cons)
    v = solve(prog, ctx)
    if v is None:
        return
    require(abs(v - ext) < 1e-4 + 1e-4 * abs(ext), '%s: the extreme element '
            'is %r instead of %r', name, v, ext)


@st.composite
def tied_case(draw):
    return {'fam': draw(st.sampled_from(['kl_self', 'kl_ring', 'power_line',
                                         'perspective', 'entropy',
                                         'cone_line', 'log_ring'])),
            'a': draw(dyadic(.25, 3, 8)), 'b': draw(dyadic(.25, 3, 8)),
            'p': draw(st.sampled_from([1.5, 2., 3.]))}


@subtest('C30', 'tied_arguments', tied_case(), quick=150, budget=30,
         rule='always')
def tied_arguments(c, ctx):
    """Sets and atoms with the same variable in more than one place, with
    solutions in closed form."""
    cvx = lib()
    a, b, p = c['a'], c['b'], c['p']
    ctx.label(c['fam'])
    x, y = cvx.variable(), cvx.variable()
    col = lambda *v: cvx.vstack(v)
    fam = c['fam']
    if fam == 'kl_self':
        # kl_div(x, x) = 0
        prog = cvx.program(cvx.minimize(cvx.kl_div(x, x) +
                                        cvx.square(x - a)), [])
        opt = 0.
    elif fam == 'kl_ring':
        # x log(x/a) - x + a + a log(a/x) - a + x = (x - a) log(x/a)
        prog = cvx.program(cvx.minimize(
            cvx.kl_div(col(x, a), col(a, x)) + x), [])
        from scipy.optimize import minimize_scalar
        opt = minimize_scalar(lambda u: (u - a) * np.log(u / a) + u,
                              bounds=(1e-3, a), method='bounded',
                              options={'xatol': 1e-12}).fun
    elif fam == 'power_line':
        # x**p <= x
        prog = cvx.program(cvx.maximize(x), [
            cvx.belongs(col(x, x), cvx.power_pos_epi(p))])
        opt = 1.
    elif fam == 'perspective':
        # x*exp(x/x) <= y
        prog = cvx.program(cvx.minimize(y), [
            cvx.belongs(col(x, x, y), cvx.exp_cone), cvx.geq(x, a)])
        opt = a * np.e
    elif fam == 'entropy':
        # y*exp(x/y) <= y, then x <= 0
        prog = cvx.program(cvx.maximize(x - b * y), [
            cvx.belongs(col(x, y, y), cvx.exp_cone), cvx.geq(y, a)])
        opt = -a * b
    elif fam == 'cone_line':
        # |(x, x, a)| <= y
        prog = cvx.program(cvx.minimize(y - x), [
            cvx.belongs(col(x, x, a, y), cvx.second_order_cone)])
        opt = a / np.sqrt(2)
    else:
        # sum of logs at x, x
        prog = cvx.program(cvx.maximize(cvx.log(x) + cvx.log(x) - b * x),
                           [])
        opt = 2 * np.log(2 / b) - 2
    v = solve(prog, ctx)
    if v is not None:
        require(abs(v - opt) < 2e-4 * (1 + abs(opt)), '%s: got %r instead of '
                '%r', fam, v, opt)


@subtest('C30', 'semidefinite_symmetry', cases=lambda: [
    {'a': a, 'b': b} for a in (.25, .5, 1.) for b in (0., .5)],
    rule='always')
def semidefinite_symmetry(c, ctx):
    """The matrices of the cone are symmetric."""
    cvx = lib()
    x, y = cvx.variable(), cvx.variable()
    prog = cvx.program(cvx.minimize(x), [
        cvx.belongs(cvx.vstack((cvx.hstack((1., x)), cvx.hstack((y, 1.)))),
                    cvx.semidefinite_cone),
        cvx.geq(x, -5), cvx.leq(y, c['a']), cvx.geq(y, c['b'] - .5)])
    v = prog.solve(quiet=True)
    if not abs(v - max(c['b'] - .5, -1)) < 1e-4:
        raise Known('asymmetric-lmi', 'the element above the diagonal is '
                    '%r, the one below is %r' % (x.value, y.value))


# ------------------------------------------------------------------ level sets

def _eigmin(x):
    return np.linalg.eigvalsh(x)[0]


LEVEL = {
    # name: (function with infinite values out of the domain, shapes)
    'abs': (lambda x, p: np.abs(x), None),
    'exp': (lambda x, p: np.exp(x), None),
    'log': (lambda x, p: np.log(x) if np.all(x > 0) else -np.inf, None),
    'sqrt': (lambda x, p: np.sqrt(x) if np.all(x >= 0) else -np.inf, None),
    'square': (lambda x, p: x**2, None),
    'huber': (ELEMENT['huber'][0], None),
    'log_norm_cdf': (lambda x, p: log_ndtr(x), None),
    'power_abs': (lambda x, p: np.abs(x)**p, None),
    'power_p': (lambda x, p: x**p if np.all(x >= 0) else np.inf, None),
    'power_pos': (lambda x, p: np.maximum(x, 0)**p, None),
    'max': (lambda x, p: np.max(x), [[2, 1], [1, 3], [2, 2]]),
    'min': (lambda x, p: np.min(x), [[2, 1], [1, 3], [2, 2]]),
    'norm1': (lambda x, p: np.linalg.norm(x, 1), [[2, 1], [1, 2], [2, 2]]),
    'norm_inf': (lambda x, p: np.linalg.norm(x, np.inf),
                 [[2, 1], [1, 2], [2, 2]]),
    'norm2': (lambda x, p: np.linalg.norm(x, 2),
              [[2, 1], [1, 3], [2, 2], [3, 2]]),
    'nuclear_norm': (lambda x, p: np.sum(np.linalg.svd(x)[1]),
                     [[2, 1], [1, 2], [2, 2]]),
    'geo_mean': (lambda x, p: _geo(x) if np.all(x >= 0) else -np.inf,
                 [[1, 1], [2, 1], [3, 1], [4, 1], [5, 1]]),
    'log_sum_exp': (lambda x, p: np.log(np.sum(np.exp(x))),
                    [[2, 1], [3, 1]]),
    'lambda_max': (lambda x, p: np.linalg.eigvalsh(x)[-1],
                   [[2, 2], [3, 3]]),
    'lambda_min': (lambda x, p: _eigmin(x), [[2, 2], [3, 3]]),
    'det_rootn': (lambda x, p: max(np.linalg.det(x), 0)**(1. / len(x))
                  if _eigmin(x) >= 0 else -np.inf, [[2, 2], [3, 3]]),
}


@st.composite
def level_case(draw):
    # Those with a parameter have more to show
    name = draw(st.sampled_from(
        sorted(LEVEL) + ['quad_over_lin', 'kl_div'] +
        ['huber', 'power_abs', 'power_pos'] + ['power_p'] * 3))
    if name in ('quad_over_lin', 'kl_div'):
        shape = [draw(st.integers(1, 3)), 1]
    else:
        shape = draw(st.sampled_from(
            LEVEL[name][1] or [[1, 1], [1, 1], [2, 1], [1, 2]]))
    m, n = shape
    val, at = dyadic(-3, 3, 8), dyadic(-3, 3, 8)
    if name in ('log', 'sqrt', 'geo_mean', 'power_p', 'quad_over_lin',
                'kl_div', 'det_rootn'):
        val, at = dyadic(.125, 4, 8), st.just(0.) | dyadic(-1, 1, 8)
    ps = ELEMENT[name][1] if name in ELEMENT else None
    k = 2 if name == 'kl_div' else 1
    return {'name': name, 'p': draw(st.sampled_from(ps)) if ps else None,
            'base': [[draw(val) for _ in range(n)] for _ in range(m * k)],
            'dir': [[draw(st.integers(-2, 2)) for _ in range(n)]
                    for _ in range(m * k)],
            'last': [draw(val), draw(st.integers(-2, 2))],
            'at': draw(at),
            'more': draw(st.sampled_from([0., .25, 1., 4.])),
            'end': draw(st.sampled_from(['least', 'greatest']))}


@subtest('C30', 'level_sets', level_case(), quick=1800, thorough=8000,
         budget=70, rule='an end of the interval inside the bounds')
def level_sets(c, ctx):
    """Least and greatest s with atom(base + s dir) within a level."""
    cvx = lib()
    name, p = c['name'], c['p']
    base, dr = np.array(c['base'], float), np.array(c['dir'], float)
    if name in SYM:
        base, dr = base + base.T, dr + dr.T
        if name == 'det_rootn':
            base = base + np.diag(np.sum(np.abs(base), axis=0))
    sg = -1. if name in CONCAVE else 1.
    lim = 5.
    l0, l1 = c['last']
    m = len(base) // 2

    def g(s):
        x = base + s * dr
        if name == 'quad_over_lin':
            y = l0 + s * l1
            return np.sum(x**2) / y if y > 0 else np.inf
        if name == 'kl_div':
            x, y = x[:m], x[m:]
            if np.any(x <= 0) or np.any(y <= 0):
                return np.inf
            return np.sum(x * np.log(x / y) - x + y)
        v = sg * LEVEL[name][0](x, p)
        return np.sum(v) if np.all(np.isfinite(v)) else np.inf

    if not np.any(dr) and not (name == 'quad_over_lin' and l1):
        raise Reject
    # A point in the domain, and the least of the function
    grid = np.linspace(-lim, lim, 401)
    vals = np.array([g(s) for s in grid])
    if not np.isfinite(g(c['at'])):
        raise Reject
    level = g(c['at']) + c['more']
    i = int(np.argmin(vals))
    eps = 1e-4 * (1 + abs(level))
    if vals[i] > level - 10 * eps or abs(level) > 300:
        raise Reject

    def end(level, to):
        a, b = grid[i], to
        if g(b) <= level:
            return b
        for _ in range(60):
            h = (a + b) / 2
            a, b = (h, b) if g(h) <= level else (a, h)
        return a

    to = -lim if c['end'] == 'least' else lim
    inner, outer = end(level - eps, to), end(level + eps, to)
    ctx.nontrivial(abs(outer) < lim)
    ctx.label(name)
    s = cvx.variable()
    arg = cvx.matrix(base) + s * cvx.matrix(dr) if base.size > 1 else \
        base[0, 0] + s * dr[0, 0]
    atom = getattr(cvx, name)
    if name == 'quad_over_lin':
        if l1 == 0 and l0 <= 0:
            raise Reject
        e = atom(arg, l0 + s * l1)
    elif name == 'kl_div':
        e = atom(cvx.vstack([arg[j, 0] for j in range(m)]),
                 cvx.vstack([arg[m + j, 0] for j in range(m)]))
    else:
        e = cvx.sum(atom(arg, p) if p is not None else atom(arg))
    cons = [cvx.leq(s, lim), cvx.geq(s, -lim),
            cvx.geq(e, -level) if sg < 0 else cvx.leq(e, level)]
    v = solve(cvx.program(cvx.minimize(s) if to < 0 else cvx.maximize(s),
                          cons), ctx)
    if v is None:
        return
    lo, hi = min(inner, outer) - 1e-3, max(inner, outer) + 1e-3
    require(lo <= v <= hi, 'the %s s with %s(%s + s %s) %s %r is %r instead '
            'of %r', c['end'], name, base.tolist(), dr.tolist(),
            '>=' if sg < 0 else '<=', sg * level, v, inner)


# ------------------------------------------------------- value of expressions

# Atoms whose text has all the arguments
TEXT = ('abs', 'exp', 'log', 'sqrt', 'square', 'log_norm_cdf', 'max', 'min',
        'norm2', 'geo_mean', 'log_sum_exp', 'kl_div', 'quad_over_lin',
        'lambda_max', 'lambda_min', 'det_rootn')
VATTR = ['nonnegative', 'nonpositive', None]


@st.composite
def value_case(draw):
    wild = draw(st.sampled_from([0, 0, 0, 40, 100]))
    return {'e': expr(draw, draw(st.sampled_from('xv')),
                      draw(st.sampled_from([1, 2, 2, 3])), 3, wild),
            'x': [[draw(dyadic(-2, 3, 8)) for _ in range(3)]
                  for _ in range(2)],
            'p': [draw(dyadic(0, 2, 4)), -draw(dyadic(0, 2, 4)),
                  draw(dyadic(-2, 2, 4))]}


def blurred(node, x, p, rng):
    """Value of an expression whose atoms are computed with errors."""
    t = node[0]
    if t == 'n':
        return -blurred(node[1], x, p, rng)
    if t in '+-*':
        a, b = [blurred(y, x, p, rng) for y in node[1:3]]
        return a + b if t == '+' else a - b if t == '-' else a * b
    if t != 'f':
        return evaluate(node, x, p)
    v = atom_value(node[1], [blurred(y, x, p, rng) for y in node[2]],
                   node[3])
    return v + (5e-5 + 5e-5 * abs(v)) * rng.choice([-1, 1])


def text_atoms():
    """Functions of the elements of the arguments, in rows."""
    ns = {k: (lambda *a, k=k: atom_value(k, a, None)) for k in
          ('abs', 'exp', 'log', 'sqrt', 'square', 'log_norm_cdf', 'max',
           'min', 'norm2', 'kl_div', 'log_sum_exp', 'quad_over_lin',
           'geo_mean')}
    for k in ('lambda_max', 'lambda_min', 'det_rootn'):
        ns[k] = lambda a, b, c, d, k=k: atom_value(k, [a, b, d], None)
    return ns


class Named(object):
    def __init__(self, x):
        self.x = x

    def __getitem__(self, k):
        return self.x[k[0]]


@subtest('C30', 'expression_value', value_case(), quick=1500, thorough=25000,
         rule='an atom with a value', budget=60)
def expression_value(c, ctx):
    """Value and text of expressions with atoms, for two sets of values of
    the variables, the expressions being within the rules or not."""
    cvx = lib()
    x = cvx.variable(3, 1, name='x')
    xs = [x[i, 0] for i in range(3)]
    ps = [cvx.parameter(1, 1, a, 'p%d' % k) for k, a in enumerate(VATTR)]
    for p, v in zip(ps, c['p']):
        p.value = v
    e = build(cvx, c['e'], xs, ps)
    names = atoms_in(c['e'])
    if not names:
        raise Reject()
    for vals in c['x']:
        for v, n in zip(xs, vals):
            v.value = n
        rng = np.random.RandomState(1)
        try:
            with np.errstate(all='ignore'):
                ref = evaluate(c['e'], vals, c['p'])
                span = [blurred(c['e'], vals, c['p'], rng)
                        for _ in range(12)]
        except (Domain, np.linalg.LinAlgError):
            ctx.label('out of the domain')
            continue
        tol = 1e-6 + 1e-6 * abs(ref) + 3 * max(abs(s - ref) for s in span)
        if not np.isfinite(tol) or abs(ref) > 1e3 or \
                tol > 5e-3 * (1 + abs(ref)):
            ctx.label('ill conditioned')
            continue
        try:
            got = e.value
        except (ArithmeticError, ValueError) as err:
            ctx.label('solver failure: ' + str(err)[:40])
            continue
        for n in names:
            ctx.label('of ' + n)
        ctx.label('value')
        a = analyse(c['e'], VATTR)
        ctx.label('within the rules' if a.cvx or a.ccv else 'out of the '
                  'rules')
        ctx.nontrivial(True)
        require(np.isscalar(got) and abs(got - ref) <= tol,
                'value of %s is %r instead of %r', str(e), got, ref)
        require([v.value for v in xs] == vals and
                [p.value for p in ps] == c['p'],
                'variables or parameters altered by reading a value')
        if names <= set(TEXT):
            env = dict(text_atoms(), x=Named(vals),
                       **{'p%d' % k: v for k, v in enumerate(c['p'])})
            try:
                t = eval(str(e).replace('np.float64', ''), env)
            except Domain:
                t = np.nan
            require(abs(t - ref) <= 1e-5 * (1 + abs(ref)) + tol,
                    'text %s stands for %r instead of %r', str(e), t, ref)
            ctx.label('text')


# ---------------------------------------------------- arguments of other kinds

ONE = ('abs', 'exp', 'log', 'sqrt', 'square', 'max', 'min', 'norm1', 'norm2',
       'norm_inf', 'log_sum_exp', 'geo_mean', 'lambda_max', 'lambda_min',
       'nuclear_norm', 'det_rootn', 'log_norm_cdf')
TWO = ('power_p', 'power_pos', 'power_abs', 'huber', 'quad_over_lin',
       'quad_form', 'kl_div')
OTHER = ('sum', 'trace', 'diag', 'hstack', 'vstack', 'reshape', 'equals',
         'less_equals', 'greater_equals', 'belongs')
FOREIGN = {
    'none': lambda c: None,
    'ndarray': lambda c: np.ones((2, 2)),
    'list': lambda c: [1., 2.],
    'dict': lambda c: {},
    'sparse': lambda c: c.spmatrix(np.eye(2)),
    'sparse array': lambda c: c.variable() * c.spmatrix(np.eye(2)),
    'constraint': lambda c: c.eq(c.variable(), 1),
    'set': lambda c: c.exp_cone,
    'program': lambda c: c.program(c.minimize(c.variable())),
}
TAKES = {'sum': ('list', 'sparse', 'sparse array'),
         'trace': ('sparse', 'sparse array'),
         'diag': ('sparse', 'sparse array'),
         'hstack': ('list',), 'vstack': ('list',),
         'reshape': ('sparse', 'sparse array')}


@subtest('C30', 'foreign_arguments', cases=lambda: [
    {'f': f, 'of': k, 'side': s, 'other': o}
    for f in ONE + TWO + OTHER for k in sorted(FOREIGN)
    for s in (range(2) if f in TWO + OTHER[-4:-1] else (0,))
    for o in (range(2) if f in TWO + OTHER[-4:-1] else (0,))],
    rule='always')
def foreign_arguments(c, ctx):
    """Objects which are neither numbers, nor matrices, nor expressions are
    refused by every function, whatever the other argument (enumerated)."""
    cvx = lib()
    f, bad = c['f'], FOREIGN[c['of']](cvx)
    if c['of'] in TAKES.get(f, ()):
        raise Reject()
    ctx.label(f)
    fn = getattr(cvx, f)
    other = [2., cvx.variable()][c['other']]
    args = [bad, other] if c['side'] == 0 else [other, bad]
    if f in ONE + OTHER:
        args = args[:1] if f not in OTHER[-4:-1] else args
    if f == 'reshape':
        args.append((1, 4))
    elif f == 'belongs':
        args.append(cvx.second_order_cone)
    raises(TypeError, lambda: fn(*args), '%s with a %s' % (f, c['of']))


# ------------------------------------------------------------- large numbers

LARGE = {
    'abs': lambda c, v: (c.abs(-v), v),
    'square': lambda c, v: (c.square(v**.5), v),
    'sqrt': lambda c, v: (c.sqrt(v), v**.5),
    'huber': lambda c, v: (c.huber(v / 2, 1.), v - 1),
    'max': lambda c, v: (c.max(c.matrix([[v], [1.]])), v),
    'min': lambda c, v: (c.min(c.matrix([[-v], [1.]])), -v),
    'norm1': lambda c, v: (c.norm1(c.matrix([[v / 2], [-v / 2]])), v),
    'norm2': lambda c, v: (c.norm2(c.matrix([[.6 * v], [-.8 * v]])), v),
    'norm_inf': lambda c, v: (c.norm_inf(c.matrix([[1.], [-v]])), v),
    'quad_form': lambda c, v: (c.quad_form(v**.5, 1.), v),
    'quad_form_matrix': lambda c, v: (c.quad_form(
        c.matrix([[1.], [1.]]), c.matrix([[v / 4, v / 4], [v / 4, v / 4]])),
        v),
    'quad_over_lin': lambda c, v: (c.quad_over_lin(v**.5, 1.), v),
    'lambda_max': lambda c, v: (c.lambda_max(c.matrix([[v, 0.], [0., 1.]])),
                                v),
    'lambda_min': lambda c, v: (c.lambda_min(c.matrix([[-v, 0.], [0., 1.]])),
                                -v),
    'nuclear_norm': lambda c, v: (c.nuclear_norm(
        c.matrix([[v / 2, 0.], [0., v / 2]])), v),
    'power_pos': lambda c, v: (c.power_pos(v**.5, 2), v),
}


@subtest('C30', 'large_numbers', cases=lambda: [
    {'f': f, 'v': m * 10. ** k} for f in sorted(LARGE) for k in range(2, 10)
    for m in (1., 3.)], rule='a value above 1000')
def large_numbers(c, ctx):
    got, ref = LARGE[c['f']](lib(), c['v'])
    ctx.nontrivial(abs(ref) > 1e3)
    if np.isinf(got) and np.sign(got) == np.sign(ref) and abs(ref) > 1e5:
        ctx.label('infinite')
        raise Known('large-numbers', '%s is %r instead of %r' % (
            c['f'], got, ref))
    require(abs(got - ref) <= 1e-4 * abs(ref), '%s is %r instead of %r',
            c['f'], got, ref)


# ------------------------------------------------------------------ wide range

# name: (call, reference, domain)
WIDE = {
    'log_norm_cdf': (lambda c, x: c.log_norm_cdf(x), log_ndtr, 'real'),
    'exp': (lambda c, x: c.exp(x), np.exp, 'real'),
    'log': (lambda c, x: c.log(x), np.log, 'positive'),
    'sqrt': (lambda c, x: c.sqrt(x), np.sqrt, 'positive'),
    'square': (lambda c, x: c.square(x), np.square, 'real'),
    'abs': (lambda c, x: c.abs(x), np.abs, 'real'),
    'huber': (lambda c, x: c.huber(x, 1.), lambda x: x * x if abs(x) < 1 else
              2 * abs(x) - 1, 'real'),
    'kl_div': (lambda c, x: c.kl_div(x, 1.), lambda x: x * np.log(x) - x + 1,
               'positive'),
    'kl_div of 1': (lambda c, x: c.kl_div(1., x),
                    lambda x: -np.log(x) - 1 + x, 'positive'),
    'log_sum_exp': (lambda c, x: c.log_sum_exp(c.matrix([[x], [1.]])),
                    lambda x: np.logaddexp(x, 1), 'real'),
    'geo_mean': (lambda c, x: c.geo_mean(c.matrix([[x], [1.]])), np.sqrt,
                 'positive'),
    'power_pos': (lambda c, x: c.power_pos(x, 1.5),
                  lambda x: max(x, 0) ** 1.5, 'real'),
    'quad_over_lin': (lambda c, x: c.quad_over_lin(1., x), lambda x: 1 / x,
                      'positive'),
}


@st.composite
def wide_case(draw):
    f = draw(st.sampled_from(sorted(WIDE)))
    x = 10. ** draw(st.floats(-5, 5))
    if WIDE[f][2] == 'real' and draw(st.booleans()):
        x = -x
    if f == 'exp':
        x = min(x, 12.)
    return {'f': f, 'x': x}


@subtest('C30', 'wide_range', wide_case(), quick=500, thorough=10000,
         budget=40, rule='modulus out of 0.1..10 and a value')
def wide_range(c, ctx):
    """A value, if any (the solver may give up, and say it)."""
    fn, ref, _ = WIDE[c['f']]
    ref = float(ref(c['x']))
    ctx.nontrivial(not .1 < abs(c['x']) < 10)
    try:
        got = fn(lib(), c['x'])
    except (ValueError, ArithmeticError):
        ctx.nontrivial(False)
        ctx.label('given up')
        return
    if np.isinf(got) and abs(ref) > 1e5 and (got > 0) == (ref > 0):
        ctx.label('infinite')
        raise Known('large-numbers', '%s of %r is %r instead of %r' % (
            c['f'], c['x'], got, ref))
    require(abs(got - ref) <= 1e-4 + 1e-3 * abs(ref), '%s of %r is %r instead '
            'of %r', c['f'], c['x'], got, ref)
