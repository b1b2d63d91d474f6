"""C28: the bundled CVXPY accepts the disciplined convex programs only."""
import numpy as np
from hypothesis import strategies as st

from ._common import raises, require, subtest
from ._dcp import (Domain, analyse, atoms_in, build, evaluate, expr)
from .c27_cvxpy import lib

ATTRS = ['nonnegative', 'nonpositive', None]
PVALS = [1.5, -.75, .5]


def setup(cvx, n=3):
    x = cvx.variable(n, 1, name='x')
    xs = [x[i, 0] for i in range(n)]
    ps = [cvx.parameter(1, 1, a, 'p%d' % k) for k, a in enumerate(ATTRS)]
    return xs, ps


@st.composite
def program_case(draw):
    wild = draw(st.sampled_from([0, 0, 10, 30, 60]))
    act = draw(st.sampled_from(['minimize', 'maximize']))
    depth = draw(st.integers(0, 3))
    obj = expr(draw, 'x' if act == 'minimize' else 'v', depth, 3, wild)
    cons = []
    for _ in range(draw(st.integers(0, 2))):
        rel = draw(st.sampled_from(['leq', 'geq', 'eq', 'in']))
        d = draw(st.integers(0, 2))
        if rel == 'leq':
            c = [rel, expr(draw, 'x', d, 3, wild),
                 expr(draw, 'v', d, 3, wild)]
        elif rel == 'geq':
            c = [rel, expr(draw, 'v', d, 3, wild),
                 expr(draw, 'x', d, 3, wild)]
        elif rel == 'eq':
            c = [rel, expr(draw, 'a', d, 3, wild),
                 expr(draw, 'a', d, 3, wild)]
        else:
            c = [rel] + [expr(draw, 'a', d, 3, wild) for _ in range(3)] + \
                [draw(st.sampled_from(['second_order_cone', 'exp_cone',
                                       'geo_mean_cone', 'kl_div_epi']))]
        if rel != 'in' and draw(st.integers(0, 2)) == 0:
            # One side may well be a constant
            k = draw(st.integers(1, 2))
            c[k] = draw(st.sampled_from([['c', 1.], ['c', 0.], ['c', -2.5],
                                         ['p', 0], ['p', 1]]))
            if rel == 'eq':
                c[3 - k] = expr(draw, draw(st.sampled_from('axv')), d, 3,
                                wild)
        cons.append(c)
    return {'act': act, 'obj': obj, 'cons': cons,
            'seed': draw(st.integers(0, 10**6))}


def convexity(node, sign, seed):
    """Midpoint convexity of sign*node."""
    rng = np.random.RandomState(seed)
    done = 0
    for _ in range(12):
        x = rng.uniform(-3, 3, 3)
        y = rng.uniform(-3, 3, 3) if rng.rand() < .5 else \
            x + rng.uniform(-.5, .5, 3)
        try:
            with np.errstate(all='ignore'):
                fx, fy = evaluate(node, x, PVALS), evaluate(node, y, PVALS)
        except Domain:
            continue
        if not (np.isfinite(fx) and np.isfinite(fy)) or \
                max(abs(fx), abs(fy)) > 1e8:
            continue
        done += 1
        try:
            fm = evaluate(node, (x + y) / 2, PVALS)
        except Domain:
            return 'the domain is not convex, between %s and %s' % (
                x.tolist(), y.tolist())
        tol = 1e-9 * (1 + abs(fx) + abs(fy) + abs(fm))
        if sign * (fm - (fx + fy) / 2) > tol:
            return 'values %r, %r, in between %r' % (fx, fy, fm)
    return None


@subtest('C28', 'acceptance', program_case(), quick=3500, thorough=60000,
         rule='at least one function atom', budget=60)
def acceptance(case, ctx):
    cvx = lib()
    xs, ps = setup(cvx)
    for p, v in zip(ps, PVALS):
        p.value = v
    minim = case['act'] == 'minimize'
    obj = build(cvx, case['obj'], xs, ps)
    a = analyse(case['obj'], ATTRS)
    ctx.nontrivial(bool(atoms_in(case['obj'])))
    # The expression
    for got, exp, what in ((obj.is_convex(), a.cvx, 'convex'),
                           (obj.is_concave(), a.ccv, 'concave'),
                           (obj.is_dcp(), a.cvx or a.ccv, 'DCP'),
                           (obj.is_affine(), a.aff, 'affine')):
        require(bool(got) == exp, 'expression %s found %s%s', str(obj),
                '' if got else 'not ', what)
    if a.cvx:
        r = convexity(case['obj'], 1, case['seed'])
        require(r is None, '%s is accepted as convex, but: %s', str(obj), r)
    if a.ccv:
        r = convexity(case['obj'], -1, case['seed'])
        require(r is None, '%s is accepted as concave, but: %s', str(obj), r)
    ok = a.cvx if minim else a.ccv
    cons = []
    for c in case['cons']:
        if c[0] == 'in':
            v = cvx.vstack([build(cvx, e, xs, ps) for e in c[1:4]])
            k = cvx.belongs(v, getattr(cvx, c[4]))
            good = all(analyse(e, ATTRS).aff for e in c[1:4])
        else:
            left, right = [build(cvx, e, xs, ps) for e in c[1:3]]
            k = getattr(cvx, c[0])(left, right)
            la, ra = [analyse(e, ATTRS) for e in c[1:3]]
            good = (la.aff and ra.aff) if c[0] == 'eq' else \
                (la.cvx and ra.ccv) if c[0] == 'leq' else \
                (la.ccv and ra.cvx)
            if good and c[0] != 'eq':
                s = 1 if c[0] == 'leq' else -1
                for e, sg in ((c[1], s), (c[2], -s)):
                    r = convexity(e, sg, case['seed'])
                    require(r is None, 'constraint %s is accepted, but: %s',
                            str(k), r)
        require(bool(k.is_dcp()) == good, 'constraint %s found %sDCP',
                str(k), '' if k.is_dcp() else 'not ')
        cons.append(k)
        ok = ok and good
    prog = cvx.program(getattr(cvx, case['act'])(obj), cons)
    ctx.label('accepted' if ok else 'refused')
    require(bool(prog.is_dcp()) == ok, 'program found %sDCP',
            '' if prog.is_dcp() else 'not ')
    if not ok:
        raises(ValueError, lambda: prog.solve(quiet=True),
               'solution of a program which is not DCP', 'not DCP')
        require(all(np.isnan(x.value) for x in xs),
                'variables altered by a refused program')


def sign_tree(draw, depth):
    """Any constant expression, over parameters and numbers."""
    k = draw(st.integers(0, 5)) if depth else 0
    if k == 0:
        if draw(st.integers(0, 2)):
            return ['p', draw(st.integers(0, 2))]
        return ['c', draw(st.sampled_from([1., -1., .5, -2., 0.]))]
    a = sign_tree(draw, depth - 1)
    if k == 1:
        return ['n', a]
    b = sign_tree(draw, depth - 1)
    if k in (2, 3):
        return ['+-'[k - 2], a, b]
    return ['*', a, b, draw(st.integers(0, 1))]


@st.composite
def sign_case(draw):
    k = sign_tree(draw, draw(st.integers(1, 3)))
    f = draw(st.sampled_from(['square', 'sqrt', 'abs', 'min', None]))
    e = ['v', 0] if f is None else \
        ['f', f, [['v', i] for i in range(2 if f == 'min' else 1)], None]
    return {'k': k, 'e': e, 'side': draw(st.integers(0, 1)),
            'act': draw(st.sampled_from(['minimize', 'maximize'])),
            'p': [draw(st.sampled_from([0., .5, 2.])),
                  draw(st.sampled_from([0., -.5, -2.])),
                  draw(st.sampled_from([0., -1., 1.5]))]}


def values(node):
    """Those of a constant, over the possible values of the parameters."""
    return [evaluate(node, [0.] * 3, [a, b, c]) for a in (0., .5, 2., 10.)
            for b in (0., -.5, -2., -10.) for c in (-10., -1., 0., 1.5, 10.)]


@subtest('C28', 'signs', sign_case(), quick=1500, thorough=20000, budget=40,
         rule='the sign of the multiplier is known, and is of a compound')
def signs(case, ctx):
    """What is known of the sign of the constants decides of the products:
    all that follows from the signs of their parts, nothing that is false."""
    cvx = lib()
    xs, ps = setup(cvx)
    for p, v in zip(ps, case['p']):
        p.value = v
    kn = case['k']
    k = build(cvx, kn, xs, ps)
    a = analyse(kn, ATTRS)
    ctx.nontrivial((a.pos or a.neg) and kn[0] in '+-*n')
    v = evaluate(kn, [0.] * 3, case['p'])
    vals = np.array(values(kn))
    if not np.isscalar(k):
        pos, neg = k.is_nonnegative_constant(), k.is_nonpositive_constant()
        require(pos or not a.pos, 'constant %s not found nonnegative',
                str(k))
        require(neg or not a.neg, 'constant %s not found nonpositive',
                str(k))
        require(not pos or np.all(vals >= 0), 'constant %s found '
                'nonnegative, but it may be %r', str(k), np.min(vals))
        require(not neg or np.all(vals <= 0), 'constant %s found '
                'nonpositive, but it may be %r', str(k), np.max(vals))
        require(k.is_affine() and k.is_convex() and k.is_concave() and
                k.is_dcp(), 'constant %s found not affine', str(k))
        got = k.value
        require(abs(got - v) <= 1e-12 * (1 + abs(v)),
                'constant %s is %r and not %r', str(k), got, v)
    e = build(cvx, case['e'], xs, ps)
    obj = k * e if case['side'] else e * k
    if np.isscalar(obj):
        require(obj == 0 and np.all(vals == 0), '%s times %s is %r', str(k),
                str(e), obj)
        return
    b = analyse(case['e'], ATTRS)
    good = []
    for found, must, bad, what in (
            (obj.is_convex(), (a.pos and b.cvx) or (a.neg and b.ccv),
             vals < 0 if b.cvx else vals > 0, 'convex'),
            (obj.is_concave(), (a.pos and b.ccv) or (a.neg and b.cvx),
             vals > 0 if b.cvx else vals < 0, 'concave')):
        require(found or not (must or b.aff), '%s found not %s', str(obj),
                what)
        require(not found or b.aff or not np.any(bad), '%s found %s',
                str(obj), what)
        good.append(bool(found))
    prog = cvx.program(getattr(cvx, case['act'])(obj),
                       [cvx.leq(cvx.norm1(cvx.vstack(xs)), 1)])
    ok = good[0] if case['act'] == 'minimize' else good[1]
    ctx.label('accepted' if ok else 'refused')
    require(bool(prog.is_dcp()) == ok, 'program with %s found %sDCP',
            str(obj), '' if prog.is_dcp() else 'not ')


# ---------------------------------------------- parameters of the functions

@st.composite
def param_case(draw):
    f = draw(st.sampled_from(['quad_form', 'quad_form', 'quad_form',
                              'power_abs', 'power_p', 'power_pos', 'huber']))
    c = {'f': f, 'n': draw(st.integers(1, 4)),
         'arg': draw(st.sampled_from(['variable', 'affine', 'product']))}
    if f == 'quad_form':
        n = c['n']
        c['kind'] = draw(st.sampled_from(['semidefinite', 'indefinite',
                                          'indefinite', 'skewed', 'number']))
        c['seed'] = draw(st.integers(0, 10**6))
        c['rank'] = draw(st.integers(1, n))
        c['scale'] = 10. ** draw(st.integers(-2, 5))
        # relative size of what is wrong
        c['off'] = 10. ** draw(st.integers(-3, 0))
        c['diag'] = draw(st.booleans())
    else:
        c['k'] = draw(st.sampled_from([-1., 0., .5, .9, 1., 1.5, 2., 3.]) |
                      st.integers(-16, 64).map(lambda i: i / 16))
    return c


def matrix_of(c):
    """The matrix of the quadratic form, and if it is semidefinite."""
    n, kind = c['n'], c['kind']
    rng = np.random.RandomState(c['seed'])
    a = rng.uniform(-1, 1, (n, c['rank']))
    p = a.dot(a.T)
    p = p / np.max(np.abs(np.linalg.eigvalsh(p)))
    if kind == 'skewed' and n > 1:
        i, j = rng.permutation(n)[:2]
        if c['diag']:
            # as in an antisymmetric matrix
            p[i, j] = max(abs(p[i, j]), c['off'])
            p[j, i] = -p[i, j]
        else:
            p[i, j] += c['off']
        return p * c['scale'], False
    if kind == 'indefinite':
        u = np.linalg.qr(rng.randn(n, n))[0][:, 0]
        if c['diag'] and n > 1:
            # Nonnegative elements on the diagonal, as when it is right
            i, j = rng.permutation(n)[:2]
            p[i, j] = p[j, i] = (1. + c['off']) * np.sqrt(
                (p[i, i] + c['off']) * (p[j, j] + c['off']))
        else:
            p = p - (u.dot(p).dot(u) + c['off']) * np.outer(u, u)
        p = (p + p.T) / 2
        return p * c['scale'], False
    return (p + p.T) / 2 * c['scale'], True


@subtest('C28', 'function_parameters', param_case(), quick=1200,
         thorough=20000, budget=30,
         rule='the function is not convex with these parameters')
def function_parameters(c, ctx):
    """Functions taken as convex are, for what is given with the argument:
    quadratic forms, powers, thresholds; what is fine is not refused."""
    cvx = lib()
    f, n = c['f'], c['n']
    if f != 'quad_form':
        n = 1
    x = cvx.variable(n, 1) if n > 1 else cvx.variable()
    if c['arg'] == 'affine':
        x = 2 * x - 1
    elif c['arg'] == 'product':
        x = cvx.parameter(1, 1, None, 'q') * x
    if f == 'quad_form':
        if c['kind'] == 'number':
            p = c['scale'] * (-1 if c['diag'] else 1)
            good, arg = p > 0, p
        else:
            p, good = matrix_of(c)
            low = np.min(np.linalg.eigvalsh((p + p.T) / 2))
            if not good and c['kind'] == 'indefinite' and \
                    low > -1e-9 * np.max(np.abs(p)):
                ctx.label('too close')
                return
            arg = cvx.matrix(p)
        ctx.label(c['kind'])
    else:
        p = arg = c['k']
        good = p > 0 if f == 'huber' else p >= 1
    ctx.nontrivial(not good)
    ctx.label('%s %s' % (f, 'right' if good else 'wrong'))
    fn = getattr(cvx, f)
    if not good:
        raises(ValueError, lambda: fn(x, arg), '%s with %s' % (
            f, np.asarray(p).tolist()))
        return
    e = fn(x, arg)
    require(e.is_convex() and e.is_dcp() and not e.is_affine() or
            np.all(p == 0), '%s with %s found not convex', f,
            np.asarray(p).tolist())
    require(not e.is_concave(), '%s with %s found concave', f,
            np.asarray(p).tolist())
