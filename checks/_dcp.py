"""Random scalar expressions for the bundled CVXPY, with their builders, a
numerical twin, and a reference analyser of the disciplined convex rules
following the documented curvature and monotonicity of the atoms.

Nodes (JSON): ['v', i] entry i of the vector variable, ['c', number],
['p', k] scalar parameter, ['+', a, b], ['-', a, b], ['n', a],
['*', multiplier, a, side], ['f', atom, [arguments], extra].
"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import log_ndtr

from ._common import dyadic


class Domain(Exception):
    """Outside of the domain of a function."""


# ------------------------------------------------------------------- atoms
# name: (curvature, what convexity each argument has to have for the
# composition to be accepted: 'a' affine, 'x' convex, 'v' concave, number
# of arguments, needs cvxopt's non linear solver)
ATOMS = {
    'abs': ('x', 'a', 1, False),
    'exp': ('x', 'x', 1, True),
    'log': ('v', 'v', 1, True),
    'sqrt': ('v', 'v', 1, False),
    'square': ('x', 'a', 1, False),
    'huber': ('x', 'a', 1, False),
    'log_norm_cdf': ('v', 'v', 1, True),
    'power_abs': ('x', 'a', 1, True),
    'power_p': ('x', 'a', 1, True),
    'power_pos': ('x', 'x', 1, True),
    'max': ('x', 'xx', 2, False),
    'max3': ('x', 'xxx', 3, False),
    'min': ('v', 'vv', 2, False),
    'min3': ('v', 'vvv', 3, False),
    'norm1': ('x', 'aa', 2, False),
    'norm2': ('x', 'aa', 2, False),
    'norm_inf': ('x', 'aa', 2, False),
    'norm1r': ('x', 'aa', 2, False),
    'norm_infr': ('x', 'aa', 2, False),
    'norm2m': ('x', 'aaaa', 4, False),
    'nuclear_norm': ('x', 'aaaa', 4, False),
    'geo_mean': ('v', 'vv', 2, False),
    'geo_mean3': ('v', 'vvv', 3, False),
    'log_sum_exp': ('x', 'xx', 2, True),
    'quad_form': ('x', 'aa', 2, False),
    'quad_over_lin': ('x', 'aav', 3, False),
    'kl_div': ('x', 'aa', 2, True),
    'lambda_max': ('x', 'aaa', 3, False),
    'lambda_min': ('v', 'aaa', 3, False),
    'det_rootn': ('v', 'aaa', 3, False),
    # Programs with formals
    'u_pos': ('x', 'x', 1, False),
    'u_cap': ('v', 'v', 1, False),
    'u_dist': ('x', 'aa', 2, False),
    'u_env': ('x', 'a', 1, False),
}


def sym(a):
    return np.array([[a[0], a[1]], [a[1], a[2]]])


def atom_value(name, a, extra):
    """Value of an atom on numbers; Domain if not defined."""
    a = [float(x) for x in a]
    x = a[0]
    if name == 'abs':
        return abs(x)
    if name == 'exp':
        return np.exp(x)
    if name == 'log':
        if x <= 0:
            raise Domain
        return np.log(x)
    if name == 'sqrt':
        if x < 0:
            raise Domain
        return np.sqrt(x)
    if name == 'square':
        return x * x
    if name == 'huber':
        return x * x if abs(x) <= extra else extra * (2 * abs(x) - extra)
    if name == 'log_norm_cdf':
        return float(log_ndtr(x))
    if name == 'power_abs':
        return abs(x)**extra
    if name == 'power_p':
        if x < 0:
            raise Domain
        return x**extra
    if name == 'power_pos':
        return max(x, 0)**extra
    if name in ('max', 'max3'):
        return max(a)
    if name in ('min', 'min3'):
        return min(a)
    if name in ('norm1', 'norm_infr'):
        # Of a column; of a row: the largest row sum
        return sum(abs(t) for t in a)
    if name in ('norm_inf', 'norm1r'):
        return max(abs(t) for t in a)
    if name == 'norm2':
        return float(np.linalg.norm(a))
    if name == 'norm2m':
        return float(np.linalg.norm(np.reshape(a, (2, 2)), 2))
    if name == 'nuclear_norm':
        return float(np.linalg.svd(np.reshape(a, (2, 2)))[1].sum())
    if name in ('geo_mean', 'geo_mean3'):
        if min(a) < 0:
            raise Domain
        return float(np.prod(a)**(1. / len(a)))
    if name == 'log_sum_exp':
        return float(np.logaddexp(a[0], a[1]))
    if name == 'quad_form':
        return float(np.dot(a, np.dot(np.reshape(extra, (2, 2)), a)))
    if name == 'quad_over_lin':
        if a[2] <= 0:
            raise Domain
        return (a[0]**2 + a[1]**2) / a[2]
    if name == 'kl_div':
        if a[0] <= 0 or a[1] <= 0:
            raise Domain
        return a[0] * np.log(a[0] / a[1]) - a[0] + a[1]
    if name == 'lambda_max':
        return float(np.linalg.eigvalsh(sym(a))[-1])
    if name == 'lambda_min':
        return float(np.linalg.eigvalsh(sym(a))[0])
    if name == 'det_rootn':
        w = np.linalg.eigvalsh(sym(a))
        if w[0] < 0:
            raise Domain
        return float(np.sqrt(np.prod(w)))
    if name == 'u_pos':
        return max(x, 0.)
    if name == 'u_cap':
        return min(x, 1.)
    if name == 'u_dist':
        return abs(a[0] - a[1])
    if name == 'u_env':
        return x * x if abs(x) <= .5 else abs(x) - .25
    raise KeyError(name)


def atom_build(cvx, name, a, extra):
    """The same atom on library objects."""
    if name in ('abs', 'exp', 'log', 'sqrt', 'square', 'log_norm_cdf'):
        return getattr(cvx, name)(a[0])
    if name in ('huber', 'power_abs', 'power_p', 'power_pos'):
        return getattr(cvx, name)(a[0], extra)
    if name in ('max', 'max3', 'min', 'min3', 'norm1', 'norm2', 'norm_inf',
                'geo_mean', 'geo_mean3', 'log_sum_exp'):
        return getattr(cvx, name.rstrip('3'))(cvx.vstack(a))
    if name in ('norm1r', 'norm_infr'):
        return getattr(cvx, name[:-1])(cvx.hstack(a))
    if name in ('norm2m', 'nuclear_norm'):
        return getattr(cvx, name.rstrip('m') if name == 'norm2m' else name)(
            cvx.vstack([cvx.hstack(a[:2]), cvx.hstack(a[2:])]))
    if name == 'quad_form':
        return cvx.quad_form(cvx.vstack(a),
                             cvx.matrix(np.reshape(extra, (2, 2))))
    if name == 'quad_over_lin':
        return cvx.quad_over_lin(cvx.vstack(a[:2]), a[2])
    if name == 'kl_div':
        return cvx.kl_div(a[0], a[1])
    if name in ('lambda_max', 'lambda_min', 'det_rootn'):
        return getattr(cvx, name)(cvx.vstack([cvx.hstack([a[0], a[1]]),
                                              cvx.hstack([a[1], a[2]])]))
    t, z = cvx.variable(), cvx.variable()
    if name == 'u_pos':
        return cvx.program(cvx.minimize(t), [cvx.leq(z, t), cvx.geq(t, 0)],
                           [z])(a[0])
    if name == 'u_cap':
        return cvx.program(cvx.maximize(t), [cvx.leq(t, z), cvx.leq(t, 1)],
                           [z])(a[0])
    w = cvx.variable()
    if name == 'u_dist':
        return cvx.program(cvx.minimize(t),
                           [cvx.leq(z - w, t), cvx.geq(t, w - z)],
                           [z, w])(a[0], a[1])
    if name == 'u_env':
        return cvx.program(cvx.minimize(cvx.square(w - z) + cvx.abs(w)), [],
                           [z])(a[0])
    raise KeyError(name)


# -------------------------------------------------------------- expressions

def build(cvx, node, xs, ps):
    t = node[0]
    if t == 'v':
        return xs[node[1] % len(xs)]
    if t == 'c':
        return node[1]
    if t == 'p':
        return ps[node[1] % len(ps)]
    if t == 'n':
        return -build(cvx, node[1], xs, ps)
    if t in '+-*':
        a, b = build(cvx, node[1], xs, ps), build(cvx, node[2], xs, ps)
        if t == '+':
            return a + b
        if t == '-':
            return a - b
        return a * b if node[3] else b * a
    return atom_build(cvx, node[1], [build(cvx, x, xs, ps) for x in node[2]],
                      node[3])


def evaluate(node, x, p):
    t = node[0]
    if t == 'v':
        return x[node[1] % len(x)]
    if t == 'c':
        return node[1]
    if t == 'p':
        return p[node[1] % len(p)]
    if t == 'n':
        return -evaluate(node[1], x, p)
    if t in '+-*':
        a, b = evaluate(node[1], x, p), evaluate(node[2], x, p)
        return a + b if t == '+' else a - b if t == '-' else a * b
    return atom_value(node[1], [evaluate(y, x, p) for y in node[2]], node[3])


class Curv(object):
    """Outcome of the analysis: convex, concave, constant; sign of the
    constants."""

    def __init__(self, cvx, ccv, const=False, pos=False, neg=False):
        self.cvx, self.ccv, self.const = cvx, ccv, const
        self.pos, self.neg = pos, neg

    @property
    def aff(self):
        return self.cvx and self.ccv


def analyse(node, attrs):
    t = node[0]
    if t == 'v':
        return Curv(True, True)
    if t == 'c':
        return Curv(True, True, True, node[1] >= 0, node[1] <= 0)
    if t == 'p':
        a = attrs[node[1] % len(attrs)]
        return Curv(True, True, True, a == 'nonnegative',
                    a == 'nonpositive')
    if t == 'n':
        a = analyse(node[1], attrs)
        return Curv(a.ccv, a.cvx, a.const, a.neg, a.pos)
    if t in '+-':
        a, b = analyse(node[1], attrs), analyse(node[2], attrs)
        if t == '-':
            b = Curv(b.ccv, b.cvx, b.const, b.neg, b.pos)
        c = a.const and b.const
        return Curv(a.cvx and b.cvx, a.ccv and b.ccv, c,
                    c and a.pos and b.pos, c and a.neg and b.neg)
    if t == '*':
        k, a = analyse(node[1], attrs), analyse(node[2], attrs)
        return Curv(a.aff or (k.pos and a.cvx) or (k.neg and a.ccv),
                    a.aff or (k.pos and a.ccv) or (k.neg and a.cvx),
                    a.const,
                    a.const and ((k.pos and a.pos) or (k.neg and a.neg)),
                    a.const and ((k.pos and a.neg) or (k.neg and a.pos)))
    curv, need = ATOMS[node[1]][:2]
    ok = True
    for n, y in zip(need, node[2]):
        a = analyse(y, attrs)
        ok = ok and (a.aff if n == 'a' else a.cvx if n == 'x' else a.ccv)
    return Curv(ok and curv == 'x', ok and curv == 'v')


def atoms_in(node, out=None):
    out = set() if out is None else out
    if node[0] == 'f':
        out.add(node[1])
        for y in node[2]:
            atoms_in(y, out)
    elif node[0] in '+-*n':
        for y in node[1:3]:
            if isinstance(y, list):
                atoms_in(y, out)
    return out


# -------------------------------------------------------------- generation

COEF = [1., -1., .5, 2., -.5, -2., 1.5, -3.]
ARITY = {'x': [k for k in ATOMS if ATOMS[k][0] == 'x'],
         'v': [k for k in ATOMS if ATOMS[k][0] == 'v']}


def extra_for(draw, name):
    if name == 'huber':
        return draw(st.sampled_from([.5, 1., 2.]))
    if name.startswith('power'):
        return draw(st.sampled_from([1., 1.5, 2., 3.]))
    if name == 'quad_form':
        a = np.array([draw(dyadic(-2, 2, 2)) for _ in range(4)])
        a = a.reshape(2, 2)
        return (a.dot(a.T) + .25 * np.eye(2)).ravel().tolist()
    return None


def multiplier(draw, sign, npar, depth=2):
    """A constant expression; sign '+', '-' or None (anything)."""
    k = draw(st.integers(0, 5)) if npar else 0
    if k <= 2 or not npar:
        c = abs(draw(st.sampled_from(COEF)))
        if sign == '-' or (sign is None and draw(st.booleans())):
            c = -c
        return ['c', c]
    if sign is None:
        sign = draw(st.sampled_from(['+', '-', None]))
    if depth and k == 3:
        a = multiplier(draw, sign, npar, depth - 1)
        b = multiplier(draw, sign, npar, depth - 1)
        if a[0] == 'c' and b[0] == 'c':
            return a
        if sign and draw(st.integers(0, 3)) == 0:
            return ['-', a, multiplier(draw, '-' if sign == '+' else '+',
                                       npar, 0)] if a[0] != 'c' else \
                ['+', a, b]
        return ['+', a, b]
    if depth and k == 4 and sign:
        # Any two signs whose product is the one that is needed
        x = draw(st.sampled_from('+-'))
        a = multiplier(draw, x, npar, depth - 1)
        b = multiplier(draw, '+' if x == sign else '-', npar, depth - 1)
        if a[0] == 'c' and b[0] == 'c':
            return b if x == '+' else ['c', -b[1]]
        return ['*', a, b, draw(st.integers(0, 1))]
    if depth and k == 5 and sign and draw(st.booleans()):
        a = multiplier(draw, '-' if sign == '+' else '+', npar, depth - 1)
        return ['c', -a[1]] if a[0] == 'c' else ['n', a]
    # Parameters come as nonnegative, nonpositive, free
    return ['p', 0 if sign == '+' else 1 if sign == '-' else 2]


def affine(draw, npar, size=2):
    k = draw(st.integers(0, 6))
    if k == 0 or size == 0:
        return ['v', draw(st.integers(0, 2))]
    if k == 1:
        return ['n', affine(draw, npar, size - 1)]
    if k == 2:
        return ['*', multiplier(draw, None, npar),
                affine(draw, npar, size - 1), draw(st.integers(0, 1))]
    op = draw(st.sampled_from('+-'))
    a = affine(draw, npar, size - 1)
    b = affine(draw, npar, size - 1) if draw(st.booleans()) else \
        (['p', draw(st.integers(0, 2))]
         if npar and draw(st.integers(0, 3)) == 0
         else ['c', draw(dyadic(-2, 2, 4))])
    return [op, b, a] if draw(st.booleans()) else [op, a, b]


def expr(draw, curv, depth, npar=3, wild=0, atoms=None):
    """An expression convex ('x'), concave ('v') or affine ('a'), unless a
    deviation takes place, with probability wild/100 at each node."""
    if wild and draw(st.integers(0, 99)) < wild:
        curv = draw(st.sampled_from('xva'))
    if curv == 'a' or depth == 0:
        return affine(draw, npar)
    k = draw(st.integers(0, 9))
    neg = {'x': 'v', 'v': 'x'}[curv]
    if k == 0:
        return ['n', expr(draw, neg, depth - 1, npar, wild, atoms)]
    if k == 1:
        s = draw(st.sampled_from('+-'))
        e = expr(draw, curv if s == '+' else neg, depth - 1, npar, wild,
                 atoms)
        if wild and draw(st.integers(0, 99)) < wild:
            s = None
        return ['*', multiplier(draw, s, npar), e, draw(st.integers(0, 1))]
    if k in (2, 3):
        return ['+', expr(draw, curv, depth - 1, npar, wild, atoms),
                expr(draw, curv, depth - 1, npar, wild, atoms)]
    if k == 4:
        return ['-', expr(draw, curv, depth - 1, npar, wild, atoms),
                expr(draw, neg, depth - 1, npar, wild, atoms)]
    names = ARITY[curv] if atoms is None else \
        [a for a in atoms if ATOMS[a][0] == curv]
    name = draw(st.sampled_from(names))
    need = ATOMS[name][1]
    args = []
    for n in need:
        if len(need) > 1 and name not in ('kl_div', 'quad_over_lin') and \
                draw(st.integers(0, 4)) == 0:
            args.append(['c', draw(dyadic(-2, 2, 4))])
        else:
            args.append(expr(draw, n, depth - 1, npar, wild, atoms))
    if all(a[0] == 'c' for a in args):
        args[0] = affine(draw, npar)
    return ['f', name, args, extra_for(draw, name)]
