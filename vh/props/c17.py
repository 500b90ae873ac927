"""C17: every selectable nonlinearity is the named function and comes with its true derivative."""
import math
import torch
import neuro_shooting.activation_functions_and_derivatives as ad
from vh.core import Check

check = Check('C17', 'one case = one nonlinearity, precision, tensor shape and set of points (random, extreme, near kinks); values are compared with an independent scalar evaluation and '
              'derivatives with high-precision differences of it. Non-trivial: always; distinct by name, precision, shape and point set.',
              ['relu: derivative not compared at the kink itself', 'points up to magnitude 1e4'])
NAMES = [None, 'identity', 'relu', 'tanh', 'sigmoid', 'softmax']


def f(name, x):
    if name in (None, 'identity'):
        return x
    if name == 'relu':
        return max(x, 0.0)
    if name == 'tanh':
        return math.tanh(x)
    sg = 1.0 / (1.0 + math.exp(-x)) if x >= 0 else math.exp(x) / (1.0 + math.exp(x))
    return sg if name == 'sigmoid' else x * sg


def df(name, x):
    if name in (None, 'identity'):
        return 1.0
    if name == 'relu':
        return 1.0 if x > 0 else 0.0
    if name == 'tanh':
        return 1.0 / math.cosh(x) ** 2 if abs(x) < 300 else 0.0
    e = math.exp(-abs(x))
    ds = e / (1 + e) ** 2
    if name == 'sigmoid':
        return ds
    return f('sigmoid', x) + x * ds


def spell(ctx, n):
    if n is None:
        return None
    return ctx.choice([n, n.upper(), n.capitalize(), ''.join(c.upper() if ctx.rng.random() < 0.5 else c for c in n)])


@check.scenario(quick=120, thorough=4000, requires=('value', 'derivative', 'consistent', 'elementwise', 'propagated'))
def points(ctx):
    name = ctx.cycle(NAMES)
    single = ctx.rng.random() < 0.3
    dt = torch.float32 if single else torch.float64
    kind = ctx.choice(['normal', 'wide', 'tiny', 'extreme', 'integers', 'mixed'])
    shp = ctx.choice([(7,), (3, 1, 4), (2, 3, 4, 5), (1,), (), (5, 0, 2), (16, 1, 2)])
    x = ctx.randn(*shp) if shp else ctx.randn(1)[0]
    if kind == 'wide':
        x = x * 20
    elif kind == 'tiny':
        x = x * 1e-6
    elif kind == 'extreme':
        x = torch.sign(x) * 10 ** (1 + 3 * torch.rand_like(x))
    elif kind == 'integers':
        x = torch.round(x * 3)
    elif kind == 'mixed':
        x = x * 10 ** (torch.randint(-3, 3, x.shape).double())
    x = x.to(dt)
    nl, dnl = ad.get_nonlinearity(spell(ctx, name))
    x0 = x.clone()
    y, d = nl(x), dnl(x)
    ctx.equal(x, x0, 'elementwise', 'input was modified')
    ctx.check(y.shape == x.shape and d.shape == x.shape, 'elementwise', 'shapes {} and {} for input {}'.format(tuple(y.shape), tuple(d.shape), tuple(x.shape)))
    ctx.check(y.dtype == dt and d.dtype == dt, 'elementwise', 'precision changed to {}, {}'.format(y.dtype, d.dtype))
    tol = 2e-5 if single else 1e-9
    xs, ys, ds = x.double().reshape(-1).tolist(), y.double().reshape(-1).tolist(), d.double().reshape(-1).tolist()
    for a, v, g in zip(xs, ys, ds):
        w = f(name, a)
        ctx.check(abs(v - w) <= tol * max(1.0, abs(w)), 'value', '{}({}) = {} expected {}'.format(name, a, v, w))
        if name == 'relu' and a == 0:
            continue
        w = df(name, a)
        ctx.check(abs(g - w) <= tol, 'derivative', 'derivative of {} at {} = {} expected {}'.format(name, a, g, w))
    # derivatives propagated through the function (and, where it is twice differentiable, through its derivative) stay true at every point
    k = x.detach()[x != 0].reshape(-1)
    if k.numel():
        z = k.clone().requires_grad_(True)
        g, = torch.autograd.grad(nl(z).sum(), z)
        for a, v in zip(k.tolist(), g.tolist()):
            ctx.check(abs(v - df(name, a)) <= tol, 'propagated', 'propagated derivative of {} at {} = {} expected {}'.format(name, a, v, df(name, a)))
        if name in ('tanh', 'sigmoid', 'softmax'):
            for h in (nl, dnl):
                z = k.clone().requires_grad_(True)
                o = h(z).sum()
                if h is nl:
                    o = torch.autograd.grad(o, z, create_graph=True)[0].sum()
                g, = torch.autograd.grad(o, z)
                for a, v in zip(k.tolist(), g.tolist()):
                    ctx.check(math.isfinite(v) and (abs(a) < 60 or abs(v) <= tol), 'propagated', 'second derivative of {} at {} = {}'.format(name, a, v))
    # the pair is consistent: derivative of the returned function itself, by automatic differentiation
    m = (x.abs() < 40) & (x != 0)
    z = x[m].detach().double().requires_grad_(True)
    if z.numel():
        g, = torch.autograd.grad(nl(z).sum(), z)
        ctx.close(dnl(z.detach()), g, 'consistent', 'derivative of ' + str(name), rtol=1e-8, atol=1e-8)
        # the derivative itself is differentiable where the function is twice differentiable (needed by autodiff through analytic equations)
        if name in ('tanh', 'sigmoid', 'softmax'):
            z2 = z.detach().clone().requires_grad_(True)
            g2, = torch.autograd.grad(dnl(z2).sum(), z2)
            h = 1e-5
            fd = (dnl(z.detach() + h) - dnl(z.detach() - h)) / (2 * h)
            ctx.close(g2, fd, 'consistent', 'second derivative of ' + name, rtol=1e-5, atol=1e-7)
    ctx.note(name=str(name), precision=str(dt), points=kind, shape=str(shp))
    ctx.key(str(name), str(dt), kind, shp)


@check.scenario(quick=10, thorough=50, requires=('rejected',))
def unknown(ctx):
    bad = ctx.cycle(['', 'elu', 'tan h', 'ReLu6', 'none', 'soft max', 'sigmoid ', 'gelu', 'linear', 'leaky_relu'])
    ctx.expect_raises(lambda: ad.get_nonlinearity(bad), ValueError, 'rejected', repr(bad))
    ctx.key(bad)


@check.scenario(quick=30, thorough=600, requires=('steepness',))
def steepness(ctx):
    """The function named softmax and its derivative for other steepness: x*sigmoid(e*x)."""
    e = ctx.choice([0.5, 2.0, 3.0, 1.0, 0.1])
    x = ctx.randn(5) * ctx.choice([1, 4])
    y, d = ad.softmax(x, e).tolist(), ad.dsoftmax(x, epsilon=e).tolist()
    for a, v, g in zip(x.tolist(), y, d):
        w, dw = f('softmax', e * a) / e, df('softmax', e * a)
        ctx.check(abs(v - w) <= 1e-9 * max(1.0, abs(w)), 'steepness', 'value at {} for steepness {}: {} expected {}'.format(a, e, v, w))
        ctx.check(abs(g - dw) <= 1e-9 * max(1.0, abs(dw)), 'steepness', 'derivative at {} for steepness {}: {} expected {}'.format(a, e, g, dw))
    ctx.key(e, round(float(x[0]), 6))
