"""Independent reference semantics of the shooting models (written from the model equations, not from the code).

A parameter set is {layer: {'weight': T, 'bias': T}}.  States are {key: tensor}.
Energy:  U(theta,q,p) = sum_keys sum( mean_particles( p * f(theta,q) ) ),  T(theta) = 1/2 sum w theta^2
Flow:    theta = argmin T-U,   q' = f(theta,q),   p' = -N dU/dq (theta fixed)
"""
import torch
import torch.nn.functional as F


def sigma(name, x):
    if name in (None, 'identity'):
        return x
    if name == 'relu':
        return torch.clamp(x, min=0.0)
    if name == 'tanh':
        return torch.tanh(x)
    if name == 'sigmoid':
        return torch.sigmoid(x)
    if name == 'softmax':
        return x * torch.sigmoid(x)
    raise ValueError(name)


class Model(object):
    def __init__(self, cls, keys, layers, rhs, conv=False, inflated=(), analytic=False, init_modes=(), data_init=None,
                 const=None, has_inflation=True):
        self.cls, self.keys, self.layers, self.rhs = cls, keys, layers, rhs
        self.conv, self.inflated, self.analytic, self.init_modes = conv, inflated, analytic, init_modes
        self.data_init = data_init or {}
        self.const = const
        self.has_inflation = has_inflation


def lin(th, x):
    return F.linear(x, th['weight'], th.get('bias'))


def cnv(th, x):
    return F.conv2d(x, th['weight'], th.get('bias'), padding=1)


def gnorm(x, eps=1e-5):
    m = x.mean(dim=(2, 3), keepdim=True)
    v = ((x - m) ** 2).mean(dim=(2, 3), keepdim=True)
    return (x - m) / torch.sqrt(v + eps)


# layers: name -> (in, out, bias, weight kind); 'f' = feature size, 'g' = inflated feature size
MODELS = {
    'simple': Model('AutoShootingIntegrandModelSimple', ['q1'], {'l1': ('f', 'f', True, 'w')},
                    lambda th, q, s: {'q1': lin(th['l1'], s(q['q1']))}, analytic=True, has_inflation=False),
    'debug': Model('DEBUGAutoShootingIntegrandModelSimple', ['q1', 'q2'],
                   {'l1': ('f', 'f', True, 'w'), 'l2': ('f', 'f', True, 'w')},
                   lambda th, q, s: {'q1': lin(th['l1'], s(q['q1'])), 'q2': lin(th['l2'], s(q['q2']))}, analytic=True,
                   has_inflation=False),
    '2nd_order': Model('AutoShootingIntegrandModelSecondOrder', ['q1', 'q2'],
                       {'l1': ('f', 'f', True, 'w'), 'l2': ('f', 'f', True, 'w')},
                       lambda th, q, s: {'q1': lin(th['l1'], s(q['q2'])), 'q2': lin(th['l2'], q['q1'])},
                       has_inflation=False),
    'updown': Model('AutoShootingIntegrandModelUpDown', ['q1', 'q2'],
                    {'l1': ('g', 'f', True, 'w'), 'l2': ('f', 'g', True, 'w')},
                    lambda th, q, s: {'q1': lin(th['l1'], s(q['q2'])), 'q2': lin(th['l2'], q['q1'])},
                    inflated=('q2',), analytic=True, init_modes=('direct', 'linear', 'mini_nn')),
    'universal': Model('AutoShootingIntegrandModelUpDownUniversal', ['q1', 'q2'],
                       {'l1': ('g', 'f', True, 'w'), 'l2': ('f', 'g', True, 'w'), 'l3': ('g', 'g', False, 'o')},
                       lambda th, q, s: {'q1': lin(th['l1'], s(q['q2'])),
                                         'q2': lin(th['l2'], q['q1']) + lin(th['l3'], s(q['q2']))},
                       inflated=('q2',), analytic=True, init_modes=('direct', 'linear', 'mini_nn')),
    'general': Model('AutoShootingIntegrandModelGeneralUpDown', ['q1', 'q2'],
                     {'l11': ('g', 'f', True, 'w'), 'l12': ('f', 'f', False, 'w'), 'l13': ('f', 'f', False, 'w'),
                      'l14': ('g', 'f', False, 'w'), 'l21': ('f', 'g', True, 'w'), 'l22': ('g', 'g', False, 'w'),
                      'l23': ('g', 'g', False, 'w'), 'l24': ('f', 'g', False, 'w')},
                     lambda th, q, s: {
                         'q1': lin(th['l11'], s(q['q2'])) + lin(th['l12'], q['q1']) + lin(th['l13'], s(q['q1'])) + lin(th['l14'], q['q2']),
                         'q2': lin(th['l21'], q['q1']) + lin(th['l22'], q['q2']) + lin(th['l23'], s(q['q2'])) + lin(th['l24'], s(q['q1']))},
                     inflated=('q2',), analytic=True, init_modes=('direct', 'linear', 'mini_nn')),
    'periodic': Model('AutoShootingIntegrandModelUpdownPeriodic', ['q1', 'q2'],
                      {'l1': ('g', 'f', True, 'w'), 'l2': ('f', 'g', True, 'w'), 'l3': ('f', 'f', False, 'w')},
                      lambda th, q, s: {'q1': lin(th['l1'], s(q['q2'])) + lin(th['l3'], q['q1']), 'q2': lin(th['l2'], q['q1'])},
                      inflated=('q2',), analytic=True, init_modes=('direct', 'linear', 'mini_nn')),
    'dampened_q2': Model('AutoShootingIntegrandModelUpdownDampenedQ2', ['q1', 'q2'],
                         {'l1': ('g', 'f', True, 'w'), 'l2': ('f', 'g', True, 'w')},
                         lambda th, q, s: {'q1': lin(th['l1'], s(q['q2'])), 'q2': lin(th['l2'], q['q1']) + 0.5 * q['q2']},
                         inflated=('q2',), analytic=True, const=('q2', 0.5)),
    'symmetrized': Model('AutoShootingIntegrandModelUpdownSymmetrized', ['q1', 'q2', 'q3'],
                         {'l1': ('g', 'f', True, 'w'), 'l2': ('f', 'g', True, 'w'), 'l3': ('f', 'f', True, 'w')},
                         lambda th, q, s: {'q1': lin(th['l1'], s(q['q2'])), 'q2': lin(th['l2'], s(q['q3'])), 'q3': lin(th['l3'], q['q1'])},
                         inflated=('q2',), analytic=True, data_init={'q2': 'copy', 'q3': 'copy'}),
    'conv': Model('AutoShootingIntegrandModelSimpleConv2D', ['q1', 'q2'],
                  {'conv1': ('f', 'f', True, 'w'), 'conv2': ('f', 'f', True, 'w')},
                  lambda th, q, s: {'q1': cnv(th['conv1'], s(q['q2'])), 'q2': cnv(th['conv2'], q['q1'])}, conv=True,
                  has_inflation=False),
    'conv_batch': Model('AutoShootingIntegrandModelConv2DBatch', ['q1', 'q2'],
                        {'conv1': ('f', 'f', True, 'w'), 'conv2': ('f', 'f', True, 'w')},
                        lambda th, q, s: {'q1': cnv(th['conv1'], s(q['q2'])), 'q2': cnv(th['conv2'], gnorm(q['q1']))}, conv=True,
                        has_inflation=False),
    'conv_updown': Model('AutoShootingIntegrandModelUpDownConv2D', ['q1', 'q2'],
                         {'conv1': ('g', 'f', True, 'w'), 'conv2': ('f', 'g', True, 'w')},
                         lambda th, q, s: {'q1': cnv(th['conv1'], s(q['q2'])), 'q2': cnv(th['conv2'], q['q1'])}, conv=True,
                         inflated=('q2',), init_modes=('linear', 'mini_nn')),
}
VECTOR = [k for k, m in MODELS.items() if not m.conv]
CONV = [k for k, m in MODELS.items() if m.conv]
ANALYTIC = [k for k, m in MODELS.items() if m.analytic]
NONLIN = ['identity', 'relu', 'tanh', 'sigmoid', 'softmax']


class Ref(object):
    """Reference flow for a model with given nonlinearity, feature size, inflation and weights."""

    def __init__(self, model, nl, features, infl=5, weight=None, opt_weight=10, pw=None):
        self.m = MODELS[model]
        self.pw = pw or {}
        self.nl, self.f, self.infl = nl, features, infl
        self.w = {'w': 1.0 if weight is None else float(weight), 'o': 1.0 if opt_weight is None else float(opt_weight)}

    def s(self, x):
        return sigma(self.nl, x)

    def weight(self, layer, par):
        """Energy weight of one parameter (individual weight if there is one, otherwise the one of its layer)."""
        kind = self.m.layers[layer][3]
        return self.pw.get((layer, par), self.w.get(kind, kind))

    def zero_theta(self, dtype=None):
        th = {}
        size = {'f': self.f, 'g': self.f * self.infl}
        for l, (i, o, b, _) in self.m.layers.items():
            shp = (size[o], size[i], 3, 3) if self.m.conv else (size[o], size[i])
            th[l] = {'weight': torch.zeros(shp, dtype=dtype)}
            if b:
                th[l]['bias'] = torch.zeros(size[o], dtype=dtype)
        return th

    def rhs(self, th, q):
        return self.m.rhs(th, q, self.s)

    def U(self, th, q, p):
        r = self.rhs(th, q)
        u = 0
        for k in self.m.keys:
            u = u + (p[k] * r[k]).mean(dim=0).sum()
        return u

    def theta(self, q, p, create_graph=False):
        """Stationary point of T-U in theta (f is affine in theta)."""
        dt = q[self.m.keys[0]].dtype
        th = self.zero_theta(dt)
        flat = []
        for l in th:
            for k in th[l]:
                th[l][k].requires_grad_(True)
                flat.append((l, k))
        with torch.enable_grad():
            u = self.U(th, q, p)
            g = torch.autograd.grad(u, [th[l][k] for l, k in flat], create_graph=create_graph)
        out = {l: {} for l in th}
        for (l, k), gi in zip(flat, g):
            out[l][k] = gi / self.weight(l, k)
        return out

    def kinetic(self, th):
        return 0.5 * sum(self.weight(l, k) * (th[l][k] ** 2).sum() for l in th for k in th[l])

    def dp(self, th, q, p, create_graph=False):
        n = q[self.m.keys[0]].shape[0]
        with torch.enable_grad():
            qq = {k: (q[k] if create_graph and q[k].requires_grad else q[k].detach().clone().requires_grad_(True)) for k in q}
            u = self.U(th, qq, p)
            g = torch.autograd.grad(u, [qq[k] for k in self.m.keys], create_graph=create_graph, allow_unused=True)
        return {k: (torch.zeros_like(q[k]) if gi is None else -n * gi) for k, gi in zip(self.m.keys, g)}

    def flow(self, q, p, x, th=None):
        """Returns dq, dp, dx, theta (all detached)."""
        if th is None:
            th = {l: {k: v.detach() for k, v in d.items()} for l, d in self.theta(q, p).items()}
        with torch.no_grad():
            dq = self.rhs(th, q)
            dx = self.rhs(th, x) if x is not None else None
        pd = {k: v.detach() for k, v in self.dp(th, q, p).items()}
        return dq, pd, dx, th


def pack(*dicts):
    return torch.cat([d[k].reshape(-1) for d in dicts for k in sorted(d)])


def unpack(v, *likes):
    out, i = [], 0
    for d in likes:
        o = {}
        for k in sorted(d):
            n = d[k].numel()
            o[k] = v[i:i + n].reshape(d[k].shape)
            i += n
        out.append(o)
    return out


def integrate_ref(ref, q0, p0, x0, t, method='rk4', options=None, rtol=1e-9, atol=1e-11, th_of_t=None):
    """Solves the reference flow with torchdiffeq; returns list of (q,p,x) at the times t."""
    from torchdiffeq import odeint

    def f(tt, v):
        q, p, x = unpack(v, q0, p0, x0)
        dq, dp, dx, _ = ref.flow(q, p, x, th=None if th_of_t is None else th_of_t(tt))
        return pack(dq, dp, dx)

    with torch.no_grad():
        sol = odeint(f, pack(q0, p0, x0).detach(), t, method=method, options=options, rtol=rtol, atol=atol)
    return [unpack(sol[i], q0, p0, x0) for i in range(len(t))]
