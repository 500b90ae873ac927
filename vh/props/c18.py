"""C18: parameter-free layer objects compute what the standard layers compute with the stored parameters."""
import torch
import torch.nn as nn
import torch.nn.functional as F
import neuro_shooting.overwrite_classes as oc
from vh.core import Check

check = Check('C18', 'one case = one layer object of one kind with random options, parameters exchanged/converted through its parameter dictionary; its output is compared with the '
              'standard torch layer of the same options holding the same values, and its bookkeeping (no registered parameters, weights per parameter) is inspected. '
              'Non-trivial: nonzero output; distinct by options and input shape.',
              ['the torch reference layers are correct', 'padding modes other than zeros use numeric paddings'])


def opts(ctx, kind):
    if kind in ('linear', 'dampening'):
        return dict(in_features=ctx.choice([1, 2, 5]), out_features=ctx.choice([1, 3, 4]), bias=ctx.rng.random() < 0.7)
    if kind == 'conv':
        g = ctx.choice([1, 1, 2])
        return dict(in_channels=g * ctx.choice([1, 2]), out_channels=g * ctx.choice([1, 3]), kernel_size=ctx.choice([1, 3, (3, 5), 2]), stride=ctx.choice([1, 2, (1, 2)]),
                    padding=ctx.choice([0, 1, (1, 2)]), dilation=ctx.choice([1, 1, 2]), groups=g, bias=ctx.rng.random() < 0.7,
                    padding_mode=ctx.choice(['zeros', 'zeros', 'circular', 'reflect', 'replicate']))
    g = ctx.choice([1, 2, 3])
    return dict(num_groups=g, num_channels=g * ctx.choice([1, 2]), affine=ctx.rng.random() < 0.6, eps=ctx.choice([1e-5, 1e-3]))


CLS = dict(linear=(oc.SNN_Linear, nn.Linear), dampening=(oc.SNN_LinearDampening, nn.Linear), conv=(oc.SNN_Conv2d, nn.Conv2d), norm=(oc.SNN_GroupNorm, nn.GroupNorm))


def data(ctx, kind, o, B=2):
    if kind in ('linear', 'dampening'):
        return ctx.randn(*(ctx.choice([(3,), (2, 1), (2, 4, 1)]) + (o['in_features'],)))
    if kind == 'conv':
        return ctx.randn(B, o['in_channels'], ctx.choice([9, 10]), ctx.choice([11, 12]))
    return ctx.randn(B, o['num_channels'], 4, 3) + 1.0


@check.scenario(quick=160, thorough=4000, requires=('same_output', 'same_gradient', 'nothing_registered', 'names'))
def equivalent(ctx):
    kind = ctx.cycle(['linear', 'conv', 'norm', 'dampening'])
    o = opts(ctx, kind)
    mine, std = CLS[kind]
    w = ctx.choice([None, 2.0, 0.5])
    dflt = dict(bias=True, stride=1, padding=0, dilation=1, groups=1, padding_mode='zeros', affine=True, eps=1e-5)
    given = {k: v for k, v in o.items() if not (k in dflt and dflt[k] == v and type(v) == type(dflt[k]) and ctx.rng.random() < 0.5)}
    a, b = mine(weight=w, **given), std(**o)
    ctx.note(kind=kind, **{k: str(v) for k, v in o.items()})
    ctx.check(list(a.parameters()) == [] and len(a.state_dict()) == 0, 'nothing_registered', 'the layer registers parameters')
    want = {n: tuple(p.shape) for n, p in b.named_parameters()}
    if kind == 'dampening':
        want['dampening'] = (1,)
    pd = a.get_parameter_dict()
    ctx.check({n: tuple(v.shape) for n, v in pd.items()} == want, 'names', 'parameters {} expected {}'.format({n: tuple(v.shape) for n, v in pd.items()}, want))
    ctx.check(all(v.requires_grad for v in pd.values()), 'names', 'parameter values do not allow differentiation')
    for r in range(2):
        if r:   # exchange the values, as the parameter computation does
            for n in list(pd):
                pd[n] = (ctx.choice([1.0, 1.0, 0.0, 1e-9, 1e6]) * ctx.randn(*pd[n].shape)).requires_grad_(True)
            if ctx.rng.random() < 0.5:
                a.to(torch.float64) if ctx.rng.random() < 0.5 else a.double()
        pd = a.get_parameter_dict()
        with torch.no_grad():
            for n, p in b.named_parameters():
                p.copy_(pd[n])
        x = (data(ctx, kind, o) * ctx.choice([1.0, 1.0, 1.0, 1e4, 0.0])).requires_grad_(True)
        x2 = x.detach().clone().requires_grad_(True)
        if kind == 'dampening':
            di = ctx.randn(*(tuple(x.shape[:-1]) + (o['out_features'],)))
            ya = a(x, di)
            yb = b(x2) - pd['dampening'].detach() * di
        else:
            ya, yb = a(x), b(x2)
        ctx.close(ya, yb, 'same_output', 'output of {}'.format(kind), rtol=1e-10)
        W = ctx.randn(*ya.shape)
        ga = torch.autograd.grad((ya * W).sum(), [x] + [pd[n] for n in dict(b.named_parameters())], allow_unused=True)
        gb = torch.autograd.grad((yb * W).sum(), [x2] + list(dict(b.named_parameters()).values()), allow_unused=True)
        for u, v, n in zip(ga, gb, ['input'] + list(dict(b.named_parameters()))):
            if v is not None:
                ctx.close(u, v, 'same_gradient', 'gradient for {} of {}'.format(n, kind), rtol=1e-9)
    ctx.key(kind, str(sorted(o.items(), key=str)), tuple(x.shape))


@check.scenario(quick=60, thorough=800, requires=('weights', 'converted'))
def bookkeeping(ctx):
    kind = ctx.cycle(['linear', 'conv', 'dampening', 'norm'])
    o = opts(ctx, kind)
    if kind == 'norm':
        o['affine'] = True
    w = ctx.choice([None, 3.0, 0.25])
    a = CLS[kind][0](weight=w, **o)
    wd = a.get_parameter_weight_dict()
    ctx.check(sorted(wd) == sorted(a.get_parameter_dict()) and all(v == w for v in wd.values()), 'weights', 'weights {} for weight {}'.format(dict(wd), w))
    n = ctx.choice(list(a.get_parameter_dict()))
    a.add_weight(n, 7.5)
    ctx.check(all(v == (7.5 if k == n else w) for k, v in a.get_parameter_weight_dict().items()), 'weights', 'weights after setting {}: {}'.format(n, dict(a.get_parameter_weight_dict())))
    ctx.expect_raises(lambda: a.add_weight('no_such', 1.0), ValueError, 'weights', 'weight for an unknown parameter')
    ctx.check(all(v == (7.5 if k == n else w) for k, v in a.get_parameter_weight_dict().items()), 'weights', 'weights changed by a rejected call')
    # conversions reach all values and keep them
    before = {k: v.detach().clone() for k, v in a.get_parameter_dict().items()}
    how = ctx.choice(['to', 'method'])
    tw = torch.tensor(0.75) if ctx.rng.random() < 0.4 else None
    if tw is not None:
        a.add_weight(n, tw)
    r = a.to(torch.float32) if how == 'to' else a.float()
    ctx.check(r is a, 'converted', 'conversion does not return the layer')
    if tw is not None and how == 'to':
        v = a.get_parameter_weight_dict()[n]
        ctx.check(isinstance(v, torch.Tensor) and v.dtype == torch.float32 and float(v) == float(tw), 'converted', 'weight of {} is {} after conversion'.format(n, v))
    for k, v in a.get_parameter_dict().items():
        ctx.check(v.dtype == torch.float32, 'converted', '{} not converted'.format(k))
        ctx.close(v, before[k].float(), 'converted', k, rtol=0, atol=0)
    ctx.check(sorted(a.get_parameter_dict()) == sorted(before), 'converted', 'parameters lost')
    ctx.note(kind=kind, **{k: str(v) for k, v in o.items()})
    ctx.key(kind, str(sorted(o.items(), key=str)), str(w), n, how)


@check.scenario(quick=30, thorough=300, requires=('independent',))
def independent(ctx):
    """Two objects never share values, and construction is random like that of the standard layers."""
    kind = ctx.cycle(['linear', 'conv', 'dampening'])
    o = opts(ctx, kind)
    s = ctx.case_seed % 9999
    torch.manual_seed(s)
    a = CLS[kind][0](**o)
    torch.manual_seed(s)
    b = CLS[kind][1](**o)
    for n, p in b.named_parameters():
        ctx.close(a.get_parameter_dict()[n], p, 'independent', 'initial value of ' + n, rtol=0, atol=0)
    c = CLS[kind][0](**o)
    keep = {k: v.detach().clone() for k, v in c.get_parameter_dict().items()}
    with torch.no_grad():
        for v in a.get_parameter_dict().values():
            v.add_(1.0)
    a.add_weight('weight', 4.0)
    for k in keep:
        ctx.equal(c.get_parameter_dict()[k], keep[k], 'independent', k)
    ctx.check(c.get_parameter_weight_dict()['weight'] is None, 'independent', 'weight shared between objects')
    ctx.key(kind, str(sorted(o.items(), key=str)))
