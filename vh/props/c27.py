"""C27: raw inputs are lifted to the full data state as configured."""
import torch
import torch.nn.functional as F
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, sdod

check = Check('C27', 'one case = one model and lifting mode (zero/copied, directly optimised, linear, small network), data layout and solver; the data state entering the first evaluation of the dynamics is '
              'compared with the lifting computed from the registered parameters, and the run with the run started from that explicit data state. Non-trivial: auxiliary data state exists; distinct by configuration.',
              ['trainable lifting parameters are identified by their role (shape), not their name'])
WITH_MODES = [k for k, m in R.MODELS.items() if m.init_modes]


def find_lift(ctx, b, spec, mode):
    m = spec.m
    ex = [(n, v) for n, v in b.named_parameters() if n.split('.')[-1] not in list(m.keys) + ['p_' + k for k in m.keys]]
    if mode == 'direct':
        ctx.check(len(ex) == 1, 'lift_parameters', 'expected one parameter, found {}'.format([n for n, _ in ex]))
        return ex[0][1]
    groups = {}
    for n, v in ex:
        leaf = next((f for f in ('weight', 'bias') if n.endswith(f)), n)
        g = n[:-len(leaf)]
        groups.setdefault(g, {})[leaf] = v
    ctx.check(len(groups) == (1 if mode == 'linear' else 2) and all(set(g) == {'weight', 'bias'} for g in groups.values()), 'lift_parameters', 'found {}'.format([n for n, _ in ex]))
    return [groups[g] for g in sorted(groups)]


def apply(l, x, conv):
    w, b = l['weight'].detach(), l['bias'].detach()
    if conv:
        return torch.einsum('oi,bihw->bohw', w[:, :, 0, 0], x) + b.reshape(1, -1, 1, 1)
    return torch.einsum('oi,...i->...o', w, x) + b


def lifted(ctx, spec, mode, L, x):
    out = {'q1': x}
    if mode is None:
        return spec.lift(x)
    if mode == 'direct':
        out['q2'] = L.detach().reshape((1,) * (x.dim() - L.dim()) + tuple(L.shape)).repeat(tuple(x.shape[:x.dim() - L.dim()]) + (1,) * L.dim())
    elif mode == 'linear':
        out['q2'] = apply(L[0], x, spec.m.conv)
    else:
        out['q2'] = apply(L[1], R.sigma(spec.nl, apply(L[0], x, spec.m.conv)), spec.m.conv)
    return out


@check.scenario(quick=100, thorough=2000, requires=('lifted', 'same_run', 'lift_parameters', 'lift_trained', 'input_gradient'))
def lift(ctx):
    use = ctx.idx % 3 != 0
    spec = rand_spec(ctx, models=WITH_MODES if use else None, mag=0.3)
    m = spec.m
    mode = m.init_modes[ctx.rng.randrange(len(m.init_modes))] if use else None
    iover = {}
    if mode:
        iover = dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=ctx.choice([mode, mode.upper(), mode.capitalize()]))
        if mode == 'linear' and ctx.rng.random() < 0.3:
            iover.pop('optimize_over_data_initial_conditions_type')
    b = lib.block(spec, iover=iover)
    lib.randomize(b, ctx, scale=0.3)
    L = find_lift(ctx, b, spec, mode) if mode else None
    x = spec.data(ctx, ctx.choice([1, 3]), scale=0.5)
    ctx.note(spec=spec.describe(), mode=mode)
    tr = lib.RhsTrace(b.shooting_integrand)
    out = b(x=x)
    tr.close()
    want = lifted(ctx, spec, mode, L, x)
    e = tr.events[0]
    ctx.check(set(e['x']['blk']) == set(m.keys), 'lifted', 'data state has entries {}'.format(sorted(e['x']['blk'])))
    for k in m.keys:
        ctx.close(e['x']['blk'][k], want[k], 'lifted', 'initial data ' + k, rtol=1e-10, atol=1e-12)
    direct = b.shooting_integrand.get_initial_data_dict_from_data_tensor(x)
    for k in m.keys:
        ctx.close(direct[k], want[k], 'lifted', 'initial data {} (queried)'.format(k), rtol=1e-10, atol=1e-12)
    # the same run from the explicit data state
    q0, p0 = lib.get_state(b, spec)
    ref = spec.ref()
    sol = R.integrate_ref(ref, q0, p0, want, torch.tensor([0.0, 1.0]), method='rk4', options={'step_size': 0.25})
    lib.finite_or_skip(*sol[-1][2].values(), bound=100)
    ctx.close(out[0], sol[-1][2]['q1'], 'same_run', 'result', rtol=1e-7, atol=1e-8)
    if mode:
        g = lib.grads((out[0] ** 2).sum(), list(b.named_parameters()))
        # finite difference for one lifting parameter entry
        names = [n for n, v in b.named_parameters() if n.split('.')[-1] not in list(m.keys) + ['p_' + k for k in m.keys]]
        pd = dict(b.named_parameters())
        if spec.nl not in ('relu',):
            n = ctx.choice(names)
            d = ctx.randn(*pd[n].shape)
            base = pd[n].detach().clone()

            def f(eps):
                with torch.no_grad():
                    pd[n].copy_(base + eps * d)
                    return float((b(x=x)[0] ** 2).sum())
            num = (f(1e-5) - f(-1e-5)) / 2e-5
            f(0.0)
            an = 0.0 if g[n] is None else float((g[n] * d).sum())
            sc = abs(num) + abs(an) + float((out[0] ** 2).sum())
            ctx.check(abs(num - an) < 1e-5 * sc + 1e-8, 'lift_trained', 'derivative for {}: {} by differences {}'.format(n, an, num))
        else:
            ctx.count('lift_trained')
    # derivative for the raw input (earlier layers are trained through it)
    if spec.nl not in ('relu',):
        xi = x.clone().requires_grad_(True)
        gx, = torch.autograd.grad((b(x=xi)[0] ** 2).sum(), xi)
        d = ctx.randn(*x.shape)
        with torch.no_grad():
            num = float((b(x=x + 1e-5 * d)[0] ** 2).sum() - (b(x=x - 1e-5 * d)[0] ** 2).sum()) / 2e-5
        an = float((gx * d).sum())
        sc = abs(num) + abs(an) + float((out[0] ** 2).sum())
        ctx.check(abs(num - an) < 1e-5 * sc + 1e-8, 'input_gradient', 'derivative for the input: {} by differences {}'.format(an, num))
    if len(m.keys) > 1:
        ctx.key(spec.key(), mode, x.shape[0])


@check.scenario(quick=30, thorough=400, requires=('zero_default', 'explicit_data_wins'))
def defaults(ctx):
    """Directly optimised conditions start at zero (so that they start as the plain model), and explicit data states are never overwritten by a lifting."""
    spec = rand_spec(ctx, models=[k for k in WITH_MODES if 'direct' in R.MODELS[k].init_modes], mag=0.3)
    ctx.note(spec=spec.describe())
    a = lib.block(spec, iover=dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type='direct'))
    b = lib.block(spec)
    with torch.no_grad():
        for n, v in b.named_parameters():
            v.copy_(dict(a.named_parameters())[n])
    x = spec.data(ctx, 2, scale=0.5)
    with torch.no_grad():
        o, o2 = a(x=x), b(x=x)
    lib.finite_or_skip(o2[0], bound=100)
    ctx.close(o[0], o2[0], 'zero_default', 'result with untrained direct initial conditions', rtol=1e-10, atol=1e-12)
    mode = ctx.choice(spec.m.init_modes)
    c = lib.block(spec, iover=dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=mode, is_pass_through=False))
    lib.randomize(c, ctx, scale=0.3)
    q = {k: ctx.randn(spec.N, 1, spec.features * (spec.infl if k in spec.m.inflated else 1), scale=0.3) for k in spec.m.keys}
    p = {k: ctx.randn(*v.shape, scale=0.3) for k, v in q.items()}
    xx = {k: ctx.randn(2, 1, v.shape[2], scale=0.3) for k, v in q.items()}
    d = lib.block(spec, name='pt', iover=dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=mode, is_pass_through=True))
    tr = lib.RhsTrace(d.shooting_integrand)
    with torch.no_grad():
        d(data_dict_of_dicts=sdod({'old': xx}), pass_through_state_dict_of_dicts=sdod({'old': q}), pass_through_costate_dict_of_dicts=sdod({'old': {'p_' + k: v for k, v in p.items()}}))
    tr.close()
    got = lib.cat_blocks(tr.events[0]['x'], 2)
    for k in xx:
        ctx.close(got[k], xx[k], 'explicit_data_wins', 'explicit data ' + k, rtol=0, atol=0)
    ctx.key(spec.key(), mode)


@check.scenario(quick=10, thorough=40, requires=('rejected',))
def rejects(ctx):
    spec = rand_spec(ctx, models=WITH_MODES)
    bad = ['quadratic', '', 'nn'] + (['direct'] if spec.m.conv else [])
    t = ctx.choice(bad)
    ctx.expect_raises(lambda: lib.block(spec, iover=dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=t)), ValueError, 'rejected', 'lifting mode {!r}'.format(t))
    ctx.key(spec.model, t)
