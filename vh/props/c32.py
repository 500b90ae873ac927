"""C32: models defined by a user on the base classes obtain the shooting equations of their own definition and all guarantees of the built-in ones."""
import importlib
import torch
from vh import lib, ref as R, usermodel
from vh.core import Check, Skip

check = Check('C32', 'one case = one model definition drawn at random (states with names, sizes and lifting; layers with names, sizes, biases and energy weights; velocities which are sums of layers, '
              'products and decays), built as a subclass of the vector or convolution base class the way the built-in models are, and driven through one of the monitored workloads of the other properties. '
              'Non-trivial: the workload produced observations; distinct by definition and workload.',
              ['exact comparison: velocities affine in the layer parameters; otherwise descent of the Lagrangian where the step of the search is guaranteed to descend', 'data enters as the first state, auxiliary states start at zero or as copies'])


def run(ctx, prop, name):
    mod = importlib.import_module('vh.props.' + prop)
    sc = next(s for s in mod.check.scenarios if s.name == name)
    d = [usermodel.definition(ctx, conv=c) for c in (False, True)]
    ctx.rng.shuffle(d)
    for i, x in enumerate(d):
        R.MODELS['user{}'.format(i)] = usermodel.reference(x)
    lib.FORCED[:] = ['user0', 'user1']
    ctx.note(definitions={'user{}'.format(i): str(x) for i, x in enumerate(d)}, workload='{} {}'.format(prop, name))
    try:
        sc.fn(ctx)
    finally:
        lib.FORCED[:] = []
        for i in range(2):
            R.MODELS.pop('user{}'.format(i), None)
    ctx.keys.clear()
    ctx.key(prop, name, str(d))


GROUPS = {
    'equations': [('c01', 'trajectory'), ('c01', 'raw_evaluation'), ('c01', 'endpoint'), ('c01', 'single_precision')],
    'flow': [('c03', 'coincident_full_state'), ('c03', 'batch_independence'), ('c03', 'data_layout'), ('c04', 'ensemble'), ('c04', 'pass_through_ensemble'), ('c19', 'conserved'), ('c19', 'reversible')],
    'derivatives': [('c07', 'single_block'), ('c07', 'chain'), ('c12', 'value'), ('c12', 'gradient'), ('c06', 'block_checkpointed')],
    'composition': [('c09', 'chain'), ('c09', 'several_received'), ('c09', 'split_interval'), ('c10', 'enlarge'), ('c08', 'through_integration')],
    'operation': [('c13', 'observed'), ('c14', 'solver'), ('c14', 'frozen'), ('c14', 'independent_of_particles'), ('c15', 'inventory'), ('c15', 'save_and_load'), ('c16', 'history'), ('c05', 'block_times')],
}


def _scenario(group, n, thorough):
    def f(ctx):
        run(ctx, *GROUPS[group][ctx.idx % len(GROUPS[group])])
    f.__name__ = group
    f.__doc__ = 'User-defined models in the workloads ' + ', '.join('{} {}'.format(*g) for g in GROUPS[group])
    check.scenario(quick=n, thorough=thorough, requires=())(f)


_scenario('equations', 60, 1200)
_scenario('flow', 56, 1000)
_scenario('derivatives', 40, 800)
_scenario('composition', 50, 800)
_scenario('operation', 64, 1000)


def energies(ref, th, q, p, w_transport=None):
    """Lagrangian T - U of parameters th and its gradient with respect to them."""
    th = {l: {k: v.detach().clone().requires_grad_(True) for k, v in d.items()} for l, d in th.items()}
    with torch.enable_grad():
        if w_transport is None:
            t = ref.kinetic(th)
        else:
            t = 0.5 * w_transport * sum((v ** 2).sum() for v in ref.rhs(th, q).values())
        lag = t - ref.U(th, q, p)
        g = torch.autograd.grad(lag, [v for d in th.values() for v in d.values()])
    return float(lag), float(sum((x ** 2).sum() for x in g)) ** 0.5


def curvature(q, p, conv):
    """Upper estimate of the curvature of U with respect to the parameters (velocities of at most two layers, weights of moderate size)."""
    n = next(iter(q.values())).shape[0]
    pix = next(iter(q.values()))[0, 0].numel() if conv else 1
    a = max(float(v.reshape(n, -1).norm(dim=1).max()) for v in q.values())
    return 2 * sum(float(v.reshape(n, -1).norm(dim=1).mean()) for v in p.values()) * (pix ** 0.5 + (3 if conv else 1) * a) ** 2


@check.scenario(quick=24, thorough=500, requires=('gradient', 'moved_by_searched', 'lagrangian_descends', 'stationary'))
def search(ctx):
    """Velocities not affine in the parameters, and the transport energy: the parameters used descend the Lagrangian of their definition and move states and data."""
    transport = ctx.idx % 3 == 2
    conv = not transport and ctx.rng.random() < 0.3
    if transport:
        m = R.Model('AutoShootingOptimalTransportSimple', ['q1', 'q2'], {'l1': ('f', 'f', True, 'w'), 'l2': ('f', 'f', True, 'w')},
                    lambda th, q, s: {'q1': R.lin(th['l1'], s(q['q2'])), 'q2': R.lin(th['l2'], q['q1'])}, has_inflation=False)
    else:
        d = usermodel.deep_definition(ctx, conv)
        m = usermodel.reference(d)
        ctx.note(definition=str(d))
    R.MODELS['user0'] = m
    try:
        mag = 0.3 if conv else 0.5
        spec = lib.rand_spec(ctx, model='user0', nl=['tanh', 'sigmoid', 'softmax', 'identity'], mag=mag, **(dict(weight=ctx.choice([0.02, 0.05, 0.2]), N=ctx.choice([1, 2, 3, 5])) if transport else {}))
        name = ctx.choice(['euler', 'midpoint', 'rk4'])
        b = lib.block(spec, integ=lib.integrator(name, step_size=0.5))
        lib.randomize(b, ctx, scale=mag)
        ref, integ = spec.ref(), b.shooting_integrand
        if not transport:
            c = curvature(*lib.get_state(b, spec), conv=conv)
            with torch.no_grad():
                for n_, v in b.named_parameters():
                    if n_.startswith('p_') and n_[2:] in spec.m.keys and c > 0.25:
                        v.mul_(0.25 / c)
        starts = []
        make = integ.create_default_parameter_objects

        def recorded():
            po = make()
            starts.append(lib.params_of(po))
            return po
        integ.create_default_parameter_objects = recorded
        dim = 1 if conv else 2

        def on_event(ev):
            q, p = ev['q']['blk'], lib.strip(ev['p']['blk'], 'p_')
            x, th = ev['x']['blk'], ev['th']
            big = max(float(v.abs().max()) for u in (q, p) for v in u.values())
            if not big <= 1e3 or not all(bool(torch.isfinite(v).all()) for u in (q, p, x) for v in u.values()):
                starts.clear()
                return
            for got, want, what in ((ev['dq'], ref.rhs(th, q), 'state'), (ev['dx'], ref.rhs(th, x), 'data')):
                got = lib.strip(got['blk'], 'dot_')
                for k in spec.m.keys:
                    ctx.close(got[k], want[k], 'moved_by_searched', '{} rate {} from the observed parameters'.format(what, k), rtol=1e-9)
            ctx.check(len(starts) > 0, 'lagrangian_descends', 'no start values were requested')
            w = None
            if transport:
                w = spec.weight
                # descent with the step of the search is guaranteed while the curvature stays below two per unit step
                n = sum(v.shape[0] for v in q.values())
                curv = w * (sum(float((ref.s(v) ** 2).sum()) + float((v ** 2).sum()) for v in q.values()) + n)
                if curv > 3.0:
                    ctx.count('beyond_guaranteed_descent')
                    starts.clear()
                    return
            l1, g1 = energies(ref, th, q, p, w)
            seen = [energies(ref, s, q, p, w) for s in starts]
            starts.clear()
            small = not transport and curvature(q, p, conv) < 0.4
            if transport or small:
                ctx.check(any(l1 <= l0 - 0.1 * g0 ** 2 + 1e-9 * (1 + abs(l0)) for l0, g0 in seen), 'lagrangian_descends', 'Lagrangian {:.8g} of the parameters used, {} at the start values'.format(l1, [s[0] for s in seen]))
                ctx.check(any(g1 <= g0 * (1 + 1e-9) for _, g0 in seen), 'lagrangian_descends', 'gradient norm {:.6g} of the parameters used, {} at the start values'.format(g1, [s[1] for s in seen]))
            if not transport and small:
                ctx.check(g1 <= 2e-2 * max(g0 for _, g0 in seen), 'stationary', 'gradient norm of the Lagrangian {:.6g}, {} at the start values'.format(g1, [s[1] for s in seen]))
                # envelope: the costate moves with the derivative of the Lagrangian at stationary parameters
                wp = ref.dp(th, q, p)
                gp = lib.strip(ev['dp']['blk'], 'dot_p_')
                s = max(float(v.abs().max()) for v in wp.values())
                n = q['q1'].shape[0]
                for k in wp:
                    ctx.close(gp[k], wp[k], 'stationary', 'costate rate ' + k, rtol=2e-2, atol=2e-2 * s + 1e-2 * n * float(max(v.abs().max() for v in p.values())))
            else:
                ctx.count('stationary')
        tr = lib.RhsTrace(integ, on_event)
        o = b(x=spec.data(ctx, 2))
        tr.close()
        ctx.check(len(tr.events) > 0, 'hook_fired', 'no evaluation observed')
        lib.finite_or_skip(o[0])
        # the search is part of what is differentiated (start values are repeated by seeding)
        W, x = ctx.randn(*o[0].shape), spec.data(ctx, 2)
        named = [(k, v) for k, v in b.named_parameters()]
        base = [v.detach().clone() for _, v in named]
        dirs = [ctx.randn(*v.shape) for v in base]

        def f(e):
            with torch.no_grad():
                for (_, v), b0, dd in zip(named, base, dirs):
                    v.copy_(b0 + e * dd)
            lib.reseed(5)
            out = b(x=x)
            return (W * out[0]).sum() + sum((v[-1] if v.dim() > 4 else v).sum() for v in out[2]['blk'].values())
        y = f(0.0)
        lib.finite_or_skip(y)
        g = lib.grads(y, named)
        an = sum(float((g[n_] * dd).sum()) for (n_, _), dd in zip(named, dirs) if g[n_] is not None)
        ds = []
        for e in (1e-4, 5e-5):
            ds.append((8 * (float(f(e)) - float(f(-e))) - (float(f(2 * e)) - float(f(-2 * e)))) / (12 * e))
        f(0.0)
        if abs(ds[0] - ds[1]) > 1e-5 * (1 + abs(ds[1])):
            raise Skip('differences do not settle')
        ctx.check(abs(an - ds[1]) <= 1e-4 * (1 + abs(ds[1])), 'gradient', 'directional derivative {:.8g}, difference {:.8g}'.format(an, ds[1]))
        ctx.note(spec=spec.describe(), solver=name)
        ctx.key(str(m.definition) if not transport else 'transport', spec.key())
    finally:
        R.MODELS.pop('user0', None)
