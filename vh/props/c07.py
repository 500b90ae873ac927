"""C07: gradients of anything a block returns are the true derivatives of the computed values."""
import torch
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec, sdod, Spec

check = Check('C07', 'one case = one block (or chain of blocks) and a random scalar function of everything it returns; gradients for every trainable '
              'parameter, the data and passed-through tensors are compared with central differences along random directions, and the gradients of adjoint '
              'integration with those of direct differentiation. Non-trivial: nonzero gradient; distinct by configuration, mode and solver.',
              ['smooth nonlinearities (or relu at random points away from kinks)', 'finite differences in float64, step 1e-6, tolerance 1e-5 relative',
               'adjoint gradients converge to the true ones with the step size; compared at small steps with 1e-3 relative tolerance'])
SMOOTH = ['tanh', 'sigmoid', 'softmax', 'identity']


def mode_args(ctx, spec, mode, T=1.0):
    iover, kw = {}, {}
    if mode == 'frozen':
        iover['use_rnn_mode'] = True
    elif mode == 'pf_rnn':
        kw['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=ctx.choice([2, 4]), max_integration_time=T)
    elif mode == 'init' and spec.m.init_modes:
        iover.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=ctx.choice(spec.m.init_modes))
    elif mode == 'zero_state':
        kw['keep_initial_state_parameters_at_zero'] = True
    return iover, kw


def weights_like(ctx, ts):
    return [ctx.randn(*t.shape) for t in ts]


def flat(out):
    r, s, c, d = out
    return [r] + [dd[n][k] for dd in (s, c, d) for n in dd for k in dd[n]]


def objective(ctx, W, out, pen, wp):
    ts = flat(out)
    if not W:
        W.extend(weights_like(ctx, ts))
    l = wp * pen.sum() if pen is not None else 0
    for w, t in zip(W, ts):
        l = l + (w * t).sum() + 0.1 * (t ** 2).sum()
    return l


def fd_check(ctx, run, named, monitor, rtol=1e-5, eps=1e-6, tol_abs=1e-6):
    """Central differences along one random direction per tensor."""
    loss = run()
    if not bool(torch.isfinite(loss)) or abs(float(loss.detach())) > 1e4:
        raise Skip('value out of range')
    g = lib.grads(loss, named)
    sc = max([float(v.norm()) for v in g.values() if v is not None] + [0.0])
    if sc > 1e4:
        raise Skip('derivative out of range')
    for n, p in named:
        v = ctx.randn(*p.shape)
        v = v / max(float(v.norm()), 1e-12)
        with torch.no_grad():
            p.add_(eps * v)
        lp = float(run().detach())
        with torch.no_grad():
            p.sub_(2 * eps * v)
        lm = float(run().detach())
        with torch.no_grad():
            p.add_(eps * v)
        fd = (lp - lm) / (2 * eps)
        got = 0.0 if g[n] is None else float((g[n] * v).sum())
        ctx.count(monitor)
        if not abs(fd - got) <= tol_abs + rtol * max(sc, 1.0):
            ctx.fail('{}: derivative with respect to {}: computed {:.9g}, finite difference {:.9g} (largest gradient {:.3g})'.format(monitor, n, got, fd, sc))
        if abs(fd) > 1e-6:
            ctx.nontrivial = True
    return g


@check.scenario(quick=90, thorough=1500, requires=('finite_difference',))
def single_block(ctx):
    mode = ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn', 'pf_time', 'init', 'zero_state'])
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.35, nl=SMOOTH, mag=ctx.choice([0.2, 0.4]))
    iover, kw = mode_args(ctx, spec, mode)
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    b = lib.block(spec, integ=lib.integrator(name, step_size=ctx.choice([0.25, 0.5])), iover=iover, **kw)
    lib.randomize(b, ctx, scale=spec.mag)
    if ctx.rng.random() < 0.3:
        b.set_integration_time_vector(torch.tensor([0.0, 0.5, 1.0]), suppress_warning=True)
    x = spec.data(ctx, 2).requires_grad_(True)
    W, wp = [], ctx.choice([0.0, 1.0])
    ctx.note(spec=spec.describe(), mode=mode, solver=name)

    def run():
        out = b(x=x)
        return objective(ctx, W, out, b.get_norm_penalty(), wp)
    named = [('data', x)] + [(n, p) for n, p in b.named_parameters() if p.requires_grad]
    fd_check(ctx, run, named, 'finite_difference')
    ctx.key(spec.key(), mode, name)


@check.scenario(quick=30, thorough=500, requires=('second_derivative',))
def higher_order(ctx):
    """Gradients are themselves differentiable: penalties on the sensitivity to the data or the parameters."""
    mode = ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn', 'pf_time', 'init', 'zero_state'])
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.35, nl=['tanh', 'sigmoid'], mag=ctx.choice([0.2, 0.4]))
    iover, kw = mode_args(ctx, spec, mode)
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    b = lib.block(spec, integ=lib.integrator(name, step_size=0.5), iover=iover, **kw)
    lib.randomize(b, ctx, scale=spec.mag)
    x = spec.data(ctx, 2).requires_grad_(True)
    b(x=x)
    pars = [(n, p) for n, p in b.named_parameters() if p.requires_grad]
    W, wp = [], ctx.choice([0.0, 1.0])
    to = ctx.choice(['data', 'parameters', 'both'])
    ctx.note(spec=spec.describe(), mode=mode, solver=name, sensitivity=to)

    def run():
        out = b(x=x)
        l = objective(ctx, W, out, b.get_norm_penalty(), wp)
        wrt = ([x] if to != 'parameters' else []) + ([p for _, p in pars] if to != 'data' else [])
        g = torch.autograd.grad(l, wrt, create_graph=True, allow_unused=True)
        return 0.1 * l + sum((v ** 2).sum() for v in g if v is not None)
    fd_check(ctx, run, [('data', x)] + pars, 'second_derivative')
    ctx.key(spec.key(), mode, name, to)


@check.scenario(quick=120, thorough=1200, requires=('chain_finite_difference',))
def chain(ctx):
    """Two blocks, state, costate and data handed over; own states or pure continuation; enlargement for convolutions."""
    conv = ctx.idx % 2 == 0
    spec1 = rand_spec(ctx, models=R.CONV if conv else R.VECTOR, nl=SMOOTH, mag=0.3)
    pt = ctx.rng.random() < 0.4
    spec2 = Spec(spec1.model, spec1.nl, spec1.N, spec1.size, spec1.chan, spec1.infl, spec1.weight, spec1.opt_weight, False, 0.3)
    if not pt:
        if conv:
            spec2.chan = ctx.choice([1, 2])
            if ctx.rng.random() < 0.6:
                spec2.size = [spec1.size[0] + ctx.choice([0, 1, 2]), spec1.size[1] + ctx.choice([0, 1, 3])]
            if ctx.rng.random() < 0.3:
                spec2.N = spec1.N + 1
        else:
            spec2.size = ctx.choice([1, 2])
    zero = ctx.rng.random() < 0.4
    integ = lambda: lib.integrator(ctx.choice(['rk4', 'midpoint']), step_size=0.5)
    b1 = lib.block(spec1, name='one', integ=integ())
    b2 = lib.block(spec2, name='two', integ=integ(), in_features=spec1.features if pt else spec1.features + spec2.features,
                   iover=lib.continuing(ctx, spec1.N) if pt else {}, keep_initial_state_parameters_at_zero=zero)
    x = spec1.data(ctx, 2)
    if conv and not pt:
        # the data keeps the spatial size of the second block: embed it
        x = ctx.randn(2, spec1.chan, *spec2.size, scale=0.6)
    x.requires_grad_(True)
    W, wp = [], 0.5

    def run():
        r, s, c, d = b1(x=x)
        out = b2(data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c)
        return objective(ctx, W, out, b2.get_norm_penalty() + b1.get_norm_penalty(), wp)
    run()
    W.clear()
    for b in (b1, b2):
        lib.randomize(b, ctx, scale=0.3)
    named = [('data', x)] + [('b1.' + n, p) for n, p in b1.named_parameters()] + [('b2.' + n, p) for n, p in b2.named_parameters() if p.requires_grad]
    ctx.note(spec1=spec1.describe(), spec2=spec2.describe(), continuation=pt, zero=zero)
    fd_check(ctx, run, named, 'chain_finite_difference')
    ctx.key(spec1.key(), spec2.key(), pt, zero)


@check.scenario(quick=32, thorough=500, requires=('adjoint_value', 'adjoint_gradient'))
def adjoint(ctx):
    """Adjoint integration returns the same values and, at small steps, the same gradients."""
    mode = ctx.cycle(['plain', 'plain', 'pf_rnn', 'init', 'pf_time', 'pf_time', 'plain'])
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.35, nl=SMOOTH, mag=0.2)
    iover, kw = mode_args(ctx, spec, mode)
    if mode == 'pf_time':
        # few or many parameter sets, each over whole steps
        n = ctx.choice([2, 12])
        kw.update(nr_of_particle_free_time_dependent_steps=n, max_integration_time=1.0 if n == 2 else 1.5)
    x = spec.data(ctx, 2, scale=0.5)
    W, src, errs, prev = [], None, [], None
    for h in ((1.0 / 8, 1.0 / 16, 1.0 / 32) if spec.m.conv else (1.0 / 16, 1.0 / 64, 1.0 / 192)):
        out = []
        for adj in (False, True):
            b = lib.block(spec, integ=lib.integrator('rk4', step_size=h, adjoint=adj), iover=iover, seed=ctx.case_seed % 99991, **kw)
            if src is None:
                lib.randomize(b, ctx, scale=0.2)
                src = b
            b.load_state_dict(src.state_dict())
            xx = x.clone().requires_grad_(True)
            o = b(x=xx)
            pen = b.get_norm_penalty().detach().clone()
            named = [('x', xx)] + [(n, p) for n, p in b.named_parameters()]
            out.append((o, pen, lib.grads(objective(ctx, W, o, None, 0), named)))
        (o0, p0, g0), (o1, p1, g1) = out
        lib.finite_or_skip(o0[0], bound=20)
        ctx.note(spec=spec.describe(), mode=mode, finest_step=h)
        for a, w in zip(flat(o1), flat(o0)):
            ctx.close(a, w, 'adjoint_value', 'returned value', rtol=1e-10)
        ctx.close(p1.reshape(-1), p0.reshape(-1), 'adjoint_value', 'norm penalty', rtol=1e-10)
        sc = max(float(v.abs().max()) for v in g0.values() if v is not None)
        if sc > 1e3:
            raise Skip('derivative out of range')
        worst, where = 0.0, ''
        for n in g0:
            if g0[n] is None and g1[n] is None:
                continue
            w = torch.zeros_like(g1[n]) if g0[n] is None else g0[n]
            a = torch.zeros_like(w) if g1[n] is None else g1[n]
            ctx.check(a.shape == w.shape, 'adjoint_gradient', 'shape of the gradient of ' + n)
            er = float((a - w).abs().max()) / max(sc, 1e-6)
            if not er <= worst:
                worst, where = er, n
        errs.append(worst)
        res = float('inf') if prev is None else max(float((g0[n] - prev[n]).abs().max()) for n in g0 if g0[n] is not None) / max(sc, 1e-6)
        prev = g0
        if worst <= (0.02 if mode == 'pf_time' else 1e-3):
            break
    else:
        # not yet below the tolerance: the difference must at least vanish with the step size, once the steps resolve the dynamics
        if res > (5e-3 if mode == 'pf_time' else 1e-4):
            raise Skip('dynamics not resolved by the finest step')
        ctx.check(errs[2] < 0.75 * errs[1] and errs[1] < 0.75 * errs[0], 'adjoint_gradient',
                  'adjoint and direct gradients differ (relative {}), most for {}, and do not approach each other for smaller steps'.format(
                      ['{:.3g}'.format(v) for v in errs], where))
    ctx.key(spec.key(), mode)


@check.scenario(quick=40, thorough=600, requires=('several_calls',))
def several_calls(ctx):
    """A function of several calls of a block (of different numbers and layouts of samples, different times): the derivatives of the calls add up."""
    how = ctx.cycle(['checkpoints', 'adjoint', 'direct', 'checkpoints', 'adjoint'])
    mode = ctx.choice(['plain', 'plain', 'pf_rnn', 'pf_time', 'init'] + (['frozen'] if how == 'direct' else []))
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.3, nl=SMOOTH, mag=0.3)
    iover, kw = mode_args(ctx, spec, mode)
    ia = dict(checkpoints=ctx.choice([dict(nr_of_checkpoints=1), dict(checkpointing_time_interval=0.25)]), adjoint=dict(adjoint=True), direct={})[how]
    b = lib.block(spec, integ=lib.integrator(ctx.choice(['rk4', 'euler']), step_size=0.25, **ia), iover=iover, **kw)
    lib.randomize(b, ctx, scale=0.3)
    second = mode == 'plain' and not spec.analytic and ctx.rng.random() < 0.4
    if second:
        b2 = lib.block(Spec(spec.model, spec.nl, spec.N, spec.size if spec.m.conv else 1, 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3), name='two',
                       integ=lib.integrator('rk4', step_size=0.25, **ia), in_features=spec.features + 1)
        lib.randomize(b2, ctx, scale=0.3)
    calls = []
    for _ in range(ctx.choice([2, 2, 3])):
        n = ctx.choice([1, 2, 3, 5])
        x = spec.data(ctx, n, scale=0.5)
        if not spec.m.conv and mode != 'init' and ctx.rng.random() < 0.3:
            x = ctx.randn(n, 2, 1, spec.size, scale=0.5)
        calls.append((x.requires_grad_(True), ctx.choice([0.5, 1.0, None]), []))
    ctx.note(spec=spec.describe(), mode=mode, how=how, samples=[tuple(x.shape) for x, _, _ in calls], times=[t for _, t, _ in calls], two_blocks=second)

    def call(x, t, W):
        for bb in [b] + ([b2] if second else []):
            if t is None:
                bb.set_integration_time_vector(torch.tensor([0.0, 0.5, 1.0]) if not second or bb is b2 else torch.tensor([0.0, 1.0]), suppress_warning=True)
            else:
                bb.set_integration_time(t)
        if second:
            b.set_integration_time(t or 1.0)
        o = b(x=x)
        if second:
            o = b2(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
        lib.finite_or_skip(o[0], bound=50)
        return objective(ctx, W, o, None, 0)
    call(*calls[0])
    named = [('data{}'.format(i), c[0]) for i, c in enumerate(calls)] + [(n, p) for n, p in b.named_parameters() if p.requires_grad]
    if second:
        named += [('two.' + n, p) for n, p in b2.named_parameters() if p.requires_grad]
    alone = [lib.grads(call(*c), named) for c in calls]
    got = lib.grads(sum(call(*c) for c in calls), named)
    for n, p in named:
        want = sum(torch.zeros_like(p) if a[n] is None else a[n] for a in alone)
        g = torch.zeros_like(p) if got[n] is None else got[n]
        sc = max(1.0, *[float(v.abs().max()) for v in got.values() if v is not None])
        ctx.close(g, want, 'several_calls', '{}: derivative of a function of several calls with respect to {}'.format(how, n), rtol=1e-8, scale=sc)
    ctx.key(spec.key(), mode, how, str([tuple(x.shape) for x, _, _ in calls]), second)


@check.scenario(quick=2, thorough=6, requires=())
def adjoint_frozen(ctx):
    """Adjoint integration when the parameters are computed once from the particles and then kept."""
    spec = rand_spec(ctx, models=['updown', 'simple'], nl=['tanh'], mag=0.4)
    b0 = lib.block(spec, integ=lib.integrator('rk4', step_size=1.0 / 16), iover=dict(use_rnn_mode=True))
    b1 = lib.block(spec, integ=lib.integrator('rk4', step_size=1.0 / 16, adjoint=True), iover=dict(use_rnn_mode=True))
    lib.randomize(b0, ctx, scale=0.4)
    b1.load_state_dict(b0.state_dict())
    x = spec.data(ctx, 2)
    W, g = [], []
    for b in (b0, b1):
        o = b(x=x)
        W = W or weights_like(ctx, [o[0]])
        g.append(lib.grads((o[0] * W[0]).sum(), list(b.named_parameters())))
    ctx.count('adjoint_frozen')
    sc = max(float(v.abs().max()) for v in g[0].values())
    if sc > 0 and all(v is None or float(v.abs().max()) == 0.0 for v in g[1].values()):
        ctx.fail('particle gradients are all zero when frozen parameters are combined with adjoint integration')
    for n in g[0]:
        ctx.close(g[1][n], g[0][n], 'adjoint_frozen', n, rtol=1e-3, scale=sc)


lib.large(check, [single_block, several_calls], quick=10, thorough=150)
