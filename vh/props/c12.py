"""C12: the norm penalty is the weighted parameter energy at the start of the integration, for the last forward call, and differentiable."""
import torch
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec, Spec

check = Check('C12', 'one case = one block (or chain) in one mode (particle based, frozen, particle-free static or time-dependent) with one solver, adjoint or '
              'checkpointed or not; the penalty read after each forward call of a history is compared with half the weighted sum of squares of the parameters '
              'of the reference at the start time, and its gradient with central differences. Non-trivial: nonzero penalty; distinct by configuration and mode.',
              ['the penalty is read after the forward call, before any backward pass re-evaluates the dynamics'])


def pf_energy(b, spec):
    """Mean over the time steps of the weighted energy of the registered particle-free parameters."""
    ref = spec.ref()
    e, steps = 0.0, set()
    for n, v in b.named_parameters():
        if n.startswith('pf_timestep'):
            step, layer, par = lib.split_name(n[len('pf_timestep'):])
            steps.add(step)
            e = e + 0.5 * ref.weight(layer, par) * (v.detach() ** 2).sum()
    return e / len(steps)


def setup(ctx, spec, mode, **integ):
    iover, kw = {}, {}
    if mode == 'frozen':
        iover['use_rnn_mode'] = True
    elif mode == 'pf_rnn':
        kw['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=ctx.choice([1, 2, 3, 5, 12, 20]))
    elif mode == 'zero_state':
        kw['keep_initial_state_parameters_at_zero'] = True
    return lib.block(spec, integ=lib.integrator(**integ), iover=iover, **kw)


def expected(b, spec, mode):
    if mode.startswith('pf'):
        return pf_energy(b, spec)
    np_ = {k: v.detach() for k, v in b.named_parameters()}
    p = {k: np_['p_' + k] for k in spec.m.keys}
    q = {k: (torch.zeros_like(p[k]) if mode == 'zero_state' else np_[k]) for k in spec.m.keys}
    ref = spec.ref()
    return ref.kinetic({l: {k: v.detach() for k, v in d.items()} for l, d in ref.theta(q, p).items()})


def integ_args(ctx, steps=(0.25, 0.5)):
    a = dict(name=ctx.choice(['rk4', 'euler', 'midpoint']), step_size=ctx.choice(steps))
    if ctx.rng.random() < 0.1:
        a = dict(name='dopri5', rtol=1e-2, atol=1e-2)
    a['adjoint'] = ctx.rng.random() < 0.3
    if ctx.rng.random() < 0.25 and a['name'] != 'dopri5':
        a['nr_of_checkpoints'] = ctx.choice([1, 3])
    return a


@check.scenario(quick=110, thorough=2500, requires=('penalty_value', 'penalty_absent'))
def value(ctx):
    """History of forward calls: value belongs to the latest call; None when it did not start at time zero."""
    mode = ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn', 'pf_time', 'zero_state'])
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.35, mag=ctx.choice([0.2, 0.5]))
    a = integ_args(ctx)
    b = setup(ctx, spec, mode, **a)
    hist = []
    ctx.note(spec=spec.describe(), mode=mode, solver=str(a), history=hist)
    got = b.get_norm_penalty()
    ctx.check(got is None, 'penalty_absent', 'a penalty of {} before any forward call'.format(got))
    any_pos = False
    for step in range(ctx.choice([2, 3, 4])):
        lib.randomize(b, ctx, scale=0.1 if a['name'] == 'dopri5' else ctx.choice([0.1, 0.4]))
        kind = ctx.choice(['end', 'vector', 'late'])
        if step == 1 and ctx.rng.random() < 0.5:
            kind = 'late'
        if kind == 'end':
            b.set_integration_time(ctx.choice([0.5, 1.0]))
        elif kind == 'vector':
            b.set_integration_time_vector(torch.tensor(ctx.choice([[0.0, 0.5, 1.0], [0.0, 1e-4, 3e-4, 0.5], [0.0, 1e-6, 1.0], [0.0, -1e-4, -0.5]])), suppress_warning=True)
        else:
            b.set_integration_time_vector(torch.tensor(ctx.choice([[0.25, 0.5, 1.25], [-0.75, -0.25], [1e-4, 0.5], [-1e-5, -0.5], [1e-6, 1e-3]])), suppress_warning=True)
        hist.append(kind)
        x = spec.data(ctx, ctx.choice([1, 3]))
        out = b(x=x)
        lib.finite_or_skip(out[0])
        got = b.get_norm_penalty()
        if kind == 'late':
            ctx.check(got is None, 'penalty_absent', 'integration from {} reports a penalty'.format(hist))
        else:
            want = expected(b, spec, mode)
            ctx.check(isinstance(got, torch.Tensor) and got.numel() == 1, 'penalty_value', 'penalty is {}'.format(got))
            ctx.close(got.reshape(()), want.reshape(()), 'penalty_value', 'norm penalty ({})'.format(mode), rtol=1e-8, atol=1e-10)
            any_pos = any_pos or float(want) > 1e-8
        if ctx.rng.random() < 0.3 and a['name'] != 'dopri5' and not (mode == 'frozen' and 'nr_of_checkpoints' in a):
            # (frozen parameters with checkpointing: see the known finding of C06)
            out[0].sum().backward()
            b.zero_grad()
    if any_pos:
        ctx.key(spec.key(), mode, str(a), tuple(hist))


@check.scenario(quick=40, thorough=800, requires=('chain_penalty',))
def chain(ctx):
    """A block with passed-through states: energy of the parameters of the joined state."""
    first = rand_spec(ctx, mag=0.3)
    m = first.m
    dim = 1 if m.conv else 2
    own = ctx.rng.random() < 0.6
    f2 = ctx.choice([1, 2]) if own else 0
    n1, n2 = ctx.rng.sample(['a', 'b', 'c1', 'Z'], 2)
    f1 = first.chan if m.conv else first.size
    sp2 = Spec(first.model, first.nl, first.N, first.size if m.conv else max(f2, 1), (f2 or 1) if m.conv else 1, first.infl, first.weight, first.opt_weight, False, 0.3)
    a = integ_args(ctx)
    b1 = lib.block(first, name=n1)
    b2 = lib.block(sp2, name=n2, integ=lib.integrator(**a), in_features=f1 + f2, iover={} if own else lib.continuing(ctx, first.N))
    for b in (b1, b2):
        lib.randomize(b, ctx, scale=0.3)
    o = b1(x=first.data(ctx, 2))
    lib.finite_or_skip(*[v for dd in o[1:] for v in dd[n1].values()])
    b2(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
    q = {k: o[1][n1][k].detach() for k in m.keys}
    p = {k: o[2][n1]['p_' + k].detach() for k in m.keys}
    if own:
        q2, p2 = lib.get_state(b2, sp2)
        first_is = n1 < n2
        cat = lambda u, v: {k: torch.cat([u[k], v[k]] if first_is else [v[k], u[k]], dim=dim) for k in m.keys}
        q, p = cat(q, q2), cat(p, p2)
    ref = R.Ref(first.model, first.nl, f1 + f2, first.infl, first.weight, first.opt_weight)
    th = {l: {k: v.detach() for k, v in d.items()} for l, d in ref.theta(q, p).items()}
    ctx.note(spec=first.describe(), own=own, names=[n1, n2], solver=str(a))
    ctx.close(b2.get_norm_penalty().reshape(()), ref.kinetic(th).reshape(()), 'chain_penalty', 'norm penalty of the second block', rtol=1e-7, atol=1e-10)
    # the first block's penalty is still its own
    ctx.close(b1.get_norm_penalty().reshape(()), expected(b1, first, 'plain').reshape(()), 'chain_penalty', 'norm penalty of the first block', rtol=1e-8, atol=1e-10)
    ctx.key(first.key(), own, f2, n1 < n2, str(a))


@check.scenario(quick=80, thorough=1200, requires=('penalty_gradient',))
def gradient(ctx):
    mode = ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn', 'pf_time', 'zero_state'])
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.35, nl=['tanh', 'sigmoid', 'softmax', 'identity'], mag=0.4)
    a = integ_args(ctx)
    b = setup(ctx, spec, mode, **a)
    lib.randomize(b, ctx, scale=0.1 if a['name'] == 'dopri5' else 0.4)
    x = spec.data(ctx, 2)
    ctx.note(spec=spec.describe(), mode=mode, solver=str(a))
    out = b(x=x)
    lib.finite_or_skip(out[0])
    pen = b.get_norm_penalty()
    named = list(b.named_parameters())
    g = lib.grads(pen.sum(), named)
    sc = max([float(v.norm()) for v in g.values() if v is not None] + [0.0])
    eps = 1e-6
    for n, pr in named:
        v = ctx.randn(*pr.shape)
        v = v / max(float(v.norm()), 1e-12)
        vals = []
        for s in (eps, -2 * eps):
            with torch.no_grad():
                pr.add_(s * v)
            b(x=x)
            vals.append(float(b.get_norm_penalty().detach().sum()))
        with torch.no_grad():
            pr.add_(eps * v)
        fd = (vals[0] - vals[1]) / (2 * eps)
        got = 0.0 if g[n] is None else float((g[n] * v).sum())
        ctx.check(abs(fd - got) <= 1e-6 + 1e-5 * max(sc, 1.0, abs(fd)), 'penalty_gradient',
                  'derivative of the penalty with respect to {}: computed {:.9g}, finite difference {:.9g}'.format(n, got, fd))
        if abs(fd) > 1e-6:
            ctx.nontrivial = True
    if ctx.nontrivial:
        ctx.key(spec.key(), mode, str(a))


lib.large(check, [value], quick=8, thorough=200)
