"""C04: the particles act as an unordered, normalised ensemble."""
import torch
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, sdod

check = Check('C04', 'one case = one block configuration run with its particles, with the particles reordered, and with every particle repeated m times; '
              'results, penalty and gradients are related. Non-trivial: at least two particles; distinct by configuration, solver, reordering and m.',
              ['agreement up to float64 summation order (1e-8 relative)'])


def run(b, x, W):
    xx = x.clone().requires_grad_(True)
    r, s, c, d = b(x=xx)
    pen = b.get_norm_penalty()
    loss = (r * W).sum() + 0.3 * pen.sum()
    names = [n for n, p in b.named_parameters()]
    g = torch.autograd.grad(loss, [xx] + [p for n, p in b.named_parameters()], allow_unused=True)
    return r, s['blk'], c['blk'], d['blk'], pen, dict(zip(['x'] + names, g))


@check.scenario(quick=80, thorough=1200, requires=('permuted_result', 'permuted_particles', 'permuted_gradient', 'repeated_result', 'repeated_gradient'))
def ensemble(ctx):
    N = lib.size(ctx, [2, 3, 5, 7], [16, 33, 65])
    analytic = ctx.rng.random() < 0.35
    spec = rand_spec(ctx, analytic=analytic, N=N, mag=ctx.choice([0.3, 0.6]))
    name, h = ctx.choice(['rk4', 'euler', 'midpoint', 'explicit_adams']), ctx.choice([0.5, 0.25])
    iover = {}
    if ctx.rng.random() < 0.2:
        iover['use_rnn_mode'] = True
    mk = lambda: lib.block(spec, integ=lib.integrator(name, step_size=h), iover=iover)
    b = mk()
    lib.randomize(b, ctx, scale=spec.mag)
    x = spec.data(ctx, 3)
    W = ctx.randn(*x.shape)
    r, s, c, d, pen, g = run(b, x, W)
    lib.finite_or_skip(r, s['q1'], bound=100)
    ctx.note(spec=spec.describe(), solver=name)
    tol = dict(rtol=1e-8, atol=1e-9)
    keys = set(spec.m.keys) | {'p_' + k for k in spec.m.keys}
    gs = max(float(v.abs().max()) for v in g.values() if v is not None)
    # reorder
    perm = list(range(N))
    while perm == sorted(perm):
        ctx.rng.shuffle(perm)
    b2 = mk()
    sd = {n: (v[perm].clone() if n in keys else v.clone()) for n, v in b.state_dict().items()}
    b2.load_state_dict(sd)
    r2, s2, c2, d2, pen2, g2 = run(b2, x, W)
    ctx.close(r2, r, 'permuted_result', 'result', **tol)
    for k in d:
        ctx.close(d2[k], d[k], 'permuted_result', 'data ' + k, **tol)
    ctx.close(pen2.reshape(-1), pen.reshape(-1), 'permuted_result', 'norm penalty', **tol)
    for k in s:
        ctx.close(s2[k], s[k][perm], 'permuted_particles', k, **tol)
    for k in c:
        ctx.close(c2[k], c[k][perm], 'permuted_particles', k, **tol)
    for n in g:
        if g[n] is None:
            continue
        ctx.close(g2[n], g[n][perm] if n in keys else g[n], 'permuted_gradient', n, scale=gs, **tol)
    # repeat every particle m times
    m = ctx.choice([2, 3])
    spec.N = N * m
    b3 = mk()
    sd = {n: (v.repeat([m] + [1] * (v.dim() - 1)) if n in keys else v.clone()) for n, v in b.state_dict().items()}
    b3.load_state_dict(sd)
    r3, s3, c3, d3, pen3, g3 = run(b3, x, W)
    ctx.close(r3, r, 'repeated_result', 'result with every particle repeated {} times'.format(m), **tol)
    ctx.close(pen3.reshape(-1), pen.reshape(-1), 'repeated_result', 'norm penalty with repeated particles', **tol)
    for k in s:
        ctx.close(s3[k][:N], s[k], 'repeated_result', 'particles ' + k, **tol)
        ctx.close(s3[k][-N:], s[k], 'repeated_result', 'copies ' + k, **tol)
    for k in c:
        ctx.close(c3[k][:N], c[k], 'repeated_result', 'costates ' + k, **tol)
    for n in g:
        if n in keys and g[n] is not None:
            tot = sum(g3[n][i * N:(i + 1) * N] for i in range(m))
            ctx.close(tot, g[n], 'repeated_gradient', n, scale=gs, **tol)
    spec.N = N
    ctx.key(spec.key(), name, h, tuple(perm), m, tuple(iover))


@check.scenario(quick=24, thorough=400, requires=('pass_through_permuted',))
def pass_through_ensemble(ctx):
    """The same for particles handed over by a previous block."""
    spec = rand_spec(ctx, N=ctx.choice([2, 4]))
    m = spec.m
    b = lib.block(spec, iover=dict(is_pass_through=True))
    mk = lambda n: {k: ctx.randn(*((n, spec.features * (spec.infl if k in m.inflated else 1)) + tuple(spec.size) if m.conv
                                  else (n, spec.chan, spec.features * (spec.infl if k in m.inflated else 1))), scale=0.5) for k in m.keys}
    q, p, x = mk(spec.N), {'p_' + k: v for k, v in mk(spec.N).items()}, mk(3)
    perm = list(range(spec.N))
    while perm == sorted(perm):
        ctx.rng.shuffle(perm)
    out = []
    for ix in (list(range(spec.N)), perm):
        out.append(b(pass_through_state_dict_of_dicts=sdod({'a': {k: v[ix] for k, v in q.items()}}),
                     pass_through_costate_dict_of_dicts=sdod({'a': {k: v[ix] for k, v in p.items()}}), data_dict_of_dicts=sdod({'a': x})))
    lib.finite_or_skip(out[0][0], bound=100)
    ctx.close(out[1][0], out[0][0], 'pass_through_permuted', 'result', rtol=1e-8)
    for k in q:
        ctx.close(out[1][1]['blk'][k], out[0][1]['blk'][k][perm], 'pass_through_permuted', k, rtol=1e-8)
        ctx.close(out[1][3]['blk'][k], out[0][3]['blk'][k], 'pass_through_permuted', 'data ' + k, rtol=1e-8)
    ctx.note(spec=spec.describe())
    ctx.key(spec.key(), tuple(perm))


lib.large(check, [ensemble], quick=8, thorough=200)
