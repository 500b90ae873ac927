"""C03: data is transported by the same flow as the particles, sample by sample."""
import torch
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, sdod, strip

check = Check('C03', 'one case = one block configuration and batch; the monitor compares transported data with particles started at the same place, '
              'with reordered / reduced / extended / modified batches and with other data layouts. Non-trivial: data moved; distinct by configuration and solver.',
              ['fixed-step solvers are used where samples are required to be independent to rounding (an adaptive solver chooses its steps from the whole batch)'])


def mkblock(ctx, name=None, pt=False, **fix):
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.35, **fix)
    name = name or ctx.choice(['rk4', 'euler', 'midpoint', 'explicit_adams'])
    h = ctx.choice([0.5, 0.25, 0.2])
    ikw = dict(rtol=1e-6, atol=1e-7) if name == 'dopri5' else dict(step_size=h)
    b = lib.block(spec, integ=lib.integrator(name, **ikw), iover=lib.continuing(ctx, spec.N) if pt else {})
    lib.randomize(b, ctx, scale=spec.mag)
    T = ctx.choice([0.5, 1.0, 2.0])
    b.set_integration_time(T)
    ctx.note(spec=spec.describe(), solver=name, h=h, T=T)
    ctx.key(spec.key(), name, h, T)
    return spec, b


def full_state(ctx, spec, n, scale):
    m = spec.m
    out = {}
    for k in m.keys:
        g = spec.features * (spec.infl if k in m.inflated else 1)
        out[k] = ctx.randn(*((n, g) + tuple(spec.size) if m.conv else (n, spec.chan, g)), scale=scale)
    return out


@check.scenario(quick=72, thorough=900, requires=('coincident', 'moved'))
def coincident_full_state(ctx):
    """A continuing (pass-through) block: data given with its full state, part of it started on particles."""
    spec, b = mkblock(ctx, pt=True)
    sc = ctx.choice([0.3, 0.8])
    q, p = full_state(ctx, spec, spec.N, sc), full_state(ctx, spec, spec.N, sc)
    idx = [ctx.rng.randrange(spec.N) for _ in range(3)]
    other = full_state(ctx, spec, 2, sc)
    x = {k: torch.cat([q[k][idx], other[k]]) for k in q}
    times = ctx.rng.random() < 0.4
    if times:
        b.set_integration_time_vector(torch.linspace(0, 1, 4), suppress_warning=True)
    res, s, c, d = b(pass_through_state_dict_of_dicts=sdod({'prev': q}), pass_through_costate_dict_of_dicts=sdod({'prev': {'p_' + k: v for k, v in p.items()}}),
                     data_dict_of_dicts=sdod({'prev': x}))
    for k in q:
        st, dt = s['blk'][k], d['blk'][k]
        if times:
            st, dt = st.transpose(0, 1), dt.transpose(0, 1)
        lib.finite_or_skip(st)
        ctx.close(dt[:3], st[idx], 'coincident', 'data started on particles {} ({})'.format(idx, k), rtol=1e-9)
        if float((st[:, 1:] - st[:, :1]).abs().max() if times and st.shape[1] > 1 else (st - q[k]).abs().max()) > 1e-8:
            ctx.count('moved')


@check.scenario(quick=36, thorough=500, requires=('coincident_lifted',))
def coincident_lifted(ctx):
    """Plain data x, particles placed where the data starts (first state = x, further states = their initial data value)."""
    spec, b = mkblock(ctx)
    x = spec.data(ctx, spec.N)
    lift = spec.lift(x)
    with torch.no_grad():
        for k, v in b.named_parameters():
            if k in lift:
                v.copy_(lift[k])
    res, s, c, d = b(x=x)
    lib.finite_or_skip(s['blk']['q1'])
    ctx.close(res, s['blk']['q1'], 'coincident_lifted', 'returned value', rtol=1e-9)
    for k in lift:
        ctx.close(d['blk'][k], s['blk'][k], 'coincident_lifted', k, rtol=1e-9)


@check.scenario(quick=60, thorough=900, requires=('batch_permutation', 'sub_batch', 'locality', 'duplicates', 'particles_unaffected'))
def batch_independence(ctx):
    spec, b = mkblock(ctx)
    B = lib.size(ctx, [3, 5, 8], [32, 33, 64, 65, 100, 130, 257])
    x = spec.data(ctx, B)
    r0, s0, c0, d0 = b(x=x)
    pen0 = b.get_norm_penalty().detach().clone()
    lib.finite_or_skip(r0, s0['blk']['q1'])
    perm = list(range(B))
    ctx.rng.shuffle(perm)
    tol = dict(rtol=1e-9, atol=1e-10)

    def particles(s, c, pen, what):
        for k in s0['blk']:
            ctx.close(s['blk'][k], s0['blk'][k], 'particles_unaffected', '{}: state {}'.format(what, k), **tol)
        for k in c0['blk']:
            ctx.close(c['blk'][k], c0['blk'][k], 'particles_unaffected', '{}: costate {}'.format(what, k), **tol)
        ctx.close(pen.reshape(-1), pen0.reshape(-1), 'particles_unaffected', '{}: norm penalty'.format(what), **tol)
    r, s, c, d = b(x=x[perm])
    ctx.close(r, r0[perm], 'batch_permutation', 'result', **tol)
    for k in d['blk']:
        ctx.close(d['blk'][k], d0['blk'][k][perm], 'batch_permutation', k, **tol)
    particles(s, c, b.get_norm_penalty(), 'reordered batch')
    sub = sorted(ctx.rng.sample(range(B), ctx.rng.randint(1, B - 1)))
    r, s, c, d = b(x=x[sub])
    ctx.close(r, r0[sub], 'sub_batch', 'result', **tol)
    for k in d['blk']:
        ctx.close(d['blk'][k], d0['blk'][k][sub], 'sub_batch', k, **tol)
    particles(s, c, b.get_norm_penalty(), 'smaller batch')
    j = ctx.rng.randrange(B)
    y = x.clone()
    y[j] = y[j] + ctx.randn(*y[j].shape, scale=ctx.choice([0.5, 5.0]))
    r, s, c, d = b(x=y)
    keep = [i for i in range(B) if i != j]
    ctx.close(r[keep], r0[keep], 'locality', 'other samples after changing sample {}'.format(j), **tol)
    particles(s, c, b.get_norm_penalty(), 'modified sample')
    y = torch.cat([x, x[[j]]])
    r, s, c, d = b(x=y)
    ctx.close(r[-1], r[j], 'duplicates', 'equal samples', **tol)
    ctx.close(r[:-1], r0, 'duplicates', 'remaining samples', **tol)
    # gradients are sample-wise as well
    z = x.clone().requires_grad_(True)
    r, s, c, d = b(x=z)
    g = torch.autograd.grad((r[j] ** 2).sum(), z)[0]
    ctx.check(float(g[keep].abs().max()) == 0.0 if keep else True, 'locality', 'output {} depends on other samples'.format(j))


@check.scenario(quick=24, thorough=300, requires=('layout',))
def data_layout(ctx):
    """Vector data with extra leading dimensions is transported like its individual vectors."""
    spec, b = mkblock(ctx, models=R.VECTOR)
    B, C = ctx.choice([1, 3]), ctx.choice([1, 2, 3])
    x = ctx.randn(B, C, 1, spec.size, scale=0.7)
    r0 = b(x=x.reshape(B * C, 1, spec.size))[0]
    lib.finite_or_skip(r0)
    for shp in ((B, C, 1, spec.size), (B, C, spec.size), (B, 1, C, spec.size)):
        r, s, c, d = b(x=x.reshape(shp))
        ctx.close(r, r0.reshape(shp), 'layout', 'data of shape {}'.format(shp), rtol=1e-9)


@check.scenario(quick=12, thorough=150, requires=('adaptive_locality',))
def adaptive(ctx):
    """With an adaptive solver samples agree within the solver tolerance."""
    spec, b = mkblock(ctx, name='dopri5', mag=0.1, nl=['tanh', 'sigmoid', 'softmax', 'identity'])
    b.set_integration_time(0.5)
    x = spec.data(ctx, 4, scale=0.3)
    r0 = b(x=x)[0]
    lib.finite_or_skip(r0, bound=50)
    for sub in ([0], [3, 1]):
        ctx.close(b(x=x[sub])[0], r0[sub], 'adaptive_locality', 'sub-batch {}'.format(sub), rtol=1e-4, atol=1e-4)


lib.large(check, [coincident_full_state, batch_independence], quick=10, thorough=250)
