"""C06: checkpointed integration returns the same values and gradients as uncheckpointed integration."""
import torch
import torch.nn as nn
import neuro_shooting.generic_integrator as gi
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec

check = Check('C06', 'one case = one field or block, requested times and checkpoint placement; values and gradients with checkpoints are compared with those without, '
              'and the log of field evaluations (forward and re-computation in backward) is checked. Non-trivial: at least one interior checkpoint; '
              'distinct by solver, times and checkpoint placement.',
              ['exact agreement is demanded where checkpoints and requested times lie on the step grid (dyadic times); otherwise agreement with a solution '
               'computed with the same breakpoints requested explicitly'])


class Field(nn.Module):
    def __init__(self, A):
        super(Field, self).__init__()
        self.A = nn.Parameter(A)
        self.log = []

    def forward(self, t, y):
        self.log.append(float(t))
        return torch.tanh(y @ self.A) * (1 + 0.2 * t)


def times(ctx, T, h, on_grid):
    n = int(round(T / h))
    if on_grid:
        k = ctx.rng.randint(0, min(6, n - 1))
        inner = sorted(ctx.rng.sample(range(1, n), k)) if n > 1 else []
        return torch.tensor([0.0] + [i * h for i in inner] + [T])
    k = ctx.rng.randint(0, 6)
    return torch.cat([torch.zeros(1), torch.sort(ctx.rand(k))[0] * T * 0.98 + 0.01 * T, torch.tensor([T])])


def placement(ctx, T, h, on_grid):
    """Returns constructor arguments and the checkpoint times."""
    if ctx.rng.random() < 0.5:
        n = ctx.choice([1, 3, 7]) if on_grid else ctx.choice([1, 2, 3, 5, 9])
        return dict(nr_of_checkpoints=n), torch.linspace(0, T, n + 2)
    dt = ctx.choice([h, 2 * h, 4 * h, 3 * h]) if on_grid else ctx.choice([0.13, 0.3, 0.45, 1.7])
    pts = []
    i = 0
    while i * dt < T - 1e-12:
        pts.append(i * dt)
        i += 1
    return dict(checkpointing_time_interval=dt), torch.tensor(pts + [T])


def direction(ctx, t, cps):
    """Integration forward or backward in time."""
    k = ctx.choice(['forward', 'forward', 'forward', 'negative', 'from_end'])
    if k == 'negative':
        return -t, -cps
    if k == 'from_end':
        return t[-1] + 0.5 - t, t[-1] + 0.5 - cps
    return t, cps


@check.scenario(quick=96, thorough=2500, requires=('values', 'gradients', 'recomputed', 'each_time_once'))
def field_on_grid(ctx):
    """Dyadic times on the step grid: checkpointing must not change anything."""
    n = ctx.choice([1, 4])
    f = Field(ctx.randn(n, n, scale=0.7))
    y0 = ctx.randn(3, n)
    h = 1.0 / 16
    T = ctx.choice([0.5, 1.0, 2.0])
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    t = times(ctx, T, h, True)
    kw, cps = placement(ctx, T, h, True)
    t, cps = direction(ctx, t, cps)
    ctx.note(solver=name, times=[float(v) for v in t], **{k: str(v) for k, v in kw.items()})
    plain = gi.GenericIntegrator(integrator_name=name, integrator_options={'step_size': h})
    cp = gi.GenericIntegrator(integrator_name=name, integrator_options={'step_size': h}, **kw)
    W = ctx.randn(len(t), 3, n)
    out = []
    for integ in (plain, cp):
        y = y0.clone().requires_grad_(True)
        f.log = []
        sol = integ.integrate(func=f, x0=y, t=t)
        fwd = len(f.log)
        ctx.check(sol.shape[0] == len(t), 'each_time_once', '{} results for {} requested times'.format(sol.shape[0], len(t)))
        g = list(lib.grads((sol * W).sum(), [('y', y), ('A', f.A)]).values())
        out.append((sol, g, fwd, len(f.log) - fwd))
    (s0, g0, f0, b0), (s1, g1, f1, b1) = out
    ctx.close(s1, s0, 'values', 'values at the requested times', rtol=1e-11, atol=1e-12)
    for a, b, nm in zip(g1, g0, ('initial value', 'field parameters')):
        ctx.close(a, b, 'gradients', 'gradient with respect to the ' + nm, rtol=1e-9)
    ctx.check(f1 == f0, 'same_forward_work', '{} evaluations with checkpoints, {} without'.format(f1, f0))
    if len(cps) > 2:
        ctx.check(b0 == 0 and b1 >= f1 // 2, 'recomputed', 'backward pass evaluated the field {} times (without checkpoints {})'.format(b1, b0))
        ctx.key(name, tuple(t.tolist()), str(kw))


@check.scenario(quick=64, thorough=2000, requires=('values_off_grid', 'gradients_off_grid'))
def field_off_grid(ctx):
    """Arbitrary times: equals the uncheckpointed solver restarted at the checkpoints."""
    n = ctx.choice([1, 3])
    f = Field(ctx.randn(n, n, scale=0.7))
    h, T = ctx.choice([0.11, 0.25]), ctx.choice([0.7, 1.0, 1.9])
    name = ctx.choice(['rk4', 'euler', 'midpoint', 'dopri5'])
    t = times(ctx, T, h, False)
    kw, cps = placement(ctx, T, h, False)
    if ctx.rng.random() < 0.25 and len(cps) > 2:
        t = torch.sort(torch.cat([t, cps[1:2]]))[0]      # a requested time exactly at a checkpoint
    if ctx.rng.random() < 0.25:
        t, cps = t + 0.25, cps + 0.25                    # does not start at zero
    t, cps = direction(ctx, t, cps)
    opts = None if name == 'dopri5' else {'step_size': h}
    mk = lambda **k: gi.GenericIntegrator(integrator_name=name, integrator_options=opts, rtol=1e-5, atol=1e-7, **k)
    ctx.note(solver=name, h=h, times=[round(float(v), 4) for v in t], **{k: str(v) for k, v in kw.items()})
    y0 = ctx.randn(2, n)
    W = ctx.randn(len(t), 2, n)
    y = y0.clone().requires_grad_(True)
    sol = mk(**kw).integrate(func=f, x0=y, t=t)
    ctx.check(sol.shape[0] == len(t), 'each_time_once', '{} results for {} requested times'.format(sol.shape[0], len(t)))
    g = list(lib.grads((sol * W).sum(), [('y', y), ('A', f.A)]).values())
    # reference: segment by segment
    y2 = y0.clone().requires_grad_(True)
    outs, cur = [y2], y2
    pl = mk()
    sg = 1 if cps[-1] > cps[0] else -1
    pts = sorted(set(cps.tolist()), key=lambda v: sg * v)
    for a, b in zip(pts[:-1], pts[1:]):
        inner = [v for v in t.tolist() if sg * a + 1e-9 < sg * v < sg * b - 1e-9]
        seg = torch.tensor([a] + inner + [b])
        ss = pl.integrate(func=f, x0=cur, t=seg)
        for i in range(len(inner)):
            outs.append(ss[1 + i])
        if any(abs(v - b) < 1e-9 for v in t.tolist()):
            outs.append(ss[-1])
        cur = ss[-1]
    want = torch.stack(outs)
    if want.shape != sol.shape:
        ctx.fail('each_time_once: {} segments results, {} observed'.format(tuple(want.shape), tuple(sol.shape)))
    gw = torch.autograd.grad((want * W).sum(), [y2, f.A])
    tol = 1e-6 if name == 'dopri5' else 1e-8
    ctx.close(sol, want, 'values_off_grid', 'values at the requested times', rtol=tol, atol=tol)
    for a, b, nm in zip(g, gw, ('initial value', 'field parameters')):
        ctx.close(a, b, 'gradients_off_grid', 'gradient with respect to the ' + nm, rtol=10 * tol, atol=10 * tol)
    if len(cps) > 2:
        ctx.key(name, h, tuple(round(v, 4) for v in t.tolist()), str(kw))


@check.scenario(quick=36, thorough=500, requires=('block_values', 'block_gradients', 'block_penalty'))
def block_checkpointed(ctx):
    """Shooting blocks (all models) with and without checkpoints."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3)
    h = 0.125
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    vec = ctx.rng.random() < 0.5
    kw = ctx.choice([dict(nr_of_checkpoints=1), dict(nr_of_checkpoints=3), dict(checkpointing_time_interval=0.25), dict(checkpointing_time_interval=0.375)])
    pf = ctx.rng.random() < 0.25
    bkw = dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=4) if pf else {}
    b0 = lib.block(spec, integ=lib.integrator(name, step_size=h), seed=ctx.case_seed % 99991, **bkw)
    b1 = lib.block(spec, integ=lib.integrator(name, step_size=h, **kw), seed=ctx.case_seed % 99991, **bkw)
    lib.randomize(b0, ctx, scale=spec.mag)
    b1.load_state_dict(b0.state_dict())
    t = torch.tensor([0.0, 0.25, 0.5, 0.875, 1.0])
    x = spec.data(ctx, 2)
    W = ctx.randn(*(((5,) if vec else ()) + tuple(x.shape)))
    out = []
    for b in (b0, b1):
        if vec:
            b.set_integration_time_vector(t, suppress_warning=True)
        xx = x.clone().requires_grad_(True)
        r, s, c, d = b(x=xx)
        pen = b.get_norm_penalty().detach().clone()
        ps = [(n, p) for n, p in b.named_parameters()]
        g = lib.grads((r * W).sum() + sum((v ** 2).sum() for v in s['blk'].values()) * 0.1, [('x', xx)] + ps)
        out.append((r, s, c, d, pen, g))
    (r0, s0, c0, d0, p0, g0), (r1, s1, c1, d1, p1, g1) = out
    lib.finite_or_skip(r0, bound=100)
    ctx.note(spec=spec.describe(), solver=name, particle_free=pf, vector=vec, **{k: str(v) for k, v in kw.items()})
    ctx.close(r1, r0, 'block_values', 'result', rtol=1e-9)
    for a, bb in ((s1, s0), (c1, c0), (d1, d0)):
        for k in bb['blk']:
            ctx.close(a['blk'][k], bb['blk'][k], 'block_values', k, rtol=1e-9)
    ctx.close(p1.reshape(-1), p0.reshape(-1), 'block_penalty', 'norm penalty', rtol=1e-10)
    sc = max([float(v.abs().max()) for v in g0.values() if v is not None])
    for n in g0:
        a, w = g1[n], g0[n]
        if a is None and w is None:
            continue
        a = torch.zeros_like(w) if a is None else a
        w = torch.zeros_like(a) if w is None else w
        ctx.close(a, w, 'block_gradients', n, rtol=1e-8, scale=sc)
    ctx.key(spec.key(), name, vec, str(kw), pf)


@check.scenario(quick=24, thorough=400, requires=('intervals_partition',))
def interval_log(ctx):
    """Evaluation log of a checkpointed run: each segment is integrated once, in order, covering the whole range without gaps."""
    f = Field(ctx.randn(2, 2))
    T, h = ctx.choice([1.0, 2.0]), 1.0 / 32
    kw, cps = placement(ctx, T, h, True)
    t = times(ctx, T, h, True)
    sg = ctx.choice([1, 1, -1])
    t = sg * t
    f.log = []
    gi.GenericIntegrator(integrator_name='euler', integrator_options={'step_size': h}, **kw).integrate(func=f, x0=ctx.randn(1, 2).requires_grad_(True), t=t)
    want = [sg * i * h for i in range(int(round(T / h)))]
    ctx.check(len(f.log) == len(want) and max(abs(a - b) for a, b in zip(f.log, want)) < 1e-9, 'intervals_partition',
              'evaluation times {} ... expected {} equidistant steps'.format([round(v, 4) for v in f.log[:12]], len(want)))
    both = dict(nr_of_checkpoints=ctx.choice([1, 2, 5]), checkpointing_time_interval=ctx.choice([0.25, 1.0, 4.0]))
    ctx.expect_raises(lambda: gi.GenericIntegrator(integrator_name='euler', integrator_options={'step_size': h}, **both).integrate(func=f, x0=ctx.randn(1, 2).requires_grad_(True), t=t), ValueError,
                      'rejected', 'two contradicting placements of checkpoints')
    ctx.note(T=T, times=[float(v) for v in t], **{k: str(v) for k, v in kw.items()})
    ctx.key(T, str(kw), tuple(t.tolist()))


@check.scenario(quick=24, thorough=400, requires=('reused_values',))
def reused(ctx):
    """One checkpointing integrator for several integrations: results depend on the current call only."""
    h = 1.0 / 16
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    T = ctx.choice([1.0, 2.0])
    kw, _ = placement(ctx, T, h, True)
    cp = gi.GenericIntegrator(integrator_name=name, integrator_options={'step_size': h}, **kw)
    plain = gi.GenericIntegrator(integrator_name=name, integrator_options={'step_size': h})
    k = ctx.rng.randint(1, 4)
    seq = []
    pending = []
    for _ in range(ctx.rng.randint(2, 4)):
        n = ctx.choice([1, 3])
        f = Field(ctx.randn(n, n, scale=0.7))
        # often the same number of times and the same ends, but other times in between
        t = torch.tensor([0.0] + [i * h for i in sorted(ctx.rng.sample(range(1, int(T / h)), k))] + [T]) if ctx.rng.random() < 0.7 else times(ctx, ctx.choice([0.5, T]), h, True)
        if ctx.rng.random() < 0.2:
            t = -t
        y0 = ctx.randn(2, n)
        W = ctx.randn(len(t), 2, n)
        seq.append(tuple(t.tolist()))
        y1, y2 = y0.clone().requires_grad_(True), y0.clone().requires_grad_(True)
        s1, s2 = cp.integrate(func=f, x0=y1, t=t), plain.integrate(func=f, x0=y2, t=t)
        ctx.close(s1, s2, 'reused_values', 'integration {} of the integrator'.format(len(seq)), rtol=1e-11, atol=1e-12)
        pending.append((y1, y2, (s1 * W).sum(), (s2 * W).sum()))
    ctx.rng.shuffle(pending)
    for y1, y2, l1, l2 in pending:
        l1.backward()
        l2.backward()
        ctx.close(y1.grad, y2.grad, 'reused_gradients', 'gradient of a previous integration', rtol=1e-9)
    ctx.note(solver=name, sequence=str(seq)[:300], **{a: str(b) for a, b in kw.items()})
    ctx.key(name, str(kw), tuple(seq))


@check.scenario(quick=12, thorough=120, requires=('single_precision',))
def single_precision(ctx):
    """The same at single precision (the precision blocks use for their times)."""
    torch.set_default_dtype(torch.float32)
    n = 3
    f = Field(ctx.randn(n, n, scale=0.7))
    y0 = ctx.randn(2, n)
    T, h = 1.0, 1.0 / 16
    t = times(ctx, T, h, True)
    kw, cps = placement(ctx, T, h, True)
    a = gi.GenericIntegrator(integrator_name='rk4', integrator_options={'step_size': h}).integrate(func=f, x0=y0, t=t)
    b = gi.GenericIntegrator(integrator_name='rk4', integrator_options={'step_size': h}, **kw).integrate(func=f, x0=y0.clone().requires_grad_(True), t=t)
    ctx.close(b, a, 'single_precision', 'values', rtol=1e-5, atol=1e-5)
    ctx.key(tuple(t.tolist()), str(kw))


@check.scenario(quick=2, thorough=6, requires=())
def checkpoint_frozen(ctx):
    """Checkpointing when the parameters are computed once from the particles and then kept."""
    spec = rand_spec(ctx, models=['updown', 'simple'], nl=['tanh'], mag=0.4)
    b0 = lib.block(spec, integ=lib.integrator('rk4', step_size=0.25), iover=dict(use_rnn_mode=True))
    b1 = lib.block(spec, integ=lib.integrator('rk4', step_size=0.25, nr_of_checkpoints=1), iover=dict(use_rnn_mode=True))
    lib.randomize(b0, ctx, scale=0.4)
    b1.load_state_dict(b0.state_dict())
    x = spec.data(ctx, 2)
    o0, o1 = b0(x=x), b1(x=x)
    ctx.close(o1[0], o0[0], 'frozen_values', 'result', rtol=1e-9)
    ctx.close(b1.get_norm_penalty().reshape(-1), b0.get_norm_penalty().reshape(-1), 'frozen_values', 'penalty', rtol=1e-9)
    g0 = lib.grads(o0[0].sum(), list(b0.named_parameters()))
    try:
        g1 = lib.grads(o1[0].sum(), list(b1.named_parameters()))
    except RuntimeError as e:
        if 'backward through the graph a second time' in str(e):
            ctx.fail('backward pass impossible when frozen parameters are combined with checkpointing')
        raise
    for n in g0:
        ctx.close(g1[n], g0[n], 'frozen_gradients', n, rtol=1e-8)
