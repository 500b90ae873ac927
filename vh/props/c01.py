"""C01: every right-hand-side evaluation follows the shooting equations."""
import torch
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import Spec, rand_spec, RhsTrace, strip, cat_blocks, sdod

check = Check('C01', 'one case = one generated configuration (model, nonlinearity, particles, sizes, weights, solver, blocks) with random '
              'states/costates/data; every right-hand-side evaluation is one monitored event. Non-trivial: at least one event with nonzero '
              'parameters was compared against the independent reference; distinct by configuration.',
              ['reference equations in vh/ref.py were written from the model definitions', 'float64 arithmetic, relative tolerance 1e-8'])


def monitor_event(ctx, ref, ev, dim, tol=1e-8):
    q, p, x = cat_blocks(ev['q'], dim), cat_blocks({b: strip(ev['p'][b], 'p_') for b in ev['p']}, dim), cat_blocks(ev['x'], dim)
    dq = cat_blocks({b: strip(ev['dq'][b], 'dot_') for b in ev['dq']}, dim)
    dp = cat_blocks({b: strip(ev['dp'][b], 'dot_p_') for b in ev['dp']}, dim)
    dx = cat_blocks({b: strip(ev['dx'][b], 'dot_') for b in ev['dx']}, dim)
    big = max(float(v.abs().max()) for d in (q, p) for v in d.values())
    if not big <= 1e3 or not all(bool(torch.isfinite(v).all()) for d in (q, p, x) for v in d.values()):
        ctx.count('events_out_of_range')
        return
    rq, rp, rx, th = ref.flow(q, p, x)
    ths = max(float(v.abs().max()) for d in th.values() for v in d.values())
    ctx.check(set(ev['th']) == set(th), 'theta_structure', lambda: 'parameters {} expected {}'.format(sorted(ev['th']), sorted(th)))
    for l in th:
        ctx.check(set(ev['th'][l]) == set(th[l]), 'theta_structure', lambda: '{}: {}'.format(l, sorted(ev['th'][l])))
        for k in th[l]:
            got = ev['th'][l][k]
            ctx.close(got.reshape(th[l][k].shape) if got.numel() == th[l][k].numel() else got, th[l][k], 'theta_stationary',
                      '{}.{} at t={:.4g}'.format(l, k, ev['t']), rtol=tol, atol=tol, scale=ths)
    for name, got, want, mon in (('dq', dq, rq, 'state_velocity'), ('dp', dp, rp, 'costate_velocity'), ('dx', dx, rx, 'data_velocity')):
        ctx.check(set(got) == set(want), mon, lambda: '{} has {}'.format(name, sorted(got)))
        s = max(float(v.abs().max()) for v in want.values())
        for k in want:
            ctx.close(got[k], want[k], mon, '{} of {} at t={:.4g}'.format(name, k, ev['t']), rtol=tol, atol=tol, scale=s)
    ctx.count('rhs_evaluations')
    if ths > 0:
        ctx.nontrivial = True


@check.scenario(quick=96, thorough=1500, requires=('theta_stationary', 'state_velocity', 'costate_velocity', 'data_velocity'))
def trajectory(ctx):
    """Events along a real integration of a block."""
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.5)
    name = ctx.choice(['rk4', 'euler', 'midpoint', 'dopri5'])
    integ = lib.integrator(name, step_size=None if name == 'dopri5' else ctx.choice([0.5, 0.34, 0.2]), rtol=1e-4, atol=1e-5)
    b = lib.block(spec, integ=integ)
    lib.randomize(b, ctx, scale=spec.mag)
    ctx.note(spec=spec.describe(), solver=name)
    ref = spec.ref()
    dim = 1 if spec.m.conv else 2

    def on_event(ev):
        if len(tr.events) > 1500:
            raise Skip('adaptive solver needs too many evaluations')
        monitor_event(ctx, ref, ev, dim)
    tr = RhsTrace(b.shooting_integrand, on_event)
    T = ctx.choice([1.0, 0.5, 2.0])
    b.set_integration_time(T)
    b(x=spec.data(ctx, ctx.choice([1, 2, 4])))
    tr.close()
    ctx.check(len(tr.events) > 0, 'hook_fired', 'no evaluation observed')
    ctx.key(spec.key(), name)


@check.scenario(quick=72, thorough=1200, requires=('rhs_vector',))
def raw_evaluation(ctx):
    """Direct evaluation of the dynamics at arbitrary points and times, several block layouts."""
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.4)
    m = spec.m
    nblocks = 1 if spec.analytic else ctx.choice([1, 1, 2, 3])
    dim = 1 if m.conv else 2
    feats = [spec.features] + [ctx.choice([1, 2]) for _ in range(nblocks - 1)]
    names = ctx.rng.sample(['a', 'zeta', 'mid', 'block_10', 'block_9'], nblocks)
    total = sum(feats)
    transpose = (not m.conv) and (not spec.analytic) and nblocks == 1 and ctx.rng.random() < 0.25
    integrand = spec.integrand(in_features=total, transpose_state_when_forward=transpose)
    B = ctx.choice([1, 3])

    def mk(n, f):
        d = {}
        for k in m.keys:
            g = f * (spec.infl if k in m.inflated else 1)
            shp = (n, g) + tuple(spec.size) if m.conv else (n, spec.chan, g)
            d[k] = ctx.randn(*shp, scale=ctx.choice([0.3, 1.0, 2.0]))
        return d
    q = {n: mk(spec.N, f) for n, f in zip(names, feats)}
    p = {n: {'p_' + k: v for k, v in mk(spec.N, f).items()} for n, f in zip(names, feats)}
    x = {n: mk(B, f) for n, f in zip(names, feats)}
    tt = (lambda dd: {b: {k: v.transpose(1, 2) for k, v in dd[b].items()} for b in dd}) if transpose else (lambda dd: dd)
    vec, plans = integrand.assemble_tensor(sdod(tt(q)), sdod(tt(p)), sdod(tt(x)))
    integrand.set_auto_assembly_plans(plans)
    ref = spec.ref(total)
    qc, pc, xc = cat_blocks(q, dim), cat_blocks({b: strip(p[b], 'p_') for b in p}, dim), cat_blocks(x, dim)
    dq, dp, dx, th = ref.flow(qc, pc, xc)

    def split(d):
        out, off = {}, {}
        for n in sorted(names):
            out[n] = {}
            for k in m.keys:
                w = q[n][k].shape[dim]
                o = off.get(k, 0)
                out[n][k] = d[k].narrow(dim, o, w)
                off[k] = o + w
        return out
    pieces = []
    for d in (split(dq), split(dp), split(dx)):
        d = tt(d)
        for n in sorted(names):
            for k in sorted(m.keys):
                pieces.append(d[n][k].reshape(-1))
    want = torch.cat(pieces)
    with torch.set_grad_enabled(ctx.rng.random() < 0.5):
        for t in (0.0, ctx.rng.uniform(0.1, 3.0)):
            got = integrand(torch.tensor(t), vec if ctx.rng.random() < 0.5 else vec.detach().clone())
            ctx.close(got, want, 'rhs_vector', 'velocity vector at t={:.3g}'.format(t), rtol=1e-8, atol=1e-9)
    ctx.note(spec=spec.describe(), blocks=dict(zip(names, feats)), transpose=transpose)
    ctx.key(spec.key(), tuple(names), tuple(feats), transpose)


@check.scenario(quick=48, thorough=700, requires=('trajectory_value',))
def endpoint(ctx):
    """The particles, costates and data a block returns are the solution of the reference flow (single block)."""
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.4)
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    h = ctx.choice([0.5, 0.25])
    b = lib.block(spec, integ=lib.integrator(name, step_size=h))
    lib.randomize(b, ctx, scale=spec.mag)
    q0, p0 = lib.get_state(b, spec)
    x = spec.data(ctx, 3)
    T = ctx.choice([0.5, 1.0])
    b.set_integration_time(T)
    sol = R.integrate_ref(spec.ref(), q0, p0, spec.lift(x), torch.tensor([0.0, T]), method=name, options={'step_size': h})[-1]
    for d in sol:
        lib.finite_or_skip(*d.values(), bound=1e3)
    res, s, c, d = b(x=x)
    for what, got, want in (('state', s['blk'], sol[0]), ('costate', strip(c['blk'], 'p_'), sol[1]), ('data', d['blk'], sol[2])):
        for k in want:
            ctx.close(got[k], want[k], 'trajectory_value', '{} {} at the end time'.format(what, k), rtol=1e-7, atol=1e-8)
    ctx.close(res, sol[2]['q1'], 'trajectory_value', 'returned value', rtol=1e-7, atol=1e-8)
    ctx.note(spec=spec.describe(), solver=name, step=h, T=T)
    ctx.key(spec.key(), name, h, T)


@check.scenario(quick=12, thorough=150, requires=('theta_stationary',))
def single_precision(ctx):
    """Same monitor at the default single precision of torch."""
    torch.set_default_dtype(torch.float32)
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.5, mag=0.3)
    b = lib.block(spec)
    lib.randomize(b, ctx, scale=0.3)
    ref = spec.ref()
    dim = 1 if spec.m.conv else 2
    tr = RhsTrace(b.shooting_integrand, lambda ev: monitor_event(ctx, ref, ev, dim, tol=2e-4))
    b(x=spec.data(ctx, 2))
    tr.close()
    ctx.note(spec=spec.describe())
    ctx.key('f32', spec.key())


lib.large(check, [trajectory, endpoint], quick=10, thorough=250)
