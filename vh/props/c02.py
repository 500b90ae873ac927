"""C02: the closed-form equations and the automatically differentiated ones describe the same dynamics."""
import torch
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, RhsTrace, strip, sdod

check = Check('C02', 'one case = one model configuration, instantiated twice (closed-form and automatic differentiation) from the same parameter '
              'values and run on the same data; every right-hand-side evaluation, output, penalty and gradient is compared. Non-trivial: '
              'parameters nonzero; distinct by configuration, mode and solver.',
              ['differential oracle: the two modes of the code are compared with each other (C01 anchors both to a reference)',
               'relu compared away from its kink (random reals)'])


def twins(ctx, mode, name='rk4', h=0.25, T=1.0, **fix):
    spec = rand_spec(ctx, individual=True, models=R.ANALYTIC, **fix)
    iover, kw = {}, {}
    if mode == 'frozen':
        iover['use_rnn_mode'] = True
    elif mode == 'pf_rnn':
        kw['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=ctx.choice([2, 3, 5]), max_integration_time=T)
    elif mode == 'init':
        if spec.m.init_modes:
            t = ctx.choice(spec.m.init_modes)
            iover.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=t)
    out = []
    for an in (True, False):
        spec.analytic = an
        b = lib.block(spec, integ=lib.integrator(name, step_size=None if name == 'dopri5' else h), iover=dict(iover), seed=ctx.case_seed % 99991, **kw)
        b.set_integration_time(T)
        out.append(b)
    ba, bd = out
    lib.randomize(ba, ctx, scale=spec.mag)
    bd.load_state_dict(ba.state_dict())
    return spec, ba, bd


def compare_traces(ctx, ta, td, tol=1e-8):
    ctx.check(len(ta.events) == len(td.events), 'same_evaluations', 'closed form: {} evaluations, automatic: {}'.format(len(ta.events), len(td.events)))
    for ea, ed in zip(ta.events, td.events):
        for part in ('dq', 'dp', 'dx', 'th'):
            ctx.check(set(ea[part]) == set(ed[part]), 'same_structure', part)
            for n in ed[part]:
                ctx.check(set(ea[part][n]) == set(ed[part][n]), 'same_structure', lambda: '{} {}: {} / {}'.format(part, n, sorted(ea[part][n]), sorted(ed[part][n])))
                for k in ed[part][n]:
                    w = ed[part][n][k]
                    if float(w.abs().max()) > 1e4:
                        continue
                    g = ea[part][n][k]
                    if part == 'th' and g.numel() == w.numel():
                        g = g.reshape(w.shape)
                    ctx.close(g, w, 'evaluation_' + part, '{} {} {} at t={:.4g}'.format(part, n, k, ed['t']), rtol=tol, atol=tol)
        ctx.count('rhs_evaluations')


@check.scenario(quick=90, thorough=1600, requires=('evaluation_dq', 'evaluation_dp', 'evaluation_dx', 'evaluation_th', 'output', 'penalty', 'gradient'))
def block_run(ctx):
    mode = ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn', 'pf_time', 'init'])
    T = ctx.choice([0.5, 1.0, 1.5])
    spec, ba, bd = twins(ctx, mode, name=ctx.choice(['rk4', 'euler', 'midpoint']), h=ctx.choice([0.25, 0.5]), T=T, mag=ctx.choice([0.2, 0.4]))
    ta, td = RhsTrace(ba.shooting_integrand), RhsTrace(bd.shooting_integrand)
    x = spec.data(ctx, 3)
    ctx.note(spec=spec.describe(), mode=mode, T=T)
    outs = []
    for b in (ba, bd):
        xx = x.clone().requires_grad_(True)
        r, s, c, d = b(x=xx)
        pen = b.get_norm_penalty()
        w = [ctx_w(ctx, v) for v in (r,)]
        loss = (r * w[0]).sum() + 0.1 * pen.sum()
        for dd in (s, c, d):
            for n in dd:
                for k in dd[n]:
                    loss = loss + 0.01 * (dd[n][k] ** 2).sum()
        if bool(torch.isfinite(loss)) and float(loss.detach().abs()) < 1e4:
            pars = [(n, p) for n, p in b.named_parameters() if p.requires_grad]
            g = torch.autograd.grad(loss, [xx] + [p for _, p in pars], allow_unused=True)
            gr = dict(zip(['x'] + [n for n, _ in pars], g))
        else:
            gr = None
        outs.append((r, s, c, d, pen, gr))
    compare_traces(ctx, ta, td)
    (r, s, c, d, pen, gr), (r2, s2, c2, d2, pen2, gr2) = outs
    lib.finite_or_skip(r2)
    ctx.close(r, r2, 'output', 'returned value', rtol=1e-7)
    for a, bb, nm in ((s, s2, 'state'), (c, c2, 'costate'), (d, d2, 'data')):
        for n in bb:
            for k in bb[n]:
                lib.finite_or_skip(bb[n][k])
                ctx.close(a[n][k], bb[n][k], 'output', '{} {}'.format(nm, k), rtol=1e-7)
    ctx.close(pen.reshape(-1), pen2.reshape(-1), 'penalty', 'norm penalty', rtol=1e-8)
    if gr is not None and gr2 is not None:
        ctx.check(set(gr) == set(gr2), 'gradient', 'parameters differ: {} / {}'.format(sorted(gr), sorted(gr2)))
        sc = max([float(v.abs().max()) for v in gr2.values() if v is not None] + [1e-3])
        for n in gr2:
            a = torch.zeros(1) if gr[n] is None else gr[n]
            e = torch.zeros_like(a) if gr2[n] is None else gr2[n]
            if gr[n] is None:
                a = torch.zeros_like(e)
            ctx.close(a, e, 'gradient', 'd loss / d ' + n, rtol=1e-6, scale=sc)
    ctx.key(spec.key(), mode, T)


def ctx_w(ctx, v):
    g = torch.Generator().manual_seed(ctx.case_seed % 1000003)
    return torch.randn(v.shape, generator=g, dtype=torch.float64).to(v.dtype)


@check.scenario(quick=60, thorough=1200, requires=('velocity',))
def raw_points(ctx):
    """Both modes at arbitrary points of the state space, large and small magnitudes."""
    spec = rand_spec(ctx, individual=True, models=R.ANALYTIC)
    m = spec.m
    mk = lambda n, sc: {k: ctx.randn(n, 1, spec.size * (spec.infl if k in m.inflated else 1), scale=sc) for k in m.keys}
    for sc in (1e-3, 0.5, 3.0):
        q, p, x = mk(spec.N, sc), mk(spec.N, ctx.choice([0.1, 1.0])), mk(ctx.choice([1, 4]), sc)
        got = []
        for an in (True, False):
            spec.analytic = an
            f = spec.integrand()
            vec, plans = f.assemble_tensor(sdod({'b': q}), sdod({'b': {'p_' + k: v for k, v in p.items()}}), sdod({'b': x}))
            f.set_auto_assembly_plans(plans)
            t = torch.tensor(ctx.idx % 2 * 0.3)
            got.append(f(t, vec))
        ctx.close(got[0], got[1], 'velocity', 'velocity at scale {}'.format(sc), rtol=1e-8, atol=1e-10)
    ctx.note(spec=spec.describe())
    ctx.key(spec.key())


lib.large(check, [block_run], quick=8, thorough=200)
