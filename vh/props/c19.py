"""C19: the flow is Hamiltonian: energy (hence parameter norm) is conserved along trajectories and the flow is reversible."""
import torch
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec, Spec

check = Check('C19', 'one case = one particle-based block (or chain) integrated with a fine fixed step; the energy of the parameters observed at every evaluation is compared with the '
              'energy at the start, and trajectories continued backwards in time with their start. Non-trivial: nonzero energy and moving state; distinct by configuration.',
              ['smooth nonlinearities; drift must be below 2e-4 relative at step 1/32 or shrink at least 5-fold at step 1/128, or 1/512 where 1/128 leaves a fast flow unresolved (4th order solver)',
               'models with a parameter-independent part conserve U-T instead of T'])
SMOOTH = ['tanh', 'sigmoid', 'softmax', 'identity']


def energy(spec, ref, e, features_dim):
    q = lib.cat_blocks(e['q'], features_dim)
    p = lib.strip(lib.cat_blocks(e['p'], features_dim), 'p_')
    th = {l: {k: v.reshape(ref.zero_theta()[l][k].shape) for k, v in d.items()} for l, d in e['th'].items()}
    T = ref.kinetic(th)
    if spec.m.const:
        return ref.U(th, q, p) - T
    return T


def drift(ctx, spec, ref, run, h):
    ev = run(h)
    dim = 1 if spec.m.conv else 2
    for e in ev:
        lib.finite_or_skip(*[v for bl in e['q'].values() for v in bl.values()], *[v for bl in e['p'].values() for v in bl.values()], bound=8)
    # evaluations at full steps are on the trajectory (stages in between are only approximations of it)
    on = [e for e in ev if abs(e['t'] / h - round(e['t'] / h)) < 1e-6]
    es = [float(energy(spec, ref, e, dim)) for e in on]
    ctx.count('observed_energy', len(es))
    return es, ev


def settled(ctx, spec, ref, run, monitor):
    """Energy drift is negligible, or vanishes with the step (a fast flow that is unresolved at 1/32 and 1/128 is refined once more)."""
    es, _ = drift(ctx, spec, ref, run, 1.0 / 32)
    sc = max(abs(es[0]), 1e-3)
    d = [max(abs(v - es[0]) for v in es) / sc]
    if d[0] > 2e-4:
        for n in (128, 512):
            e2, _ = drift(ctx, spec, ref, run, 1.0 / n)
            d.append(max(abs(v - e2[0]) for v in e2) / sc)
            if d[-1] < d[-2] / 5 or d[-1] < 1e-6 or d[0] < 5e-3:
                break
    ctx.check(len(d) == 1 or d[-1] < d[-2] / 5 or d[-1] < 1e-6, monitor,
              'energy drifts by {} (relative) at steps 1/32, 1/128, ..., start {:.6g}'.format(['{:.3g}'.format(v) for v in d], es[0]))
    return es, d


@check.scenario(quick=72, thorough=1200, requires=('conserved', 'observed_energy', 'penalty_everywhere'))
def conserved(ctx):
    spec = rand_spec(ctx, individual=True, analytic=ctx.rng.random() < 0.35, nl=SMOOTH, mag=0.4)
    ref = spec.ref()
    T = ctx.choice([0.5, 1.0, 1.0])
    q0 = p0 = None
    x = spec.data(ctx, 1, scale=0.3)
    sd = {}
    ctx.note(spec=spec.describe(), T=T)

    def run(h):
        b = lib.block(spec, integ=lib.integrator('rk4', step_size=h))
        if not sd:
            lib.randomize(b, ctx, scale=ctx.choice([0.2, 0.4]))
            sd.update({k: v.clone() for k, v in b.state_dict().items()})
        b.load_state_dict(sd)
        b.set_integration_time(T)
        tr = lib.RhsTrace(b.shooting_integrand)
        with torch.no_grad():
            b(x=x)
        tr.close()
        run.pen = b.get_norm_penalty()
        return tr.events
    es, d = settled(ctx, spec, ref, run, 'conserved')
    if not spec.m.const:
        ctx.close(run.pen.reshape(()), torch.tensor(es[-1]), 'penalty_everywhere', 'norm penalty against the energy at the end', rtol=max(5e-3, 10 * d[0]), atol=1e-6)
    if abs(es[0]) > 1e-6:
        ctx.key(spec.key(), T)


@check.scenario(quick=40, thorough=700, requires=('reversible',))
def reversible(ctx):
    """Continuing from the end backwards in time returns to the start."""
    spec = rand_spec(ctx, nl=SMOOTH, mag=0.3)
    T = ctx.choice([0.5, 1.0])
    x = spec.data(ctx, 2, scale=0.4)
    x0 = spec.lift(x)
    sd = {}
    ctx.note(spec=spec.describe(), T=T)

    def run(h):
        b = lib.block(spec, name='fw', integ=lib.integrator('rk4', step_size=h))
        if not sd:
            lib.randomize(b, ctx, scale=0.3)
            sd.update({k: v.clone() for k, v in b.state_dict().items()})
        b.load_state_dict(sd)
        b.set_integration_time(T)
        with torch.no_grad():
            o = b(x=x)
        lib.finite_or_skip(*[v for dd in o[1:] for v in dd['fw'].values()], bound=5)
        c = lib.block(spec, name='bw', integ=lib.integrator('rk4', step_size=h), iover=lib.continuing(ctx, spec.N))
        c.set_integration_time_vector(torch.tensor([T, 0.0]), suppress_warning=True)
        with torch.no_grad():
            r = c(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
        q0, p0 = lib.get_state(b, spec)
        errs = {'data': (r[0][-1] - x).abs().max()}
        for k in spec.m.keys:
            errs['state ' + k] = (r[1]['bw'][k][-1] - q0[k]).abs().max()
            errs['costate ' + k] = (r[2]['bw']['p_' + k][-1] - p0[k]).abs().max()
            errs['data ' + k] = (r[3]['bw'][k][-1] - x0[k]).abs().max()
        return {k: float(v) for k, v in errs.items()}
    e1 = run(1.0 / 32)
    bad = [k for k in e1 if not e1[k] < 1e-5]
    if bad:
        # unresolved at this step (or wrong): a correct flow converges with the fourth power of the step
        e2 = run(1.0 / 128)
        if max(e2.values()) > 1e-5 and max(e1.values()) > 0.05:
            e1, e2 = e2, run(1.0 / 512)
        for k in bad:
            ctx.check(e2[k] < 1e-5 or e2[k] < e1[k] / 5, 'reversible', '{} after going forth and back is off by {:.3g}, and by {:.3g} at a quarter of the step'.format(k, e1[k], e2[k]))
    else:
        ctx.check(True, 'reversible', '')
    ctx.key(spec.key(), T)


@check.scenario(quick=30, thorough=500, requires=('conserved_chain',))
def chain(ctx):
    """Energy of the joined system is conserved through a block with passed-through particles."""
    spec = rand_spec(ctx, nl=SMOOTH, mag=0.3)
    m = spec.m
    f2 = ctx.choice([1, 2])
    f1 = spec.features
    sp2 = Spec(spec.model, spec.nl, spec.N, spec.size if m.conv else f2, f2 if m.conv else 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3)
    ref = R.Ref(spec.model, spec.nl, f1 + f2, spec.infl, spec.weight, spec.opt_weight)
    b1 = lib.block(spec, name='one', integ=lib.integrator('rk4', step_size=0.25))
    lib.randomize(b1, ctx, scale=0.3)
    b1.set_integration_time(0.5)
    sd = {}
    with torch.no_grad():
        o = b1(x=spec.data(ctx, 1, scale=0.3))
    lib.finite_or_skip(*[v for dd in o[1:] for v in dd['one'].values()], bound=4)

    def run(h):
        b2 = lib.block(sp2, name='two', integ=lib.integrator('rk4', step_size=h), in_features=f1 + f2)
        if not sd:
            lib.randomize(b2, ctx, scale=0.3)
            sd.update({k: v.clone() for k, v in b2.state_dict().items()})
        b2.load_state_dict(sd)
        b2.set_integration_time(0.5)
        tr = lib.RhsTrace(b2.shooting_integrand)
        with torch.no_grad():
            b2(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
        tr.close()
        return tr.events
    ctx.note(spec=spec.describe(), f2=f2)
    settled(ctx, spec, ref, run, 'conserved_chain')
    ctx.key(spec.key(), f2)


lib.large(check, [conserved], quick=5, thorough=125)
