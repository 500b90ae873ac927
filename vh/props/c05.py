"""C05: integration results are those of the configured solver at the requested times."""
import torch
import torch.nn as nn
from torchdiffeq import odeint
import neuro_shooting.generic_integrator as gi
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, RhsTrace, strip

check = Check('C05', 'one case = one solver configuration, vector field and list of requested times (or one shooting block and time vector); every evaluation '
              'of the field and every returned time is observed and compared with own implementations of the schemes and with the solver library called directly. '
              'Non-trivial: solution changes over time; distinct by solver, options, times and field.',
              ['torchdiffeq itself is trusted; euler, midpoint and 3/8-rule rk4 are additionally re-implemented here'])

FIXED = ['euler', 'midpoint', 'rk4', 'explicit_adams', 'fixed_adams']


class Field(nn.Module):
    """A smooth time-dependent field which records every evaluation."""

    def __init__(self, A, w):
        super(Field, self).__init__()
        self.A = nn.Parameter(A)
        self.w = w
        self.calls = []

    def forward(self, t, y):
        self.calls.append((float(t), y.detach().clone()))
        return torch.tanh(y @ self.A) + 0.3 * torch.sin(self.w * t) * y


def field(ctx, n):
    return Field(ctx.randn(n, n, scale=0.6), ctx.rng.uniform(0.5, 3.0))


def grid(t0, t1, h):
    """Step grid of a fixed-step scheme: t0, t0+h, ... and the end."""
    n = int(torch.ceil((t1 - t0) / h + 1).item())
    g = torch.arange(0, n, dtype=t0.dtype) * h + t0
    g[-1] = t1
    return g


def own_scheme(name, f, y0, t, h):
    """Fixed-step integration from t[0] to t[-1]; linear interpolation for requested times inside a step."""
    g = grid(t[0], t[-1], h)
    out, j, y = [y0], 1, y0
    for a, b in zip(g[:-1], g[1:]):
        dt = b - a
        k1 = f(a, y)
        if name == 'euler':
            dy = dt * k1
        elif name == 'midpoint':
            dy = dt * f(a + 0.5 * dt, y + 0.5 * dt * k1)
        else:
            k2 = f(a + dt / 3, y + dt * k1 / 3)
            k3 = f(a + dt * 2 / 3, y + dt * (k2 - k1 / 3))
            k4 = f(b, y + dt * (k1 - k2 + k3))
            dy = (k1 + 3 * (k2 + k3) + k4) * dt / 8
        yn = y + dy
        while j < len(t) and t[j] <= b:
            out.append(yn if t[j] == b else y + (yn - y) * ((t[j] - a) / (b - a)))
            j += 1
        y = yn
    return torch.stack(out), len(g) - 1


EVALS = {'euler': 1, 'midpoint': 2, 'rk4': 4}


@check.scenario(quick=64, thorough=1500, requires=('own_solution', 'evaluation_count', 'first_is_initial', 'one_per_time'))
def own_schemes(ctx):
    n = ctx.choice([1, 3, 6])
    f = field(ctx, n)
    y0 = ctx.randn(ctx.choice([1, 4]), n)
    name = ctx.cycle(['euler', 'midpoint', 'rk4'])
    how = ctx.choice(['options', 'argument', 'default', 'both'])
    h = ctx.choice([0.1, 0.25, 0.5, 0.3])
    kw, opts = {}, None
    if how in ('options', 'both'):
        opts = {'step_size': h}
    if how == 'both':
        kw['step_size'] = 0.7
    if how == 'argument':
        kw['step_size'] = h
    if how == 'default':
        h = 0.5
    integ = gi.GenericIntegrator(integrator_library='odeint', integrator_name=name, integrator_options=opts, **kw)
    K = ctx.choice([2, 2, 3, 5, 9])
    t0, T = ctx.choice([0.0, 0.5]), ctx.choice([0.5, 1.0, 2.0])
    t = torch.cat([torch.zeros(1), torch.sort(ctx.rand(K - 2))[0], torch.ones(1)]) * T + t0
    f.calls = []
    sol = integ.integrate(func=f, x0=y0, t=t)
    calls = list(f.calls)
    want, steps = own_scheme(name, f, y0, t, h)
    ctx.note(solver=name, how=how, h=h, times=[round(float(v), 3) for v in t])
    ctx.check(sol.shape[0] == K, 'one_per_time', 'requested {} times, got {}'.format(K, sol.shape[0]))
    ctx.equal(sol[0], y0, 'first_is_initial', 'value at the first time')
    ctx.close(sol, want, 'own_solution', '{} with step {}'.format(name, h), rtol=1e-9)
    ctx.check(len(calls) == EVALS[name] * steps, 'evaluation_count', '{} evaluations, expected {} for {} steps'.format(len(calls), EVALS[name] * steps, steps))
    for tt, _ in calls:
        ctx.check(t0 - 1e-9 <= tt <= t0 + T + 1e-9, 'inside_interval', 'field evaluated at {} outside [{}, {}]'.format(tt, t0, t0 + T))
    ctx.key(name, how, h, K, t0, T, n)


@check.scenario(quick=56, thorough=900, requires=('library_solution', 'options_untouched'))
def library_schemes(ctx):
    n = ctx.choice([1, 3, 6])
    f = field(ctx, n)
    y0 = ctx.randn(2, n)
    name = ctx.cycle(FIXED + ['dopri5', 'dopri5'])
    adj = ctx.rng.random() < 0.4
    rtol, atol = ctx.choice([(1e-3, 1e-5), (1e-6, 1e-8), (1e-2, 1e-3)])
    default_tol = ctx.rng.random() < 0.3
    opts = None
    if name != 'dopri5':
        h, how = ctx.choice([0.1, 0.5, 0.25]), ctx.choice(['options', 'options', 'argument', 'default'])
        opts = {'step_size': h} if how == 'options' else ctx.choice([None, {}])
        if ctx.rng.random() < 0.3:
            opts = dict(opts or {}, perturb=True)
    elif ctx.rng.random() < 0.5:
        opts = {'first_step': 0.05}
    given = None if opts is None else dict(opts)
    before = None if opts is None else dict(opts)
    kw = {} if default_tol else dict(rtol=rtol, atol=atol)
    if name != 'dopri5' and how != 'options':
        if how == 'argument':
            kw['step_size'] = h
        opts = dict(opts or {}, step_size=h if how == 'argument' else 0.5)
    integ = gi.GenericIntegrator(integrator_library=ctx.choice([None, 'odeint']), integrator_name=name, use_adjoint_integration=adj, integrator_options=given, **kw)
    if default_tol:
        rtol, atol = 1e-3, 1e-5
    K = ctx.choice([2, 4])
    t = torch.linspace(0, ctx.choice([1.0, 2.0]), K)
    if ctx.rng.random() < 0.2:
        t = t.flip(0)     # backward in time
    sol = integ.integrate(func=f, x0=y0, t=t)
    want = odeint(f, y0, t, rtol=rtol, atol=atol, method=name, options=opts)
    ctx.note(solver=name, adjoint=adj, rtol=rtol, atol=atol, options=str(opts), K=K)
    ctx.close(sol, want, 'library_solution', name, rtol=1e-12, atol=1e-13)
    ctx.check(given == before, 'options_untouched', 'options {} became {}'.format(before, given))
    sol2 = integ.integrate(func=f, x0=y0, t=t)
    ctx.equal(sol2, sol, 'repeatable', 'second call')
    other = gi.GenericIntegrator(integrator_name=name, integrator_options=given, **kw)
    ctx.close(other.integrate(func=f, x0=y0, t=t), want, 'library_solution', 'second integrator from the same options', rtol=1e-12, atol=1e-13)
    ctx.key(name, adj, rtol, str(opts), K, float(t[0]))


@check.scenario(quick=48, thorough=700, requires=('block_times', 'block_end', 'block_first'))
def block_times(ctx):
    """A shooting block returns one result per requested time; an end time is the last entry of the corresponding vector."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3)
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    h = ctx.choice([0.25, 0.5, 0.125])
    by_name = ctx.rng.random() < 0.4
    if by_name:
        import neuro_shooting.shooting_blocks as sb
        h = ctx.choice([None, h])
        b = sb.ShootingBlockBase(name='blk', shooting_integrand=spec.integrand(), integrator_name=name, integrator_options=None if h is None else {'step_size': h})
        h = h or 0.5
    else:
        b = lib.block(spec, integ=lib.integrator(name, step_size=h))
    lib.randomize(b, ctx, scale=spec.mag)
    q0, p0 = lib.get_state(b, spec)
    x = spec.data(ctx, 2)
    T = ctx.choice([0.5, 1.0, 2.0])
    K = lib.size(ctx, [2, 3, 5], [17, 40, 101])
    grid_ = torch.linspace(0, T, K)
    if ctx.rng.random() < 0.5:
        grid_ = torch.cat([grid_[:1], torch.sort(ctx.rand(K - 2))[0] * T, grid_[-1:]])
    back = ctx.rng.random() < 0.25
    if back:
        grid_ = grid_.flip(0)     # decreasing times
    sol = R.integrate_ref(spec.ref(), q0, p0, spec.lift(x), grid_, method=name, options={'step_size': h})
    for part in sol[-1]:
        lib.finite_or_skip(*part.values(), bound=1e3)
    b.set_integration_time_vector(grid_, suppress_warning=ctx.rng.random() < 0.5)
    r, s, c, d = b(x=x)
    ctx.note(spec=spec.describe(), solver=name, h=h, times=[round(float(v), 3) for v in grid_])
    ctx.check(r.shape[0] == K, 'block_times', '{} results for {} times'.format(r.shape[0], K))
    lift = spec.lift(x)
    ctx.close(r[0], x, 'block_first', 'first result is the input', rtol=1e-12)
    for i in range(K):
        ctx.close(r[i], sol[i][2]['q1'], 'block_times', 'result at time {}'.format(i), rtol=1e-7, atol=1e-8)
        for got, want, nm in ((s['blk'], sol[i][0], 'state'), (strip(c['blk'], 'p_'), sol[i][1], 'costate'), (d['blk'], sol[i][2], 'data')):
            for k in want:
                ctx.close(got[k][i], want[k], 'block_times', '{} {} at time {}'.format(nm, k, i), rtol=1e-7, atol=1e-8)
    if back:
        ctx.key(spec.key(), name, h, K, T, by_name, 'backwards')
        ctx.count('block_backwards')
        return
    b.set_integration_time(T)
    re, se, ce, de = b(x=x)
    end = R.integrate_ref(spec.ref(), q0, p0, spec.lift(x), torch.tensor([0, T]), method=name, options={'step_size': h})[-1]
    ctx.close(re, end[2]['q1'], 'block_end', 'result at the end time', rtol=1e-7, atol=1e-8)
    ctx.close(re, r[-1], 'block_end', 'end time and last entry of the time vector', rtol=1e-6, atol=1e-7)
    for k in se['blk']:
        ctx.close(se['blk'][k], s['blk'][k][-1], 'block_end', 'state ' + k, rtol=1e-6, atol=1e-7)
    # default interval is [0,1]; a maximum integration time in the constructor sets it
    mt = ctx.choice([None, 0.5, 2.0])
    b2 = lib.block(spec, integ=lib.integrator(name, step_size=h), **({} if mt is None else dict(max_integration_time=mt)))
    b2.load_state_dict(b.state_dict())
    tr = RhsTrace(b2.shooting_integrand)
    r2 = b2(x=x)[0]
    b.set_integration_time(1.0 if mt is None else mt)
    w = b(x=x)[0]
    lib.finite_or_skip(w)
    ctx.close(r2, w, 'block_end', 'default end time (maximum {})'.format(mt), rtol=1e-9)
    lo, hi = min(e['t'] for e in tr.events), max(e['t'] for e in tr.events)
    ctx.check(lo == 0.0 and hi <= (1.0 if mt is None else mt) + 1e-6, 'inside_interval', 'evaluated in [{}, {}]'.format(lo, hi))
    ctx.key(spec.key(), name, h, K, T, by_name, mt)


@check.scenario(quick=8, thorough=60, requires=('rejected', 'defaults'))
def rejects(ctx):
    """Unknown solver libraries, solvers and incomplete time ranges do not silently fall back to something else."""
    ctx.expect_raises(lambda: gi.GenericIntegrator(integrator_library=ctx.choice(['scipy', 'ODEINT', ''])), ValueError, 'rejected', 'unknown library')
    ctx.expect_raises(lambda: gi.GenericIntegrator(integrator_library='odeint', integrator_name=ctx.choice(['rk5', 'RK4', 'leapfrog'])), ValueError, 'rejected', 'unknown solver')
    ctx.expect_raises(lambda: gi.GenericIntegrator(integrator_library='anode', integrator_name=ctx.choice(['euler', 'dopri5', 'midpoint'])), ValueError, 'rejected', 'solver of another library')
    integ = gi.GenericIntegrator(integrator_name='rk4', nr_of_checkpoints=ctx.choice([1, 2, 5]), checkpointing_time_interval=ctx.choice([0.1, 0.5]))
    f = field(ctx, 2)
    ctx.expect_raises(lambda: integ.integrate(f, ctx.randn(1, 2), torch.tensor([0.0, 1.0])), ValueError, 'rejected', 'two ways to place checkpoints')
    y0, t = ctx.randn(2, 2), torch.linspace(0, 2, 4)
    ctx.close(gi.GenericIntegrator().integrate(func=f, x0=y0, t=t), odeint(f, y0, t, rtol=1e-3, atol=1e-5, method='dopri5'), 'defaults',
              'default solver and tolerances', rtol=1e-12, atol=1e-13)
    ctx.key(ctx.idx % 3)


lib.large(check, [block_times], quick=8, thorough=200)
