"""C14: directly parameterised (particle-free) and frozen modes use exactly the parameter set that belongs to the current time and call."""
import torch
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec

check = Check('C14', 'one case = one block in a directly parameterised or frozen mode with a history of forward/backward passes, single evaluations at arbitrary times in '
              'arbitrary order and parameter updates; the parameters observed in each evaluation are compared with the registered set of the interval containing '
              'that time (or with the set computed at the start of the call). Non-trivial: parameters of different intervals differ; distinct by configuration and time sequence.',
              ['intervals are the equal subdivisions of the time range fixed at construction; times outside use the first/last set',
               'query times are either exactly representable interval boundaries or at least 1e-5 of the time range away from a boundary'])


def steps_of(b):
    """{step: {layer: {par: value}}} from the registered parameters."""
    out = {}
    for n, v in b.named_parameters():
        ctx_n = n[len('pf_timestep'):]
        step, layer, par = lib.split_name(ctx_n)
        out.setdefault(int(step), {}).setdefault(layer, {})[par] = v.detach().clone()
    return out


def index(t, n, T):
    if n == 1 or t < 0:
        return 0
    return min(n - 1, int((t / T) * n + 1e-9))


def same_params(ctx, th, want, mon, what):
    ctx.check(sorted(th) == sorted(want), mon, '{}: layers {} expected {}'.format(what, sorted(th), sorted(want)))
    for l in want:
        ctx.check(sorted(th[l]) == sorted(want[l]), mon, '{}: {} has {} expected {}'.format(what, l, sorted(th[l]), sorted(want[l])))
        for k in want[l]:
            ctx.equal(th[l][k], want[l][k], mon, '{} {}.{}'.format(what, l, k))


def update(ctx, b):
    """Ways in which the parameters of a live block are changed."""
    how = ctx.choice(['copy', 'sgd', 'load', 'none'])
    if how == 'copy':
        lib.randomize(b, ctx, scale=0.3)
    elif how == 'sgd':
        ps = [p for _, p in b.named_parameters()]
        for p in ps:
            p.grad = ctx.randn(*p.shape)
        torch.optim.SGD(ps, lr=0.1).step()
        b.zero_grad()
    elif how == 'load':
        b.load_state_dict({k: ctx.randn(*v.shape, scale=0.3) for k, v in b.state_dict().items()})
    return how


def rand_times(ctx, n, T, k):
    out = []
    for _ in range(k):
        if ctx.rng.random() < 0.4:
            t = ctx.rng.randrange(n + 1) * T / n       # boundary
            if (T / n) * 4096 % 1 > 0:
                continue
        elif ctx.rng.random() < 0.4:
            t = ctx.rng.randrange(n + 1) * T / n + ctx.choice([-1, 1]) * T * 10 ** ctx.rng.uniform(-5, -3)    # just beside a boundary
        else:
            t = ctx.rng.uniform(-0.3 * T, 1.4 * T)
            fr = (t / T) * n
            if abs(fr - round(fr)) < 1e-3 * n:
                continue
        out.append(t)
    return out


@check.scenario(quick=70, thorough=1500, requires=('set_of_time',))
def queries(ctx):
    """Evaluations at arbitrary times in arbitrary order."""
    n = ctx.choice([1, 2, 3, 4, 5, 8, 10, 11, 16, 24])
    T = ctx.choice([None, 1, 2.0, 0.5, 4, 3, 0.3])
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3)
    b = lib.block(spec, use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=n, **({} if T is None else dict(max_integration_time=T)))
    T = T or 1
    lib.randomize(b, ctx, scale=0.3)
    ctx.check(sorted(steps_of(b)) == list(range(n)), 'registered', '{} sets registered, expected {}'.format(len(steps_of(b)), n))
    b.set_integration_time(0.25)
    x = spec.data(ctx, 2)
    if ctx.rng.random() < 0.5:
        b(x=x)
    tr = lib.RhsTrace(b.shooting_integrand)
    vec = None
    seq, seen = [], set()
    b(x=x)
    vec = tr.raw[0][1]
    tr.events.clear()
    for rnd in range(3):
        sets = steps_of(b)
        for t in rand_times(ctx, n, T, 12):
            b.shooting_integrand(torch.tensor(t), vec)
            e = tr.events[-1]
            i = index(t, n, T)
            seq.append(round(t, 5))
            seen.add(i)
            same_params(ctx, e['th'], sets[i], 'set_of_time', 'time {} of [0,{}] with {} intervals, after {}'.format(t, T, n, seq[-4:-1]))
        seq.append(update(ctx, b))
    tr.close()
    ctx.note(spec=spec.describe(), intervals=n, T=T, sequence=seq[:20], intervals_seen=sorted(seen))
    ctx.key(spec.key(), n, T, tuple(seq))


@check.scenario(quick=60, thorough=1200, requires=('set_of_time_solver', 'direct_result'))
def solver(ctx):
    """Evaluations ordered by the solvers (forward, reverse time, adjoint backward pass), results against the reference flow."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3, nl=['tanh', 'sigmoid', 'relu'])
    static = ctx.rng.random() < 0.3
    n = 1 if static else ctx.choice([1, 2, 4, 8])
    T = ctx.choice([1.0, 2.0])
    kw = dict(use_particle_free_rnn_mode=True) if static else dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=n)
    adj = ctx.rng.random() < 0.35
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    h = 1.0 / 16
    b = lib.block(spec, integ=lib.integrator(name, adjoint=adj, step_size=h), max_integration_time=T, **kw)
    tr = lib.RhsTrace(b.shooting_integrand)
    hist = []
    for f in range(ctx.choice([1, 2, 3])):
        lib.randomize(b, ctx, scale=0.3)
        sets = steps_of(b)
        kind = ctx.choice(['end', 'beyond', 'vector', 'reverse', 'part'])
        if kind == 'end':
            t = torch.tensor([0.0, T])
            b.set_integration_time(T)
        elif kind == 'beyond':
            t = torch.tensor([0.0, T + 0.5])
            b.set_integration_time(T + 0.5)
        else:
            t = {'vector': torch.tensor([0.0, T / 4, T]), 'reverse': torch.tensor([T, T / 2, 0.0]), 'part': torch.tensor([T / 8, T / 2])}[kind]
            b.set_integration_time_vector(t, suppress_warning=True)
        hist.append(kind)
        x = spec.data(ctx, 2, scale=0.5)
        tr.events.clear()
        o = b(x=x)
        lib.finite_or_skip(o[0])
        if adj and kind != 'reverse':
            nfw = len(tr.events)
            o[0].sum().backward()
            b.zero_grad()
            ctx.check(len(tr.events) > nfw, 'set_of_time_solver', 'no evaluation in the adjoint pass')
            hist.append('adjoint')
        for e in tr.events:
            i = index(e['t'], n, T)
            same_params(ctx, e['th'], sets[i], 'set_of_time_solver', 'time {}'.format(e['t']))
        ref = spec.ref()
        e0 = tr.events[0]
        q0, x0 = e0['q']['blk'], spec.lift(x)
        p0 = lib.strip(e0['p']['blk'], 'p_')
        sol = R.integrate_ref(ref, q0, p0, x0, t, method=name, options={'step_size': h}, th_of_t=lambda tt: sets[index(float(tt), n, T)])
        if kind in ('end', 'beyond'):
            ctx.close(o[0], sol[-1][2]['q1'], 'direct_result', 'result', rtol=1e-8)
            for k in spec.m.keys:
                ctx.close(o[3]['blk'][k], sol[-1][2][k], 'direct_result', 'data ' + k, rtol=1e-8)
        else:
            for j in range(len(t)):
                ctx.close(o[0][j], sol[j][2]['q1'], 'direct_result', 'result at {}'.format(float(t[j])), rtol=1e-8)
    ctx.note(spec=spec.describe(), intervals=n, static=static, T=T, history=hist, solver=name, adjoint=adj)
    ctx.key(spec.key(), n, static, T, tuple(hist), name, adj)


@check.scenario(quick=40, thorough=600, requires=('particles_irrelevant', 'only_layers_trainable'))
def independent_of_particles(ctx):
    """The transformation depends on the layer parameters only, and these are the only trainable ones."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.4)
    kw = ctx.choice([dict(use_particle_free_rnn_mode=True), dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=ctx.choice([1, 3, 4]))])
    b1, b2 = lib.block(spec, **kw), lib.block(spec, **kw)
    lib.randomize(b1, ctx, scale=0.3)
    b2.load_state_dict(b1.state_dict())
    x = spec.data(ctx, 3)
    o1, o2 = b1(x=x), b2(x=x)
    lib.finite_or_skip(o1[0])
    ctx.close(o2[0], o1[0], 'particles_irrelevant', 'result with other particles', rtol=1e-10)
    nst = kw.get('nr_of_particle_free_time_dependent_steps', 1)
    ref = spec.ref()
    z = ref.zero_theta()
    want = sorted('pf_timestep{}_{}_{}'.format(i, l, k) for i in range(nst) for l in z for k in z[l])
    got = sorted(n for n, p in b1.named_parameters() if p.requires_grad)
    ctx.check(got == want, 'only_layers_trainable', 'trainable: {} expected {}'.format(got, want))
    ctx.check(sorted(id(p) for p in b1.parameters()) == sorted(id(p) for _, p in b1.named_parameters()), 'only_layers_trainable', 'parameters() differs from named_parameters()')
    for n, p in b1.named_parameters():
        _, _, rest = n.partition('_timestep')
        _, l, k = lib.split_name(rest)
        ctx.check(tuple(p.shape) == tuple(z[l][k].shape), 'only_layers_trainable', 'shape of ' + n)
    ctx.note(spec=spec.describe(), mode=str(kw))
    ctx.key(spec.key(), str(kw))


@check.scenario(quick=50, thorough=1000, requires=('frozen_set', 'frozen_result'))
def frozen(ctx):
    """Parameters computed once per forward call from the initial particles, for the whole call and only for it."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.4)
    name, h = ctx.choice(['rk4', 'euler', 'midpoint']), 0.25
    b = lib.block(spec, integ=lib.integrator(name, step_size=h), iover=dict(use_rnn_mode=True))
    tr = lib.RhsTrace(b.shooting_integrand)
    hist = []
    for f in range(ctx.choice([2, 3])):
        lib.randomize(b, ctx, scale=0.4)
        q0, p0 = lib.get_state(b, spec)
        th = {l: {k: v.detach() for k, v in d.items()} for l, d in spec.ref().theta(q0, p0).items()}
        t = ctx.choice([torch.tensor([0.0, 1.0]), torch.tensor([0.0, 0.5, 1.5]), torch.tensor([0.5, 1.0])])
        b.set_integration_time_vector(t, suppress_warning=True)
        x = spec.data(ctx, 2)
        tr.events.clear()
        nograd = ctx.rng.random() < 0.3
        with torch.set_grad_enabled(not nograd):
            o = b(x=x)
        lib.finite_or_skip(o[0])
        for e in tr.events:
            for l in th:
                for k in th[l]:
                    ctx.close(e['th'][l][k].reshape(th[l][k].shape), th[l][k], 'frozen_set', 'parameter {}.{} at time {}'.format(l, k, e['t']), rtol=1e-8, atol=1e-10)
        sol = R.integrate_ref(spec.ref(), q0, p0, spec.lift(x), t, method=name, options={'step_size': h}, th_of_t=lambda tt: th)
        for j in range(len(t)):
            ctx.close(o[0][j], sol[j][2]['q1'], 'frozen_result', 'result', rtol=1e-7)
            for k in spec.m.keys:
                ctx.close(o[1]['blk'][k][j], sol[j][0][k], 'frozen_result', 'state ' + k, rtol=1e-7)
                ctx.close(o[2]['blk']['p_' + k][j], sol[j][1][k], 'frozen_result', 'costate ' + k, rtol=1e-7)
        hist.append([float(v) for v in t])
        if ctx.rng.random() < 0.4 and not nograd:
            o[0].sum().backward()
            b.zero_grad()
    ctx.note(spec=spec.describe(), history=hist, solver=name)
    ctx.key(spec.key(), str(hist), name)


@check.scenario(quick=6, thorough=20, requires=('rejected',))
def rejects(ctx):
    spec = rand_spec(ctx)
    ctx.expect_raises(lambda: lib.block(spec, use_particle_free_rnn_mode=True, use_particle_free_time_dependent_mode=True), ValueError, 'rejected', 'both direct modes at once')
    ctx.key(spec.key())


lib.large(check, [solver, frozen], quick=8, thorough=200)
