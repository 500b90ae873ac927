"""C20: initial values have the requested size, precision, distribution and are trainable."""
import torch
import torch.nn as nn
import neuro_shooting.parameter_initialization as pi
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec

check = Check('C20', 'one case = one initialiser, request form (zero / constant / random / around a sample batch; by size, like a tensor, by particles) and size; the created parameter is '
              'compared with the requested values or, for random ones, its empirical moments with the requested spread. Non-trivial: always; distinct by initialiser, form and size.',
              ['random values: 20000+ entries per case; mean, spread and central mass have to be within 8 standard errors of the normal distribution of the requested magnitude',
               'which numbers a seed yields is not fixed, only that the same seed yields the same values'])

VEC = [pi.VectorEvolutionParameterInitializer, pi.VectorEvolutionSampleBatchParameterInitializer]
CON = [pi.ConvolutionEvolutionParameterInitializer, pi.ConvolutionEvolutionSampleBatchParameterInitializer]


def is_normal(ctx, v, mag, what):
    exact = v.dtype == torch.float64
    v = v.detach().double().reshape(-1)
    n = v.numel()
    if mag == 0:
        ctx.check(bool((v == 0).all()), 'spread', what + ': magnitude zero but values are not')
        return
    z = v / mag
    se = n ** -0.5
    ctx.check(abs(float(z.mean())) < 8 * se, 'spread', '{}: mean {:.4g} (in units of the magnitude)'.format(what, float(z.mean())))
    ctx.check(abs(float(z.std()) - 1) < 8 * se * 0.71, 'spread', '{}: standard deviation {:.4g} times the magnitude'.format(what, float(z.std())))
    for b, f in ((0.5, 0.3829249), (1.0, 0.6826895), (2.0, 0.9544997)):
        g = float((z.abs() < b).double().mean())
        ctx.check(abs(g - f) < 8 * se * (f * (1 - f)) ** 0.5, 'spread', '{}: fraction {:.4f} of values within {} magnitudes, expected {:.4f}'.format(what, g, b, f))
    # entries are drawn one by one: hardly any two coincide
    if exact or mag >= 0.5:
        gap = z.sort()[0].diff()
        rep = int((gap <= (1e-12 if exact else 2e-6) * max(1.0, 1 / mag)).sum())
        ctx.check(rep < 0.2 * n, 'spread', '{}: {} of {} values are repeated'.format(what, rep, n))


def is_parameter(ctx, v, shape, dtype, what):
    ctx.check(isinstance(v, nn.Parameter) and v.requires_grad and v.is_leaf, 'trainable', what + ' is not a trainable parameter')
    ctx.check(tuple(v.shape) == tuple(shape), 'size', '{} has size {}, expected {}'.format(what, tuple(v.shape), tuple(shape)))
    ctx.check(v.dtype == dtype, 'precision', '{} has precision {}, expected {}'.format(what, v.dtype, dtype))


@check.scenario(quick=240, thorough=4000, requires=('trainable', 'size', 'precision', 'zero', 'constant', 'spread', 'around_sample'))
def create(ctx):
    conv = bool(ctx.idx % 2)
    sampled = bool((ctx.idx // 2) % 2)
    cls = (CON if conv else VEC)[int(sampled)]
    kind = ['random', 'zero', 'constant', 'random'][(ctx.idx // 4) % 4]
    form = ['particles', 'size', 'like'][(ctx.idx // 16 + ctx.rng.randrange(3)) % 3]
    dtype = ctx.choice([torch.float64, torch.float32])
    torch.set_default_dtype(dtype)
    mag = ctx.choice([0.0, 0.05, 0.5, 1.0, 3.0])
    dim = ctx.choice([1, 2, 4])
    ps = [ctx.rng.randint(2, 5), ctx.rng.randint(2, 5)] if conv else ctx.rng.randint(1, 12)
    per = dim * (ps[0] * ps[1] if conv else ps)
    N = (ctx.rng.randint(1, 9) if ctx.rng.random() < 0.7 else ctx.rng.randint(10, 400)) if kind != 'random' else 20000 // per + ctx.rng.randint(1, 50)
    shape = (N, dim) + (tuple(ps) if conv else (ps,))
    batch = ctx.randn(*shape, scale=2.0) if sampled else None
    keep = None if batch is None else batch.clone()
    iargs = {}
    if mag != 0.5 or ctx.idx % 2:
        iargs['random_initialization_magnitude'] = mag
    if batch is not None or ctx.idx % 3:
        iargs['sample_batch'] = batch
    ini = cls(**iargs)
    psarg = (tuple(ps) if ctx.rng.random() < 0.5 else list(ps)) if conv else ps
    kw = {}
    const = ctx.choice([1.5, -2, 0.0, 0])
    if kind == 'zero':
        kw['set_to_zero'] = True
    elif kind == 'constant':
        kw['set_to_constant'] = const
    like = None
    if form == 'like':
        like = ctx.randn(*shape).to(ctx.choice([torch.float64, torch.float32]))
    ctx.note(cls=cls.__name__, kind=kind, form=form, dtype=str(dtype), magnitude=mag, shape=list(shape), constant=const)

    def mk():
        if form == 'particles':
            if dim == 1 and ctx.idx % 3 == 0:
                return ini.create_parameters(nr_of_particles=N, particle_size=psarg, **kw)
            return ini.create_parameters(nr_of_particles=N, particle_size=psarg, particle_dimension=dim, **kw)
        if form == 'size':
            return ini.create_parameters_of_size(shape if ctx.idx % 2 else torch.Size(shape), **kw)
        return ini.create_parameters_like(like, **kw)
    torch.manual_seed(ctx.case_seed % 10007)
    v = mk()
    w = mk()
    torch.manual_seed(ctx.case_seed % 10007)
    v2 = mk()
    is_parameter(ctx, v, shape, like.dtype if like is not None else dtype, kind)
    ctx.check(v is not w and v.data_ptr() != w.data_ptr(), 'independent', 'two created parameters share storage')
    ctx.equal(v, v2, 'reproducible', 'parameters created with the same seed')
    if kind == 'zero':
        ctx.check(bool((v == 0).all()), 'zero', 'values are not zero')
    elif kind == 'constant':
        ctx.check(bool((v == const).all()), 'constant', 'values are not the constant')
    else:
        if mag:
            ctx.check(not torch.equal(v, w), 'independent', 'two draws are identical')
        if sampled and form == 'particles':
            is_normal(ctx, v.detach() - batch, mag, 'deviation from the sample batch')
            ctx.count('around_sample')
            with torch.no_grad():
                v.add_(1.0)
        else:
            is_normal(ctx, v, mag, 'random values')
    if batch is not None:
        ctx.equal(batch, keep, 'sample_untouched', 'the sample batch')
    ctx.key(cls.__name__, kind, form, str(dtype), mag, shape)


@check.scenario(quick=40, thorough=600, requires=('block_states', 'block_zero'))
def in_block(ctx):
    """The initial particles of a block come from the initialisers given for states and costates."""
    spec = rand_spec(ctx)
    m = spec.m
    sm, cm = ctx.choice([0.1, 1.0]), ctx.choice([0.01, 0.4])
    init = pi.ConvolutionEvolutionParameterInitializer if m.conv else pi.VectorEvolutionParameterInitializer
    f = spec.features
    per = f * (spec.size[0] * spec.size[1] if m.conv else 1)
    N = 6000 // per + 1
    zero = ctx.rng.random() < 0.4
    kw = dict(keep_initial_state_parameters_at_zero=True) if zero else {}
    iover = dict(nr_of_particles=N, state_initializer=init(random_initialization_magnitude=sm), costate_initializer=init(random_initialization_magnitude=cm))
    ctx.note(spec=spec.describe(), N=N, magnitudes=(sm, cm), zero=zero)
    b = lib.block(spec, iover=iover, **kw)
    np_ = dict(b.named_parameters())
    for k in m.keys:
        g = spec.infl if k in m.inflated else 1
        shape = (N, spec.chan * g) + tuple(spec.size) if m.conv else (N, spec.chan, spec.size * g)
        if zero:
            ctx.check(k not in np_, 'block_zero', 'state {} is trainable although it is kept at zero'.format(k))
        else:
            is_parameter(ctx, np_[k], shape, torch.float64, 'state ' + k)
            is_normal(ctx, np_[k], sm, 'state ' + k)
        is_parameter(ctx, np_['p_' + k], shape, torch.float64, 'costate ' + k)
        is_normal(ctx, np_['p_' + k], cm, 'costate ' + k)
        ctx.count('block_states')
    ctx.key(spec.model, N, sm, cm, zero)


@check.scenario(quick=24, thorough=120, requires=('rejected',))
def rejects(ctx):
    conv = bool(ctx.idx % 2)
    cls = (CON if conv else VEC)[(ctx.idx // 2) % 2]
    ps = [3, 3] if conv else 3
    b = ctx.randn(2, 1, *(ps if conv else [ps]))
    ini = cls(sample_batch=b)
    like = ctx.randn(2, 3)
    ctx.expect_raises(lambda: ini.create_parameters(2, ps, set_to_zero=True, set_to_constant=ctx.choice([1.0, 0.0, 0, -1])), ValueError, 'rejected', 'zero and constant at the same time')
    ctx.expect_raises(lambda: ini.create_parameters_like(like, set_to_zero=True, set_to_constant=ctx.choice([1.0, 0.0, 0, -1])), ValueError, 'rejected', 'zero and constant at the same time (like)')
    ctx.expect_raises(lambda: ini.create_parameters_of_size((2, 3), set_to_zero=True, set_to_constant=ctx.choice([2, 0.0, 0])), ValueError, 'rejected', 'zero and constant at the same time (size)')
    cus = cls(only_random_initialization=False, sample_batch=b)
    ctx.expect_raises(lambda: cus.create_parameters(2, ps), ValueError, 'rejected', 'custom initialisation which is not implemented')
    ctx.expect_raises(lambda: cus.create_parameters_like(like), ValueError, 'rejected', 'custom initialisation which is not implemented (like)')
    ctx.expect_raises(lambda: cus.create_parameters_of_size((2, 3)), ValueError, 'rejected', 'custom initialisation which is not implemented (size)')
    if conv:
        for kw in ({}, dict(set_to_zero=True), dict(set_to_constant=1.0)):
            ctx.expect_raises(lambda: ini.create_parameters(2, 3, **kw), ValueError, 'rejected', 'convolution particles without spatial size')
    ctx.key(cls.__name__)


@check.scenario(quick=24, thorough=300, requires=('enlargement_states', 'enlargement_costates'))
def enlargement(ctx):
    """Surroundings of particles handed to a larger block come from the initialisers of the receiving block, states from the one for states."""
    m = R.MODELS[ctx.cycle(R.CONV)]
    model = [k for k in R.CONV if R.MODELS[k] is m][0]
    sm, cm = ctx.choice([(0.02, 1.0), (1.0, 0.02), (0.5, 0.1), (0.0, 0.3)])
    infl = ctx.choice([1, 2]) if m.has_inflation else 1
    N, s1, s2 = 40, [ctx.choice([2, 3]), 3], [ctx.choice([8, 9]), ctx.choice([7, 9])]
    spec = lib.Spec(model, 'tanh', N, s2, 1, infl, None, None, False, 0.1)
    ini = lambda v: pi.ConvolutionEvolutionParameterInitializer(random_initialization_magnitude=v)
    zero = ctx.rng.random() < 0.3
    b = lib.block(spec, name='b', in_features=2, iover=dict(state_initializer=ini(sm), costate_initializer=ini(cm)), integ=lib.integrator('euler', step_size=1.0),
                  keep_initial_state_parameters_at_zero=zero)
    n1 = ctx.choice([N, N - 10])
    mk = lambda n, size, pre='': {pre + k: 1e-3 * ctx.randn(n, infl if k in m.inflated else 1, *size) for k in m.keys}
    ctx.note(model=model, magnitudes=(sm, cm), sizes=(s1, s2), particles=(n1, N), zero=zero)
    tr = lib.RhsTrace(b.shooting_integrand)
    b(data_dict_of_dicts=lib.sdod({'a': mk(1, s2)}), pass_through_state_dict_of_dicts=lib.sdod({'a': mk(n1, s1)}), pass_through_costate_dict_of_dicts=lib.sdod({'a': mk(n1, s1, 'p_')}))
    ev = tr.events[0]
    tr.close()
    for what, src, mag in (('states', ev['q']['a'], 0.0 if zero else sm), ('costates', ev['p']['a'], cm)):
        for k, v in src.items():
            mask = torch.ones(v.shape, dtype=torch.bool)
            sl = [slice(None)] * 4
            for d, small in ((0, n1), (2, s1[0]), (3, s1[1])):
                g = v.shape[d] - small
                sl[d] = slice(g // 2, g // 2 + small)
            mask[tuple(sl)] = False
            is_normal(ctx, v[mask], mag, 'surroundings of {} {}'.format(what, k))
            ctx.count('enlargement_' + what)
    ctx.key(model, infl, sm, cm, str(s1), str(s2), n1, zero)


@check.scenario(quick=48, thorough=600, requires=('around_sample', 'sample_untouched'))
def around(ctx):
    """Values drawn around a sample batch deviate from it independently in every entry (particle, channel, position)."""
    conv = bool(ctx.idx % 2)
    cls = (CON if conv else VEC)[1]
    dtype = torch.float64 if ctx.idx % 4 < 3 else torch.float32
    torch.set_default_dtype(dtype)
    mag = ctx.choice([0.05, 0.5, 1.0, 3.0])
    dim = [1, 2, 3, 5][(ctx.idx // 4) % 4]
    ps = [ctx.rng.randint(1, 5), ctx.rng.randint(2, 5)] if conv else ctx.rng.randint(1, 12)
    N = 20000 // (dim * (ps[0] * ps[1] if conv else ps)) + ctx.rng.randint(1, 50)
    batch = ctx.randn(N, dim, *(ps if conv else [ps]), scale=2.0).to(dtype)
    keep = batch.clone()
    v = cls(random_initialization_magnitude=mag, sample_batch=batch).create_parameters(nr_of_particles=N, particle_size=ps, particle_dimension=dim)
    ctx.note(cls=cls.__name__, dtype=str(dtype), magnitude=mag, shape=list(batch.shape))
    is_parameter(ctx, v, batch.shape, dtype, 'parameter')
    is_normal(ctx, v.detach() - batch, mag, 'deviation from the sample batch')
    ctx.count('around_sample')
    with torch.no_grad():
        v.add_(1.0)
    ctx.equal(batch, keep, 'sample_untouched', 'the sample batch')
    ctx.key(cls.__name__, str(dtype), mag, tuple(batch.shape))
