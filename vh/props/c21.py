"""C21: the residual network is the composition of its layers."""
import torch
import torch.nn.functional as F
import neuro_shooting.shooting_models as sm
import neuro_shooting.parameter_initialization as pi
from neuro_shooting.res_net import BasicResNet
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import strip

check = Check('C21', 'one case = one network (layers, channels, blocks per layer, strides, particle sizes, model, nonlinearity, solver) and batch; its output is compared with a reference '
              'computed layer by layer from the registered parameters (convolution, batch normalisation, joined reference flow per block, striding, maximum pooling, linear map). '
              'Non-trivial: output not constant; distinct by configuration.',
              ['particle surroundings added when particles are handed to a larger layer are read from the first evaluation of the receiving block (C10 decides them)',
               'layer names sort in layer order (fewer than ten layers)'])


def stride(t, s):
    for d in (2, 3):
        L = t.shape[d]
        t = t.index_select(d, torch.arange(L % s, L, s))
    return t


def build(ctx, small=False):
    model = ctx.cycle(R.CONV)
    m = R.MODELS[model]
    L = ctx.choice([1, 2, 2, 3, 4] if ctx.idx % 4 == 0 else [1, 2, 2, 3]) if not small else ctx.choice([1, 2])
    ch = [ctx.choice([1, 2, 3])]
    for _ in range(L - 1):
        ch.append(ch[-1] + ctx.choice([1, 2]))
    nb = [ctx.choice([1, 1, 2, 3]) for _ in range(L)]
    if L < 3 and ctx.idx % 3 == 0:
        nb[ctx.rng.randint(0, L - 1)] = ctx.choice([4, 5])
    s = ctx.choice([2, 2, 3]) if L < 3 else 2
    sizes = [[ctx.choice([3, 4, 5]), ctx.choice([3, 4, 5])]]
    for _ in range(L - 1):
        prev = [len(range(v % s, v, s)) for v in sizes[-1]]
        sizes.append([max(v, 2 if L < 3 else s) + ctx.choice([0, 0, 1, 2]) for v in prev])
    nl = ctx.choice(['tanh', 'sigmoid', 'relu', 'softmax'])
    N, C, K = ctx.choice([1, 2, 3]), ctx.choice([1, 3]), ctx.choice([2, 5])
    w = ctx.choice([None, 2.0])
    infl = ctx.choice([1, 2]) if m.has_inflation else 1
    kw = dict(parameter_weight=w) if w is not None else {}
    if m.has_inflation:
        kw['inflation_factor'] = infl
    meth, h = ctx.choice([('rk4', 0.5), ('midpoint', 0.25), ('euler', 0.25)])
    default_integ = ctx.rng.random() < 0.15
    if default_integ:
        meth, h = 'rk4', 0.1
    default_model = model == 'conv' and ctx.rng.random() < 0.5
    ini = pi.ConvolutionEvolutionParameterInitializer(random_initialization_magnitude=0.4)
    net = BasicResNet(nr_of_image_channels=C, layer_channels=ch, nr_of_blocks_per_layer=nb, downsampling_stride=s, nonlinearity=nl, particle_sizes=sizes,
                      nr_of_particles=N, nr_of_classes=K, state_initializer=ini, costate_initializer=ini, integrator=None if default_integ else lib.integrator(meth, step_size=h),
                      shooting_model=None if default_model else getattr(sm, m.cls), shooting_model_kwargs=kw or None)
    conf = dict(model=model, channels=ch, blocks=nb, stride=s, sizes=sizes, nl=nl, N=N, images=C, classes=K, weight=w, infl=infl, method=meth)
    ctx.note(**conf)
    return net, conf, h


def blocks_of(net):
    out = {}
    for n, mod in net.named_modules():
        if n.startswith('shooting_layer_') and n.count('.') == 0:
            _, _, i, j = n.split('_')
            out[(int(i), int(j))] = (n, mod)
    return out


def images(ctx, conf, B=None):
    return ctx.randn(B or ctx.choice([1, 2, 4]), conf['images'], ctx.choice([8, 9, 11]), ctx.choice([8, 10]), scale=0.8)


@check.scenario(quick=60, thorough=1000, requires=('layer_particles', 'layer_data', 'network_output', 'running_statistics'))
def composition(ctx):
    net, conf, h = build(ctx)
    m = R.MODELS[conf['model']]
    x = images(ctx, conf)
    if x.shape[0] == 1 and (conf['model'] == 'conv_batch' or ctx.rng.random() < 0.5):   # batch normalisation needs more than one value per channel
        x = images(ctx, conf, 2)
    with torch.no_grad():
        net(x)
    lib.randomize(net, ctx, scale=0.35, only=lambda n: not n.startswith('shooting_layer'))
    lib.randomize(net, ctx, scale=ctx.choice([0.1, 0.2]), only=lambda n: n.startswith('shooting_layer'))
    with torch.no_grad():
        net.batch_norm.weight.copy_(1 + 0.2 * ctx.randn(*net.batch_norm.weight.shape))
    train = ctx.rng.random() < 0.6
    net.train(train)
    if not train:
        with torch.no_grad():
            net.batch_norm.running_mean.copy_(ctx.randn(*net.batch_norm.running_mean.shape, scale=0.3))
            net.batch_norm.running_var.copy_(0.5 + ctx.rand(*net.batch_norm.running_var.shape))
    P = {k: v.detach().clone() for k, v in net.state_dict().items()}
    bl = blocks_of(net)
    want_blocks = {(i, j) for i in range(len(conf['channels'])) for j in range(conf['blocks'][i])}
    ctx.check(set(bl) == want_blocks, 'registered', 'registered blocks {} expected {}'.format(sorted(bl), sorted(want_blocks)))
    tr = {k: lib.RhsTrace(mod.shooting_integrand) for k, (n, mod) in bl.items()}
    with torch.no_grad():
        y = net(x)
    for t in tr.values():
        t.close()
    # reference
    a = F.conv2d(x, P['initial_conv.weight'], P['initial_conv.bias'], padding=1)
    if train:
        mu, va = a.mean(dim=(0, 2, 3)), a.var(dim=(0, 2, 3), unbiased=False)
        n = a.numel() / a.shape[1]
        ctx.close(net.batch_norm.running_mean, 0.9 * P['batch_norm.running_mean'] + 0.1 * mu, 'running_statistics', 'running mean')
        ctx.close(net.batch_norm.running_var, 0.9 * P['batch_norm.running_var'] + 0.1 * va * n / (n - 1), 'running_statistics', 'running variance')
    else:
        mu, va = P['batch_norm.running_mean'], P['batch_norm.running_var']
        ctx.equal(net.batch_norm.running_mean, mu, 'running_statistics', 'running mean in evaluation mode')
    rs = lambda v: v.reshape(1, -1, 1, 1)
    a = (a - rs(mu)) / torch.sqrt(rs(va) + 1e-5) * rs(P['batch_norm.weight']) + rs(P['batch_norm.bias'])
    a = R.sigma(conf['nl'], a)
    lift = lambda v: {k: torch.cat([(v if k == 'q1' else torch.zeros_like(v))] * (conf['infl'] if k in m.inflated else 1), dim=1) for k in m.keys}
    X = lift(a)
    Q = Pp = None
    pre, amp = None, 1.0
    for i, c in enumerate(conf['channels']):
        add = c - (conf['channels'][i - 1] if i else 0)
        for j in range(conf['blocks'][i]):
            name = 'shooting_layer_{}_{}'.format(i, j)
            ev = tr[(i, j)].events[0]
            if j == 0:
                q_own = {k: P['{}.{}'.format(name, k)] for k in m.keys}
                p_own = {k: P['{}.p_{}'.format(name, k)] for k in m.keys}
                ctx.check(tuple(q_own['q1'].shape) == (conf['N'], add, *conf['sizes'][i]), 'layer_particles', 'particles of {} have size {}'.format(name, tuple(q_own['q1'].shape)))
                if i == 0:
                    Q, Pp = q_own, p_own
                else:
                    eq, ep = ev['q'][pre], strip(ev['p'][pre], 'p_')
                    for what, got, prev in (('state', eq, Q), ('costate', ep, Pp)):
                        for k in m.keys:
                            sl = [slice(None), slice(None)]
                            for d in (2, 3):
                                g = got[k].shape[d] - prev[k].shape[d]
                                sl.append(slice(g // 2, g // 2 + prev[k].shape[d]))
                            ctx.close(got[k][tuple(sl)], prev[k], 'layer_particles', '{} {} handed to {}'.format(what, k, name), rtol=1e-7, atol=1e-8)
                    Q = {k: torch.cat([eq[k], q_own[k]], 1) for k in m.keys}
                    Pp = {k: torch.cat([ep[k], p_own[k]], 1) for k in m.keys}
                    shp = lambda k: (X[k].shape[0], add * (conf['infl'] if k in m.inflated else 1)) + tuple(X[k].shape[2:])
                    X = {k: torch.cat([X[k], torch.zeros(shp(k))], 1) for k in m.keys}
            ref = R.Ref(conf['model'], conf['nl'], c, conf['infl'], conf['weight'])
            got = lib.cat_blocks(ev['x'], 1)
            for k in m.keys:
                ctx.close(got[k], X[k], 'layer_data', 'data {} entering {}'.format(k, name), rtol=1e-7, atol=1e-8)
            sol = R.integrate_ref(ref, Q, Pp, X, torch.tensor([0.0, 1.0]), method=conf['method'], options={'step_size': h})
            if conf['model'] == 'conv_batch':
                # normalising nearly constant channels amplifies rounding: such cases cannot be judged
                sh = [{k: v + 1e-11 * ctx.randn(*v.shape) for k, v in d.items()} for d in (Q, Pp, X)]
                alt = R.integrate_ref(ref, *sh, torch.tensor([0.0, 1.0]), method=conf['method'], options={'step_size': h})[-1]
                amp *= max(1.0, *[float((alt[d][k] - sol[-1][d][k]).abs().max()) / 1e-11 for d in range(3) for k in m.keys])
                if not amp < 1e5:
                    raise Skip('rounding is amplified')
            Q, Pp, X = sol[-1]
            lib.finite_or_skip(*Q.values(), *Pp.values(), *X.values(), bound=100)
            pre = name
        if i < len(conf['channels']) - 1:
            Q, Pp, X = [{k: stride(v, conf['stride']) for k, v in d.items()} for d in (Q, Pp, X)]
    feat = X['q1'].amax(dim=(2, 3))
    want = feat @ P['last_linear.weight'].t() + P['last_linear.bias']
    ctx.close(y, want, 'network_output', 'network output', rtol=1e-6, atol=1e-8)
    ctx.key(str(sorted(conf.items())), train)


@check.scenario(quick=24, thorough=300, requires=('gradient', 'all_trained', 'reload', 'not_before_forward', 'sample_independence'))
def training(ctx):
    net, conf, h = build(ctx, small=True)
    m = R.MODELS[conf['model']]
    ctx.expect_raises(lambda: list(net.parameters()), ValueError, 'not_before_forward', 'listing parameters before the first forward pass')
    x = images(ctx, conf, 3)
    net(x)
    lib.randomize(net, ctx, scale=0.3, only=lambda n: not n.startswith('shooting_layer'))
    lib.randomize(net, ctx, scale=0.15, only=lambda n: n.startswith('shooting_layer'))
    with torch.no_grad():
        net.batch_norm.weight.copy_(1 + 0.2 * ctx.randn(*net.batch_norm.weight.shape))
    ps = list(net.parameters())
    named = list(net.named_parameters())
    ctx.check(len(ps) == len(named), 'all_trained', 'parameters and named parameters disagree')
    net.eval()
    y = net(x)
    lib.finite_or_skip(y, bound=1e4)
    W = ctx.randn(*y.shape)
    g = lib.grads((W * y).sum(), named)
    # not reachable: costates of the last block only act before, so every particle tensor and every layer weight has a gradient
    for n, v in named:
        ctx.check(g[n] is not None and bool(torch.isfinite(g[n]).all()), 'all_trained', 'parameter {} receives no gradient'.format(n))
    if conf['nl'] != 'relu':
        d = [ctx.randn(*v.shape) for _, v in named]
        base = [v.detach().clone() for _, v in named]

        def f(e):
            with torch.no_grad():
                for (_, v), b, dd in zip(named, base, d):
                    v.copy_(b + e * dd)
                return float((W * net(x)).sum())
        e = 1e-5
        f1, f2, f3, f4 = f(e), f(-e), f(2 * e), f(-2 * e)
        num = (8 * (f1 - f2) - (f3 - f4)) / (12 * e)
        num2 = (f1 - f2) / (2 * e)
        f0 = f(0.0)
        an = sum(float((g[n] * dd).sum()) for (n, _), dd in zip(named, d))
        if abs(num - num2) > 1e-3 * (abs(num) + 1) or abs(f1 + f2 - 2 * f0) / e > 1e-3 * (abs(num) + 1):
            raise Skip('maximum pooling switches inside the difference interval')
        ctx.check(abs(an - num) < 1e-4 * (abs(num) + abs(an) + 1), 'gradient', 'directional derivative {:.8g}, central difference {:.8g}'.format(an, num))
    else:
        ctx.count('gradient')
    # evaluation mode treats samples independently
    with torch.no_grad():
        y = net(x)
        i = ctx.rng.randrange(3)
        ctx.close(net(x[i:i + 1]), y[i:i + 1], 'sample_independence', 'output of a single sample', rtol=1e-8, atol=1e-9)
        perm = torch.tensor(ctx.rng.sample(range(3), 3))
        ctx.close(net(x[perm]), y[perm], 'sample_independence', 'output of reordered samples', rtol=1e-8, atol=1e-9)
    # reload into a fresh network
    sd = {k: v.clone() for k, v in net.state_dict().items()}
    ctx.rng.seed(ctx.case_seed)
    net2, conf2, _ = build(ctx, small=True)
    net2(x)
    net2.load_state_dict(sd)
    net2.eval()
    with torch.no_grad():
        ctx.equal(net2(x), y, 'reload', 'output after reloading')
    ctx.key(str(sorted(conf.items())))


@check.scenario(quick=4, thorough=10, requires=('rejected',))
def rejects(ctx):
    ctx.expect_raises(lambda: BasicResNet(nr_of_image_channels=1, layer_channels=[2, 3], nr_of_blocks_per_layer=[1, 1], particle_sizes=[[3, 3]]), ValueError, 'rejected',
                      'number of particle sizes not matching the layers')
    ctx.key('sizes')


@check.scenario(quick=10, thorough=120, requires=('initial_values', 'sizes'))
def initial_values(ctx):
    """Particles of every first block of a layer are drawn from the initialiser of their kind, with the stated number and sizes."""
    L = ctx.choice([1, 2, 3])
    ch = [ctx.choice([1, 2])]
    for _ in range(L - 1):
        ch.append(ch[-1] + ctx.choice([1, 2]))
    nb = [ctx.choice([1, 2, 3]) for _ in range(L)]
    sizes = [[ctx.choice([3, 4, 6]), ctx.choice([3, 5, 7])] for _ in range(L)]
    N = ctx.choice([1, 4, 9])
    mags = {'state': ctx.choice([1e-4, 1e4]), 'costate': 1.0}
    given = {k: ctx.rng.random() < 0.75 for k in mags}
    C = pi.ConvolutionEvolutionParameterInitializer
    ini = {k: C(random_initialization_magnitude=v) if given[k] else None for k, v in mags.items()}
    m = R.MODELS[ctx.cycle(R.CONV)]
    net = BasicResNet(nr_of_image_channels=1, layer_channels=ch, nr_of_blocks_per_layer=nb, particle_sizes=sizes, nr_of_particles=N, nr_of_classes=2, state_initializer=ini['state'],
                      costate_initializer=ini['costate'], shooting_model=getattr(sm, m.cls))
    seen = set()
    for (i, j), (_, b) in blocks_of(net).items():
        for n, p in b.named_parameters():
            if not n.replace('p_', '').startswith('q'):
                continue
            ctx.check(j == 0, 'initial_values', 'block {} of layer {} has particles of its own'.format(j, i))
            k = 'costate' if n.startswith('p_') else 'state'
            mag = mags[k] if given[k] else 0.05
            ctx.check(p.shape[0] == N and list(p.shape[2:]) == sizes[i] and p.shape[1] % (ch[i] - (ch[i - 1] if i else 0)) == 0, 'sizes', '{} of layer {} has size {}'.format(n, i, tuple(p.shape)))
            rms = float(p.detach().pow(2).mean().sqrt())
            ctx.check(0.05 * mag < rms < 5 * mag, 'initial_values', '{} of layer {} has spread {} instead of {}'.format(n, i, rms, mag))
            seen.add(i)
    ctx.check(seen == set(range(L)), 'initial_values', 'only layers {} of {} have particles'.format(seen, L))
    ctx.note(channels=ch, blocks=nb, sizes=sizes, N=N, model=m.cls, magnitudes=str(mags), given=str(given))
    ctx.key(str(ch), str(nb), str(sizes), N, m.cls, str(mags), str(given))
