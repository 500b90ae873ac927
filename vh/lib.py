"""Builders for the code under test and observation helpers (hooks), shared by the property checks."""
import torch
from sortedcontainers import SortedDict

import neuro_shooting.generic_integrator as generic_integrator
import neuro_shooting.shooting_blocks as shooting_blocks
import neuro_shooting.shooting_models as shooting_models
import neuro_shooting.parameter_initialization as pi

from vh import ref as R
from vh.core import Ctx, Violation, Skip


class Spec(object):
    """One configuration of a shooting block."""

    def __init__(self, model, nl='tanh', N=5, size=2, chan=1, infl=3, weight=None, opt_weight=10, analytic=False, mag=0.5, pw=None, **kw):
        self.pw = pw
        self.model, self.nl, self.N, self.size, self.chan = model, nl, N, size, chan
        self.infl = infl if R.MODELS[model].inflated else 1
        self.weight, self.opt_weight, self.analytic, self.mag, self.kw = weight, opt_weight, analytic, mag, kw

    @property
    def m(self):
        return R.MODELS[self.model]

    @property
    def features(self):
        return self.chan if self.m.conv else self.size

    def ref(self, features=None):
        return R.Ref(self.model, self.nl, features or self.features, self.infl, self.weight, self.opt_weight, self.pw)

    def describe(self):
        d = dict(model=self.model, nl=self.nl, N=self.N, size=self.size, chan=self.chan, infl=self.infl, weight=self.weight,
                 analytic=self.analytic, mag=self.mag)
        if self.model == 'universal':
            d['opt_weight'] = self.opt_weight
        if self.pw:
            d['individual_weights'] = str(sorted(self.pw.items()))
        d.update({k: str(v) for k, v in self.kw.items()})
        return d

    def key(self):
        return tuple(sorted((k, str(v)) for k, v in self.describe().items()))

    def integrand(self, in_features=None, **over):
        kw = dict(in_features=in_features or self.features, nonlinearity=self.nl, nr_of_particles=self.N,
                  particle_dimension=self.chan, particle_size=self.size, parameter_weight=self.weight,
                  use_analytic_solution=self.analytic)
        if self.m.has_inflation:
            kw['inflation_factor'] = self.infl
        if self.model == 'universal':
            kw['optional_weight'] = self.opt_weight
        init = pi.ConvolutionEvolutionParameterInitializer if self.m.conv else pi.VectorEvolutionParameterInitializer
        kw['state_initializer'] = init(random_initialization_magnitude=self.mag)
        kw['costate_initializer'] = init(random_initialization_magnitude=self.mag)
        kw.update(self.kw)
        kw.update(over)
        cls = getattr(shooting_models, self.m.cls) if isinstance(self.m.cls, str) else self.m.cls
        if self.pw:
            cls = weighted(cls, self.pw)
        return cls(**kw)

    def data(self, ctx, batch, scale=0.8):
        if LARGE and LARGE['which'] in ('samples', 'all') and batch < 16:
            batch = LARGE.setdefault('batch', ctx.choice([17, 33] if self.m.conv else [32, 64, 65, 100, 130, 257]))
        if self.m.conv:
            return ctx.randn(batch, self.chan, *self.size, scale=scale)
        return ctx.randn(batch, self.chan, self.size, scale=scale)

    def lift(self, x):
        """Reference initial data state for plain data x (no optimised initial conditions)."""
        out = {'q1': x}
        for k in self.m.keys[1:]:
            base = x if self.m.data_init.get(k) == 'copy' else torch.zeros_like(x)
            if k in self.m.inflated:
                d = 1 if self.m.conv else base.dim() - 1
                base = torch.cat([base] * self.infl, dim=d)
            out[k] = base
        return out


def weighted(cls, pw):
    """The model with individual energy weights of single parameters (set the documented way, by add_weight)."""
    def create(self):
        objs = cls.create_default_parameter_objects(self)
        for (layer, par), w in pw.items():
            objs[layer].add_weight(par, w)
        return objs
    return type('Weighted' + cls.__name__, (cls,), {'create_default_parameter_objects': create})


def rand_weights(ctx, model):
    """Random individual weights for some of the parameters of a model."""
    pars = [(l, k) for l, d in R.MODELS[model].layers.items() for k in (('weight', 'bias') if d[2] else ('weight',))]
    n = ctx.choice([1, 2, len(pars)])
    return {lk: ctx.choice([0.25, 0.5, 3.0, 8.0, 20.0]) for lk in ctx.rng.sample(pars, min(n, len(pars)))}


LARGE = {}      # sizes to be used instead of the usual small ones


def size(ctx, usual, large):
    """A random one of the usual sizes, or of the large ones in the scenarios named large."""
    return ctx.choice(large if LARGE else usual)


def large(check, fns, quick, thorough):
    """Scenario running other scenarios with many particles, features, samples or times."""
    def large(ctx):
        fn = fns[ctx.idx % len(fns)]
        which = ctx.cycle(['particles', 'features', 'samples', 'all', 'samples'])
        LARGE.update(which=which)
        try:
            fn(ctx)
        finally:
            LARGE.clear()
        ctx.note(workload=fn.__name__, large=which)
    large.__doc__ = 'Many particles, features, samples or times in: ' + ', '.join(f.__name__ for f in fns)
    check.scenario(quick=quick, thorough=thorough)(large)


FORCED = []     # models to be used instead of the ones of the repository (user-defined models)


def rand_spec(ctx, models=None, analytic=None, nl=None, big=False, **fix):
    model = fix.pop('model', None)
    if FORCED:
        kinds = {R.MODELS[k].conv for k in ([model] if model else models or list(R.MODELS))}
        model = next((k for k in FORCED if R.MODELS[k].conv in kinds), None) or model
    model = model or ctx.cycle(models or list(R.MODELS))
    m = R.MODELS[model]
    nls = list(nl or R.NONLIN)
    nlin = nls[(ctx.idx // max(1, len(models or R.MODELS)) + ctx.rng.randrange(len(nls))) % len(nls)]
    kw = dict(nl=nlin, N=ctx.choice([1, 2, 3, 5, 8, 9, 17]), infl=ctx.choice([1, 2, 3, 5]),
              weight=ctx.choice([None, 0.5, 1.0, 2.0, 10.0, 150.0]), opt_weight=ctx.choice([1, 5, 10, 25.0]),
              mag=ctx.choice([0.2, 0.5, 0.7]))
    if m.conv:
        kw.update(size=ctx.choice([[4, 4], [5, 3], [3, 6]]), chan=ctx.choice([1, 2, 3]), infl=ctx.choice([1, 2, 3]), N=ctx.choice([1, 2, 4]))
    else:
        kw.update(size=ctx.choice([1, 2, 3, 4]))
    if analytic is None:
        kw['analytic'] = False
    else:
        kw['analytic'] = bool(analytic) and m.analytic
    if fix.pop('individual', False) and ctx.rng.random() < 0.3 and not getattr(m, 'search', False):
        kw['pw'] = rand_weights(ctx, model)
    kw.update(fix)
    if LARGE:
        kw['mag'] = min(kw['mag'], 0.2)
        if LARGE['which'] in ('particles', 'all') and 'N' not in fix:
            kw['N'] = ctx.choice([16, 33] if m.conv else [32, 33, 64, 65, 130, 257])
        if LARGE['which'] in ('features', 'all') and not fix.get('size'):
            if m.conv:
                kw.update(size=ctx.choice([[12, 9], [16, 16], [7, 17]]), chan=ctx.choice([4, 9]))
            else:
                kw.update(size=ctx.choice([9, 16, 17, 33]))
        kw['infl'] = min(kw['infl'], 3)
    return Spec(model, **kw)


def integrator(name='rk4', adjoint=False, step_size=None, rtol=1e-9, atol=1e-11, **kw):
    opts = None if step_size is None else {'step_size': step_size}
    return generic_integrator.GenericIntegrator(integrator_library='odeint', integrator_name=name, use_adjoint_integration=adjoint,
                                                integrator_options=opts, rtol=rtol, atol=atol, **kw)


def reseed(n):
    import random
    import numpy
    random.seed(n)
    numpy.random.seed(n)
    torch.manual_seed(n)


def block(spec, name='blk', integ=None, in_features=None, iover=None, seed=None, **kw):
    if seed is not None:
        reseed(seed)
    if integ is None:
        integ = integrator('rk4', step_size=0.25)
    b = shooting_blocks.ShootingBlockBase(name=name, shooting_integrand=spec.integrand(in_features=in_features, **(iover or {})),
                                          integrator=integ, **kw)
    if Ctx.ambient is not None and Ctx.ambient.random() < 0.3:
        b.eval()        # evaluation mode: nothing a block computes depends on it
    return b


def continuing(ctx, n):
    """Options of a block which only continues an integration (the number of particles is then that of the received ones)."""
    return dict(is_pass_through=True, nr_of_particles=ctx.choice([n, n, 10, n + 1, 1, None]))


def plain(d):
    """SortedDict of SortedDicts -> plain dict of dicts of detached clones."""
    return {b: {k: v.detach().clone() for k, v in d[b].items()} for b in d}


def sdod(d):
    """dict of dicts -> SortedDict of SortedDicts"""
    return SortedDict({b: SortedDict({k: v for k, v in d[b].items()}) for b in d})


def params_of(parameter_objects, detach=True):
    out = {}
    for o in parameter_objects:
        out[o] = {}
        for k, v in parameter_objects[o].get_parameter_dict().items():
            if v is None:
                continue
            out[o][k] = v.detach().clone() if detach else v
    return out


class RhsTrace(object):
    """Records every right-hand-side evaluation through the public hook interface."""

    def __init__(self, integrand, on_event=None):
        self.events = []
        self.raw = []
        self.on_event = on_event
        self.handle = integrand.register_lagrangian_gradient_hook(self._hook)
        self.handle2 = integrand.register_forward_hook(self._fwd)

    def _hook(self, module, t, s, c, x, ds, dc, dx, pars, custom):
        ev = dict(t=float(t), q=plain(s), p=plain(c), x=plain(x), dq=plain(ds), dp=plain(dc), dx=plain(dx), th=params_of(pars))
        self.events.append(ev)
        if self.on_event is not None:
            self.on_event(ev)

    def _fwd(self, module, args, out):
        self.raw.append((float(args[0]), args[1].detach().clone(), out.detach().clone()))

    def close(self):
        self.handle.remove()
        self.handle2.remove()


def strip(d, prefix):
    out = {}
    for k, v in d.items():
        if not k.startswith(prefix):
            raise Violation('structure: expected key with prefix {} but got {}'.format(prefix, k))
        out[k[len(prefix):]] = v
    return out


def cat_blocks(dd, dim):
    """Concatenates blocks (in sorted block-name order) feature-wise."""
    names = sorted(dd)
    return {k: torch.cat([dd[b][k] for b in names], dim=dim) for k in dd[names[0]]}


def init_params(b):
    """Named parameters of a block (bypasses the guard which requires a forward pass)."""
    return dict(b.named_parameters())


def get_state(b, spec):
    """Initial particle states and costates of a block, by their registered names."""
    np_ = dict(b.named_parameters())
    q = {k: np_[k].detach().clone() for k in spec.m.keys}
    p = {k: np_['p_' + k].detach().clone() for k in spec.m.keys}
    return q, p


def randomize(b, ctx, scale=0.5, only=None):
    """Overwrites registered parameters with values drawn from the case's own random source."""
    with torch.no_grad():
        for n, v in b.named_parameters():
            if only is None or only(n):
                v.copy_(ctx.randn(*v.shape, scale=scale))


def finite_or_skip(*ts, bound=1e4):
    for t in ts:
        t = t.detach()
        if not bool(torch.isfinite(t).all()) or float(t.abs().max() if t.numel() else 0) > bound:
            raise Skip('trajectory leaves the numerically meaningful range')


def grads(loss, named):
    """Gradients through .backward() (also valid for re-entrant checkpointing): {name: grad or None}."""
    for _, p in named:
        p.grad = None
    loss.backward()
    out = {}
    for n, p in named:
        out[n] = None if p.grad is None else p.grad.detach().clone()
        p.grad = None
    return out


def split_name(s):
    """'<step>_<layer>_<parameter>': the layer name may itself contain underscores."""
    step, rest = s.split('_', 1)
    layer, par = rest.rsplit('_', 1)
    return step, layer, par
