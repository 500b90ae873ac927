"""C23: seeding makes runs repeatable; freezing excludes exactly the named parameters from training; parameter counts are true counts."""
import contextlib
import io
import random
import numpy
import torch
import torch.nn as nn
import neuro_shooting.utils as utils
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec
from vh.props.c15 import modes

check = Check('C23', 'one case = one seeded experiment executed twice after different histories of random draws, or one training history with parameters frozen and unfrozen on the way; '
              'all drawn values, parameters after every step, and counts are observed. Non-trivial: random draws happened / at least one training step; distinct by seed, configuration and history.',
              ['same machine, single-threaded: repeated runs have to agree bitwise'])


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def draws(n=5):
    return ([random.random() for _ in range(n)], random.randint(0, 10 ** 9), numpy.random.rand(n).tolist(), numpy.random.randint(0, 10 ** 9), torch.randn(n).tolist(),
            torch.rand(n).tolist(), torch.randperm(20).tolist(), nn.Linear(3, 4).weight.detach().tolist())


def disturb(ctx):
    for _ in range(ctx.rng.randint(1, 4)):
        r = ctx.rng.randrange(4)
        if r == 0:
            random.seed(ctx.rng.randint(0, 99))
        elif r == 1:
            numpy.random.rand(ctx.rng.randint(1, 9))
        elif r == 2:
            torch.randn(ctx.rng.randint(1, 9))
        else:
            torch.manual_seed(ctx.rng.randint(0, 99))


@check.scenario(quick=60, thorough=1000, requires=('repeatable', 'seeds_differ', 'unseeded_untouched', 'training_repeatable'))
def seeding(ctx):
    seed = ctx.choice([0, 1, 2, 42, 1234, 99999, 2 ** 31 - 1])
    ctx.note(seed=seed)
    quiet(lambda: utils.setup_random_seed(seed))
    off = ctx.choice([1, 1, 10, 100, 256, 1000, 1024, 65536, 10 ** 6])
    a = draws()
    disturb(ctx)
    quiet(lambda: utils.setup_random_seed(seed))
    b = draws()
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(x == y, 'repeatable', 'draws of source {} differ after setting the same seed {}'.format(i, seed))
    quiet(lambda: utils.setup_random_seed(seed + off if seed < 2 ** 31 - 1 else 5))
    c = draws()
    for i, (x, y) in enumerate(zip(a, c)):
        ctx.check(x != y, 'seeds_differ', 'source {} ignores the seed'.format(i))
    # -1: leave everything as it is
    s = (random.getstate(), numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2], torch.get_rng_state().tolist())
    quiet(lambda: utils.setup_random_seed(-1))
    t = (random.getstate(), numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2], torch.get_rng_state().tolist())
    ctx.check(s == t, 'unseeded_untouched', 'the state of a random source changed although no seed was given')
    # whole training runs are repeatable
    spec = rand_spec(ctx, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    ctx.note(spec=spec.describe(), mode=mode)

    def experiment():
        quiet(lambda: utils.setup_random_seed(seed))
        b = lib.block(spec, iover=iover, **kw)
        x = torch.randn(*spec.data(ctx, 2).shape) * 0.3
        b(x=x)
        ps = list(b.parameters())
        opt = torch.optim.Adam(ps, lr=0.01) if ps else None
        out = []
        for _ in range(2):
            o = b(x=x + 0.01 * torch.randn_like(x))
            l = (o[0] ** 2).mean()
            if b.get_norm_penalty() is not None:
                l = l + 1e-3 * b.get_norm_penalty().sum()
            if opt is not None and l.requires_grad:
                opt.zero_grad()
                l.backward()
                opt.step()
            out.append(l.detach().clone())
        return out + [p.detach().clone() for p in ps]
    r1 = experiment()
    disturb(ctx)
    r2 = experiment()
    ctx.check(len(r1) == len(r2), 'training_repeatable', 'different number of parameters')
    lib.finite_or_skip(*r1)
    for i, (x, y) in enumerate(zip(r1, r2)):
        ctx.equal(x, y, 'training_repeatable', 'training run (item {})'.format(i))
    ctx.key(seed, spec.key(), mode)


@check.scenario(quick=70, thorough=1200, requires=('frozen_kept', 'others_trained', 'others_gradient', 'flags', 'counts'))
def freezing(ctx):
    spec = rand_spec(ctx, mag=0.3)
    mode, iover, kw = modes(ctx, spec, allow=('plain', 'plain', 'frozen', 'pf_rnn', 'pf_time', 'init'))
    b = lib.block(spec, iover=iover, **kw)
    lib.randomize(b, ctx, scale=0.3)
    x = spec.data(ctx, 3, scale=0.4)
    b(x=x)
    names = [n for n, _ in b.named_parameters()]
    frozen = set()
    hist = []
    ctx.note(spec=spec.describe(), mode=mode, history=hist)
    for step in range(ctx.choice([2, 3, 4])):
        k = ctx.rng.randint(0, len(names))
        sel = ctx.rng.sample(names, k)
        before_flags = {n: v.requires_grad for n, v in b.named_parameters()}
        if ctx.rng.random() < 0.6:
            quiet(lambda: utils.freeze_parameters(b, sel))
            frozen |= set(sel)
            hist.append(('freeze', sel))
        else:
            quiet(lambda: utils.unfreeze_parameters(b, ctx.choice([tuple, list])(sel)))
            frozen -= set(sel)
            hist.append(('unfreeze', sel))
        for n, v in b.named_parameters():
            ctx.check(v.requires_grad == (n not in frozen), 'flags', '{} is {} after {}'.format(n, 'trainable' if v.requires_grad else 'frozen', hist[-1]))
        cnt = quiet(lambda: utils.compute_number_of_parameters(b, print_parameters=bool(step % 2)))
        nf = sum(v.numel() for n, v in b.named_parameters() if n in frozen)
        no = sum(v.numel() for n, v in b.named_parameters() if n not in frozen)
        ctx.check((cnt['fixed'], cnt['optimized'], cnt['overall']) == (nf, no, nf + no), 'counts', 'counts {} expected fixed {} optimized {}'.format(cnt, nf, no))
        named = list(b.named_parameters())
        if len(frozen) == len(names):
            continue
        W = None
        # gradients of the others are those without freezing
        o = b(x=x)
        lib.finite_or_skip(o[0])
        loss = lambda o: sum((v ** 2).mean() for d in o[1:] for v in d['blk'].values()) + (o[0] ** 2).mean()
        l = loss(o)
        if not l.requires_grad:
            continue
        g = lib.grads(l, named)
        flags = {n: v.requires_grad for n, v in named}
        for _, v in named:
            v.requires_grad_(True)
        g2 = lib.grads(loss(b(x=x)), named)
        for n, v in named:
            v.requires_grad_(flags[n])
        for n in g:
            if n in frozen:
                ctx.check(g[n] is None, 'frozen_kept', 'frozen {} received a gradient'.format(n))
            elif g2[n] is None:
                ctx.check(g[n] is None, 'others_gradient', n)
            else:
                ctx.close(g[n], g2[n], 'others_gradient', 'gradient of {} while {} are frozen'.format(n, sorted(frozen)), rtol=1e-9, atol=1e-12)
        old = {n: v.detach().clone() for n, v in named}
        opt = torch.optim.SGD([v for _, v in named if v.requires_grad], lr=0.05)
        opt.zero_grad()
        loss(b(x=x)).backward()
        opt.step()
        for n, v in named:
            if n in frozen:
                ctx.equal(v, old[n], 'frozen_kept', 'frozen {} after a training step'.format(n))
            elif g[n] is not None:
                ctx.close(v, old[n] - 0.05 * g[n], 'others_trained', n, rtol=1e-9)
        for _, v in named:
            v.grad = None
    ctx.key(spec.key(), mode, str(hist))


@check.scenario(quick=40, thorough=600, requires=('counts', 'divide', 'device'))
def small(ctx):
    """Counts of arbitrary modules, weighted division, device selection."""
    layers = []
    for _ in range(ctx.rng.randint(0, 4)):
        layers.append(ctx.choice([lambda: nn.Linear(ctx.rng.randint(1, 5), ctx.rng.randint(1, 5), bias=ctx.rng.random() < 0.5), lambda: nn.Conv2d(2, 3, 3), lambda: nn.BatchNorm1d(4), lambda: nn.ReLU()])())
    mod = nn.Sequential(*layers)
    if ctx.rng.random() < 0.3:
        mod.scalar = nn.Parameter(torch.tensor(1.0))
    if ctx.rng.random() < 0.3 and layers:
        mod.shared = layers[0]
    if ctx.rng.random() < 0.3:      # parameters which are parts of one storage, and an empty one
        flat = ctx.randn(12)
        mod.a, mod.b, mod.c = nn.Parameter(flat[:5]), nn.Parameter(flat[5:11].reshape(2, 3)), nn.Parameter(flat[:ctx.choice([0, 3])])
    for p in mod.parameters():
        p.requires_grad_(ctx.rng.random() < 0.6)
    c = quiet(lambda: utils.compute_number_of_parameters(mod))
    nf = sum(p.numel() for p in mod.parameters() if not p.requires_grad)
    no = sum(p.numel() for p in mod.parameters() if p.requires_grad)
    ctx.note(counts=str(c), expected=(nf, no))
    ctx.check((c['fixed'], c['optimized'], c['overall']) == (nf, no, nf + no), 'counts', 'counts {} expected {} fixed and {} optimized'.format(c, nf, no))
    t = ctx.randn(ctx.rng.randint(1, 4), 2)
    w = ctx.choice([None, 0.5, 2, 10.0, ctx.randn(2).abs() + 0.1])
    keep = t.clone()
    r = utils.divide_by_if_not_none(t, w)
    if w is None:
        ctx.equal(r, keep, 'divide', 'division without weight')
    else:
        ctx.close(r, keep * (1.0 / w), 'divide', 'division by the weight', rtol=1e-12)
    ctx.equal(t, keep, 'divide', 'the divided tensor')
    d = quiet(lambda: utils.setup_device(ctx.choice([None, 0])))
    if not torch.cuda.is_available():
        ctx.check(torch.device(d) == torch.device('cpu') and torch.zeros(1).device.type == 'cpu' and torch.zeros(1).dtype == torch.float32, 'device', 'device {}'.format(d))
    torch.set_default_dtype(torch.float64)
    ctx.key(nf, no, str(w))
