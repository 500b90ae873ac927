"""C16: what a forward call returns depends only on parameters, inputs and requested times, and a call changes none of them."""
import random
import sys
import threading
import copy
import numpy
import torch
from neuro_shooting.striding_block import ShootingStridingBlock
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec, Spec
from vh.props.c15 import modes

check = Check('C16', 'one case = one block used through a random history (other inputs, layouts, times, gradient modes, backward passes, conversions, rejected calls, other blocks '
              'sharing the solver), then called; the returned values are compared bitwise with those of an identical block without history, and inputs and parameters '
              'with snapshots. Non-trivial: history of at least one call; distinct by configuration and history.',
              ['every block is used by one thread at a time, on the CPU', 'the default precision matches the precision of the block'])


def clear(b):
    for _, p in b.named_parameters():
        p.grad = None


def snapshot(b):
    return {n: p.detach().clone() for n, p in b.named_parameters()}


def same_out(ctx, got, want, mon, what, rtol=None):
    def cmp(a, w, nm):
        if rtol is None:
            ctx.equal(a, w, mon, '{}: {}'.format(what, nm))
        else:
            ctx.close(a, w, mon, '{}: {}'.format(what, nm), rtol=rtol)
    cmp(got[0], want[0], 'result')
    for g, w, nm in zip(got[1:], want[1:], ('state', 'costate', 'data')):
        ctx.check(list(g.keys()) == list(w.keys()), mon, '{}: {} blocks'.format(what, nm))
        for bl in w:
            ctx.check(list(g[bl].keys()) == list(w[bl].keys()), mon, '{}: {} entries'.format(what, nm))
            for k in w[bl]:
                cmp(g[bl][k], w[bl][k], '{} {}'.format(nm, k))


def set_times(ctx, b, kind):
    if kind == 'default':
        b.set_integration_time(1.0)
    elif kind == 'end':
        b.set_integration_time(0.5)
    elif kind == 'vector':
        b.set_integration_time_vector(torch.tensor([0.0, 0.25, 1.0]), suppress_warning=True)
    else:
        b.set_integration_time_vector(torch.tensor([0.5, 1.0]), suppress_warning=True)


def one_action(ctx, b, spec, mode):
    acts = ['forward', 'other_parameters', 'other_parameters', 'nograd', 'backward', 'times', 'rng', 'layout', 'rejected', 'penalty', 'zero_grad', 'eval_train', 'to', 'hook', 'nan']
    a = ctx.choice(acts)
    if a == 'forward':
        b(x=spec.data(ctx, ctx.choice([1, 2, 5])))
    elif a == 'nograd':
        with torch.no_grad():
            b(x=spec.data(ctx, 2))
    elif a == 'backward':
        b(x=spec.data(ctx, 2))[0].sum().backward()
    elif a == 'times':
        k = ctx.choice(['default', 'end', 'vector', 'late'])
        set_times(ctx, b, k)
        b(x=spec.data(ctx, 2))
        a += ':' + k
    elif a == 'rng':
        lib.reseed(ctx.rng.randrange(10 ** 6))
    elif a == 'layout':
        if spec.m.conv:
            sh = [s + ctx.choice([0, 1, 2]) for s in spec.size]
            b(x=ctx.randn(2, spec.chan, *sh, scale=0.5))
        else:
            b(x=ctx.randn(2, ctx.choice([1, 2, 3]), 1, spec.size, scale=0.5))
    elif a == 'rejected':
        bad = ctx.choice(['none', 'both'])
        try:
            if bad == 'none':
                b()
            else:
                b(x=spec.data(ctx, 1), pass_through_state_dict_of_dicts=lib.sdod({'z': {}}))
        except ValueError:
            pass
        else:
            ctx.fail('rejected: {} inputs were accepted'.format(bad))
    elif a == 'other_parameters':
        # temporarily other parameter values, then the original ones again
        keep = {n: v.detach().clone() for n, v in b.named_parameters()}
        lib.randomize(b, ctx, scale=0.3)
        with torch.set_grad_enabled(ctx.rng.random() < 0.5):
            b(x=spec.data(ctx, 2))
        with torch.no_grad():
            for n, v in b.named_parameters():
                v.copy_(keep[n])
    elif a == 'penalty':
        b.get_norm_penalty()
    elif a == 'zero_grad':
        clear(b)
    elif a == 'eval_train':
        b.eval() if ctx.rng.random() < 0.5 else b.train()
    elif a == 'to':
        b.to('cpu') if ctx.rng.random() < 0.5 else b.double()
    elif a == 'hook':
        h = b.shooting_integrand.register_lagrangian_gradient_hook(lambda *args: None)
        b(x=spec.data(ctx, 1))
        if ctx.rng.random() < 0.5:
            h.remove()
    elif a == 'nan':
        b(x=spec.data(ctx, 1) * float('nan'))
    return a


@check.scenario(quick=110, thorough=2500, requires=('history_free', 'inputs_unchanged', 'parameters_unchanged'))
def history(ctx):
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    name = ctx.choice(['rk4', 'euler', 'midpoint'])
    ia = dict(name=name, step_size=0.25, adjoint=ctx.rng.random() < 0.2)
    if not ia['adjoint'] and mode != 'frozen' and ctx.rng.random() < 0.2:
        ia['nr_of_checkpoints'] = ctx.choice([1, 3])
    s = ctx.case_seed % 99991
    mk = lambda: lib.block(spec, integ=lib.integrator(**ia), iover=dict(iover), seed=s, **kw)
    a, b = mk(), mk()
    lib.randomize(a, ctx, scale=0.3)
    b.load_state_dict(a.state_dict())
    before = snapshot(a)
    hist = []
    ctx.note(spec=spec.describe(), mode=mode, solver=str(ia), history=hist)
    for _ in range(ctx.choice([1, 3, 6])):
        hist.append(one_action(ctx, a, spec, mode))
    kind = ctx.choice(['default', 'end', 'vector'])
    for bb in (a, b):
        set_times(ctx, bb, kind)
    x = spec.data(ctx, 3)
    x0 = x.clone()
    ob = b(x=x)
    lib.finite_or_skip(ob[0])
    ng = ctx.rng.random() < 0.3
    if ng:
        with torch.no_grad():
            oa = a(x=x)
    else:
        oa = a(x=x)
    same_out(ctx, oa, ob, 'history_free', 'after {}'.format(hist))
    pa, pb = a.get_norm_penalty(), b.get_norm_penalty()
    ctx.equal(pa.reshape(-1), pb.reshape(-1), 'history_free', 'norm penalty')
    ctx.equal(x, x0, 'inputs_unchanged', 'the data was modified')
    for n, p in a.named_parameters():
        ctx.equal(p, before[n], 'parameters_unchanged', 'parameter ' + n)
    # and once more
    same_out(ctx, a(x=x), ob, 'history_free', 'repeated call')
    ctx.key(spec.key(), mode, str(ia), tuple(hist), kind, ng)


@check.scenario(quick=40, thorough=600, requires=('gradient_history_free',))
def gradients(ctx):
    """Gradients do not depend on the history either, and accumulate only through backward."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    s = ctx.case_seed % 99991
    mk = lambda: lib.block(spec, integ=lib.integrator('rk4', step_size=0.5), iover=dict(iover), seed=s, **kw)
    a, b = mk(), mk()
    lib.randomize(a, ctx, scale=0.3)
    b.load_state_dict(a.state_dict())
    hist = [one_action(ctx, a, spec, mode) for _ in range(ctx.choice([1, 3]))]
    clear(a)
    x = spec.data(ctx, 2)
    g = []
    for bb in (a, b):
        set_times(ctx, bb, 'default')
        n0 = [p.grad for _, p in bb.named_parameters()]
        ctx.check(all(v is None for v in n0), 'gradient_history_free', 'gradient present before backward')
        o = bb(x=x)
        lib.finite_or_skip(o[0])
        ctx.check(all(p.grad is None for _, p in bb.named_parameters()), 'gradient_history_free', 'forward call left a gradient')
        ((o[0] ** 2).sum() + bb.get_norm_penalty().sum()).backward()
        g.append({n: p.grad for n, p in bb.named_parameters()})
    for n in g[1]:
        ctx.check((g[0][n] is None) == (g[1][n] is None), 'gradient_history_free', 'gradient of {}'.format(n))
        if g[1][n] is not None:
            ctx.close(g[0][n], g[1][n], 'gradient_history_free', 'gradient of {} after {}'.format(n, hist), rtol=1e-11)
    ctx.note(spec=spec.describe(), mode=mode, history=hist)
    ctx.key(spec.key(), mode, tuple(hist))


@check.scenario(quick=40, thorough=600, requires=('no_cross_talk',))
def interleaved(ctx):
    """Several blocks sharing a solver object (and their construction arguments), called alternately."""
    n = ctx.choice([2, 3])
    name = ctx.choice(['rk4', 'euler'])
    shared = lib.integrator(name, step_size=0.25)
    specs = [rand_spec(ctx, model=ctx.choice(list(R.MODELS)), mag=0.3) for _ in range(n)]
    info = []
    pairs = []
    for i, sp in enumerate(specs):
        mode, iover, kw = modes(ctx, sp)
        s = (ctx.case_seed + i) % 99991
        a = lib.block(sp, integ=shared, iover=dict(iover), seed=s, **kw)
        b = lib.block(sp, integ=lib.integrator(name, step_size=0.25), iover=dict(iover), seed=s, **kw)
        lib.randomize(a, ctx, scale=0.3)
        b.load_state_dict(a.state_dict())
        pairs.append((a, b, sp))
        info.append((sp.describe(), mode))
    ctx.note(blocks=info)
    pend = []
    for _ in range(6):
        i = ctx.rng.randrange(n)
        a, b, sp = pairs[i]
        k = ctx.choice(['default', 'end', 'vector'])
        x = sp.data(ctx, ctx.choice([1, 2]))
        set_times(ctx, a, k)
        set_times(ctx, b, k)
        oa = a(x=x)
        ob = b(x=x)
        lib.finite_or_skip(ob[0])
        pend.append((oa, ob))
    for oa, ob in pend:
        same_out(ctx, oa, ob, 'no_cross_talk', 'alternating calls')
    ctx.key(str(info))


@check.scenario(quick=30, thorough=400, requires=('dictionaries_unchanged', 'history_free_chain'))
def chained(ctx):
    """The second block of a chain: handed-over dictionaries stay as they are; history independent."""
    spec = rand_spec(ctx, mag=0.3)
    own = ctx.rng.random() < 0.6
    f2 = ctx.choice([1, 2]) if own else 0
    sp2 = Spec(spec.model, spec.nl, spec.N, spec.size if spec.m.conv else max(1, f2), max(1, f2) if spec.m.conv else 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3)
    f1 = spec.features
    src = lib.block(spec, name='src')
    lib.randomize(src, ctx, scale=0.3)
    mk = lambda: lib.block(sp2, name='two', in_features=f1 + f2, iover={} if own else lib.continuing(ctx, spec.N))
    a, b = mk(), mk()
    lib.randomize(a, ctx, scale=0.3)
    b.load_state_dict(a.state_dict())
    call = lambda bb, o: bb(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
    hist = []
    for _ in range(ctx.choice([1, 2, 4])):
        bs = ctx.choice([1, 2, 4])
        hist.append(bs)
        if not spec.m.conv and ctx.rng.random() < 0.3:
            o = src(x=ctx.randn(bs, 2, 1, spec.size, scale=0.5))
        else:
            o = src(x=spec.data(ctx, bs))
        r = call(a, o)
        if ctx.rng.random() < 0.4:
            r[0].sum().backward()
    o = src(x=spec.data(ctx, 2))
    ids = [{bl: {k: id(v) for k, v in dd[bl].items()} for bl in dd} for dd in o[1:]]
    snap = [lib.plain(dd) for dd in o[1:]]
    ob = call(b, o)
    lib.finite_or_skip(ob[0])
    oa = call(a, o)
    same_out(ctx, oa, ob, 'history_free_chain', 'after {}'.format(hist))
    for dd, i, s in zip(o[1:], ids, snap):
        ctx.check({bl: {k: id(v) for k, v in dd[bl].items()} for bl in dd} == i, 'dictionaries_unchanged', 'handed-over dictionaries were rearranged')
        for bl in s:
            for k in s[bl]:
                ctx.equal(dd[bl][k], s[bl][k], 'dictionaries_unchanged', k)
    ctx.note(spec=spec.describe(), own=own, history=hist)
    ctx.key(spec.key(), own, f2, tuple(hist))


@check.scenario(quick=24, thorough=300, requires=('precision',))
def precision(ctx):
    """Converting a block between single and double precision carries all of its content along."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    if 'nr_of_particle_free_time_dependent_steps' in kw:
        # interval ends which are the same numbers in both precisions: some evaluations are right at them
        kw['nr_of_particle_free_time_dependent_steps'] = ctx.choice([2, 4, 8, 16])
    torch.set_default_dtype(torch.float32)
    s = ctx.case_seed % 99991
    a = lib.block(spec, integ=lib.integrator('rk4', step_size=0.5), iover=dict(iover), seed=s, **kw)
    lib.randomize(a, ctx, scale=0.3)
    sd = {k: v.double() for k, v in a.state_dict().items()}
    x = spec.data(ctx, 2)
    if ctx.rng.random() < 0.5:
        a(x=x)
    torch.set_default_dtype(torch.float64)
    if ctx.rng.random() < 0.5:
        a.double()
    else:
        a.to(torch.float64)
    b = lib.block(spec, integ=lib.integrator('rk4', step_size=0.5), iover=dict(iover), seed=s, **kw)
    b.load_state_dict(sd)
    kind = ctx.choice(['default', 'vector'])
    ctx.note(spec=spec.describe(), mode=mode, options=str(kw), times=kind)
    for bb in (a, b):
        set_times(ctx, bb, kind)
    oa, ob = a(x=x.double()), b(x=x.double())
    lib.finite_or_skip(ob[0])
    ctx.check(oa[0].dtype == torch.float64, 'precision', 'result has precision {}'.format(oa[0].dtype))
    ctx.close(oa[0], ob[0], 'precision', 'result', rtol=1e-9)
    for k in ob[3]['blk']:
        ctx.close(oa[3]['blk'][k], ob[3]['blk'][k], 'precision', 'data ' + k, rtol=1e-9)
    lib.finite_or_skip(ob[0], bound=10)
    # and back
    torch.set_default_dtype(torch.float32)
    a.float()
    of = a(x=x)
    ctx.check(of[0].dtype == torch.float32, 'precision', 'result has precision {}'.format(of[0].dtype))
    ctx.close(of[0], ob[0], 'precision', 'single precision result', rtol=2e-3, atol=1e-3)
    ctx.key(spec.key(), mode, kind)


@check.scenario(quick=16, thorough=200, requires=('precision',))
def precision_chain(ctx):
    """Chains (joined features, enlarged particles, striding) in single precision: everything stays single and approximates the result in double precision."""
    spec = rand_spec(ctx, mag=0.3)
    conv = spec.m.conv
    sp2 = Spec(spec.model, spec.nl, spec.N + (ctx.choice([0, 1]) if conv else 0), [v + ctx.choice([0, 1, 2]) for v in spec.size] if conv else 1, 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3)
    enlarged = conv and (sp2.N != spec.N or sp2.size != spec.size)
    stride = conv and not enlarged and ctx.rng.random() < 0.5
    s = ctx.case_seed % 99991
    x = ctx.randn(2, spec.chan, *sp2.size, scale=0.5) if conv else spec.data(ctx, 2, scale=0.5)
    if stride:
        sp2 = Spec(spec.model, spec.nl, spec.N, [len(range(v % 2, v, 2)) for v in spec.size], 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3)
    ctx.note(spec=spec.describe(), enlarged=enlarged, stride=stride)

    def chain():
        ig = lambda: lib.integrator('rk4', step_size=0.5)
        a = lib.block(spec, name='one', integ=ig(), seed=s)
        b = lib.block(sp2, name='two', integ=ig(), in_features=spec.features + 1, seed=s + 1)

        def run(x):
            o = a(x=x)
            h = o[1:]
            if stride:
                h = ShootingStridingBlock(stride=2, stride_dims=(2, 3))(*h)
            r = b(data_dict_of_dicts=h[2], pass_through_state_dict_of_dicts=h[0], pass_through_costate_dict_of_dicts=h[1])
            return r, b.get_norm_penalty()
        return a, b, run
    a, b, run = chain()
    run(x)
    for bb in (a, b):
        lib.randomize(bb, ctx, scale=0.3)
        with torch.no_grad():
            for _, p in bb.named_parameters():
                p.copy_(p.float().double())         # values which single precision holds exactly
    x = x.float().double()
    want, pen = run(x)
    lib.finite_or_skip(want[0], bound=5)
    lib.finite_or_skip(*want[1]['two'].values(), *want[2]['two'].values(), bound=5)
    torch.set_default_dtype(torch.float32)
    c, d, run32 = chain()
    run32(x.float())
    for u, v in ((a, c), (b, d)):
        v.load_state_dict({k: t.float() for k, t in u.state_dict().items()})
    got, pen32 = run32(x.float())
    for t, w, n in [(got[0], want[0], 'result'), (pen32.reshape(-1), pen.reshape(-1), 'penalty')] + [(g[bl][k], w[bl][k], k) for g, w in zip(got[1:], want[1:]) for bl in w for k in w[bl]]:
        ctx.check(t.dtype == torch.float32, 'precision', '{} of a chain in single precision is {}'.format(n, t.dtype))
        ctx.close(t.double(), w, 'precision', '{} of a chain in single precision'.format(n), rtol=2e-3, atol=1e-3)
    (got[0] ** 2).sum().backward()
    for bb in (c, d):
        for n, p in bb.named_parameters():
            ctx.check(p.dtype == torch.float32 and (p.grad is None or p.grad.dtype == torch.float32), 'precision', 'gradient of {} of a chain in single precision'.format(n))
    ctx.key(spec.key(), enlarged, stride)


@check.scenario(quick=20, thorough=200, requires=('copied',))
def copies(ctx):
    """A deep copy of a fresh block behaves the same and is independent."""
    spec = rand_spec(ctx, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    a = lib.block(spec, iover=iover, **kw)
    lib.randomize(a, ctx, scale=0.3)
    c = copy.deepcopy(a)
    x = spec.data(ctx, 2)
    oa = a(x=x)
    lib.finite_or_skip(oa[0])
    lib.randomize(a, ctx, scale=0.2)
    same_out(ctx, c(x=x), oa, 'copied', 'copy after changing the original')
    ctx.note(spec=spec.describe(), mode=mode)
    ctx.key(spec.key(), mode)


def laid_out(ctx, x, how):
    """The values of x in another memory layout; also the tensor which owns the memory and the function of it."""
    if how == 'slice':
        big = ctx.randn(*[n + 2 for n in x.shape])
        ix = tuple(slice(1, n + 1) for n in x.shape)
        big[ix] = x
        return big, lambda b: b[ix]
    if how == 'steps':
        big = ctx.randn(*x.shape, 2)
        big[..., 1] = x
        return big, lambda b: b[..., 1]
    if how == 'permuted':
        perm = list(range(x.dim()))
        ctx.rng.shuffle(perm)
        inv = [perm.index(i) for i in range(x.dim())]
        return x.permute(perm).contiguous(), lambda b: b.permute(inv)
    if how == 'channels_last':
        return x.permute(0, 2, 3, 1).contiguous(), lambda b: b.permute(0, 3, 1, 2)
    if how == 'expanded':
        return x[:1].clone(), lambda b: b.expand(*x.shape)
    return x.reshape(-1).clone(), lambda b: b.view(x.shape)


@check.scenario(quick=40, thorough=500, requires=('layout', 'inputs_unchanged'))
def memory_layout(ctx):
    """Views, slices, permuted, expanded memory: only the values matter; gradients reach the memory they came from."""
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.3, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    hows = ['slice', 'steps', 'permuted', 'expanded', 'flat'] + (['channels_last'] if spec.m.conv else [])
    how = ctx.choice(hows)
    s = ctx.case_seed % 99991
    a = lib.block(spec, integ=lib.integrator('rk4', step_size=0.5), iover=dict(iover), seed=s, **kw)
    lib.randomize(a, ctx, scale=0.3)
    times = ctx.choice(['default', 'vector', 'strided'])
    t = torch.tensor([0.0, 0.25, 0.5, 1.0])
    if times == 'vector':
        a.set_integration_time_vector(t, suppress_warning=True)
    x = spec.data(ctx, ctx.choice([1, 2, 4]))
    if how == 'expanded':
        x = x[:1].expand(*x.shape).contiguous()
    ctx.note(spec=spec.describe(), mode=mode, layout=how, times=times)
    if times == 'strided':
        a.set_integration_time_vector(t, suppress_warning=True)
    w = x.clone().requires_grad_()
    want = a(x=w)
    lib.finite_or_skip(want[0])
    c = ctx.randn(*want[0].shape)
    gp = [(n, p) for n, p in a.named_parameters() if p.requires_grad]
    gw = torch.autograd.grad((want[0] * c).sum(), [w] + [p for _, p in gp], allow_unused=True)
    if times == 'strided':      # the same times, every other entry of a longer vector
        tt = torch.stack([t, t + 7.0], 1)[:, 0]
        a.set_integration_time_vector(tt, suppress_warning=True)
    mem, view = laid_out(ctx, x, how)
    if ctx.rng.random() < 0.3:
        for _, p in gp:         # parameters with permuted memory
            if p.dim() > 1:
                p.data = p.data.transpose(0, -1).contiguous().transpose(0, -1)
    mem0 = mem.clone()
    mem.requires_grad_()
    v = view(mem)
    ctx.equal(v.detach(), x, 'layout', 'harness: values')
    got = a(x=v)
    same_out(ctx, got, want, 'layout', how, rtol=1e-9)
    gg = torch.autograd.grad((got[0] * c).sum(), [mem] + [p for _, p in gp], allow_unused=True)
    ref = torch.autograd.grad(view(mem), mem, gw[0])[0]
    ctx.close(gg[0], ref, 'layout', '{}: gradient of the data'.format(how), rtol=1e-8, atol=1e-11)
    for (n, _), g1, g2 in zip(gp, gg[1:], gw[1:]):
        ctx.check((g1 is None) == (g2 is None), 'layout', 'gradient of ' + n)
        if g1 is not None:
            ctx.close(g1, g2, 'layout', '{}: gradient of {}'.format(how, n), rtol=1e-8, atol=1e-11)
    ctx.equal(mem.detach(), mem0, 'inputs_unchanged', 'the memory of the data was modified')
    ctx.key(spec.key(), mode, how, times)


@check.scenario(quick=12, thorough=150, requires=('threads',))
def threads(ctx):
    """Independent blocks used by several threads at the same time return what they return alone."""
    n = ctx.choice([2, 3, 4])
    work, info = [], []
    for i in range(n):
        sp = rand_spec(ctx, model=ctx.choice(list(R.MODELS)), mag=0.3, analytic=ctx.rng.random() < 0.3)
        mode, iover, kw = modes(ctx, sp)
        b = lib.block(sp, integ=lib.integrator(ctx.choice(['rk4', 'euler']), step_size=0.25), iover=dict(iover), seed=(ctx.case_seed + i) % 99991, **kw)
        lib.randomize(b, ctx, scale=0.3)
        work.append((b, [sp.data(ctx, ctx.choice([1, 2, 3])) for _ in range(4)]))
        info.append((sp.describe(), mode))
    ctx.note(blocks=info)

    def use(b, xs):
        out = []
        for j, x in enumerate(xs):
            if j % 2:
                with torch.no_grad():
                    out.append((b(x=x), None))
            else:
                o = b(x=x)
                ps = [p for _, p in b.named_parameters() if p.requires_grad]
                out.append((o, torch.autograd.grad((o[0] ** 2).sum() + b.get_norm_penalty().sum(), ps, allow_unused=True)))
        return out
    alone = [use(b, xs) for b, xs in work]
    for r in alone:
        lib.finite_or_skip(r[-1][0][0])
    got, err = [None] * n, []
    gate = threading.Barrier(n)

    def run(i):
        try:
            torch.set_num_threads(1)
            gate.wait()
            got[i] = use(*work[i])
        except Exception as e:      # noqa
            err.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if err:
        raise err[0]
    for g, w in zip(got, alone):
        for (og, gg), (ow, gw) in zip(g, w):
            same_out(ctx, og, ow, 'threads', 'at the same time as other blocks', rtol=1e-10)
            ctx.check((gg is None) == (gw is None), 'threads', 'gradients')
            for u, v in zip(gg or (), gw or ()):
                ctx.check((u is None) == (v is None), 'threads', 'gradient missing')
                if u is not None:
                    ctx.close(u, v, 'threads', 'gradient', rtol=1e-11)
    ctx.key(str(info))


lib.large(check, [history, gradients], quick=8, thorough=200)
