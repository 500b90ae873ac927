"""C10: particles handed over to a spatially larger block are embedded centred, the surroundings are trainable."""
import itertools
import torch
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, sdod, Spec

check = Check('C10', 'one case = one pair of convolutional blocks with random spatial sizes, channel counts and particle numbers; the particle state seen by the first '
              'evaluation of the receiving block is compared entry by entry with what was handed over and with the registered parameters. Non-trivial: at least one '
              'dimension grows; distinct by model and sizes.',
              ['all registered values are distinct random reals, so that an entry identifies where it came from'])


def conv_spec(ctx, size, chan, N, model=None, infl=None, **kw):
    base = rand_spec(ctx, models=R.CONV, mag=0.4)
    return Spec(model or base.model, base.nl, N, size, chan, infl or base.infl, base.weight, base.opt_weight, False, 0.4, **kw)


def centred(size, diff):
    return tuple(slice(d // 2, d // 2 + s) for s, d in zip(size, diff))


@check.scenario(quick=80, thorough=1500, requires=('centre', 'surroundings', 'parameter_count', 'stable', 'handed_over_gradient'))
def enlarge(ctx):
    s1 = [ctx.rng.randint(2, 4), ctx.rng.randint(2, 4)]
    s2 = [s1[0] + ctx.rng.randint(0, 4), s1[1] + ctx.rng.randint(0, 4)]
    N1 = ctx.choice([1, 2, 3])
    N2 = N1 + (ctx.choice([1, 2]) if ctx.rng.random() < 0.25 else 0)
    spec1 = conv_spec(ctx, s1, ctx.choice([1, 2]), N1)
    m = spec1.m
    spec2 = Spec(spec1.model, spec1.nl, N2, s2, ctx.choice([1, 2]), spec1.infl, spec1.weight, spec1.opt_weight, False, 0.4)
    zero = ctx.rng.random() < 0.3
    n1, n2 = ctx.rng.sample(['one', 'two', 'a9', 'a10'], 2)
    b2 = lib.block(spec2, name=n2, in_features=spec1.chan + spec2.chan, keep_initial_state_parameters_at_zero=zero)
    mk = lambda sp, n: {k: ctx.randn(n, sp.chan * (sp.infl if k in m.inflated else 1), *sp.size, scale=0.5) for k in m.keys}
    q, p = mk(spec1, N1), mk(spec1, N1)
    x = {k: ctx.randn(2, spec1.chan * (spec1.infl if k in m.inflated else 1), *s2, scale=0.5) for k in m.keys}
    own = dict(b2.named_parameters())
    ctx.note(model=spec1.model, from_size=s1, to_size=s2, particles=(N1, N2), channels=(spec1.chan, spec2.chan), zero=zero, names=[n1, n2])

    def run(q, p):
        tr = lib.RhsTrace(b2.shooting_integrand)
        out = b2(data_dict_of_dicts=sdod({n1: x}), pass_through_state_dict_of_dicts=sdod({n1: q}),
                 pass_through_costate_dict_of_dicts=sdod({n1: {'p_' + k: v for k, v in p.items()}}))
        tr.close()
        return out, tr.events[0]
    out, ev = run(q, p)
    after = dict(b2.named_parameters())
    new = {n: v for n, v in after.items() if n not in own}
    with torch.no_grad():
        for n, v in new.items():
            v.copy_(ctx.randn(*v.shape))
    grown = [N2 - N1, 0, s2[0] - s1[0], s2[1] - s1[1]]
    want_new = 0
    for k in m.keys:
        ch = spec1.chan * (spec1.infl if k in m.inflated else 1)
        vol = N2 * ch * s2[0] * s2[1] - N1 * ch * s1[0] * s1[1]
        want_new += vol * (1 if zero else 2)
    got_new = sum(v.numel() for v in new.values())
    ctx.check(got_new == want_new, 'parameter_count', '{} new trainable entries, expected {}'.format(got_new, want_new))
    pool = sorted(v for t in new.values() for v in t.detach().reshape(-1).tolist())
    for trial in range(2):
        if trial:
            q, p = mk(spec1, N1), mk(spec1, N1)
        out, ev = run(q, p)
        ctx.check({n: v.data_ptr() for n, v in b2.named_parameters()} == {n: v.data_ptr() for n, v in after.items()}, 'stable', 'parameters changed with a further forward pass')
        used = []
        for what, src, got in (('state', q, ev['q'][n1]), ('costate', p, lib.strip(ev['p'][n1], 'p_'))):
            for k in m.keys:
                g = got[k]
                size = tuple(src[k].shape)
                target = (N2, size[1], s2[0], s2[1])
                ctx.check(tuple(g.shape) == target, 'centre', '{} {} has shape {}, expected {}'.format(what, k, tuple(g.shape), target))
                sl = centred(size, grown)
                ctx.equal(g[sl], src[k], 'centre', '{} {} handed over'.format(what, k))
                mask = torch.ones(target, dtype=torch.bool)
                mask[sl] = False
                border = g[mask]
                if what == 'state' and zero:
                    ctx.check(bool((border == 0).all()), 'surroundings', 'state surroundings are not zero')
                    ctx.count('zero_surroundings')
                else:
                    used.extend(border.tolist())
        ctx.check(sorted(used) == pool, 'surroundings', 'the surroundings do not consist of every trainable enlargement value exactly once ({} entries, {} values)'.format(len(used), len(pool)))
        # own particles and data unaffected
        np_ = dict(b2.named_parameters())
        for k in m.keys:
            if not zero:
                ctx.equal(ev['q'][n2][k], np_[k], 'own_particles', k)
            else:
                ctx.check(float(ev['q'][n2][k].abs().max()) == 0.0, 'own_particles', 'own state not zero')
            ctx.equal(ev['p'][n2]['p_' + k], np_['p_' + k], 'own_particles', 'p_' + k)
            ctx.equal(ev['x'][n1][k], x[k], 'data_untouched', k)
    # gradients reach what was handed over, as if it had been embedded before
    if out[1][n2]['q1'].abs().max() < 1e3:
        names = ['q ' + k for k in m.keys] + ['p ' + k for k in m.keys]
        objective = lambda o: sum((v ** 2).mean() for dd in o[1:] for v in dd[n2].values())
        lq, lp = {k: v.clone().requires_grad_(True) for k, v in q.items()}, {k: v.clone().requires_grad_(True) for k, v in p.items()}
        call = lambda b, qq, pp: b(data_dict_of_dicts=sdod({n1: x}), pass_through_state_dict_of_dicts=sdod({n1: qq}), pass_through_costate_dict_of_dicts=sdod({n1: {'p_' + k: v for k, v in pp.items()}}))
        l1 = objective(call(b2, lq, lp))
        eq = {k: ev['q'][n1][k].clone().requires_grad_(True) for k in m.keys}
        ep = {k: ev['p'][n1]['p_' + k].clone().requires_grad_(True) for k in m.keys}
        twin = lib.block(spec2, name=n2, in_features=spec1.chan + spec2.chan, keep_initial_state_parameters_at_zero=zero)
        with torch.no_grad():
            for n, v in twin.named_parameters():
                v.copy_(dict(b2.named_parameters())[n])
        l2 = objective(call(twin, eq, ep))
        if bool(torch.isfinite(l1)) and float(l1.detach()) < 1e6:
            g1 = lib.grads(l1, list(zip(names, list(lq.values()) + list(lp.values()))))
            g2 = lib.grads(l2, list(zip(names, list(eq.values()) + list(ep.values()))))
            sc = max(float(v.abs().max()) for v in g2.values())
            for n in names:
                got = torch.zeros_like((lq if n[0] == 'q' else lp)[n[2:]]) if g1[n] is None else g1[n]
                sl = centred(tuple(got.shape), grown)
                ctx.close(got, g2[n][sl], 'handed_over_gradient', 'gradient of handed over ' + n, rtol=1e-8, scale=sc)
    # trainable: all new values receive gradients
    if pool and out[1][n2]['q1'].abs().max() < 1e3:
        loss = sum((v ** 2).sum() for dd in out[1:3] for v in dd[n2].values())
        if bool(torch.isfinite(loss)):
            g = lib.grads(loss, list(new.items()))
            for n in g:
                ctx.check(g[n] is not None and float(g[n].abs().max()) > 0, 'trainable', 'enlargement values {} receive no gradient'.format(n))
    if want_new:
        ctx.key(spec1.model, tuple(s1), tuple(s2), N1, N2, spec1.chan, spec1.infl, zero)


@check.scenario(quick=40, thorough=700, requires=('centre', 'surroundings', 'listed'))
def several_blocks(ctx):
    """Several handed over blocks of different sizes at once: each is embedded by itself, with trainable values of its own."""
    n = ctx.choice([2, 2, 3])
    names = ctx.rng.sample(['one', 'two', 'a9', 'a10', 'p', 'q1', 'one_p', 'layer.0'], n + 1)
    name = names[n]
    s2 = [ctx.rng.randint(4, 6), ctx.rng.randint(4, 6)]
    N2 = ctx.choice([1, 2, 3])
    base = conv_spec(ctx, s2, ctx.choice([1, 2]), N2)
    m = base.m
    zero = ctx.rng.random() < 0.3
    shapes = {nm: (ctx.rng.randint(1, N2), ctx.choice([1, 2]), [s2[0] - ctx.rng.randint(0, 3), s2[1] - ctx.rng.randint(0, 3)]) for nm in names[:n]}
    b = lib.block(base, name=name, in_features=base.chan + sum(sh[1] for sh in shapes.values()), keep_initial_state_parameters_at_zero=zero)
    mk = lambda N, ch, size: {k: ctx.randn(N, ch * (base.infl if k in m.inflated else 1), *size, scale=0.5) for k in m.keys}
    own = dict(b.named_parameters())
    x = {nm: mk(2, sh[1], s2) for nm, sh in shapes.items()}
    ctx.note(model=base.model, to=(N2, s2), received={k: str(v) for k, v in shapes.items()}, zero=zero, name=name)

    def run(q, p):
        tr = lib.RhsTrace(b.shooting_integrand)
        out = b(data_dict_of_dicts=sdod(x), pass_through_state_dict_of_dicts=sdod(q),
                pass_through_costate_dict_of_dicts=sdod({nm: {'p_' + k: v for k, v in d.items()} for nm, d in p.items()}))
        tr.close()
        return out, tr.events[0]
    q, p = ({nm: mk(*sh) for nm, sh in shapes.items()} for _ in range(2))
    run(q, p)
    new = {k: v for k, v in b.named_parameters() if k not in own}
    with torch.no_grad():
        for v in new.values():
            v.copy_(ctx.randn(*v.shape))
    pool = sorted(v for t in new.values() for v in t.detach().reshape(-1).tolist())
    want_new = 0
    for nm, (N1, ch, s1) in shapes.items():
        for k in m.keys:
            g = ch * (base.infl if k in m.inflated else 1)
            want_new += (N2 * g * s2[0] * s2[1] - N1 * g * s1[0] * s1[1]) * (1 if zero else 2)
    ctx.check(len(pool) == want_new, 'listed', '{} trainable enlargement entries listed, expected {}'.format(len(pool), want_new))
    q, p = ({nm: mk(*sh) for nm, sh in shapes.items()} for _ in range(2))
    out, ev = run(q, p)
    used = []
    for nm, (N1, ch, s1) in shapes.items():
        for what, src, got in (('state', q[nm], ev['q'][nm]), ('costate', p[nm], lib.strip(ev['p'][nm], 'p_'))):
            for k in m.keys:
                g, size = got[k], tuple(src[k].shape)
                target = (N2, size[1], s2[0], s2[1])
                ctx.check(tuple(g.shape) == target, 'centre', '{} {} of {} has shape {}, expected {}'.format(what, k, nm, tuple(g.shape), target))
                sl = centred(size, [N2 - N1, 0, s2[0] - s1[0], s2[1] - s1[1]])
                ctx.equal(g[sl], src[k], 'centre', '{} {} of {}'.format(what, k, nm))
                mask = torch.ones(target, dtype=torch.bool)
                mask[sl] = False
                if what == 'state' and zero:
                    ctx.check(bool((g[mask] == 0).all()), 'surroundings', 'state surroundings are not zero')
                else:
                    used.extend(g[mask].tolist())
    ctx.check(sorted(used) == pool, 'surroundings', 'the surroundings do not consist of every listed enlargement value exactly once ({} entries, {} values)'.format(len(used), len(pool)))
    ctx.key(base.model, N2, tuple(s2), str(shapes), zero)


@check.scenario(quick=24, thorough=300, requires=('too_small', 'disabled', 'vector'))
def limits(ctx):
    s1 = [3, 4]
    spec1 = conv_spec(ctx, s1, 1, 2)
    m = spec1.m
    mk = lambda n, size: {k: ctx.randn(n, spec1.infl if k in m.inflated else 1, *size, scale=0.5) for k in m.keys}
    args = lambda size, dsize: dict(data_dict_of_dicts=sdod({'a': mk(2, dsize)}), pass_through_state_dict_of_dicts=sdod({'a': mk(2, size)}),
                                    pass_through_costate_dict_of_dicts=sdod({'a': {'p_' + k: v for k, v in mk(2, size).items()}}))
    sp = lambda size, n=2: Spec(spec1.model, spec1.nl, n, size, 1, spec1.infl, spec1.weight, spec1.opt_weight, False, 0.4)
    small = ctx.choice([[2, 4], [3, 3], [2, 9], [9, 2]])
    ctx.expect_raises(lambda: lib.block(sp(small), name='b', in_features=2)(**args(s1, small)), ValueError, 'too_small', 'particles larger than the receiving block ({} into {})'.format(s1, small))
    one = ctx.choice([s1, [4, 5], [6, 8], [9, 9]])
    ctx.expect_raises(lambda: lib.block(sp(one, 1), name='b', in_features=2)(**args(s1, ctx.choice([s1, one]))), ValueError, 'too_small', 'more particles than the receiving block has')
    big = ctx.choice([[4, 4], [3, 5]])
    ctx.expect_raises(lambda: lib.block(sp(big), name='b', in_features=2, enlarge_pass_through_states_and_costates=False)(**args(s1, big)), Exception, 'disabled', 'mismatching sizes without enlargement')
    b = lib.block(sp(s1), name='b', in_features=2, enlarge_pass_through_states_and_costates=ctx.rng.random() < 0.5)
    n0 = len(list(b.named_parameters()))
    b(**args(s1, s1))
    ctx.check(len(list(b.named_parameters())) == n0, 'no_growth', 'equal sizes create parameters')
    # vector blocks never enlarge
    vs = rand_spec(ctx, models=R.VECTOR, mag=0.3)
    b1, b2 = lib.block(vs, name='a'), lib.block(vs, name='b', in_features=2 * vs.size)
    n0 = len(list(b2.named_parameters()))
    r, s, c, d = b1(x=vs.data(ctx, 2))
    b2(data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c)
    ctx.check(len(list(b2.named_parameters())) == n0, 'vector', 'vector block created enlargement parameters')
    ctx.key(spec1.model, tuple(small), tuple(big), vs.model)
