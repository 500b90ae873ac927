"""C11: striding subsamples state, costate and data alike."""
import torch
from neuro_shooting.striding_block import ShootingStridingBlock
from vh import lib, ref as R
from vh.core import Check
from vh.lib import sdod, rand_spec

check = Check('C11', 'one case = one striding configuration and one set of state/costate/data tensors with unique entries; the entries returned identify the positions '
              'kept. Non-trivial: at least one stride larger than one; distinct by shapes, strides and dimensions.',
              ['expected positions: per strided dimension of length L and stride s the indices L mod s, L mod s + s, ...'])


def uniq(shape, start):
    n = 1
    for v in shape:
        n *= v
    return torch.arange(start, start + n, dtype=torch.float64).reshape(shape)


def want(t, dims, strides, off=0):
    for d, s in zip(dims, strides):
        L = t.shape[d + off]
        t = t.index_select(d + off, torch.tensor(list(range(L % s, L, s)), dtype=torch.long))
    return t


@check.scenario(quick=120, thorough=4000, requires=('kept_positions', 'structure'))
def positions(ctx):
    nd = ctx.choice([3, 4, 4, 5])
    extra = ctx.choice([0, 0, 1, 2, 3][:8 - nd])      # striding is supported up to dimension five
    dims = ctx.rng.sample(range(2, nd), ctx.rng.randint(1, nd - 2))
    as_int = len(dims) == 1 and ctx.rng.random() < 0.4
    strides = [ctx.rng.randint(1, 4) for _ in dims]
    form = ctx.choice(['int', 'list', 'tuple'])
    if form == 'int':
        strides = [strides[0]] * len(dims)
        sarg = strides[0]
    else:
        sarg = tuple(strides) if form == 'tuple' else list(strides)
    darg = dims[0] if as_int else ctx.choice([tuple, list])(dims)
    blk = ShootingStridingBlock(stride=sarg, stride_dims=darg)
    names = ctx.rng.sample(['a', 'b', 'c'], ctx.rng.randint(1, 3))
    keys = ctx.rng.sample(['q1', 'q2', 'q3'], ctx.rng.randint(1, 3))
    spatial = [ctx.rng.randint(4, 9) if ctx.rng.random() < 0.75 else ctx.rng.randint(1, 4) for _ in range(nd - 2)]
    N, B = ctx.rng.randint(1, 3), ctx.rng.randint(1, 4)
    if nd < 5 and ctx.rng.random() < 0.2:      # many particles and samples, long dimensions
        N, B = ctx.choice([3, 33]), ctx.choice([4, 65])
        spatial[0] = ctx.rng.randint(10, 40)
    single = ctx.rng.random() < 0.2
    i = 1
    groups = []
    for g, lead in (('s', [N]), ('c', [N]), ('d', [B] + [ctx.rng.randint(1, 3)] * extra)):
        dd = {}
        for n in names:
            dd[n] = {}
            for k in keys:
                sp = list(spatial)
                if ctx.rng.random() < 0.3 and g == 'd':
                    sp = [v + 1 for v in sp]
                shape = lead + [ctx.rng.randint(1, 3)] + sp
                dd[n][('p_' if g == 'c' else '') + k] = uniq(shape, i).float() if single else uniq(shape, i)
                i += 1000
        if ctx.rng.random() < 0.25:     # entries which are views of one memory
            for n in names:
                ks = sorted(dd[n])
                for k, l in zip(ks, ks[1:]):
                    t = dd[n][k]
                    dd[n][l] = ctx.choice([lambda: t, lambda: t.transpose(-1, -2) if nd > 3 else t[:, :1], lambda: t[:, :1], lambda: t.flip(-1)])()
        if ctx.rng.random() < 0.15 and groups and g == 'c':     # costates which are the states
            dd = {n: {'p_' + k: v.transpose(-1, -2) if nd > 3 else v for k, v in groups[0][n].items()} for n in names}
        groups.append(dd)
    ins = [sdod(g) for g in groups]
    keep = [{n: {k: v.clone() for k, v in g[n].items()} for n in g} for g in groups]
    ctx.note(dims=dims, strides=strides, form=form, spatial=spatial, extra=extra)
    pos = ctx.rng.random() < 0.5
    out = blk(*ins) if pos else blk(state_dict_of_dicts=ins[0], costate_dict_of_dicts=ins[1], data_dict_of_dicts=ins[2])
    for g, (o, w) in enumerate(zip(out, groups)):
        ctx.check(list(o.keys()) == sorted(w.keys()), 'structure', 'block names')
        for n in w:
            ctx.check(list(o[n].keys()) == sorted(w[n].keys()), 'structure', 'keys')
            for k in w[n]:
                ctx.equal(o[n][k], want(w[n][k], dims, strides, extra if g == 2 else 0), 'kept_positions', '{} {} {}'.format('state costate data'.split()[g], n, k))
                ctx.equal(ins[g][n][k], keep[g][n][k], 'inputs_untouched', k)
    if any(s > 1 for s in strides):
        ctx.key(tuple(dims), tuple(strides), form, tuple(spatial), extra)


@check.scenario(quick=24, thorough=300, requires=('rejected',))
def rejects(ctx):
    mk = lambda nd: sdod({'a': {'q1': torch.zeros([2] * 2 + [6] * (nd - 2))}})
    run = lambda stride, dims, nd: ShootingStridingBlock(stride=stride, stride_dims=dims)(mk(nd), mk(nd), mk(nd))
    for d in (0, 1):
        ctx.expect_raises(lambda: run(2, d, 4), ValueError, 'rejected', 'striding dimension {}'.format(d))
        ctx.expect_raises(lambda: run([2, 2], [2, d], 4), ValueError, 'rejected', 'striding dimensions (2,{})'.format(d))
    nd = ctx.choice([3, 4, 5])
    ctx.expect_raises(lambda: run(2, nd + ctx.choice([0, 1]), nd), Exception, 'rejected', 'dimension beyond the tensor')
    ctx.expect_raises(lambda: ShootingStridingBlock(stride=ctx.choice([[2], (2, 2, 2)]), stride_dims=[2, 3]), ValueError, 'rejected', 'number of strides differs from number of dimensions')
    ctx.expect_raises(lambda: ShootingStridingBlock(stride=ctx.choice([2.0, '2', None]), stride_dims=[2]), ValueError, 'rejected', 'stride type')
    ctx.expect_raises(lambda: ShootingStridingBlock(stride=2, stride_dims=ctx.choice([2.0, '2', None])), ValueError, 'rejected', 'dimension type')
    # dimensions the implementation does not know: an error or the right values, never something else
    big = uniq([2, 1] + [3, 2, 4, 2, 5][:ctx.choice([4, 5])], 1)
    d = big.dim() - 1
    try:
        o = ShootingStridingBlock(stride=2, stride_dims=d)(*[sdod({'a': {'q1': big}}) for _ in range(3)])
    except ValueError:
        ctx.count('rejected')
    else:
        for g in o:
            ctx.equal(g['a']['q1'], want(big, [d], [2]), 'kept_positions', 'dimension {}'.format(d))
    ctx.key(nd, ctx.idx)


@check.scenario(quick=24, thorough=300, requires=('chain_striding', 'gradient'))
def in_chain(ctx):
    """Between two blocks: the next block starts from exactly the subsampled values; derivatives reach the kept positions only."""
    spec = rand_spec(ctx, models=R.CONV, size=ctx.choice([[6, 5], [4, 7], [6, 6]]), mag=0.3)
    b1 = lib.block(spec, name='a')
    lib.randomize(b1, ctx, scale=0.3)
    st = [ctx.choice([1, 2, 3]), ctx.choice([2, 3])]
    blk = ShootingStridingBlock(stride=st, stride_dims=[2, 3])
    r, s, c, d = b1(x=spec.data(ctx, 2, scale=0.5))
    lib.finite_or_skip(r, bound=100)
    s2, c2, d2 = blk(s, c, d)
    b2 = lib.block(spec, name='b', iover=dict(is_pass_through=True))
    tr = lib.RhsTrace(b2.shooting_integrand)
    b2(data_dict_of_dicts=d2, pass_through_state_dict_of_dicts=s2, pass_through_costate_dict_of_dicts=c2)
    ev = tr.events[0]
    for g, w in ((ev['q'], s), (ev['p'], c), (ev['x'], d)):
        for k in w['a']:
            ctx.equal(g['a'][k], want(w['a'][k].detach(), [2, 3], st), 'chain_striding', k)
    x = uniq((2, 1, 6, 5), 1).requires_grad_(True)
    o = blk(sdod({'a': {'q1': x}}), sdod({'a': {'p_q1': x}}), sdod({'a': {'q1': x}}))
    sum(v.sum() for g in o for v in g['a'].values()).backward()
    m = torch.zeros_like(x)
    kept = want(x.detach(), [2, 3], st).reshape(-1).long() - 1
    m.view(-1)[kept] = 3.0
    ctx.equal(x.grad, m, 'gradient', 'derivative of the subsampled values')
    ctx.note(spec=spec.describe(), stride=st)
    ctx.key(spec.key(), tuple(st))
