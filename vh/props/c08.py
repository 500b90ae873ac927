"""C08: flattening states, costates and data into one vector loses and mixes nothing."""
import torch
from sortedcontainers import SortedDict
import neuro_shooting.state_costate_and_data_dictionary_utils as scd
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, sdod

check = Check('C08', 'one case = one generated set of named blocks with tensors of arbitrary shapes; it is flattened, unflattened (with and without a leading '
              'time dimension) and tracked entry by entry. Non-trivial: at least two tensors; distinct by structure.',
              ['every entry gets a unique value, so that misplaced entries cannot go unnoticed'])


def structure(ctx, nblocks, nkeys, prefix):
    names = ctx.rng.sample(['a', 'b10', 'b2', 'Zed', 'shooting_layer_0_1', 'm', '7'], nblocks)
    return {n: {prefix + k: tuple(ctx.rng.randint(1, 4) for _ in range(ctx.rng.randint(1, 5)))
                for k in ctx.rng.sample(['q1', 'q2', 'q10', 'aux'], nkeys)} for n in names}


def fill(ctx, struct, start):
    out, i = {}, start
    for b in ctx.rng.sample(list(struct), len(struct)):
        out[b] = {}
        for k in ctx.rng.sample(list(struct[b]), len(struct[b])):
            n = 1
            for v in struct[b][k]:
                n *= v
            t = torch.arange(i, i + n, dtype=torch.get_default_dtype()).reshape(struct[b][k])
            if ctx.rng.random() < 0.4 and t.dim() > 1:      # non-contiguous memory
                t = t.transpose(0, -1).contiguous().transpose(0, -1)
            out[b][k] = t
            i += n
    return sdod(out), i


@check.scenario(quick=120, thorough=4000, requires=('round_trip', 'entries_once', 'time_round_trip', 'linear'))
def vectorise(ctx):
    structs, groups, i = [], [], 1
    for pre in ('', 'p_', ''):
        st = structure(ctx, ctx.rng.randint(1, 4), ctx.rng.randint(1, 3), pre)
        d, i = fill(ctx, st, i)
        structs.append(st)
        groups.append(d)
    use_integrand = ctx.rng.random() < 0.5
    if use_integrand:
        f = lib.Spec('simple').integrand()
        vec, plans = f.assemble_tensor(*groups)
        if ctx.rng.random() < 0.5:
            f.set_auto_assembly_plans(plans)
            back = lambda v, dim: f.disassemble_tensor(v, dim=dim)
        else:
            back = lambda v, dim: f.disassemble_tensor(v, assembly_plans=plans, dim=dim)
    else:
        vec, plans = scd.assemble_tensor(*groups)
        back = lambda v, dim: scd.disassemble_tensor(v, assembly_plans=plans, dim=dim)
    ctx.note(structure=[str(s) for s in structs], via='integrand' if use_integrand else 'functions')
    ctx.check(vec.dim() == 1 and sorted(vec.tolist()) == [float(v) for v in range(1, i)], 'entries_once', 'vector of {} entries, expected every one of {} values once'.format(vec.numel(), i - 1))

    def same(got, want, monitor, shift=None):
        ctx.check(len(got) == 3, monitor, 'three groups expected')
        for g, w in zip(got, want):
            ctx.check(list(g.keys()) == sorted(w.keys()), monitor, lambda: 'blocks {} expected {}'.format(list(g), sorted(w)))
            for b in w:
                ctx.check(list(g[b].keys()) == sorted(w[b].keys()), monitor, lambda: 'keys {} expected {}'.format(list(g[b]), sorted(w[b])))
                for k in w[b]:
                    ctx.equal(g[b][k], w[b][k] if shift is None else shift(w[b][k]), monitor, '{} {}'.format(b, k))
    same(back(vec, 0), groups, 'round_trip')
    T = ctx.rng.randint(1, 5)
    off = torch.arange(T, dtype=vec.dtype) * 1e4
    mat = vec[None, :] + off[:, None]
    same(back(mat, 1), groups, 'time_round_trip', lambda w: w[None] + off.reshape([T] + [1] * w.dim()))
    # an arbitrary vector is unflattened and flattened back unchanged
    v = torch.randn_like(vec)
    s, c, d = back(v, 0)
    v2, _ = scd.assemble_tensor(s, c, d)
    ctx.equal(v2, v, 'round_trip', 'arbitrary vector')
    # inputs are not modified, and derivatives pass one to one
    leaf = [{b: {k: t.clone().requires_grad_(True) for k, t in g[b].items()} for b in g} for g in groups]
    vv, _ = scd.assemble_tensor(*[sdod(g) for g in leaf])
    w = torch.randn_like(vv)
    (vv * w).sum().backward()
    ws, wc, wd = back(w, 0)
    for g, wg in zip(leaf, (ws, wc, wd)):
        for b in g:
            for k in g[b]:
                ctx.equal(g[b][k].grad, wg[b][k], 'linear', 'derivative of {} {}'.format(b, k))
    ctx.expect_raises(lambda: scd.disassemble_tensor(vec, assembly_plans=plans, dim=2), ValueError, 'rejected', 'dim=2')
    ctx.key(str(structs), use_integrand)


@check.scenario(quick=40, thorough=800, requires=('round_trip', 'entries_count', 'shared_gradient'))
def shared_memory(ctx):
    """Entries which are the same tensor, or views of one memory, or empty, are still separate entries."""
    base = ctx.randn(ctx.rng.randint(1, 4), ctx.rng.randint(1, 3), ctx.rng.randint(1, 5), ctx.rng.randint(1, 5)).requires_grad_(True)
    view = lambda: ctx.choice([lambda: base, lambda: base.transpose(-1, -2), lambda: base[:, :1], lambda: base.flip(2), lambda: base[:1].expand(3, -1, -1, -1), lambda: base[:0]])()
    groups = []
    for pre in ('', 'p_', ''):
        groups.append({n: {pre + k: view() for k in ('q1', 'q2', 'q3')[:ctx.rng.randint(1, 3)]} for n in ('a', 'b', 'c')[:ctx.rng.randint(1, 3)]})
    vec, plans = scd.assemble_tensor(*[sdod(g) for g in groups])
    n = sum(v.numel() for g in groups for d in g.values() for v in d.values())
    ctx.check(tuple(vec.shape) == (n,), 'entries_count', '{} entries for {} values'.format(tuple(vec.shape), n))
    back = scd.disassemble_tensor(vec, assembly_plans=plans, dim=0)
    for g, w in zip(back, groups):
        for b in w:
            for k in w[b]:
                ctx.equal(g[b][k], w[b][k], 'round_trip', '{} {}'.format(b, k))
    w = ctx.randn(n)
    got, = torch.autograd.grad((vec * w).sum(), base, allow_unused=True)
    parts = scd.disassemble_tensor(w, assembly_plans=plans, dim=0)
    want, = torch.autograd.grad(sum((v * parts[i][b][k]).sum() for i, g in enumerate(groups) for b, d in g.items() for k, v in d.items()), base, allow_unused=True)
    ctx.close(got, want, 'shared_gradient', 'gradient for shared memory', rtol=1e-12)
    ctx.note(sizes=[{b: {k: list(v.shape) for k, v in d.items()} for b, d in g.items()} for g in groups])
    ctx.key(str(ctx.info))


@check.scenario(quick=40, thorough=800, requires=('tuple_round_trip',))
def tuples(ctx):
    """Conversion between tuples (used for derivatives) and named dictionaries."""
    st = structure(ctx, ctx.rng.randint(1, 4), ctx.rng.randint(1, 3), '')
    d, n = fill(ctx, st, 1)
    tup = scd.compute_tuple_from_generic_dict_of_dicts(d)
    pre = ctx.choice(['', 'dot_', 'grad_'])
    back = scd.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(tup, d, prefix=pre)
    ctx.check(list(back.keys()) == sorted(st), 'tuple_round_trip', 'blocks')
    for b in d:
        ctx.check(list(back[b].keys()) == sorted(pre + k for k in d[b]), 'tuple_round_trip', 'keys')
        for k in d[b]:
            ctx.equal(back[b][pre + k], d[b][k], 'tuple_round_trip', k)
        one = scd.compute_tuple_from_generic_dict(d[b])
        bk = scd.extract_dict_from_tuple_based_on_generic_dict(one, d[b], prefix=pre)
        for k in d[b]:
            ctx.equal(bk[pre + k], d[b][k], 'tuple_round_trip', k)
    spec = rand_spec(ctx)
    par = spec.integrand().create_default_parameter_objects()
    tup = scd.compute_tuple_from_parameter_objects(par)
    bk = scd.extract_dict_from_tuple_based_on_parameter_objects(tup, par, prefix=pre)
    ref = spec.ref().zero_theta()
    n = 0
    for l in ref:
        for k in ref[l]:
            got = bk[l][pre + k] if pre + k in bk[l] else None
            ctx.check(got is not None and tuple(got.shape) == tuple(ref[l][k].shape), 'tuple_round_trip', 'parameter {} {}'.format(l, k))
            ctx.equal(got, par[l].get_parameter_dict()[k], 'tuple_round_trip', 'parameter {} {}'.format(l, k))
            n += 1
    ctx.check(len(tup) == n, 'tuple_round_trip', 'number of parameters')
    ctx.key(str(st), spec.model, pre)


@check.scenario(quick=36, thorough=500, requires=('integrator_sees_initial', 'returned_is_disassembled'))
def through_integration(ctx):
    """In a real run the solver sees the flattened initial values and what is returned is the unflattened solution."""
    spec = rand_spec(ctx)
    b = lib.block(spec)
    lib.randomize(b, ctx, scale=0.4)
    tr = lib.RhsTrace(b.shooting_integrand)
    x = spec.data(ctx, ctx.choice([1, 3]))
    times = ctx.rng.random() < 0.5
    T = torch.tensor([0.0, 0.25, 1.0])
    if times:
        b.set_integration_time_vector(T, suppress_warning=True)
    r, s, c, d = b(x=x)
    lib.finite_or_skip(r)
    tr.close()
    t0, raw, _ = tr.raw[0]
    q0, p0 = lib.get_state(b, spec)
    groups = (q0, p0, spec.lift(x))
    want = torch.cat([g[k].reshape(-1) for g in groups for k in sorted(g)])
    ctx.equal(raw, want, 'integrator_sees_initial', 'initial vector')
    ev = tr.events[0]
    for g, w in zip((ev['q'], lib_strip(ev['p']), ev['x']), groups):
        for k in w:
            ctx.equal(g['blk'][k], w[k], 'integrator_sees_initial', k)
    i = 0 if times else None
    if times:
        for g, w in zip((s, lib_strip(c), d), groups):
            for k in w:
                ctx.equal(g['blk'][k][0], w[k], 'returned_is_disassembled', k)
    else:
        b.set_integration_time_vector(torch.tensor([0.0, 1.0]), suppress_warning=True)
        r2, s2, c2, d2 = b(x=x)
        for g, w in zip((s2, c2, d2), (s, c, d)):
            for k in w['blk']:
                ctx.close(w['blk'][k], g['blk'][k][-1], 'returned_is_disassembled', k, rtol=1e-9)
    ctx.note(spec=spec.describe())
    ctx.key(spec.key(), times)


def lib_strip(p):
    return {b: lib.strip(p[b], 'p_') for b in p}


lib.large(check, [through_integration], quick=8, thorough=200)
