"""C09: blocks chained through state, costate and data behave like one flow on the joined features."""
import torch
from sortedcontainers import SortedDict
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec, sdod, Spec, strip

check = Check('C09', 'one case = one chain of blocks (own particles and/or pure continuation, random block names and feature sizes, end time or time vector); '
              'every value passed on and returned is compared with the reference flow on the joined features. Non-trivial: at least two blocks; distinct by chain.',
              ['joined features are ordered by block name (the order of the named dictionaries)', 'fixed-step solvers with exactly representable steps'])


def cat_sorted(parts, dim):
    names = sorted(parts)
    return {k: torch.cat([parts[n][k] for n in names], dim=dim) for k in parts[names[0]]}


@check.scenario(quick=80, thorough=1500, requires=('chain_result', 'chain_state', 'chain_costate', 'chain_data'))
def chain(ctx):
    first = rand_spec(ctx, mag=0.3)
    m = first.m
    dim = 1 if m.conv else 2
    n = ctx.choice([2, 2, 3, 4])
    names = ctx.rng.sample(['b1', 'b2', 'b10', 'A', 'zz', 'layer_0_1', 'layer_0_0'], n)
    h = 0.25
    B = ctx.choice([1, 3])
    cur_q = cur_p = cur_x = None
    feats = 0
    desc = []
    prev_name, out = None, None
    for i, name in enumerate(names):
        own = i == 0 or ctx.rng.random() < 0.6
        f = (first.chan if m.conv else first.size) if i == 0 else (ctx.choice([1, 2]) if own else 0)
        sp = Spec(first.model, first.nl, first.N, first.size if m.conv else max(f, 1), (f or 1) if m.conv else first.chan, first.infl, first.weight, first.opt_weight, False, 0.3)
        feats += f
        meth = ctx.choice(['rk4', 'euler', 'midpoint'])
        b = lib.block(sp, name=name, integ=lib.integrator(meth, step_size=h), in_features=feats, iover={} if own else lib.continuing(ctx, first.N))
        lib.randomize(b, ctx, scale=0.3)
        T = ctx.choice([0.25, 0.5])
        b.set_integration_time(T)
        last = i == n - 1
        vec = last and ctx.rng.random() < 0.5
        times = torch.tensor([0.0, T])
        if vec:
            times = torch.tensor([0.0, T / 2, T])
            b.set_integration_time_vector(times, suppress_warning=True)
        if i == 0:
            q0, p0 = lib.get_state(b, sp)
            x = first.data(ctx, B, scale=0.5)
            x0 = first.lift(x)
            out = b(x=x)
        else:
            parts_q, parts_p, parts_x = {prev_name: cur_q}, {prev_name: cur_p}, {prev_name: cur_x}
            if own:
                qo, po = lib.get_state(b, sp)
                parts_q[name], parts_p[name] = qo, po
                z = {}
                for k in m.keys:
                    g = f * (first.infl if k in m.inflated else 1)
                    shp = list(cur_x[k].shape)
                    shp[dim] = g
                    z[k] = torch.zeros(shp)
                parts_x[name] = z
            q0, p0, x0 = cat_sorted(parts_q, dim), cat_sorted(parts_p, dim), cat_sorted(parts_x, dim)
            r, s, c, d = out
            before = {g: {k: v.clone() for k, v in dd[prev_name].items()} for g, dd in (('s', s), ('c', c), ('d', d))}
            out = b(data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c)
            for g, dd in (('s', s), ('c', c), ('d', d)):
                ctx.check(list(dd.keys()) == [prev_name], 'inputs_untouched', 'handed over dictionaries changed')
                for k in before[g]:
                    ctx.equal(dd[prev_name][k], before[g][k], 'inputs_untouched', k)
        sol = R.integrate_ref(R.Ref(first.model, first.nl, feats, first.infl, first.weight, first.opt_weight), q0, p0, x0, times, method=meth, options={'step_size': h})
        for part in sol[-1]:
            lib.finite_or_skip(*part.values(), bound=100)
        r, s, c, d = out
        desc.append((name, 'own' if own else 'continue', f, meth, T, vec))
        ctx.note(chain=desc, model=first.describe())
        for dd in (s, c, d):
            ctx.check(list(dd.keys()) == [name], 'chain_structure', 'returned blocks {} expected [{}]'.format(list(dd.keys()), name))
        for j in (range(len(times)) if vec else [len(times) - 1]):
            pick = (lambda v: v[j]) if vec else (lambda v: v)
            w = sol[j]
            ctx.close(pick(r), w[2]['q1'], 'chain_result', 'result of {} at time {}'.format(name, float(times[j])), rtol=1e-7, atol=1e-8)
            for k in m.keys:
                ctx.close(pick(s[name][k]), w[0][k], 'chain_state', 'state {} of {}'.format(k, name), rtol=1e-7, atol=1e-8)
                ctx.close(pick(c[name]['p_' + k]), w[1][k], 'chain_costate', 'costate {} of {}'.format(k, name), rtol=1e-7, atol=1e-8)
                ctx.close(pick(d[name][k]), w[2][k], 'chain_data', 'data {} of {}'.format(k, name), rtol=1e-7, atol=1e-8)
        cur_q = {k: s[name][k].detach() for k in m.keys}
        cur_p = {k: c[name]['p_' + k].detach() for k in m.keys}
        cur_x = {k: d[name][k].detach() for k in m.keys}
        prev_name = name
    ctx.key(first.key(), str(desc))


@check.scenario(quick=48, thorough=900, requires=('joined_result', 'joined_state', 'joined_costate', 'joined_data', 'joined_penalty'))
def several_received(ctx):
    """States, costates and data of several earlier blocks at once are one system, joined in block-name order."""
    first = rand_spec(ctx, mag=0.3, individual=True)
    m = first.m
    dim = 1 if m.conv else 2
    n = ctx.choice([2, 2, 3])
    names = ctx.rng.sample(['b1', 'b2', 'b10', 'A', 'zz', 'layer_0_1', 'layer_0_0', 'a.b', 'x'], n + 1)
    own = ctx.rng.random() < 0.6
    B = ctx.choice([1, 3])
    fs = {nm: ctx.choice([1, 2]) for nm in names[:n]}
    name = names[n]

    def values(f, count):
        out = {}
        for k in m.keys:
            g = f * (first.infl if k in m.inflated else 1)
            out[k] = ctx.randn(count, g, *first.size, scale=0.4) if m.conv else ctx.randn(count, 1, g, scale=0.4)
        return out
    parts_q, parts_p, parts_x = ({nm: values(f, N) for nm, f in fs.items()} for N in (first.N, first.N, B))
    f_own = ctx.choice([1, 2]) if own else 0
    feats = sum(fs.values()) + f_own
    sp = Spec(first.model, first.nl, first.N, first.size if m.conv else max(f_own, 1), max(f_own, 1) if m.conv else 1, first.infl, first.weight, first.opt_weight, first.analytic, 0.3, first.pw)
    meth, h = ctx.choice(['rk4', 'euler', 'midpoint']), 0.25
    b = lib.block(sp, name=name, integ=lib.integrator(meth, step_size=h), in_features=feats, iover={} if own else lib.continuing(ctx, first.N))
    lib.randomize(b, ctx, scale=0.3)
    T = ctx.choice([0.25, 0.75])
    b.set_integration_time(T)
    vec = ctx.rng.random() < 0.3
    times = torch.tensor([0.0, T])
    if vec:
        b.set_integration_time_vector(times, suppress_warning=True)
    args = dict(data_dict_of_dicts=sdod(parts_x), pass_through_state_dict_of_dicts=sdod(parts_q),
                pass_through_costate_dict_of_dicts=sdod({nm: {'p_' + k: v for k, v in d.items()} for nm, d in parts_p.items()}))
    raw = ctx.rng.random() < 0.3      # new raw data transported by received particles
    if raw:
        x = ctx.randn(B, feats, *first.size, scale=0.4) if m.conv else ctx.randn(B, 1, feats, scale=0.4)
        args['x'] = x
        args['data_dict_of_dicts'] = None
    r, s, c, d = b(**args)
    if own:
        parts_q[name], parts_p[name] = lib.get_state(b, sp)
        parts_x[name] = {k: torch.zeros_like(v) for k, v in values(f_own, B).items()}
    q0, p0, x0 = cat_sorted(parts_q, dim), cat_sorted(parts_p, dim), sp.lift(x) if raw else cat_sorted(parts_x, dim)
    rf = R.Ref(first.model, first.nl, feats, first.infl, first.weight, first.opt_weight, first.pw)
    sol = R.integrate_ref(rf, q0, p0, x0, times, method=meth, options={'step_size': h})
    for part in sol[-1]:
        lib.finite_or_skip(*part.values(), bound=100)
    ctx.note(spec=first.describe(), received=fs, name=name, own=f_own, solver=meth, T=T, vector=vec, raw_data=raw)
    for dd in (s, c, d):
        ctx.check(list(dd.keys()) == [name], 'joined_structure', 'returned blocks {} expected [{}]'.format(list(dd.keys()), name))
    for j in (range(2) if vec else [1]):
        pick = (lambda v: v[j]) if vec else (lambda v: v)
        w = sol[j]
        ctx.close(pick(r), w[2]['q1'], 'joined_result', 'result at time {}'.format(float(times[j])), rtol=1e-7, atol=1e-8)
        for k in m.keys:
            ctx.close(pick(s[name][k]), w[0][k], 'joined_state', k, rtol=1e-7, atol=1e-8)
            ctx.close(pick(c[name]['p_' + k]), w[1][k], 'joined_costate', k, rtol=1e-7, atol=1e-8)
            ctx.close(pick(d[name][k]), w[2][k], 'joined_data', k, rtol=1e-7, atol=1e-8)
    ctx.close(b.get_norm_penalty().reshape(()), rf.kinetic(rf.theta(q0, p0)).reshape(()), 'joined_penalty', 'norm penalty', rtol=1e-8)
    for dd in (args['data_dict_of_dicts'], args['pass_through_state_dict_of_dicts'], args['pass_through_costate_dict_of_dicts']):
        ctx.check(dd is None or sorted(dd) == sorted(fs), 'inputs_untouched', 'handed over dictionaries changed')
    ctx.key(first.key(), tuple(sorted(fs.items())), name, f_own, meth, vec, raw)


@check.scenario(quick=40, thorough=700, requires=('split',))
def split_interval(ctx):
    """Continuing with pass-through blocks is the same as integrating longer."""
    spec = rand_spec(ctx, mag=0.4, individual=True, analytic=ctx.rng.random() < 0.4)
    meth, h = ctx.choice(['rk4', 'euler', 'midpoint']), 0.125
    parts = ctx.choice([[0.5, 0.5], [0.25, 0.75], [0.25, 0.25, 0.5], [0.125, 0.5, 0.375], [1.0, 1.0]])
    one = lib.block(spec, name='one', integ=lib.integrator(meth, step_size=h))
    lib.randomize(one, ctx, scale=0.3)
    x = spec.data(ctx, 2, scale=0.5)
    one.set_integration_time(sum(parts))
    R0 = one(x=x)
    lib.finite_or_skip(R0[0], R0[1]['one']['q1'], bound=100)
    one.set_integration_time(parts[0])
    out = one(x=x)
    for i, T in enumerate(parts[1:]):
        nm = 'c{}'.format(i)
        b = lib.block(spec, name=nm, integ=lib.integrator(meth, step_size=h), iover=lib.continuing(ctx, spec.N))
        b.set_integration_time(T)
        out = b(data_dict_of_dicts=out[3], pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2])
        ctx.check(sum(1 for _ in b.parameters()) == 0, 'split', 'a pure continuation has trainable parameters')
    ctx.close(out[0], R0[0], 'split', 'result', rtol=1e-8)
    for a, w in zip(out[1:], R0[1:]):
        a, w = a[list(a)[0]], w['one']
        for k in w:
            ctx.close(a[k], w[k], 'split', k, rtol=1e-8)
    ctx.note(spec=spec.describe(), parts=parts, solver=meth)
    ctx.key(spec.key(), tuple(parts), meth)


@check.scenario(quick=16, thorough=200, requires=('rejected',))
def rejects(ctx):
    spec = rand_spec(ctx, mag=0.3)
    b1 = lib.block(spec, name='one')
    x = spec.data(ctx, 2)
    r, s, c, d = b1(x=x)
    ren = lambda dd, nm: SortedDict({nm: dd['one']})
    mk = lambda: lib.block(spec, name='two', in_features=2 * spec.features)
    ctx.expect_raises(lambda: mk()(data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s), ValueError, 'rejected', 'state without costate')
    ctx.expect_raises(lambda: mk()(data_dict_of_dicts=d, pass_through_costate_dict_of_dicts=c), ValueError, 'rejected', 'costate without state')
    ctx.expect_raises(lambda: mk()(x=x, data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c), ValueError, 'rejected', 'data given twice')
    ctx.expect_raises(lambda: mk()(data_dict_of_dicts=ren(d, 'two'), pass_through_state_dict_of_dicts=ren(s, 'two'), pass_through_costate_dict_of_dicts=ren(c, 'two')), ValueError,
                      'rejected', 'block name used twice')
    # ... also if it is not the first of several received blocks
    def several(dd, pre=''):
        names = ['two'] + ctx.rng.sample(['a', 'one', 'z', 'x1'], 2)
        return SortedDict({nm: dd['one'] for nm in names})
    st = ctx.rng.getstate()
    sv = []
    for dd in (d, s, c):
        ctx.rng.setstate(st)
        sv.append(several(dd))
    mk3 = lambda nm='two': lib.block(spec, name=nm, in_features=4 * spec.features)
    ctx.expect_raises(lambda: mk3()(data_dict_of_dicts=sv[0], pass_through_state_dict_of_dicts=sv[1], pass_through_costate_dict_of_dicts=sv[2]), ValueError,
                      'rejected', 'block name used by one of several received blocks {}'.format(list(sv[1])))
    mk3('new')(data_dict_of_dicts=sv[0], pass_through_state_dict_of_dicts=sv[1], pass_through_costate_dict_of_dicts=sv[2])
    ctx.expect_raises(lambda: mk()(), ValueError, 'rejected', 'no input')
    mk()(data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c)
    ctx.note(spec=spec.describe())
    ctx.key(spec.key())


@check.scenario(quick=24, thorough=300, requires=('four_dim',))
def data_with_samples(ctx):
    """Vector data with one or two extra sample dimensions is joined along its feature dimension."""
    spec = rand_spec(ctx, models=R.VECTOR, mag=0.3)
    f2 = ctx.choice([1, 2])
    sp2 = Spec(spec.model, spec.nl, spec.N, f2, 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3)
    n1, n2 = ctx.rng.sample(['a', 'b', 'c10', 'c9'], 2)
    b1, b2 = lib.block(spec, name=n1), lib.block(sp2, name=n2, in_features=spec.size + f2)
    for b in (b1, b2):
        lib.randomize(b, ctx, scale=0.3)
    B, S = 2, ctx.choice([1, 3])
    x = ctx.randn(B, S, 1, spec.size, scale=0.5)
    many = (B, S, 1) if ctx.rng.random() < 0.6 else ctx.choice([(B, 1, S, 1), (1, S, B, 1), (S, B, 1, 1)])

    def run(x):
        o = b1(x=x)
        return b2(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
    seq = [many, (B * S, 1)]
    if ctx.rng.random() < 0.5:
        seq = seq[::-1] + seq
    outs = {}
    for shp in seq:
        outs[shp] = run(x.reshape(shp + (spec.size,)))
    flat, four = outs[(B * S, 1)], outs[many]
    lib.finite_or_skip(flat[0], bound=100)
    ctx.close(four[0].reshape(B * S, 1, -1), flat[0], 'four_dim', 'result', rtol=1e-8)
    for k in flat[3][n2]:
        ctx.close(four[3][n2][k].reshape(flat[3][n2][k].shape), flat[3][n2][k], 'four_dim', k, rtol=1e-8)
    ctx.note(spec=spec.describe(), names=[n1, n2], order=str(seq))
    ctx.key(spec.key(), n1, n2, f2, str(seq))


lib.large(check, [chain, split_interval], quick=8, thorough=200)
