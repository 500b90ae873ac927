"""C15: the listed parameters are exactly the trainable content of a block; saving and loading them reproduces it; zero-kept states stay zero."""
import io
import os
import torch
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec, Spec

check = Check('C15', 'one case = one block (or two-block chain with enlargement) in one mode with a history of training steps, saves and loads; listed parameters are compared with '
              'the expected inventory, values entering the integration with the listed values, and outputs before saving with outputs after loading. '
              'Non-trivial: block has trainable content; distinct by configuration and history.',
              ['saved parameters are loaded into a block of the same configuration (dynamically sized enlargements exist after the first forward call)'])


def modes(ctx, spec, allow=('plain', 'frozen', 'pf_rnn', 'pf_time', 'init', 'zero_state')):
    mode = ctx.choice(allow)
    iover, kw, t = {}, {}, ''
    if mode == 'frozen':
        iover['use_rnn_mode'] = True
    elif mode == 'pf_rnn':
        kw['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=ctx.choice([2, 4, 12, 20]))
    elif mode == 'init':
        if spec.m.init_modes:
            t = ctx.choice(spec.m.init_modes)
            iover.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=t)
        else:
            mode = 'plain'
    elif mode == 'zero_state':
        kw['keep_initial_state_parameters_at_zero'] = True
    return mode, iover, kw


def train(ctx, b, x, steps=1):
    """Some training steps of a random optimiser on everything listed."""
    ps = list(b.parameters())
    if not ps:
        return 'nothing'
    name = ctx.choice(['SGD', 'Adam', 'RMSprop'])
    opt = getattr(torch.optim, name)(ps, lr=0.02)
    for _ in range(steps):
        opt.zero_grad()
        o = b(x=x)
        lib.finite_or_skip(o[0])
        ((o[0] ** 2).mean() + b.get_norm_penalty().sum()).backward()
        opt.step()
    b.zero_grad()
    for p in ps:
        lib.finite_or_skip(p)
    return name


@check.scenario(quick=80, thorough=1500, requires=('inventory', 'values_enter', 'not_before_forward'))
def inventory(ctx):
    spec = rand_spec(ctx, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    pt = mode == 'plain' and ctx.rng.random() < 0.15
    if pt:
        iover['is_pass_through'] = True
    b = lib.block(spec, iover=iover, **kw)
    ctx.note(spec=spec.describe(), mode=mode, continuation=pt)
    ctx.expect_raises(lambda: list(b.parameters()), ValueError, 'not_before_forward', 'listing the parameters before the first forward call')
    if pt:
        src = lib.block(spec, name='src')
        o = src(x=spec.data(ctx, 2))
        b(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
        ctx.check(list(b.parameters()) == [], 'inventory', 'a pure continuation lists parameters')
        ctx.key(spec.key(), 'continuation')
        return
    lib.randomize(b, ctx, scale=0.3)
    x = spec.data(ctx, 2)
    b(x=x)
    # expected inventory (shapes), by kind
    z = spec.ref().zero_theta()
    if mode.startswith('pf'):
        n = kw.get('nr_of_particle_free_time_dependent_steps', 1)
        want = {'pf_timestep{}_{}_{}'.format(i, l, k): tuple(z[l][k].shape) for i in range(n) for l in z for k in z[l]}
    else:
        want = {}
        for k in spec.m.keys:
            g = spec.infl if k in spec.m.inflated else 1
            shp = (spec.N, spec.chan * g) + tuple(spec.size) if spec.m.conv else (spec.N, spec.chan, spec.size * g)
            if mode != 'zero_state':
                want[k] = shp
            want['p_' + k] = shp
    got = {n: tuple(p.shape) for n, p in b.named_parameters()}
    extra = sorted(set(got) - set(want))
    ctx.check(all(got.get(k) == v for k, v in want.items()), 'inventory', 'listed {} expected {}'.format(got, want))
    ctx.check((mode == 'init' and len(extra) > 0) or not extra, 'inventory', 'unexpected parameters {}'.format(extra))
    ids = [id(p) for p in b.parameters()]
    ctx.check(len(ids) == len(set(ids)) == len(got), 'inventory', 'parameters listed more than once')
    ctx.check(all(p.requires_grad and p.is_leaf for p in b.parameters()), 'inventory', 'listed parameter not trainable')
    for k in want:
        ctx.check(k in b.state_dict(), 'inventory', k + ' is not saved')
    # the listed values are the ones that start the integration, also after training
    for rnd in range(2):
        if rnd:
            train(ctx, b, x)
        tr = lib.RhsTrace(b.shooting_integrand)
        b(x=x)
        e = tr.events[0]
        tr.close()
        if not mode.startswith('pf'):
            np_ = dict(b.named_parameters())
            for k in spec.m.keys:
                if mode == 'zero_state':
                    ctx.check(float(e['q']['blk'][k].abs().max()) == 0.0, 'values_enter', 'zero-kept state {} is not zero'.format(k))
                else:
                    ctx.equal(e['q']['blk'][k], np_[k], 'values_enter', 'initial state ' + k)
                ctx.equal(e['p']['blk']['p_' + k], np_['p_' + k], 'values_enter', 'initial costate ' + k)
        else:
            for l in z:
                for k in z[l]:
                    ctx.equal(e['th'][l][k], dict(b.named_parameters())['pf_timestep0_{}_{}'.format(l, k)], 'values_enter', 'layer parameter')
    ctx.key(spec.key(), mode, str(sorted(iover.items())), str(sorted(kw.items())))


@check.scenario(quick=70, thorough=1200, requires=('reload',))
def save_and_load(ctx):
    spec = rand_spec(ctx, analytic=ctx.rng.random() < 0.2, mag=0.3)
    mode, iover, kw = modes(ctx, spec)
    mk = lambda: lib.block(spec, integ=lib.integrator('rk4', step_size=0.5), iover=dict(iover), **kw)
    a = mk()
    lib.randomize(a, ctx, scale=0.3)
    x = spec.data(ctx, 2)
    hist = []
    a(x=x)
    if ctx.rng.random() < 0.6:
        hist.append(train(ctx, a, x, steps=2))
    o = a(x=x)
    pen = a.get_norm_penalty().detach().clone()
    lib.finite_or_skip(o[0])
    if ctx.rng.random() < 0.5:
        path = os.path.join(ctx.scratch, 'm.pt')
        torch.save(a.state_dict(), path)
        sd = torch.load(path)
        os.unlink(path)
        hist.append('file')
    else:
        buf = io.BytesIO()
        torch.save(a.state_dict(), buf)
        buf.seek(0)
        sd = torch.load(buf)
        hist.append('memory')
    # the source may go on changing
    lib.randomize(a, ctx, scale=0.2)
    b = mk()
    if ctx.rng.random() < 0.5:
        b(x=spec.data(ctx, 1))
        hist.append('used before loading')
    b.load_state_dict(sd)
    ob = b(x=x)
    ctx.note(spec=spec.describe(), mode=mode, history=hist)
    ctx.equal(ob[0], o[0], 'reload', 'result')
    for k in o[3]['blk']:
        ctx.equal(ob[3]['blk'][k], o[3]['blk'][k], 'reload', 'data ' + k)
    if not mode.startswith('pf'):
        for i in (1, 2):
            for k in o[i]['blk']:
                ctx.equal(ob[i]['blk'][k], o[i]['blk'][k], 'reload', k)
    ctx.equal(b.get_norm_penalty().reshape(-1), pen.reshape(-1), 'reload', 'norm penalty')
    # loading must not tie the two blocks together
    lib.randomize(b, ctx, scale=0.2)
    a.load_state_dict(sd)
    ctx.equal(a(x=x)[0], o[0], 'reload', 'result after reloading the source')
    ctx.key(spec.key(), mode, tuple(hist))


@check.scenario(quick=36, thorough=500, requires=('reload_chain', 'enlargement_inventory'))
def chain_with_enlargement(ctx):
    """Convolutional two-block chains: enlargement parameters are part of the saved content."""
    spec = rand_spec(ctx, models=R.CONV, mag=0.3)
    sp2 = Spec(spec.model, spec.nl, spec.N + ctx.choice([0, 1]), [spec.size[0] + ctx.choice([0, 1, 2]), spec.size[1] + ctx.choice([0, 1])], ctx.choice([1, 2]), spec.infl,
               spec.weight, spec.opt_weight, False, 0.3)
    zero = ctx.rng.random() < 0.3

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.b1 = lib.block(spec, name='one', integ=lib.integrator('rk4', step_size=0.5))
            self.b2 = lib.block(sp2, name='two', integ=lib.integrator('rk4', step_size=0.5), in_features=spec.chan + sp2.chan, keep_initial_state_parameters_at_zero=zero)

        def forward(self, x):
            o = self.b1(x=x)
            return self.b2(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
    a, c = Net(), Net()
    x = spec.data(ctx, 2)
    a(x), c(x)
    grown = sp2.N > spec.N or list(sp2.size) != list(spec.size)
    np_ = dict(a.b2.named_parameters())
    for k in spec.m.keys:
        g = spec.chan * (spec.infl if k in spec.m.inflated else 1)
        vol = sp2.N * g * sp2.size[0] * sp2.size[1] - spec.N * g * spec.size[0] * spec.size[1]
        for nm, present in (('pt_enlarge_' + k, grown and not zero), ('pt_enlarge_p_' + k, grown)):
            ctx.check((nm in np_) == present, 'enlargement_inventory', '{} listed: {}, expected {}'.format(nm, nm in np_, present))
            if present:
                ctx.check(np_[nm].numel() == vol, 'enlargement_inventory', '{} has {} entries, expected {}'.format(nm, np_[nm].numel(), vol))
    lib.randomize(a, ctx, scale=0.3)
    o = a(x)
    lib.finite_or_skip(o[0])
    if zero:
        tr = lib.RhsTrace(a.b2.shooting_integrand)
        opt = torch.optim.SGD(a.parameters(), lr=0.05)
        for _ in range(2):
            opt.zero_grad()
            oo = a(x)
            lib.finite_or_skip(oo[0])
            (oo[0] ** 2).mean().backward()
            opt.step()
        tr.events.clear()
        o = a(x)
        lib.finite_or_skip(o[0])
        for k in spec.m.keys:
            ctx.check(float(tr.events[0]['q']['two'][k].abs().max()) == 0.0, 'enlargement_inventory', 'zero-kept state {} changed in training'.format(k))
            q1 = a.b1(x=x)[1]['one'][k].detach()
            n0 = int((tr.events[0]['q']['one'][k] != 0).sum())
            ctx.check(n0 <= q1.numel(), 'enlargement_inventory', 'zero-kept enlargement of state {} has nonzero entries'.format(k))
        tr.close()
        o = a(x)
    c.load_state_dict(a.state_dict())
    oc = c(x)
    ctx.equal(oc[0], o[0], 'reload_chain', 'result')
    for i in (1, 2, 3):
        for k in o[i]['two']:
            ctx.equal(oc[i]['two'][k], o[i]['two'][k], 'reload_chain', k)
    ctx.note(spec=spec.describe(), second=sp2.describe(), zero=zero, grown=grown)
    ctx.key(spec.key(), sp2.key(), zero)


@check.scenario(quick=40, thorough=600, requires=('zero_kept',))
def zero_kept(ctx):
    """States kept at zero: start at zero in every call of a training history and are never trainable."""
    spec = rand_spec(ctx, mag=0.4)
    b = lib.block(spec, integ=lib.integrator(ctx.choice(['rk4', 'euler']), step_size=0.5), keep_initial_state_parameters_at_zero=True)
    tr = lib.RhsTrace(b.shooting_integrand)
    x = spec.data(ctx, 2)
    b(x=x)
    hist = []
    for r in range(3):
        tr.events.clear()
        hist.append(train(ctx, b, x, steps=ctx.choice([1, 2])))
        starts = [e for e in tr.events if e['t'] == 0.0]
        ctx.check(len(starts) > 0, 'zero_kept', 'no start observed')
        for e in starts:
            for k in spec.m.keys:
                ctx.check(float(e['q']['blk'][k].abs().max()) == 0.0, 'zero_kept', 'state {} starts at {}'.format(k, float(e['q']['blk'][k].abs().max())))
    names = [n for n, p in b.named_parameters()]
    ctx.check(sorted(names) == sorted('p_' + k for k in spec.m.keys), 'zero_kept', 'listed parameters {}'.format(names))
    tr.close()
    ctx.note(spec=spec.describe(), history=hist)
    ctx.key(spec.key(), tuple(hist))


@check.scenario(quick=6, thorough=12, requires=('rejected',))
def construction(ctx):
    import neuro_shooting.shooting_blocks as sb
    spec = rand_spec(ctx)
    ctx.expect_raises(lambda: sb.ShootingBlockBase(name='n'), ValueError, 'rejected', 'no integrand')
    ctx.expect_raises(lambda: sb.ShootingBlockBase(name='n', shooting_integrand=spec.integrand(), shooting_integrand_name='x'), ValueError, 'rejected', 'two integrands')
    ctx.key(spec.key())


lib.large(check, [save_and_load], quick=6, thorough=150)
