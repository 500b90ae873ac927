"""C13: observers see every evaluation of the dynamics exactly as it was used, and never influence it."""
from collections import defaultdict
import numpy as np
import torch
import neuro_shooting.shooting_hooks as sh
from vh import lib, ref as R
from vh.core import Check, Skip
from vh.lib import rand_spec, Spec

check = Check('C13', 'one case = one block with observers attached, a history of forward (and backward) passes, hook additions and removals; each callback is matched '
              'one-to-one with an independently logged evaluation of the dynamics and its content with the vectors which the solver exchanged. '
              'Non-trivial: more than one evaluation observed; distinct by configuration, mode and solver.',
              ['observers do not modify what they are given', 'parameter norms are defined for vector-valued models (documented limitation for convolutions)'])


def mk(ctx, models=None, mode=None, **a):
    mode = mode or ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn', 'pf_time'])
    spec = rand_spec(ctx, models=models, analytic=ctx.rng.random() < 0.35, mag=0.3)
    iover, kw = {}, {}
    if mode == 'frozen':
        iover['use_rnn_mode'] = True
    elif mode == 'pf_rnn':
        kw['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=ctx.choice([2, 4]))
    a = a or dict(name=ctx.choice(['rk4', 'euler', 'midpoint']), step_size=ctx.choice([0.25, 0.5]))
    s = ctx.case_seed % 99991
    build = lambda: lib.block(spec, integ=lib.integrator(**a), iover=dict(iover), seed=s, **kw)
    b = build()
    lib.randomize(b, ctx, scale=0.3)
    ctx.note(spec=spec.describe(), mode=mode, solver=str(a))
    return spec, mode, a, b, build


def same(ctx, got, want, mon, what):
    """Bitwise equal nested dictionaries."""
    ctx.check(sorted(got) == sorted(want), mon, '{}: entries {} expected {}'.format(what, sorted(got), sorted(want)))
    for k in want:
        if isinstance(want[k], dict):
            same(ctx, got[k], want[k], mon, '{} {}'.format(what, k))
        else:
            ctx.equal(got[k], want[k], mon, '{} {}'.format(what, k))


@check.scenario(quick=80, thorough=1500, requires=('one_callback_per_evaluation', 'observed_is_used', 'parameters_used', 'custom_data'))
def observed(ctx):
    spec, mode, a, b, _ = mk(ctx)
    integ = b.shooting_integrand
    evs, order = [], []
    token = {'epoch': ctx.idx}
    if ctx.rng.random() < 0.7:
        integ.set_custom_hook_data(token)
    else:
        token = None
    in_forward = []

    def hook(module, t, s, c, d, ds, dc, dd, pars, custom):
        evs.append((module, float(t), lib.plain(s), lib.plain(c), lib.plain(d), lib.plain(ds), lib.plain(dc), lib.plain(dd), lib.params_of(pars), custom))
    raw = []
    fh = integ.register_forward_hook(lambda m, args, out: raw.append((float(args[0]), args[1].detach().clone(), out.detach().clone(), len(evs))))
    h = integ.register_lagrangian_gradient_hook(hook)
    nf = ctx.choice([1, 2])
    for _ in range(nf):
        if ctx.rng.random() < 0.4:
            b.set_integration_time_vector(torch.tensor([0.0, 0.5, 1.0]), suppress_warning=True)
        else:
            b.set_integration_time(ctx.choice([0.5, 1.0]))
        out = b(x=spec.data(ctx, 2))
    lib.finite_or_skip(out[0])
    ctx.check(len(evs) == len(raw) and len(raw) > 0, 'one_callback_per_evaluation', '{} evaluations but {} callbacks'.format(len(raw), len(evs)))
    ref = spec.ref()
    for i, ((m, t, s, c, d, ds, dc, dd, th, cust), (rt, rin, rout, n)) in enumerate(zip(evs, raw)):
        ctx.check(n == i + 1, 'one_callback_per_evaluation', 'callback {} did not happen during its evaluation'.format(i))
        ctx.check(m is integ and t == rt, 'observed_is_used', 'callback at time {} for evaluation at {}'.format(t, rt))
        ctx.check(cust is token, 'custom_data', 'custom data was not passed on')
        ws, wc, wd = [lib.plain(v) for v in integ.disassemble_tensor(rin)]
        same(ctx, s, ws, 'observed_is_used', 'state')
        same(ctx, c, wc, 'observed_is_used', 'costate')
        same(ctx, d, wd, 'observed_is_used', 'data')
        os_, oc, od = [lib.plain(v) for v in integ.disassemble_tensor(rout)]
        strip = lambda u: {bl: {k[4:] if k.startswith('dot_') else k: v for k, v in u[bl].items()} for bl in u}
        same(ctx, strip(ds), os_, 'observed_is_used', 'rate of the state')
        same(ctx, strip(dc), oc, 'observed_is_used', 'rate of the costate')
        same(ctx, strip(dd), od, 'observed_is_used', 'rate of the data')
        # the observed parameters are the ones which moved state and data
        wq = ref.rhs(th, s['blk'])
        wx = ref.rhs(th, d['blk'])
        for k in spec.m.keys:
            ctx.close(strip(ds)['blk'][k], wq[k], 'parameters_used', 'state rate {} from the observed parameters'.format(k), rtol=1e-9)
            ctx.close(strip(dd)['blk'][k], wx[k], 'parameters_used', 'data rate {} from the observed parameters'.format(k), rtol=1e-9)
    fh.remove()
    h.remove()
    n = len(evs)
    b(x=spec.data(ctx, 1))
    ctx.check(len(evs) == n, 'one_callback_per_evaluation', 'callback after removal')
    ctx.key(spec.key(), mode, str(a))


@check.scenario(quick=50, thorough=800, requires=('no_influence', 'hook_order'))
def transparent(ctx):
    """Results and gradients with observers (recorder included) are bitwise those without."""
    vec = ctx.rng.random() < 0.75
    spec, mode, a, b, build = mk(ctx, models=R.VECTOR if vec else R.CONV)
    b2 = build()
    b2.load_state_dict(b.state_dict())
    log = []
    ids = list(range(ctx.choice([1, 2, 4])))
    hs = [b2.shooting_integrand.register_lagrangian_gradient_hook(lambda *args, i=i: log.append(i)) for i in ids]
    if vec:
        rec = defaultdict(list)
        b2.shooting_integrand.set_custom_hook_data(rec)
        b2.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    x = spec.data(ctx, 2)
    W = None
    res = []
    for bb in (b, b2):
        xx = x.clone().requires_grad_(True)
        o = bb(x=xx)
        lib.finite_or_skip(o[0])
        W = ctx.randn(*o[0].shape) if W is None else W
        pen = bb.get_norm_penalty()
        named = [('data', xx)] + list(bb.named_parameters())
        g = lib.grads((o[0] * W).sum() + pen.sum() + sum((v ** 2).sum() for v in o[1]['blk'].values()), named)
        res.append((o, pen, g))
    (o0, p0, g0), (o1, p1, g1) = res
    ctx.equal(o1[0], o0[0], 'no_influence', 'result')
    for u, w in zip(o1[1:], o0[1:]):
        for k in w['blk']:
            ctx.equal(u['blk'][k], w['blk'][k], 'no_influence', k)
    ctx.equal(p1, p0, 'no_influence', 'norm penalty')
    for n in g0:
        ctx.check((g0[n] is None) == (g1[n] is None), 'no_influence', 'gradient of {} appears or vanishes'.format(n))
        if g0[n] is not None:
            ctx.close(g1[n], g0[n], 'no_influence', 'gradient ' + n, rtol=1e-12)
    ctx.check(len(log) > 0 and log == ids * (len(log) // len(ids)), 'hook_order', 'observers were called in the order {}'.format(log[:12]))
    # removing one leaves the others
    k = ctx.choice(ids)
    hs[k].remove()
    log.clear()
    b2(x=x)
    left = [i for i in ids if i != k]
    ctx.check(log == left * (len(log) // max(1, len(left))) and (not left or log), 'hook_order', 'after removing {}: {}'.format(k, log[:12]))
    ctx.key(spec.key(), mode, str(a), len(ids))


@check.scenario(quick=60, thorough=1000, requires=('record_complete', 'record_content', 'record_stable', 'record_energy'))
def recorder(ctx):
    """The recorder's log: one entry per evaluation in every series, holding the values of that moment, immune to later training."""
    spec, mode, a, b, _ = mk(ctx, models=R.VECTOR)
    integ = b.shooting_integrand
    rec = defaultdict(list)
    integ.set_custom_hook_data(rec)
    tr = lib.RhsTrace(integ)
    integ.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    snap = {}
    nf = ctx.choice([1, 2, 3])
    for f in range(nf):
        o = b(x=spec.data(ctx, 2))
        lib.finite_or_skip(o[0])
        # nothing recorded earlier changed
        for k, v in snap.items():
            ctx.check(len(rec[k]) >= len(v), 'record_stable', 'recorded series {} shrank'.format(k))
            for i, w in enumerate(v):
                ctx.check(np.array_equal(np.asarray(rec[k][i]), w), 'record_stable', 'entry {} of the recorded series {} changed later'.format(i, k))
        snap = {k: [np.array(w, copy=True) for w in v] for k, v in rec.items()}
        if ctx.rng.random() < 0.6:
            with torch.no_grad():
                for _, p in b.named_parameters():
                    p.add_(0.1)
        else:
            opt = torch.optim.SGD([p for _, p in b.named_parameters()], lr=0.05)
            integ.set_custom_hook_data(defaultdict(list))
            n = len(tr.events)
            opt.zero_grad()
            (o[0] ** 2).sum().backward()
            opt.step()
            del tr.events[n:]
            integ.set_custom_hook_data(rec)
    for k, v in snap.items():
        for i, w in enumerate(v):
            ctx.check(np.array_equal(np.asarray(rec[k][i]), w), 'record_stable', 'entry {} of the recorded series {} changed after training'.format(i, k))
    E = tr.events
    want = defaultdict(list)
    for e in E:
        want['t'].append(e['t'])
        en = 0.0
        for l in e['th']:
            for k, v in e['th'][l].items():
                want['{}.{}'.format(l, k)].append(v.numpy())
                en += 0.5 * float((v ** 2).sum())
        want['energy'].append(en)
        for nm, key in (('state', 'q'), ('costate', 'p'), ('data', 'x'), ('dot_state', 'dq'), ('dot_costate', 'dp'), ('dot_data', 'dx')):
            for bl in e[key]:
                for k, v in e[key][bl].items():
                    want['{}.{}.{}'.format(bl, nm, k)].append(v.numpy())
    for k in want:
        ctx.check(k in rec, 'record_complete', 'series {} missing'.format(k))
        ctx.check(len(rec[k]) == len(E), 'record_complete', 'series {} has {} entries for {} evaluations'.format(k, len(rec[k]), len(E)))
        for i in range(len(E)):
            if k == 'energy':
                ctx.check(abs(rec[k][i] - want[k][i]) <= 1e-9 * max(1, abs(want[k][i])), 'record_energy', 'energy {} expected {}'.format(rec[k][i], want[k][i]))
            else:
                ctx.check(np.array_equal(np.asarray(rec[k][i]), np.asarray(want[k][i])), 'record_content', 'entry {} of series {} is not the value used'.format(i, k))
    for k in rec:
        ctx.check(len(rec[k]) == len(E), 'record_complete', 'series {} has {} entries for {} evaluations'.format(k, len(rec[k]), len(E)))
    ctx.key(spec.key(), mode, str(a), nf)


@check.scenario(quick=10, thorough=60, requires=('record_type',))
def wrong_container(ctx):
    spec, mode, a, b, _ = mk(ctx, models=R.VECTOR)
    b.shooting_integrand.set_custom_hook_data(ctx.choice([{}, {'t': []}, None, []]))
    b.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    ctx.expect_raises(lambda: b(x=spec.data(ctx, 1)), ValueError, 'record_type', 'a container which cannot hold the record')
    b.shooting_integrand.set_custom_hook_data(defaultdict(list))
    b(x=spec.data(ctx, 1))
    ctx.key(spec.key(), mode)


@check.scenario(quick=24, thorough=300, requires=('chain_observed',))
def chain(ctx):
    """Two blocks: the observer of the second sees the passed-through and the new part under their block names."""
    spec = rand_spec(ctx, models=R.VECTOR, mag=0.3)
    f2 = ctx.choice([1, 2])
    sp2 = Spec(spec.model, spec.nl, spec.N, f2, 1, spec.infl, spec.weight, spec.opt_weight, False, 0.3)
    n1, n2 = ctx.rng.sample(['a', 'b', 'Z'], 2)
    b1, b2 = lib.block(spec, name=n1), lib.block(sp2, name=n2, in_features=spec.size + f2)
    for b in (b1, b2):
        lib.randomize(b, ctx, scale=0.3)
    rec = defaultdict(list)
    b2.shooting_integrand.set_custom_hook_data(rec)
    b2.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    o = b1(x=spec.data(ctx, 2))
    lib.finite_or_skip(o[0])
    b2(data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
    for k in spec.m.keys:
        for nm, dd, key in (('state', o[1], k), ('costate', o[2], 'p_' + k), ('data', o[3], k)):
            ctx.close(torch.tensor(rec['{}.{}.{}'.format(n1, nm, key)][0]), dd[n1][key], 'chain_observed', 'first observation of {} {}'.format(nm, key), rtol=1e-12)
        np_ = dict(b2.named_parameters())
        ctx.close(torch.tensor(rec['{}.state.{}'.format(n2, k)][0]), np_[k], 'chain_observed', 'own state', rtol=1e-12)
        ctx.close(torch.tensor(rec['{}.costate.p_{}'.format(n2, k)][0]), np_['p_' + k], 'chain_observed', 'own costate', rtol=1e-12)
        ctx.check(float(np.abs(rec['{}.data.{}'.format(n2, k)][0]).max()) == 0.0, 'chain_observed', 'own data part does not start at zero')
    ctx.key(spec.key(), f2, n1, n2)


class Board(object):
    """Stand-in for the tensorboard writer; keeps what is written."""
    log = []

    def __init__(self, *a, **k):
        pass

    def add_scalar(self, tag, scalar_value, global_step=None, *a, **k):
        self.log.append((tag, float(scalar_value), global_step))

    def add_image(self, tag, img_tensor, global_step=None, walltime=None, dataformats='CHW'):
        v = torch.as_tensor(img_tensor)
        self.log.append((tag, v.detach().clone(), global_step, dataformats, bool(v.requires_grad)))


def board_hook():
    import importlib
    import sys
    import types
    import torch.utils
    fake = types.ModuleType('torch.utils.tensorboard')
    fake.SummaryWriter = Board
    old, olda = sys.modules.get('torch.utils.tensorboard'), getattr(torch.utils, 'tensorboard', None)
    sys.modules['torch.utils.tensorboard'] = torch.utils.tensorboard = fake
    sys.modules.pop('neuro_shooting.tensorboard_shooting_hooks', None)
    try:
        return importlib.import_module('neuro_shooting.tensorboard_shooting_hooks').linear_transform_hook
    finally:
        for m, v in ((sys.modules, old),):
            if v is None:
                m.pop('torch.utils.tensorboard', None)
            else:
                m['torch.utils.tensorboard'] = v
        if olda is None:
            del torch.utils.tensorboard
        else:
            torch.utils.tensorboard = olda


@check.scenario(quick=30, thorough=400, requires=('board', 'no_influence'))
def board(ctx):
    """The tensorboard observer writes the first layer at the start of calls made in every tenth epoch, and nothing else."""
    Board.log = []
    hook = board_hook()
    spec, mode, a, b, build = mk(ctx, models=R.VECTOR, mode=ctx.choice(['plain', 'plain', 'frozen', 'pf_rnn']))
    integ = b.shooting_integrand
    tr = lib.RhsTrace(integ)
    first = []
    integ.register_lagrangian_gradient_hook(lambda m, t, s, c, d, ds, dc, dd, pars, custom: first.append((float(t), lib.params_of(pars))))
    x = spec.data(ctx, 2)
    with torch.no_grad():
        b(x=x)
    l1 = first[0][1].get('l1')
    if l1 is None or 'weight' not in l1 or 'bias' not in l1 or l1['bias'].dim() != 1 or l1['bias'].numel() < 2:
        raise Skip('the observer is for models with a first layer of at least two outputs and a bias vector')
    h = integ.register_lagrangian_gradient_hook(hook)
    ctx.note(spec=spec.describe(), mode=mode)
    for epoch in ctx.rng.sample([0, 1, 5, 9, 10, 11, 20, 30, 100, 105], 4) + [None]:
        cd = {} if epoch is None else {'epoch': epoch}
        if ctx.rng.random() < 0.5:
            cd['batch'] = ctx.rng.randrange(5)
        integ.set_custom_hook_data(cd)
        del first[:], Board.log[:]
        start = ctx.choice([0.0, 0.0, 0.25])
        b.set_integration_time_vector(torch.tensor([start, start + 0.5]), suppress_warning=True)
        with torch.no_grad():
            o = b(x=x)
        lib.finite_or_skip(o[0])
        want = [p['l1'] for t, p in first if t == 0] if (epoch or 0) % 10 == 0 else []
        ctx.check(len(Board.log) == 3 * len(want), 'board', 'epoch {}: {} entries instead of {}'.format(epoch, len(Board.log), 3 * len(want)))
        for i, p in enumerate(want):
            got = {e[0]: e for e in Board.log[3 * i:3 * i + 3]}
            ctx.check(set(got) == {'bias0', 'bias1', 'weight'} and all(e[2] == (epoch or 0) for e in got.values()), 'board', 'entries {}'.format([(e[0], e[2]) for e in got.values()]))
            for j in (0, 1):
                ctx.check(got['bias%d' % j][1] == float(p['bias'].reshape(-1)[j]), 'board', 'written bias {} is {} instead of {}'.format(j, got['bias%d' % j][1], float(p['bias'].reshape(-1)[j])))
            ctx.equal(got['weight'][1], p['weight'], 'board', 'written weight')
            ctx.check(got['weight'][3] == 'HW' and not got['weight'][4], 'board', 'written weight is not a plain image')
    del Board.log[:]
    h.remove()
    b.set_integration_time_vector(torch.tensor([0.0, 0.5]), suppress_warning=True)
    integ.set_custom_hook_data({'epoch': 0})
    with torch.no_grad():
        o1 = b(x=x)[0]
    ctx.check(not Board.log, 'board', 'the removed observer still writes')
    integ.register_lagrangian_gradient_hook(hook)
    with torch.no_grad():
        o2 = b(x=x)[0]
    ctx.equal(o1, o2, 'no_influence', 'result with the tensorboard observer')
    ctx.key(spec.key(), mode)


lib.large(check, [observed], quick=5, thorough=125)
