"""C31: the experiments train what they state and report what they computed."""
import json
import math
import os
import pickle
import re
import subprocess
import sys
import types
import numpy as np
import scipy.io
import torch
from vh import core
from vh.core import Check
from vh.props.c30 import demo, quiet, DEMOS

check = Check('C31', 'one case = one run of an experiment script (or of a script which sweeps over experiments) from the command line in a scratch directory, with generated options and data, under monitors '
              'of its networks and its optimiser; the saved results, the printed losses and the steps are compared with the recorded calls. Non-trivial: at least one training step; distinct by options.',
              ['no LaTeX here: figures are recorded as written, not drawn', 'short runs (few passes)', 'gradients of the stated loss are recomputed from the recorded network outputs in single precision'],
              case_timeout=400)
RUNNER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'demo_runner.py')


def run(ctx, script, args, conf, data=None, tag='r', cwd=None):
    """Runs the script; returns recorded events, final parameters and the printed text."""
    d = os.path.join(ctx.scratch, tag)
    os.makedirs(d, exist_ok=True)
    conf = dict({'sim_weight': 1.0, 'norm_weight': 0.0, 'penalty': False}, **conf)
    if data is not None:
        conf['data'] = os.path.join(d, 'data.pt')
        torch.save(data, conf['data'])
    with open(os.path.join(d, 'conf.json'), 'w') as f:
        json.dump(conf, f)
    cwd = cwd or d
    env = dict(os.environ, PYTHONPATH=core.REPO, MPLBACKEND='Agg', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', CUDA_VISIBLE_DEVICES='', HOME=d)
    p = subprocess.run([sys.executable, RUNNER, os.path.join(d, 'conf.json'), os.path.join(d, 'log.pt'), os.path.join(DEMOS, script)] + [str(a) for a in args], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, timeout=380)
    ctx.check(p.returncode == 0, 'finishes', '{} {} ends with {}: {}'.format(script, ' '.join(map(str, args)), p.returncode, p.stdout[-1800:]))
    r = torch.load(os.path.join(d, 'log.pt'), weights_only=False)
    log = r['log']
    used = [a for a, b in zip(log, log[1:]) if b['k'] == 'step' and a['k'] == 'fwd']  # the call each step follows
    return types.SimpleNamespace(used=used, log=log, final=r['final'], text=p.stdout, dir=d, fwd=[e for e in r['log'] if e['k'] == 'fwd'], steps=[e for e in r['log'] if e['k'] == 'step'])


def check_steps(ctx, r, count, lr, what, wd0=True, gradients=True):
    ctx.check(len(r.steps) == count, 'steps', '{}: {} optimisation steps instead of {}'.format(what, len(r.steps), count))
    seen = 0
    for i, s in enumerate(r.steps):
        ctx.check(not s['missing'], 'trained', '{}: {} is not trained'.format(what, s['missing']))
        for v in s['lr']:
            w = lr(i)
            if w is not None:
                ctx.check(abs(v - w) <= 1e-9 + 1e-6 * w, 'rate', '{}: learning rate {} instead of {} in step {}'.format(what, v, w, i))
        if wd0:
            ctx.check(all(v == 0 for v in s['wd']), 'rate', what + ': weight decay {}'.format(s['wd']))
        if 'graderr' in s:
            seen += 1
            ctx.check(s['graderr'] <= 2e-2, 'gradients', '{}: step {} uses a gradient of {} which differs by {:.3g} from the one of the stated loss'.format(what, i, s.get('worst'), s['graderr']))
        for n in s['frozen']:
            ctx.check(s['moved'][n] == 0, 'trained', '{}: frozen {} moves'.format(what, n))
    if gradients:
        ctx.check(seen == count, 'gradients', '{}: only {} of {} steps follow a call of the network'.format(what, seen, count))


def near(ctx, got, want, monitor, what, rtol=2e-4):
    ctx.close(torch.tensor(float(got), dtype=torch.float64), torch.tensor(float(want), dtype=torch.float64), monitor, what, rtol=rtol, atol=1e-6)


def options(ctx, opts):
    """{'name': value, flag: True} -> command line, in random order."""
    ks = [k for k, v in opts.items() if v is not False and v is not None]
    ctx.rng.shuffle(ks)
    out = []
    for k in ks:
        out.append('--' + k)
        if opts[k] is not True:
            out.append(opts[k])
    return out


def check_saved_args(ctx, res, opts, what):
    a = dict(res['args'])
    for k, v in opts.items():
        ctx.check(a[k] == v or (v is None and a[k] in (None, False)), 'saved', '{}: saved option {} is {} instead of {}'.format(what, k, a[k], v))


NONSHOOT = {'use_rnn': 'ResNetRNN', 'use_double_resnet_rnn': 'DoubleResNetUpDownRNN', 'use_updown': 'ResNetUpDown', 'use_simple_resnet': 'ResNet', 'use_double_resnet': 'DoubleResNetUpDown',
            'use_neural_ode': 'ODESimpleFunc'}


def fm_options(ctx):
    model = ctx.choice(['updown_universal', 'periodic', 'simple', '2nd_order', 'updown', 'updown', 'general_updown', 'dampened_updown'])
    o = dict(niters=ctx.choice([0, 1, 2]), batch_size=ctx.choice([50, 100, 120]), seed=ctx.rng.randrange(1000), lr=ctx.choice([0.01, 0.003]), shooting_model=model, nonlinearity=ctx.choice(['relu', 'tanh', 'sigmoid']),
             sim_weight=ctx.choice([100.0, 2.0]), norm_weight=ctx.choice([1.0, 0.3]), nr_of_particles=ctx.choice([2, 5]), inflation_factor=ctx.choice([2, 4]), xrange=ctx.choice([1.5, 1.0]),
             fcn=ctx.choice(['cubic', 'quadratic']), test_freq=ctx.choice([1, 2]), viz_freq=1000, do_not_plot_temporal_data=ctx.rng.random() < 0.7, save_figures=True, output_directory='out',
             output_basename=ctx.choice(['sfm', 'xyz']), do_not_use_parameter_penalty_energy=ctx.rng.random() < 0.3, stepsize=ctx.choice([0.1, 0.25]))
    mode = ctx.choice(['particles', 'particles', 'frozen', 'pf_rnn', 'pf_time', 'net', 'net'])
    if mode == 'frozen':
        o['use_particle_rnn_mode'] = True
    elif mode == 'pf_rnn':
        o['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        o.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=3)
    if mode in ('particles', 'frozen'):
        o['clamp_range'] = ctx.rng.random() < 0.3
        o['custom_parameter_initialization'] = ctx.rng.random() < 0.4
        if ctx.rng.random() < 0.5:
            o.update(custom_parameter_freezing=True, unfreeze_parameters_at_iter=ctx.choice([-1, 1, 2]))
        if model in ('updown', 'updown_universal') and ctx.rng.random() < 0.4:
            o.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=ctx.choice(['direct', 'linear', 'mini_nn']))
    net = None
    if mode == 'net':
        net = ctx.choice(sorted(NONSHOOT))
        o[net] = True
        o['nr_of_layers'] = ctx.choice([2, 4])
    return o, mode, net


def fm_run(ctx, o, net, tag='r'):
    conf = dict(kind='ode' if net == 'use_neural_ode' else 'fm', watch=[NONSHOOT[net] if net else 'ShootingBlockBase'], fcn=o['fcn'], sim_weight=o['sim_weight'], norm_weight=o['norm_weight'],
                penalty=not net and not o['do_not_use_parameter_penalty_energy'])
    r = run(ctx, 'simple_functional_mapping_example.py', options(ctx, o), conf, tag=tag)
    r.res = torch.load(os.path.join(r.dir, 'out', o['output_basename'] + '-results.pt'), weights_only=False)
    return r


def target(o, x):
    x = x.double()
    return x ** 3 if o['fcn'] == 'cubic' else x ** 2 + 3 / (1 + x ** 2)


@check.scenario(quick=6, thorough=80, requires=('finishes', 'steps', 'trained', 'rate', 'gradients', 'saved', 'reported', 'particles'))
def functional_mapping(ctx):
    o, mode, net = fm_options(ctx)
    ctx.note(options=' '.join(map(str, options(ctx, o))))
    r = fm_run(ctx, o, net)
    what = net or mode + ' ' + o['shooting_model']
    per = 500 // o['batch_size']
    check_steps(ctx, r, (o['niters'] + 1) * per, lambda i: o['lr'], what, wd0=net is None, gradients=net != 'use_neural_ode')
    check_saved_args(ctx, r.res, {k: v for k, v in o.items()}, what)
    tot = sum(r.steps[-1]['numel'].values())
    fr = sum(r.steps[-1]['numel'][n] for n in r.steps[-1]['frozen'])
    ctx.check(r.res['nr_of_parameters']['overall'] == tot and r.res['nr_of_parameters']['fixed'] == fr, 'saved', 'parameters {} instead of {}/{}'.format(r.res['nr_of_parameters'], tot, fr))
    near(ctx, r.res['test_loss'], r.res['sim_loss'] + (r.res['norm_loss'] if net is None else 0), 'saved', what + ': total')
    if net is None:
        near(ctx, r.res['norm_loss'], 0 if o['do_not_use_parameter_penalty_energy'] else o['norm_weight'] * r.res['norm_penalty'], 'saved', what + ': norm')
    if net != 'use_neural_ode':
        ev = [e for e in r.fwd if not e['grad'] and e['x'].shape[0] == 1000]
        last = ev[-1]
        ctx.close(last['x'].double().reshape(-1), torch.linspace(-o['xrange'], o['xrange'], 1000, dtype=torch.float64), 'saved', 'test positions', rtol=1e-5, atol=1e-6)
        near(ctx, r.res['sim_loss'], o['sim_weight'] * float(((last['out'].double() - target(o, last['x'])) ** 2).mean()), 'saved', what + ': similarity')
        if net is None:
            near(ctx, r.res['norm_penalty'], last['pen'], 'saved', what + ': penalty')
        tr = r.used
        ctx.check(all(e['x'].shape[0] == o['batch_size'] for e in tr), 'steps', 'batch sizes')
        for e in range(o['niters'] + 1):
            v = torch.cat([t['x'].reshape(-1) for t in tr[e * per:(e + 1) * per]])
            ctx.check(len(set(v.tolist())) >= len(v) - 2 and float(v.abs().max()) <= o['xrange'] + 1e-6, 'steps', 'training samples of pass {} repeat'.format(e))
        # printed losses
        its = [i for i in range(o['niters'] + 1) if i % o['test_freq'] == 0]
        evs = [i for i in range(o['niters'] + 1) if i % o['test_freq'] == 0 or i % o['viz_freq'] == 0 or i == o['niters']]
        got = re.findall(r'Iter (\d+) \| Loss ([-\d.einf]+)(?:; sim_loss = ([-\d.]+); norm_loss = ([-\d.]+); par_norm = ([-\d.]+))?', r.text)
        ctx.check([int(g[0]) for g in got] == its, 'reported', 'reports for passes {} instead of {}'.format([int(g[0]) for g in got], its))
        ctx.check(len(ev) == len(evs) + 1, 'reported', '{} evaluations instead of {}'.format(len(ev), len(evs) + 1))
        for g in got:
            e = ev[evs.index(int(g[0]))]
            sim = o['sim_weight'] * float(((e['out'].double() - target(o, e['x'])) ** 2).mean())
            pen = 0 if net or o['do_not_use_parameter_penalty_energy'] else o['norm_weight'] * e['pen']
            ctx.check(abs(float(g[1]) - sim - pen) <= 1e-3 * (sim + pen) + 2e-4, 'reported', 'reported loss {} of pass {} instead of {}'.format(g[1], g[0], sim + pen))
            if net is None:
                ctx.check(abs(float(g[2]) - sim) <= 1e-3 * sim + 2e-4 and abs(float(g[4]) - e['pen']) <= 1e-3 * e['pen'] + 2e-4, 'reported', 'reported parts {}'.format(g))
    if net is None:
        m = r.res['log_complexity_measures']
        ctx.check(len(m) > 0, 'saved', 'no complexity measures')
    if mode in ('particles', 'frozen'):
        q0 = r.used[0]['q1'].reshape(-1).double()
        ctx.check(float(q0.abs().max()) <= o['xrange'] + 1e-6, 'particles', 'particles start outside of the range')
        if o.get('custom_parameter_initialization'):
            ctx.close(q0, torch.linspace(-o['xrange'], o['xrange'], o['nr_of_particles'], dtype=torch.float64), 'particles', 'particles do not start uniformly', rtol=1e-5, atol=1e-6)
        if o.get('clamp_range'):
            for e in r.fwd[1:]:
                ctx.check(float(e['q1'].abs().max()) <= o['xrange'] + 1e-6, 'particles', 'clamped particles leave the range')
        for i, s in enumerate(r.steps):
            ep = i // per
            u = o.get('unfreeze_parameters_at_iter', -1)
            frozen = o.get('custom_parameter_freezing', False) and not (u >= 0 and ep >= u)
            ctx.check(('q1' in s['frozen']) == frozen and (s['moved']['q1'] == 0 or not frozen), 'particles', 'pass {}: particle positions frozen: {}, moved by {}'.format(ep, 'q1' in s['frozen'], s['moved']['q1']))
    ctx.check(True, 'particles', '')
    ctx.key(what, o['niters'], o['batch_size'], o['fcn'])


def spiral_options(ctx):
    o = dict(niters=ctx.choice([0, 1, 2]), seed=ctx.rng.randrange(1000), data_size=ctx.choice([40, 60]), batch_time=ctx.choice([3, 5]), batch_size=ctx.choice([50, 30, 100]), lr=ctx.choice([0.05, 0.01]),
             stepsize=ctx.choice([0.05, 0.1]), shooting_model=ctx.choice(['updown_universal', 'simple', 'updown', 'periodic']), nr_of_particles=ctx.choice([3, 6]), inflation_factor=ctx.choice([2, 4]),
             sim_weight=ctx.choice([100.0, 3.0]), norm_weight=ctx.choice([0.01, 0.2]), sim_norm=ctx.choice(['l1', 'l2']), nonlinearity=ctx.choice(['relu', 'tanh']), linear=ctx.rng.random() < 0.4,
             test_freq=ctx.choice([1, 2]), viz_freq=50, validate_with_long_range=ctx.rng.random() < 0.5, chunk_time=ctx.choice([2, 5, 7]), do_not_use_parameter_penalty_energy=ctx.rng.random() < 0.3,
             disable_distance_based_sampling=ctx.rng.random() < 0.4, save_figures=True, output_directory='out', output_basename='sp', optional_weight=ctx.choice([1.0, 10.0]))
    mode = ctx.choice(['particles', 'particles', 'frozen', 'pf_rnn', 'pf_time'])
    if mode == 'frozen':
        o['use_particle_rnn_mode'] = True
    elif mode == 'pf_rnn':
        o['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        o.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=3)
    if mode in ('particles', 'frozen'):
        o['custom_parameter_initialization'] = ctx.rng.random() < 0.4
        if ctx.rng.random() < 0.5:
            o.update(custom_parameter_freezing=True, unfreeze_parameters_at_iter=ctx.choice([-1, 1, 2]))
    if mode == 'frozen':
        pass  # known finding of C06: no backward pass with checkpoints
    elif ctx.rng.random() < 0.25:
        o['nr_of_checkpoints'] = 1
    elif ctx.rng.random() < 0.25:
        o['checkpointing_time_interval'] = 0.3
    return o, mode


def spiral_data(o):
    dt = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    try:
        m = demo('spiral')
        integ = quiet(m.setup_integrator, method='rk4', use_adjoint=False, step_size=o['stepsize'], nr_of_checkpoints=o.get('nr_of_checkpoints'), checkpointing_time_interval=o.get('checkpointing_time_interval'))
        d = m.generate_data(integrator=integ, data_size=o['data_size'], batch_time=o['batch_time'], linear=o['linear'])
        return {'y': d['y'], 't': d['t']}
    finally:
        torch.set_default_dtype(dt)


def spiral_run(ctx, o, tag='r'):
    d = spiral_data(o)
    conf = dict(kind='spiral', watch=['ShootingBlockBase'], sim_weight=o['sim_weight'], norm_weight=o['norm_weight'], sim_norm=o['sim_norm'], penalty=not o['do_not_use_parameter_penalty_energy'], batch_time=o['batch_time'],
                no_gradients='nr_of_checkpoints' in o or 'checkpointing_time_interval' in o)  # checkpoints allow one backward pass only; their gradients are the subject of C06
    r = run(ctx, 'spiral.py', options(ctx, o), conf, data=d, tag=tag)
    r.data = d
    r.res = torch.load(os.path.join(r.dir, 'out', 'sp-results.pt'), weights_only=False)
    return r


def spiral_sim(o, pred, y):
    dif = (pred - y).double()
    return o['sim_weight'] * float(dif.abs().mean() if o['sim_norm'] == 'l1' else (dif ** 2).sum(-1).sqrt().mean())


@check.scenario(quick=5, thorough=60, requires=('finishes', 'steps', 'trained', 'rate', 'gradients', 'saved', 'reported', 'particles'))
def spiral(ctx):
    o, mode = spiral_options(ctx)
    ctx.note(options=' '.join(map(str, options(ctx, o))))
    r = spiral_run(ctx, o)
    what = mode + ' ' + o['shooting_model']
    per = 100 // o['batch_size']
    check_steps(ctx, r, (o['niters'] + 1) * per, lambda i: o['lr'], what, gradients='nr_of_checkpoints' not in o and 'checkpointing_time_interval' not in o)
    check_saved_args(ctx, r.res, o, what)
    tot = sum(r.steps[-1]['numel'].values())
    ctx.check(r.res['nr_of_parameters']['overall'] == tot, 'saved', 'parameters {} instead of {}'.format(r.res['nr_of_parameters'], tot))
    traj = r.data['y']
    first = traj[:, 0, 0].tolist()

    def windows(e):
        n = e['out'].shape[0]
        return torch.stack([traj[first.index(float(v)):][:n] for v in e['x'][:, 0, 0]], 1)
    sh = [e for e in r.fwd if e['x'].shape[0] == 1000]
    # with long range validation the short range data is also evaluated in pieces
    if o['validate_with_long_range']:
        ctx.check(all(not e['grad'] for e in sh), 'saved', 'gradients during the test')
        K = math.ceil((o['batch_time'] - 1) / (o['chunk_time'] - 1))
        preds = chain(ctx, sh[-K:])
        e0 = sh[-K]
        y = torch.stack([traj[first.index(float(v)):][:o['batch_time']] for v in e0['x'][:, 0, 0]], 1)
        sim, pen = spiral_sim(o, preds, y), e0['pen']
    else:
        e0 = sh[-1]
        sim, pen = spiral_sim(o, e0['out'], windows(e0)), e0['pen']
    res = r.res
    near(ctx, res['short_range_sim_loss'], sim, 'saved', what + ': short range similarity')
    near(ctx, res['short_range_norm_penalty'], pen, 'saved', what + ': short range penalty')
    for pre in ['short_range_'] + ([''] if o['validate_with_long_range'] else []):
        near(ctx, res[pre + 'norm_loss'], 0 if o['do_not_use_parameter_penalty_energy'] else o['norm_weight'] * res[pre + 'norm_penalty'], 'saved', pre + 'norm loss')
        near(ctx, res[(pre + 'test_loss')], res[pre + 'sim_loss'] + res[pre + 'norm_loss'], 'saved', pre + 'total')
        ctx.check(len(res[pre + 'log_complexity_measures']) > 0, 'saved', 'no complexity measures')
    if o['validate_with_long_range']:
        K = math.ceil((o['data_size'] - 1) / (o['chunk_time'] - 1))
        lg = [e for e in r.fwd if e['x'].shape[0] == 1 and not e['grad']]
        preds = chain(ctx, lg[-K:])
        ctx.equal(lg[-K]['x'].reshape(-1), traj[0].reshape(-1), 'saved', 'long range start')
        near(ctx, res['sim_loss'], spiral_sim(o, preds.reshape(traj.shape), traj), 'saved', what + ': long range similarity')
        near(ctx, res['norm_penalty'], lg[-K]['pen'], 'saved', what + ': long range penalty')
    else:
        ctx.check('test_loss' not in res, 'saved', 'a long range loss is saved')
    evs = [i for i in range(o['niters'] + 1) if i % o['test_freq'] == 0 or i % o['viz_freq'] == 0 or i == o['niters']]
    num = r'([-\d.]+)'
    got = re.findall(r'Iter (\d+) \| Training evaluation loss {0}; sim_loss = {0}; norm_loss = {0}; par_norm = {0}'.format(num), r.text)
    ctx.check([int(g[0]) for g in got] == evs, 'reported', 'reports for passes {} instead of {}'.format([g[0] for g in got], evs))
    ev = [e for e in r.fwd if e['x'].shape[0] == 100 and not e['grad'] and e['out'].shape[0] == o['batch_time']]
    # the test data of the short validation has as many samples
    at = [e for i, e in enumerate(r.log) if e['k'] == 'fwd' and not e['grad'] and e['x'].shape[0] == 100 and i and r.log[i - 1]['k'] == 'step']
    ctx.check(len(at) == len(evs) and len(ev) >= len(at), 'reported', '{} evaluations after training passes instead of {}'.format(len(at), len(evs)))
    for g, e in zip(got, at):
        sim = spiral_sim(o, e['out'], windows(e))
        tot = sim + (0 if o['do_not_use_parameter_penalty_energy'] else o['norm_weight'] * e['pen'])
        ctx.check(abs(float(g[1]) - tot) <= 1e-3 * tot + 2e-4 and abs(float(g[2]) - sim) <= 1e-3 * sim + 2e-4 and abs(float(g[4]) - e['pen']) <= 1e-3 * e['pen'] + 2e-4, 'reported',
                  'reported {} instead of {} {} {}'.format(g, tot, sim, e['pen']))
    if mode in ('particles', 'frozen'):
        if o.get('custom_parameter_initialization'):
            q0 = r.used[0]['q1'].reshape(-1, 2)
            for q in q0:
                ctx.check(float((traj.reshape(-1, 2) - q).abs().sum(1).min()) < 1e-6, 'particles', 'particle {} does not start on the trajectory'.format(q.tolist()))
        for i, s in enumerate(r.steps):
            ep = i // per
            u = o.get('unfreeze_parameters_at_iter', -1)
            frozen = o.get('custom_parameter_freezing', False) and not (u >= 0 and ep >= u)
            ctx.check(('q1' in s['frozen']) == frozen and (s['moved']['q1'] == 0 or not frozen), 'particles', 'pass {}: particle positions frozen: {}, moved by {}'.format(ep, 'q1' in s['frozen'], s['moved']['q1']))
    ctx.check(True, 'particles', '')
    ctx.key(what, o['niters'], o['batch_size'], o['validate_with_long_range'], o['chunk_time'])


def chain(ctx, es):
    """Successive pieces of a trajectory, each starting where the previous one ends."""
    out = [es[0]['out']]
    for a, b in zip(es, es[1:]):
        ctx.equal(b['x'].reshape(-1), a['out'][-1].reshape(-1), 'saved', 'a piece starts where the previous one ends')
        out.append(b['out'][1:])
    return torch.cat(out, 0)


@check.scenario(quick=2, thorough=20, requires=('finishes', 'repeatable', 'seed'))
def repeatable(ctx):
    """The same options and seed give the same results and parameters, another seed does not."""
    if ctx.rng.random() < 0.5:
        o, mode, net = fm_options(ctx)
        f = lambda oo, tag: fm_run(ctx, oo, net, tag=tag)
    else:
        o, mode = spiral_options(ctx)
        net = None
        f = lambda oo, tag: spiral_run(ctx, oo, tag=tag)
    ctx.note(options=' '.join(map(str, options(ctx, o))))
    a, b, c = f(o, 'a'), f(o, 'b'), f(dict(o, seed=o['seed'] + 1), 'c')
    for k in a.res:
        if isinstance(a.res[k], float):
            ctx.check(a.res[k] == b.res[k] or a.res[k] != a.res[k], 'repeatable', '{}: {} and {}'.format(k, a.res[k], b.res[k]))
    for k in a.final:
        ctx.equal(a.final[k], b.final[k], 'repeatable', 'final ' + k)
    ctx.check(any(not torch.equal(a.final[k], c.final[k]) for k in a.final), 'seed', 'another seed gives the same parameters')
    xa, xc = [[e['x'] for e in q.fwd if e['grad']] for q in (a, c)]
    ctx.check(len(xa) == len(xc) and any(not torch.equal(p, q) for p, q in zip(xa, xc)), 'seed', 'another seed gives the same training data')
    ctx.key(mode, net, o['shooting_model'])


def bce(o, y):
    o = o.double()
    return torch.log1p(torch.exp(-o.abs())) + o.clamp(min=0) - o * y


@check.scenario(quick=1, thorough=15, requires=('finishes', 'steps', 'trained', 'rate', 'gradients', 'saved'))
def circles(ctx):
    o = dict(niters=ctx.choice([1, 3]), batch_size=ctx.choice([500, 700]), seed=ctx.rng.randrange(1000), shooting_dim=2, lr=ctx.choice([0.01, 0.002]), stepsize=ctx.choice([0.1, 0.25]), sim_weight=ctx.choice([100.0, 5.0]),
             shooting_model=ctx.choice(['updown', 'updown_universal']), nr_of_particles=ctx.choice([4, 8]), inflation_factor=3, nonlinearity=ctx.choice(['relu', 'tanh']), save_model='mymodel')
    ctx.note(options=' '.join(map(str, options(ctx, o))))
    r = run(ctx, 'cc.py', options(ctx, o), dict(kind='cc', watch=['Model'], sim_weight=o['sim_weight']))
    per = math.ceil(3000 / o['batch_size'])
    check_steps(ctx, r, o['niters'] * per, lambda i: o['lr'] * (1 + math.cos(math.pi * (i // per) / o['niters'])) / 2, 'circles', wd0=False)
    with open(os.path.join(r.dir, 'mymodel_results_.pkl'), 'rb') as f:
        a, res = pickle.load(f)
    with open(os.path.join(r.dir, 'mymodel.pkl'), 'rb') as f:
        _, tracker = pickle.load(f)
    ctx.check(os.path.getsize(os.path.join(r.dir, 'mymodel.pt')) > 0, 'saved', 'no model')
    ctx.check(len(res) == o['niters'] and len(tracker) == o['niters'], 'saved', '{} results, {} recordings'.format(len(res), len(tracker)))
    for k, v in o.items():
        ctx.check(getattr(a, k) == v, 'saved', 'option ' + k)
    tr = r.used
    te = [e for e in r.fwd if not e['train']]
    ctx.check(len(te) == o['niters'] * (per + 1), 'saved', '{} test batches'.format(len(te)))
    for i, (trl, tel, acc) in enumerate(res):
        near(ctx, trl, sum(e['loss'] for e in tr[i * per:(i + 1) * per]) / per, 'saved', 'training loss')
        q = te[i * (per + 1):(i + 1) * (per + 1)][:per]
        x = torch.cat([e['x'].reshape(-1, 2) for e in q])
        y = (x.norm(dim=1, keepdim=True) > 0.75).double()
        out = torch.cat([e['out'] for e in q])
        ctx.check(len(x) == 3000 and int(y.sum()) == 2000, 'saved', 'test data')
        near(ctx, tel, bce(out, y).mean(), 'saved', 'test loss')
        near(ctx, acc, 100 * ((out > 0).double() == y).double().mean(), 'saved', 'accuracy', rtol=1e-3)
    ctx.key(str(sorted(o.items())))


def images(ctx, n, T):
    r = np.random.RandomState(ctx.rng.randrange(2 ** 31))
    return r.rand(n, T, 28 * 28).astype(np.float32)


@check.scenario(quick=1, thorough=8, requires=('finishes', 'steps', 'trained', 'rate', 'gradients', 'saved', 'mode'))
def rotated(ctx):
    o = dict(niters=2, seed=ctx.rng.randrange(1000), shooting_dim=ctx.choice([3, 5]), lr=ctx.choice([0.01, 0.002]), stepsize=0.25, shooting_model=ctx.choice(['simple', 'updown', 'updown_universal']),
             n_skip=ctx.choice([0, 4]), i_eval=ctx.choice([2, 4, 15]), nr_of_particles=5, inflation_factor=2, nonlinearity='tanh', sim_weight=ctx.choice([100.0, 5.0]), norm_weight=ctx.choice([0.01, 0.1]), save=True)
    X = images(ctx, 500 + 8, 16)
    d = os.path.join(ctx.scratch, 'a', 'b')
    os.makedirs(d)
    os.makedirs(os.path.join(ctx.scratch, 'data', 'rotated_mnist'))
    scipy.io.savemat(os.path.join(ctx.scratch, 'data', 'rotated_mnist', 'rot-mnist-3s.mat'), {'X': X})
    ctx.note(options=' '.join(map(str, options(ctx, o))))
    r = run(ctx, 'rot.py', options(ctx, o), dict(kind='rot', watch=['ShootingAEMasked'], sim_weight=o['sim_weight'], norm_weight=o['norm_weight'], penalty=True), data={'train': torch.tensor(X[:500])}, cwd=d)
    check_steps(ctx, r, 2 * 20, lambda i: o['lr'] * (1 + math.cos(math.pi * (i // 20) / 2)) / 2, 'rotated')
    runs = os.listdir(os.path.join(d, 'runs'))
    ctx.check(len(runs) == 1, 'saved', 'runs {}'.format(runs))
    with open(os.path.join(d, 'runs', runs[0], 'tracker.pkl'), 'rb') as f:
        tracker = pickle.load(f)
    with open(os.path.join(d, 'runs', runs[0], 'images.pkl'), 'rb') as f:
        im = pickle.load(f)
    tr, te = [e for e in r.fwd if e['masked']], [e for e in r.fwd if not e['masked']]
    ctx.check(all(e['train'] for e in tr) and not any(e['train'] for e in te), 'mode', 'training passes in training mode: {}, test passes: {}'.format([e['train'] for e in tr], [e['train'] for e in te]))
    ctx.check(len(tracker) == 2 and len(te) == 3, 'saved', '{} entries'.format(len(tracker)))
    V = torch.tensor(X[500:]).double()
    for i, t in enumerate(tracker):
        near(ctx, t['it_loss'], sum(e['loss'] for e in tr[20 * i:20 * i + 20]) / 20, 'saved', 'loss')
        near(ctx, t['it_npe_loss'], sum(o['norm_weight'] * e['pen'] for e in tr[20 * i:20 * i + 20]) / 20, 'saved', 'penalty')
        near(ctx, t['it_loss'], t['it_sim_loss'] + t['it_npe_loss'], 'saved', 'sum')
        R = te[i]['out'].double().reshape(V.shape)
        er = ((R - V) ** 2)[:, o['i_eval']].mean(1)
        ctx.close(torch.tensor(np.array(t['img_eval_errors'])).double(), er, 'saved', 'errors', rtol=1e-4)
        near(ctx, t['all_eval_error'], er.mean(), 'saved', 'mean error')
    ctx.close(torch.tensor(np.concatenate(im['Rs'])).double().reshape(V.shape), te[2]['out'].double().reshape(V.shape), 'saved', 'images', rtol=1e-5)
    ctx.close(torch.tensor(np.concatenate(im['Vs'])).double().reshape(V.shape), V, 'saved', 'true images', rtol=1e-5)
    ctx.key(str(sorted(o.items())))


@check.scenario(quick=1, thorough=8, requires=('finishes', 'steps', 'trained', 'rate', 'gradients', 'saved', 'mode'))
def bouncing(ctx):
    E = ctx.choice([2, 3])
    o = dict(niters=E, seed=ctx.rng.randrange(1000), shooting_dim=ctx.choice([3, 5]), lr=ctx.choice([0.01, 0.05]), stepsize=0.25, shooting_model=ctx.choice(['simple', 'updown', 'updown_universal']),
             nr_of_particles=5, inflation_factor=2, nonlinearity='tanh', sim_weight=ctx.choice([100.0, 5.0]), norm_weight=ctx.choice([0.01, 0.1]), save_to='result', evaluate_ahead=ctx.choice([1, 10]))
    d = os.path.join(ctx.scratch, 'a', 'b')
    os.makedirs(d)
    dd = os.path.join(ctx.scratch, 'data', 'bouncing_balls')
    os.makedirs(dd)
    S = {k: torch.tensor(images(ctx, n, 20)).reshape(n, 20, 1, 28, 28) for k, n in (('train', 28), ('test', 6), ('val', 5))}
    for k, v in S.items():
        torch.save(v, os.path.join(dd, 'bballs_{}.pt'.format(k)))
    ctx.note(options=' '.join(map(str, options(ctx, o))))
    r = run(ctx, 'balls.py', options(ctx, o), dict(kind='balls', watch=['ShootingAE'], sim_weight=o['sim_weight'], norm_weight=o['norm_weight'], penalty=True), data={'train': S['train'].reshape(28, 20, -1)}, cwd=d)
    check_steps(ctx, r, 2 * E, lambda i: o['lr'] * (1 + math.cos(math.pi * (i // 2) / E)) / 2, 'balls')
    tr, te = [e for e in r.fwd if 'loss' in e and e['train']], [e for e in r.fwd if not e['train']]
    ctx.check(len(tr) == 2 * E and len(te) == 2 * E, 'mode', '{} training and {} test passes'.format(len(tr), len(te)))
    k = o['evaluate_ahead']
    err = {}
    for i in range(E):
        for j, nm in ((0, 'test'), (1, 'val')):
            e = te[2 * i + j]
            V = S[nm].reshape(-1, 20, 784).double()
            err[nm, i] = ((e['out'].double().reshape(V.shape) - V) ** 2).mean(2)[:, 3:3 + k]
    with open(os.path.join(d, 'result', 'bball_stats.pkl'), 'rb') as f:
        st = pickle.load(f)
    means = [float(err['val', i].mean()) for i in range(E)]
    best = min(range(E), key=lambda i: means[i])
    srt = sorted(means)
    if srt[1] - srt[0] > 1e-6:
        for nm in ('test', 'val'):
            ctx.close(torch.tensor(st[nm + '_errors']).double(), err[nm, best], 'saved', nm + ' errors of the best pass', rtol=1e-4, atol=1e-7)
            near(ctx, st[nm + '_error'], err[nm, best].mean(), 'saved', nm + ' error')
            ctx.close(torch.tensor(np.concatenate(st[nm + '_tru'])).double().reshape(len(S[nm]), k, -1), S[nm][:, 3:3 + k].reshape(len(S[nm]), k, -1).double(), 'saved', 'true images', rtol=1e-6)
    ctx.check(os.path.getsize(os.path.join(d, 'result', 'bball_model.pt')) > 0, 'saved', 'no model')
    for i, e in enumerate(tr):
        ctx.check(e['train'], 'mode', 'training pass {} in evaluation mode'.format(i))
    ctx.key(str(sorted(o.items())))


SWEEPS = {'run_experiments_spiral.py': ('spiral', 'spiral.py'), 'run_experiments_spiral_rnn.py': ('spiral', 'spiral.py'),
          'run_long_iteration_experiments_simple_functional_mapping.py': ('simple_functional_mapping_example', 'simple_functional_mapping_example.py'),
          'run_long_iteration_experiments_simple_functional_mapping_rnn.py': ('simple_functional_mapping_example', 'simple_functional_mapping_example.py')}

STANDIN = '''#!/bin/bash
{ printf '%s\\x1f' "$@"; printf '\\n'; } >> "$(dirname "$0")/calls"
'''


@check.scenario(quick=2, thorough=8, requires=('finishes', 'sweeps'))
def sweeps(ctx):
    """Every run a sweep starts is one the experiment understands, with results of its own, for all the seeds."""
    script = ctx.cycle(sorted(SWEEPS))
    mod, target_script = SWEEPS[script]
    py = os.path.join(ctx.scratch, 'py')
    with open(py, 'w') as f:
        f.write(STANDIN)
    os.chmod(py, 0o755)
    model = ctx.choice(['updown', 'updown_universal', 'simple'])
    seeds, start = ctx.choice([1, 2]), ctx.choice([0, 3])
    args = ['--path_to_python', py, '--nr_of_seeds', str(seeds), '--starting_seed_id', str(start), '--shooting_model', model, '--output_base_directory', 'res']
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    w = os.path.join(ctx.scratch, 'w')
    os.makedirs(w)
    p = subprocess.run([sys.executable, os.path.join(DEMOS, script)] + args, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, timeout=300)
    ctx.check(p.returncode == 0, 'finishes', '{}: {}'.format(script, p.stdout[-500:]))
    with open(os.path.join(ctx.scratch, 'calls')) as f:
        calls = [ln.rstrip('\n').split('\x1f')[:-1] for ln in f]
    ctx.check(len(calls) >= 2 * seeds, 'sweeps', '{} runs'.format(len(calls)))
    dirs, keep = {}, sys.argv
    settings = set()
    for c in calls:
        ctx.check(os.path.basename(c[0]) == target_script, 'sweeps', 'runs ' + c[0])
        sys.argv = c
        try:
            a = quiet(demo(mod).setup_cmdline_parsing)
        except SystemExit:
            ctx.fail('{} does not understand {}'.format(target_script, c[1:]))
        finally:
            sys.argv = keep
        ctx.check(a.shooting_model == model and start <= a.seed < start + seeds and a.save_figures, 'sweeps', 'run {}'.format(c[1:]))
        ctx.check(a.output_directory not in dirs, 'sweeps', 'two runs write to ' + a.output_directory)
        dirs[a.output_directory] = a
        ctx.check(os.path.isdir(os.path.join(w, a.output_directory)), 'sweeps', 'no directory ' + a.output_directory)
        settings.add((a.seed, tuple(sorted((k, v) for k, v in vars(a).items() if k not in ('seed', 'output_directory')))))
    ctx.check(len(settings) == len(calls), 'sweeps', 'runs repeat')
    per = {s: {x[1] for x in settings if x[0] == s} for s in range(start, start + seeds)}
    ctx.check(all(v == per[start] for v in per.values()), 'sweeps', 'the seeds run different settings')
    ctx.note(script=script, model=model, runs=len(calls))
    ctx.key(script, model, seeds, start)
