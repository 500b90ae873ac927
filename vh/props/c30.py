"""C30: the data sets, networks and losses of the experiments are what they claim to be."""
import argparse
import contextlib
import copy
import importlib.util
import io
import math
import os
import random
import sys
import numpy as np
import scipy.integrate
import scipy.linalg
import scipy.io
import torch
import torch.nn.functional as F
from neuro_shooting import generic_integrator, shooting_blocks, shooting_models
import neuro_shooting.parameter_initialization as pi
from vh import core, lib
from vh.core import Check

DEMOS = os.path.join(core.REPO, 'demos', 'neurips20')

check = Check('C30', 'one case = one generated set of options and data for one building block of the experiments (data set, sampling, network, loss, evaluation); what it returns is compared with an '
              'independent evaluation of its definition. Non-trivial: the compared values are not constant; distinct by the options.',
              ['the scripts are imported as modules (their main part is the subject of C31)', 'sampled quantities are compared exactly where they are determined and by 6 sigma bounds where they are random'])

_mods = {}


def demo(name):
    """Imports an experiment script the way it is run: its own directory first on the path."""
    if name not in _mods:
        if DEMOS not in sys.path:
            sys.path.insert(0, DEMOS)
        sp = importlib.util.spec_from_file_location('vh_demo_' + name, os.path.join(DEMOS, name + '.py'))
        m = importlib.util.module_from_spec(sp)
        dt = torch.get_default_dtype()
        with contextlib.redirect_stdout(io.StringIO()):
            sp.loader.exec_module(m)
        torch.set_default_dtype(dt)
        _mods[name] = m
    return _mods[name]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def seed_all(ctx):
    s = ctx.rng.randrange(2 ** 31)
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def spiral_reference(t, linear):
    A = np.array([[-0.1, 2.0], [-2.0, -0.1]])
    y0 = np.array([2.0, 0.0])
    if linear:
        return np.stack([y0 @ scipy.linalg.expm(A * (ti - t[0])) for ti in t])
    sol = scipy.integrate.solve_ivp(lambda s, y: (y ** 3) @ A, (float(t[0]), float(t[-1])), y0, t_eval=np.asarray(t, float), rtol=1e-10, atol=1e-12, method='DOP853')
    return sol.y.T


def check_selection(ctx, y, sel, dists, bt, what):
    """Every admissible start is repeated in proportion to the length of the step which follows it."""
    n = len(y)
    d = [math.sqrt(float(((y[i + 1, 0] - y[i, 0]) ** 2).sum())) for i in range(n - 1)]
    ctx.close(dists, torch.tensor(d + [d[-1]]), 'distances', what + ': distances', rtol=1e-9)
    use = d[:n - bt]
    m = min(use)
    cnt = np.bincount(np.asarray(sel), minlength=n)
    for i in range(n):
        r = use[i] / m if i < len(use) else 0.0
        ctx.check(abs(cnt[i] - r) <= 0.5 + 1e-6 * max(1, r), 'selection', '{}: start {} is repeated {} times, relative length {:.4f}'.format(what, i, cnt[i], r))
    ctx.check(list(sel) == sorted(sel), 'selection', what + ': starts are not ordered')
    return use


def check_windows(ctx, d, y0, t, y, bt, n, what, last_start):
    """Batches are pieces of the trajectory of successive points, beginning with y0."""
    traj = d['y']
    ctx.check(tuple(y.shape) == (bt, n) + tuple(traj.shape[1:]), 'windows', '{}: shape {}'.format(what, tuple(y.shape)))
    ctx.equal(y0, y[0], 'windows', what + ': initial values are the first values')
    ctx.equal(t, d['t'][:bt], 'windows', what + ': times')
    starts = []
    first = traj[:, 0, 0].tolist()
    for j in range(n):
        s = first.index(float(y[0, j, 0, 0]))
        starts.append(s)
        ctx.equal(y[:, j], traj[s:s + bt], 'windows', '{}: sample {} starting at {}'.format(what, j, s))
    ctx.check(max(starts) <= last_start, 'windows', '{}: start {} is not admissible'.format(what, max(starts)))
    return starts


@check.scenario(quick=8, thorough=80, requires=('trajectory', 'selection', 'distances'))
def spiral_data(ctx):
    m = demo('spiral')
    method = ctx.choice(['dopri5', 'rk4', 'rk4'])
    linear = ctx.rng.random() < 0.5
    n = ctx.choice([30, 60, 100, 200])
    bt = ctx.choice([2, 3, 5, 10])
    step = ctx.choice([0.02, 0.01])
    integ = quiet(m.setup_integrator, method=method, use_adjoint=ctx.rng.random() < 0.3, step_size=step)
    d = m.generate_data(integrator=integ, data_size=n, batch_time=bt, linear=linear)
    ctx.note(method=method, linear=linear, n=n, batch_time=bt)
    ctx.close(d['t'], torch.linspace(0, 10, n), 'trajectory', 'times', rtol=1e-12, atol=1e-12)
    ctx.equal(d['y'][0], d['y0'], 'trajectory', 'start')
    want = torch.tensor(spiral_reference(d['t'].numpy(), linear)).reshape(n, 1, 2)
    # fixed steps interpolate linearly between their grid points
    ctx.close(d['y'], want, 'trajectory', 'trajectory', rtol=0, atol=1e-5 if method == 'dopri5' else 40 * step ** 2)
    ctx.check(not d['y'].requires_grad, 'trajectory', 'the data requires gradients')
    check_selection(ctx, d['y'], d['uniform_sample_indices'], d['dists'], bt, 'spiral')
    ctx.key(method, linear, n, bt)


@check.scenario(quick=6, thorough=40, requires=('right_hand_side',))
def right_hand_side(ctx):
    m = demo('spiral')
    A = ctx.randn(2, 2)
    y = ctx.randn(ctx.choice([1, 3]), 2) * ctx.choice([0.1, 1.0, 3.0])
    linear = ctx.rng.random() < 0.5
    t = torch.tensor(ctx.rng.uniform(-1, 10))
    got = m.DiffEqRHS(A=A, linear=linear)(t, y)
    want = torch.tensor([[sum((float(y[i, k]) if linear else float(y[i, k]) ** 3) * float(A[k, j]) for k in range(2)) for j in range(2)] for i in range(len(y))])
    ctx.close(got, want, 'right_hand_side', 'derivative', rtol=1e-10, atol=1e-12)
    ctx.key(linear, len(y))


def random_trajectory(ctx, n):
    d = {'t': torch.cumsum(ctx.rand(n) + 0.05, 0), 'y': ctx.randn(n, 1, 2)}
    d['y'] = torch.cumsum(d['y'] * ctx.choice([0.3, 1.0]) + 0.3, 0) + 0.001 * torch.arange(n).reshape(-1, 1, 1)
    d['y0'] = d['y'][0].clone()
    return d


@check.scenario(quick=10, thorough=100, requires=('windows', 'selection', 'frequencies', 'unchanged'))
def spiral_batches(ctx):
    m = demo('spiral')
    n = ctx.choice([12, 20, 40])
    bt = ctx.choice([2, 3, 5, 8])
    d = random_trajectory(ctx, n)
    seed_all(ctx)
    sel, dists = m.create_uniform_distance_selection_array(d, batch_time=bt)
    d['uniform_sample_indices'], d['dists'] = sel, dists
    use = check_selection(ctx, d['y'], sel, dists, bt, 'random trajectory')
    before = {k: (v.clone() if torch.is_tensor(v) else np.array(v)) for k, v in d.items()}
    by_dist = ctx.rng.random() < 0.5
    bs = ctx.choice([1, 4, 20])
    y0, t, y = m.get_batch(data_dict=d, batch_size=bs, batch_time=bt, distance_based_sampling=by_dist)
    check_windows(ctx, d, y0, t, y, bt, bs, 'batch', n - bt)
    big = 3000
    y0, t, y = m.get_batch(data_dict=d, batch_size=big, batch_time=bt, distance_based_sampling=by_dist)
    first = d['y'][:, 0, 0].tolist()
    cnt = np.bincount([first.index(v) for v in y0[:, 0, 0].tolist()], minlength=n)
    w = np.bincount(sel, minlength=n) / len(sel) if by_dist else np.array([1.0 / (n - bt) if i < n - bt else 0.0 for i in range(n)])
    for i in range(n):
        sd = math.sqrt(big * w[i] * (1 - w[i])) if w[i] > 0 else 0
        ctx.check(abs(cnt[i] - big * w[i]) <= 6 * sd + 6, 'frequencies', 'start {} sampled {} times, expected {:.1f}'.format(i, cnt[i], big * w[i]))
    for k, v in before.items():
        ctx.equal(torch.as_tensor(d[k]), torch.as_tensor(v), 'unchanged', k)
    ctx.note(n=n, batch_time=bt, by_distance=by_dist)
    ctx.key(n, bt, by_dist, bs)


@check.scenario(quick=10, thorough=100, requires=('windows', 'fixed', 'online', 'long_range'))
def spiral_datasets(ctx):
    m = demo('spiral')
    n = ctx.choice([25, 40])
    bt = ctx.choice([2, 4, 6])
    d = random_trajectory(ctx, n)
    d['uniform_sample_indices'], d['dists'] = m.create_uniform_distance_selection_array(d, batch_time=bt)
    seed_all(ctx)
    a = argparse.Namespace(validate_with_long_range=ctx.rng.random() < 0.5, batch_time=bt, batch_size=ctx.choice([5, 10, 7]), disable_distance_based_sampling=ctx.rng.random() < 0.5)
    by = not a.disable_distance_based_sampling
    k = ctx.choice([6, 15])
    ds = m.FunctionDataset(args=a, data_dict=d, nr_of_samples=k, batch_time=bt, distance_based_sampling=by, online_mode=False)
    ctx.check(len(ds) == k, 'fixed', 'length {}'.format(len(ds)))
    al = ds[list(range(k))]
    check_windows(ctx, d, al['y0'], ds.t, al['y'], bt, k, 'fixed data', n - bt)
    for i in range(k):
        one, again, ten = ds[i], ds[i], ds[torch.tensor([i])]
        for key, v in (('y0', al['y0'][i]), ('y', al['y'][:, i])):
            ctx.equal(one[key], v, 'fixed', 'sample {} {}'.format(i, key))
            ctx.equal(again[key], v, 'fixed', 'sample {} {} again'.format(i, key))
            ctx.equal(ten[key].squeeze(0 if key == 'y0' else 1), v, 'fixed', 'sample {} {} by tensor'.format(i, key))
    on = m.FunctionDataset(args=a, data_dict=d, nr_of_samples=k, batch_time=bt, distance_based_sampling=by, online_mode=True)
    ctx.check(len(on) == k, 'online', 'length')
    seen = set()
    for i in range(3):
        ix = [ctx.rng.randrange(k) for _ in range(ctx.choice([2, 5]))]
        s = on[ix]
        seen.update(check_windows(ctx, d, s['y0'], on.t, s['y'], bt, len(ix), 'online data', n - bt))
    fresh = set()
    for _ in range(40):
        s = on[3]
        fresh.update(check_windows(ctx, d, s['y0'].unsqueeze(0), on.t, s['y'].unsqueeze(1), bt, 1, 'online sample', n - bt))
    ctx.check(len(fresh) > 1, 'online', 'one index always gives the same sample')
    ctx.expect_raises(lambda: on[(1, 2)], ValueError, 'online', 'unknown index')
    tr, te, sh, va = m.get_function_data_loaders(args=a, data_dict=d, training_samples=20, training_evaluation_samples=12, short_range_testing_samples=30, testing_samples=9)
    bat = list(tr)
    ctx.check(len(bat) == 20 // a.batch_size, 'online', '{} training batches'.format(len(bat)))
    for b in bat:
        check_windows(ctx, d, b['y0'], tr.dataset.t, b['y'].transpose(0, 1), bt, a.batch_size, 'training batch', n - bt)
    for nm, l, c in (('training evaluation', te, 12), ('short range', sh, 30)):
        one, two = list(l), list(l)
        ctx.check(len(one) == 1 and len(two) == 1, 'fixed', nm + ' has {} batches'.format(len(one)))
        check_windows(ctx, d, one[0]['y0'], l.dataset.t, one[0]['y'].transpose(0, 1), bt, c, nm, n - bt)
        ctx.equal(one[0]['y'], two[0]['y'], 'fixed', nm + ' differs between passes')
    one = list(va)
    ctx.check(len(one) == 1, 'long_range', 'number of batches')
    if a.validate_with_long_range:
        ctx.equal(va.dataset.t, d['t'], 'long_range', 'times')
        ctx.equal(one[0]['y'].transpose(0, 1), d['y'].unsqueeze(1), 'long_range', 'trajectory')
        ctx.equal(one[0]['y0'], d['y'][0:1], 'long_range', 'start')
    else:
        check_windows(ctx, d, one[0]['y0'], va.dataset.t, one[0]['y'].transpose(0, 1), bt, 9, 'test', n - bt)
    ctx.check(True, 'long_range', '')
    ctx.note(args=str(a), samples=k, n=n)
    ctx.key(str(a), k, n)


def small_block(ctx, dim=2, step=0.25, model=None, tmax=1.0):
    cls = model or ctx.choice(['Simple', 'UpDown', 'UpDownUniversal'])
    C = {'Simple': shooting_models.AutoShootingIntegrandModelSimple, 'UpDown': shooting_models.AutoShootingIntegrandModelUpDown,
         'UpDownUniversal': shooting_models.AutoShootingIntegrandModelUpDownUniversal}[cls]
    kw = dict(in_features=dim, nonlinearity=ctx.choice(['tanh', 'sigmoid']), nr_of_particles=4, particle_dimension=1, particle_size=dim, use_analytic_solution=True)
    if cls != 'Simple':
        kw['inflation_factor'] = 2
    bk, mode = {}, ctx.choice(['plain', 'pf_rnn', 'pf_time'])
    if mode == 'pf_rnn':
        bk['use_particle_free_rnn_mode'] = True
    elif mode == 'pf_time':
        bk.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=3)
    integ = generic_integrator.GenericIntegrator(integrator_library='odeint', integrator_name='rk4', use_adjoint_integration=False, integrator_options={'step_size': step})
    b = quiet(shooting_blocks.ShootingBlockBase, name='simple', shooting_integrand=C(**kw), integrator=integ, max_integration_time=tmax, **bk)
    lib.randomize(b, ctx, scale=0.3)
    return b, cls + ':' + mode


@check.scenario(quick=10, thorough=100, requires=('chunks',))
def time_chunks(ctx):
    m = demo('spiral')
    n = ctx.choice([2, 3, 5, 9, 10, 11, 21, 50])
    c = ctx.choice([-1, 0, 2, 3, 5, 10, 11, 60])
    zero = ctx.rng.random() < 0.5
    t = torch.cumsum(ctx.rand(n) + 0.01, 0)
    got = m.get_time_chunks(t, c, start_time_chunk_from_zero=zero)
    want, i = [], 0
    if c <= 0:
        want = [(0, n)]
    else:
        while True:
            e = min(i + c, n)
            want.append((i, e))
            if e == n:
                break
            i = e - 1
    ctx.check(len(got) == len(want), 'chunks', '{} pieces of {} for {} times in pieces of {}'.format(len(got), len(want), n, c))
    for g, (i, e) in zip(got, want):
        ctx.equal(g, t[0:e - i] if (zero and c > 0) else t[i:e], 'chunks', 'piece {}-{}'.format(i, e))
    # pieces share an end, those of one time would never advance
    ctx.expect_raises(lambda: m.get_time_chunks(t, 1, start_time_chunk_from_zero=zero), ValueError, 'rejected', 'pieces of one time')
    ctx.note(n=n, chunk=c, from_zero=zero)
    ctx.key(n, c, zero)


@check.scenario(quick=10, thorough=100, requires=('prediction', 'loss', 'penalty'))
def spiral_loss(ctx):
    m = demo('spiral')
    b, kind = small_block(ctx, tmax=2.0)
    n, bs = ctx.choice([3, 6, 11]), ctx.choice([1, 3])
    t = torch.linspace(0, ctx.choice([1.0, 2.0]), n)
    y0, y = ctx.randn(bs, 1, 2), ctx.randn(n, bs, 1, 2)
    a = argparse.Namespace(validate_with_long_range=ctx.rng.random() < 0.6, chunk_time=ctx.choice([0, 2, 3, 5, 20]), sim_norm=ctx.choice(['l1', 'l2']), sim_weight=ctx.choice([1.0, 100.0]),
                           norm_weight=ctx.choice([0.01, 2.0]), do_not_use_parameter_penalty_energy=ctx.rng.random() < 0.3)
    val = ctx.rng.random() < 0.7
    ctx.note(block=kind, args=str(a), validation=val, n=n)
    twin = copy.deepcopy(b)
    loss, sim, norm, pen, pred = m.compute_loss(args=a, batch_y0=y0, batch_t=t, batch_y=y, shooting_block=b, validation_mode=val)

    def run(tt, x):
        twin.set_integration_time_vector(tt, suppress_warning=True)
        return twin(x=x)[0]
    if val and a.validate_with_long_range and a.chunk_time > 0:
        want, cur, i = [y0], y0, 0
        wpen = None
        while i < n - 1:
            e = min(i + a.chunk_time, n)
            r = run(t[:e - i], cur)
            if wpen is None:
                wpen = twin.get_norm_penalty()
            want += [r[j] for j in range(1, e - i)]
            cur, i = r[-1], e - 1
        want = torch.stack(want)
    else:
        want = run(t, y0)
        wpen = twin.get_norm_penalty()
    lib.finite_or_skip(want)
    ctx.close(pred, want, 'prediction', 'prediction', rtol=1e-9)
    ctx.close(pen, wpen, 'penalty', 'penalty', rtol=1e-9)
    dif = (pred.detach() - y).numpy().reshape(-1, 2)
    ws = a.sim_weight * (np.abs(dif).mean() if a.sim_norm == 'l1' else np.sqrt((dif ** 2).sum(1)).mean())
    wn = 0.0 if a.do_not_use_parameter_penalty_energy else a.norm_weight * float(pen)
    for what, g, w in (('similarity', sim, ws), ('norm', norm, wn), ('total', loss, ws + wn)):
        ctx.close(g.detach().reshape(()).double(), torch.tensor(w, dtype=torch.float64), 'loss', what, rtol=1e-9)
    ctx.check(loss.requires_grad, 'loss', 'no gradient of the loss')
    a.sim_norm = 'l3'
    ctx.expect_raises(lambda: m.compute_loss(args=a, batch_y0=y0, batch_t=t, batch_y=y, shooting_block=b), ValueError, 'loss', 'unknown norm')
    ctx.key(kind, str(a), val, n)


@check.scenario(quick=8, thorough=60, requires=('circles', 'numpy', 'sample'))
def circles(ctx):
    m = demo('utils')
    seed_all(ctx)
    dim = ctx.choice([1, 2, 3, 5])
    r = sorted(ctx.rng.uniform(0, 3) for _ in range(4))
    ni, no = ctx.choice([3, 40]), ctx.choice([5, 30])
    ds = m.ConcentricSphere(dim, inner_range=(r[0], r[1]), outer_range=(r[2], r[3]), num_points_inner=ni, num_points_outer=no)
    ctx.check(len(ds) == ni + no, 'circles', '{} points'.format(len(ds)))
    for i in range(len(ds)):
        x, l = ds[i]
        lo, hi, lab = (r[0], r[1], 0) if i < ni else (r[2], r[3], 1)
        ctx.check(tuple(x.shape) == (dim,) and lo - 1e-6 <= float(x.norm()) <= hi + 1e-6, 'circles', 'point {} of norm {:.6f} outside of [{:.4f}, {:.4f}]'.format(i, float(x.norm()), lo, hi))
        ctx.check(tuple(l.shape) == (1,) and float(l) == lab, 'circles', 'label of point {} is {}'.format(i, l))
    ctx.check(len({tuple(x.tolist()) for x, _ in ds}) == len(ds), 'circles', 'points repeat')
    pts = torch.stack([m.random_point_in_sphere(dim, r[0], r[1]) for _ in range(400)])
    u = ((pts.norm(dim=1) - r[0]) / (r[1] - r[0])).clamp(0, 1) ** dim
    ctx.check(abs(float(u.mean()) - 0.5) < 6 * math.sqrt(1 / 12 / 400), 'circles', 'distances are not distributed as stated')
    ctx.check(float((pts / pts.norm(dim=1, keepdim=True)).mean(0).norm()) < 6 / math.sqrt(400) + 0.05, 'circles', 'directions are not centred')
    bs = ctx.choice([1, 4, 100])
    X, Y = m.dataset_to_numpy(torch.utils.data.DataLoader(ds, batch_size=bs, shuffle=False))
    ctx.equal(torch.tensor(X), torch.stack([ds[i][0] for i in range(len(ds))]), 'numpy', 'points')
    ctx.equal(torch.tensor(Y), torch.stack([ds[i][1] for i in range(len(ds))]), 'numpy', 'labels')
    k = ctx.choice([1, 2, 7])
    s = m.sample(ds, k)
    labels = [float(s[i][1]) for i in range(len(s))]
    ctx.check(len(s) == 2 * k and labels.count(0.0) == k and labels.count(1.0) == k, 'sample', 'labels {}'.format(labels))
    allp = {tuple(ds[i][0].tolist()) for i in range(len(ds))}
    ctx.check(all(tuple(s[i][0].tolist()) in allp for i in range(len(s))), 'sample', 'sample is not from the data set')
    ctx.note(dim=dim, inner=ni, outer=no)
    ctx.key(dim, ni, no, bs, k)


@check.scenario(quick=1, thorough=3, requires=('rotated', 'circles'))
def files(ctx):
    """Rotated digits from a generated file; the two data sets of the concentric circles."""
    m = demo('utils')
    cwd = os.getcwd()
    d = os.path.join(ctx.scratch, 'a', 'b')
    os.makedirs(d)
    os.makedirs(os.path.join(ctx.scratch, 'data', 'rotated_mnist'))
    k = ctx.choice([1, 7, 30])
    X = np.random.RandomState(ctx.rng.randrange(2 ** 31)).randint(0, 256, size=(500 + k, 16, 784)).astype(np.uint8)
    scipy.io.savemat(os.path.join(ctx.scratch, 'data', 'rotated_mnist', 'rot-mnist-3s.mat'), {'X': X})
    try:
        os.chdir(d)
        tr, te, N, T = m.load_data()
    finally:
        os.chdir(cwd)
    ctx.check((N, T) == (500, 16) and tr.dtype == torch.float32, 'rotated', 'sizes {} {}'.format(N, T))
    ctx.equal(tr.reshape(500, 16, 784), torch.tensor(X[:500]).float(), 'rotated', 'training data')
    ctx.equal(te.reshape(k, 16, 784), torch.tensor(X[500:]).float(), 'rotated', 'test data')
    ctx.check(tuple(te.shape) == (k, 16, 1, 28, 28), 'rotated', 'shape {}'.format(tuple(te.shape)))
    ds = m.Dataset(te)
    ctx.check(len(ds) == k, 'rotated', 'length')
    ctx.equal(ds[k - 1], te[k - 1], 'rotated', 'item')
    seed_all(ctx)
    a, b = demo('cc').generate_data()
    for s in (a, b):
        nr = torch.tensor([float(x.norm()) for x, _ in s])
        lab = torch.tensor([float(l) for _, l in s])
        ctx.check(int((lab == 0).sum()) == 1000 and int((lab == 1).sum()) == 2000, 'circles', 'numbers of points')
        ctx.check(float(nr[lab == 0].max()) <= 0.5 + 1e-6 and float(nr[lab == 1].min()) >= 1 - 1e-6 and float(nr[lab == 1].max()) <= 1.5 + 1e-6, 'circles', 'radii')
    ctx.check(not torch.equal(a[0][0], b[0][0]), 'circles', 'training and test data are the same')
    ctx.key(k)


@check.scenario(quick=10, thorough=100, requires=('function', 'samples', 'loaders'))
def functions(ctx):
    m = demo('simple_functional_mapping_example')
    seed_all(ctx)
    ft = ctx.choice(['cubic', 'quadratic'])
    f = (lambda x: x ** 3) if ft == 'cubic' else (lambda x: x * x + 3.0 / (1.0 + x * x))
    x = ctx.randn(7) * 2
    ctx.close(m.fcn(x, ft), torch.tensor([f(float(v)) for v in x]), 'function', ft, rtol=1e-10, atol=1e-12)
    ctx.expect_raises(lambda: m.fcn(x, 'linear'), ValueError, 'function', 'unknown function')
    mx, n = ctx.choice([0.5, 1.0, 1.5, 3.0]), ctx.choice([2, 10, 300])

    def ok(i, o, k, what):
        ctx.check(tuple(i.shape) == (k, 1, 1) and tuple(o.shape) == (k, 1, 1), 'samples', what + ': shapes')
        ctx.check(float(i.abs().max()) <= mx + 1e-12, 'samples', what + ': outside of the range')
        ctx.close(o, torch.tensor([f(float(v)) for v in i.reshape(-1)]).reshape(k, 1, 1), 'samples', what + ': values', rtol=1e-10, atol=1e-12)
    i, o = m.get_sample_batch(nr_of_samples=n, max_x=mx, fcn_type=ft)
    ok(i, o, n, 'random')
    if n == 300:
        ctx.check(abs(float(i.mean())) < 6 * mx / math.sqrt(3 * n) and abs(float((i ** 2).mean()) - mx * mx / 3) < 6 * mx * mx * 0.3 / math.sqrt(n), 'samples', 'random samples are not uniform')
    u, uo = m.get_uniform_sample_batch(nr_of_samples=n, max_x=mx, fcn_type=ft)
    ok(u, uo, n, 'uniform')
    ctx.close(u.reshape(-1), torch.tensor([-mx + 2 * mx * k / (n - 1) for k in range(n)]), 'samples', 'uniform positions', rtol=1e-9, atol=1e-12)
    bs = ctx.choice([10, 7, 25])
    tr, te, ev, vi = m.get_function_data_loaders(training_samples=60, training_evaluation_samples=40, testing_samples=30, visualization_samples=5, batch_size=bs, max_x=mx, fcn_type=ft)
    pool = {float(v) for v in tr.dataset.input.reshape(-1)}
    orders = []
    for _ in range(2):
        b = list(tr)
        ctx.check(len(b) == 60 // bs, 'loaders', '{} batches'.format(len(b)))
        vals = [float(v) for q in b for v in q['input'].reshape(-1)]
        ctx.check(len(set(vals)) == len(vals) and set(vals) <= pool, 'loaders', 'samples repeat within a pass')
        orders.append(vals)
        for q in b:
            ok(q['input'], q['output'], bs, 'training batch')
    ctx.check(orders[0] != orders[1], 'loaders', 'training data is not shuffled')
    for nm, l, k, uni in (('test', te, 30, True), ('evaluation', ev, 40, False), ('visualization', vi, 5, True)):
        b = list(l)
        ctx.check(len(b) == 1, 'loaders', nm)
        ok(b[0]['input'], b[0]['output'], k, nm)
        if uni:
            ctx.close(b[0]['input'].reshape(-1), torch.linspace(-mx, mx, k), 'loaders', nm + ' positions', rtol=1e-9, atol=1e-12)
        ctx.equal(b[0]['input'], l.dataset[torch.arange(k)]['input'], 'loaders', nm + ' by tensor')
    ctx.note(fcn=ft, max_x=mx, n=n)
    ctx.key(ft, mx, n, bs)


@check.scenario(quick=8, thorough=80, requires=('loss',))
def functional_loss(ctx):
    m = demo('simple_functional_mapping_example')
    a = argparse.Namespace(use_neural_ode=False, use_double_resnet=False, use_double_resnet_rnn=False, sim_weight=ctx.choice([1.0, 100.0]), norm_weight=ctx.choice([0.5, 1.0]),
                           do_not_use_parameter_penalty_energy=ctx.rng.random() < 0.3)
    xi, xo = ctx.randn(6, 1, 1), ctx.randn(6, 1, 1)
    if ctx.rng.random() < 0.6:
        b, kind = small_block(ctx, dim=1)
        twin = copy.deepcopy(b)
        loss, sim, norm, pen, pred = m.compute_loss(args=a, use_shooting=True, integrator=None, sblock=b, func=None, batch_in=xi, batch_out=xo)
        ctx.close(pred, twin(x=xi)[0], 'loss', 'prediction', rtol=1e-9)
        ctx.close(pen, twin.get_norm_penalty(), 'loss', 'penalty', rtol=1e-9)
        wn = 0.0 if a.do_not_use_parameter_penalty_energy else a.norm_weight * float(pen)
    else:
        kind = 'neural ode'
        a.use_neural_ode = True
        net = demo('simple_discrete_neural_networks').ODESimpleFunc()
        for p in net.parameters():
            p.data = ctx.randn(*p.shape)
        integ = generic_integrator.GenericIntegrator(integrator_library='odeint', integrator_name='dopri5', use_adjoint_integration=False, rtol=1e-8, atol=1e-12)
        loss, sim, norm, pen, pred = m.compute_loss(args=a, use_shooting=False, integrator=integ, sblock=None, func=net, batch_in=xi, batch_out=xo)
        w, c = [float(p) for p in net.parameters()]
        want = [scipy.integrate.solve_ivp(lambda s, y: np.tanh(w * y + c), (0, 1), [float(v)], rtol=1e-10, atol=1e-12).y[0, -1] for v in xi.reshape(-1)]
        ctx.close(pred.reshape(-1), torch.tensor(want), 'loss', 'solution at time one', rtol=1e-5, atol=1e-6)
        wn = 0.0
    ws = a.sim_weight * float(((pred.detach() - xo) ** 2).mean())
    for what, g, w in (('similarity', sim, ws), ('norm', norm, wn), ('total', loss, ws + wn)):
        ctx.close(g.detach().reshape(()).double(), torch.tensor(w, dtype=torch.float64), 'loss', what, rtol=1e-9)
    ctx.note(kind=kind, args=str(a))
    ctx.key(kind, str(a))


NETS = ['ResNet', 'ResNetUpDown', 'DoubleResNetUpDown', 'DoubleResNetUpDownRNN', 'ResNetRNN', 'MyCNNResNet', 'MyCNNResRecNet', 'ODESimpleFunc']


@check.scenario(quick=20, thorough=200, requires=('network', 'gradients'))
def networks(ctx):
    """The reference networks as explicit formulas of their parameters, taken by name."""
    m = demo('simple_discrete_neural_networks')
    nm = ctx.cycle(NETS)
    L, inf, ch = ctx.choice([1, 2, 4]), ctx.choice([1, 3, 5]), ctx.choice([1, 2])
    cnn = nm.startswith('My')
    kw = {} if nm == 'ODESimpleFunc' else dict(nr_layers=L, inflation_factor=inf, in_channels=ch) if cnn else dict(nr_of_layers=L) if nm == 'ResNet' else dict(nr_of_layers=L, inflation_factor=inf)
    net = quiet(getattr(m, nm), **kw)
    for p in net.parameters():
        p.data = ctx.randn(*p.shape) * 0.5
    P = dict(net.state_dict())

    def lin(x, pre):
        return x @ P[pre + '.weight'].t() + (P[pre + '.bias'] if pre + '.bias' in P else 0)

    def conv(x, pre):
        return F.conv2d(x, P[pre + '.weight'], P[pre + '.bias'], padding=1)
    r = lambda v: v.clamp(min=0)
    n = ctx.choice([1, 4])
    x = ctx.randn(n, 1, 5, 6) if cnn else ctx.randn(n, 1, 1)
    xg = x.clone().requires_grad_(True)
    if nm == 'ResNet':
        got, want = net(xg), x
        for i in range(L):
            want = want + lin(r(want), 'model.l{}.l1'.format(i))
    elif nm == 'ResNetUpDown':
        got, want = net(xg), x
        for i in range(L):
            want = want + lin(r(lin(r(want), 'model.l{}.l1'.format(i))), 'model.l{}.l2'.format(i))
    elif nm.startswith('DoubleResNet'):
        x2 = ctx.randn(n, 1, inf)
        got = torch.cat(net((xg, x2)), -1)
        a, b = x, x2
        for i in range(L):
            pre = 'model.l{}'.format(i) if nm == 'DoubleResNetUpDown' else 'l1'
            a = a + lin(r(b), pre + '.l1')
            b = b + lin(r(a), pre + '.l2')
        want = torch.cat((a, b), -1)
    elif nm == 'ResNetRNN':
        got, want = net(xg), x
        for i in range(L):
            want = want + lin(r(lin(want, 'l2')), 'l1') / L
    elif nm == 'ODESimpleFunc':
        got = net(torch.tensor(ctx.rng.uniform(0, 1)), xg)
        want = torch.tanh(lin(x, 'net.0'))
    else:
        got = net(xg)
        z = conv(x, 'conv0')
        for i in range(L):
            pre = 'model.l{}.'.format(i) if nm == 'MyCNNResNet' else ''
            z = z + conv(r(conv(z, pre + 'conv1')), pre + 'conv2') / L
        want = lin(z.amax((2, 3)), 'last_linear')
    ctx.close(got, want, 'network', nm, rtol=1e-9, atol=1e-12)
    unused = {'bn.weight', 'bn.bias'}
    got.sum().backward()
    ctx.check(xg.grad is not None and all(p.grad is not None for k, p in net.named_parameters() if k not in unused), 'gradients', nm + ': a parameter gets no gradient')
    ctx.note(net=nm, layers=L, inflation=inf)
    ctx.key(nm, L, inf, n)


@check.scenario(quick=6, thorough=60, requires=('selection', 'masked', 'composition'))
def autoencoders(ctx):
    m = demo('autoencoder')
    dim, T, N, nf = ctx.choice([2, 3]), ctx.choice([4, 6, 16]), ctx.choice([2, 3]), ctx.choice([1, 2])
    skip, ev = ctx.choice([0, 1, 2]), ctx.rng.randrange(T)
    b, kind = small_block(ctx, dim=dim, tmax=1.5)
    t = 0.1 * torch.arange(T)
    twin = copy.deepcopy(b)
    twin.set_integration_time_vector(t, suppress_warning=True)
    masked = ctx.rng.random() < 0.6
    seed_all(ctx)
    ae = m.ShootingAEMasked(n_filt=nf, shooting_dim=dim, n_skip=skip, i_eval=ev, T=T) if masked else m.ShootingAE(n_filt=nf, shooting_dim=dim, T=T)
    ae.set_shooting_block(b)
    ae.set_integration_time_vector(t)
    ae.train()
    x = ctx.rand(N, 1 if masked else 3, 28, 28)
    for _ in range(2):
        ae(x, use_mask=False) if masked else ae(x)
    ae.eval()
    full = ae(x, use_mask=False) if masked else ae(x)
    z, img = full[0], full[-1]
    ctx.check(tuple(z.shape) == (N, T, dim) and tuple(img.shape) == (N, T, 1, 28, 28), 'composition', 'shapes {} {}'.format(tuple(z.shape), tuple(img.shape)))
    enc = ae.fc1(ae.encoder(x))
    want = twin(x=enc.unsqueeze(1))[0]
    for i in range(N):
        for k in range(T):
            ctx.close(z[i, k], want[k, i, 0], 'composition', 'latent trajectory', rtol=1e-9)
            ctx.close(img[i, k], ae.decoder(ae.fc2(want[k, i]))[0], 'composition', 'image {} at time {}'.format(i, k), rtol=1e-8)
    ctx.close(z[:, 0], enc, 'composition', 'trajectories start at the code', rtol=1e-9)
    if masked:
        seen = set()
        for rep in range(6):
            k = T - skip - 1
            idx = ae.generate_selection_indices(z)
            ctx.check(tuple(idx.shape) == (N, k, dim), 'selection', 'shape {}'.format(tuple(idx.shape)))
            for i in range(N):
                rows = idx[i, :, 0].tolist()
                ctx.check(rows == sorted(set(rows)) and ev not in rows and all(0 <= q < T for q in rows), 'selection', 'time points {} with {} left out'.format(rows, ev))
                ctx.check(bool((idx[i] == idx[i, :, :1]).all()), 'selection', 'different time points within a code')
                seen.add(tuple(rows))
            zo, ix, im = ae(x, use_mask=True)
            for i in range(N):
                rows = ix[i, :, 0].tolist()
                seen.add(tuple(rows))
                ctx.close(zo[i], z[i, rows], 'masked', 'selected codes', rtol=1e-9)
                ctx.close(im[i], img[i, rows], 'masked', 'selected images', rtol=1e-8)
        if skip and T > 4:
            ctx.check(len(seen) > 1, 'selection', 'always the same time points')
    ctx.check(True, 'selection', '')
    ctx.check(True, 'masked', '')
    ctx.note(block=kind, T=T, dim=dim, masked=masked, skip=skip)
    ctx.key(kind, T, dim, N, masked, skip)


@check.scenario(quick=8, thorough=80, requires=('trajectory', 'training', 'testing', 'hook'))
def classifier(ctx):
    """The classification experiment: one pass of training as explicit steps, test values as sums over samples."""
    m = demo('cc')
    torch.set_default_dtype(torch.float32)
    seed_all(ctx)
    which = ctx.choice(['simple', 'updown', 'updown_universal'])
    b = quiet(m.setup_shooting_block, integrator=quiet(m.setup_integrator, method='rk4', use_adjoint=False, step_size=0.25), in_features=2, shooting_model=which, nr_of_particles=4,
              inflation_factor=2, nonlinearity='tanh')
    model = m.Model()
    model.set_shooting_block(b)
    n, bs = ctx.choice([7, 12]), ctx.choice([3, 5, 12])
    if n % bs == 1:
        n += 1
    X, Y = torch.randn(n, 2), (torch.rand(n, 1) < 0.5).float()
    loader = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(X, Y), batch_size=bs, shuffle=False)
    twin = copy.deepcopy(model)
    a = argparse.Namespace(sim_weight=ctx.choice([1.0, 100.0]), norm_weight=0.01)
    o1, o2 = torch.optim.SGD(model.parameters(), lr=1e-3), torch.optim.SGD(twin.parameters(), lr=1e-3)
    model.eval()
    got = m.train(a, model, torch.device('cpu'), loader, o1, 0)
    twin.train()
    tot, cnt = 0.0, 0
    for s in range(0, n, bs):
        x, y = X[s:s + bs], Y[s:s + bs]
        o2.zero_grad()
        z = twin.blk(x.unsqueeze(1))[0]
        o = twin.cls(z.reshape(len(x), -1))
        l = a.sim_weight * (torch.log1p(torch.exp(-o.abs())) + o.clamp(min=0) - o * y).mean()
        l.backward()
        o2.step()
        tot, cnt = tot + float(l), cnt + 1
    ctx.close(torch.tensor(got), torch.tensor(tot / cnt), 'training', 'loss of the pass', rtol=1e-4)
    for (k, p), (_, q) in zip(model.state_dict().items(), twin.state_dict().items()):
        ctx.close(p.double(), q.double(), 'training', 'parameter {} after a pass'.format(k), rtol=2e-3, atol=2e-4)
    tl, acc = m.test(model, torch.device('cpu'), loader)
    ctx.check(not model.training, 'testing', 'not in evaluation mode')
    state = copy.deepcopy(model.state_dict())
    with torch.no_grad():
        o = model.cls(model.blk(X.unsqueeze(1))[0].reshape(n, -1)).double()
        y = Y.double()
        wl = float((torch.log1p(torch.exp(-o.abs())) + o.clamp(min=0) - o * y).mean())
    ctx.close(torch.tensor(tl), torch.tensor(wl), 'testing', 'test loss', rtol=1e-4)
    if float(o.abs().min()) > 1e-4:
        ctx.close(torch.tensor(acc), torch.tensor(100.0 * float(((o > 0) == (y > 0.5)).double().mean())), 'testing', 'accuracy', rtol=1e-6)
    k = ctx.choice([2, 5, 10])
    tr = model.trajectory(X.unsqueeze(1), N=k)[0]
    end = model.blk(X.unsqueeze(1))[0]
    w = twin.blk
    w.load_state_dict(model.blk.state_dict())
    w.set_integration_time_vector(torch.linspace(0, 1, k), suppress_warning=True)
    ctx.close(tr, w(X.unsqueeze(1))[0], 'trajectory', 'trajectory', rtol=1e-5)
    ctx.check(tuple(end.shape) == (n, 1, 2), 'trajectory', 'the trajectory changes what is computed afterwards')
    w.set_integration_time(1.0)
    ctx.close(end, w(X.unsqueeze(1))[0], 'trajectory', 'after the trajectory', rtol=1e-5)
    if which != 'simple':
        h = m.hook_in(model, torch.device('cpu'), loader)
        L = len(h['t'])
        ctx.check(L > 0 and all(len(v) == L for v in h.values()) and {'t', 'q1', 'l1_weight', 'l1_bias', 'l2_weight', 'l2_bias'} <= set(h), 'hook', 'recorded {}'.format({q: len(v) for q, v in h.items()}))
        ctx.close(h['q1'][0], model.blk.state_dict()['q1'], 'hook', 'first particles', rtol=1e-6)
        ctx.check(min(h['t']) == 0.0 and abs(max(h['t']) - 1.0) < 1e-6, 'hook', 'times {} to {}'.format(min(h['t']), max(h['t'])))
        model.blk(X.unsqueeze(1))
        ctx.check(len(h['t']) == L, 'hook', 'the recording goes on')
    ctx.check(True, 'hook', '')
    for q, v in model.state_dict().items():
        ctx.equal(v, state[q], 'testing', 'evaluation changes ' + q)
    ctx.note(model=which, n=n, batch=bs)
    ctx.key(which, n, bs, k)


@check.scenario(quick=12, thorough=120, requires=('configured', 'initial'))
def setups(ctx):
    """The blocks of the experiments are the ones their settings describe."""
    name = ctx.choice(['spiral', 'cc', 'rot', 'balls'])
    m = demo(name)
    models = {'simple': shooting_models.AutoShootingIntegrandModelSimple, 'updown': shooting_models.AutoShootingIntegrandModelUpDown,
              'updown_universal': shooting_models.AutoShootingIntegrandModelUpDownUniversal, 'periodic': shooting_models.AutoShootingIntegrandModelUpdownPeriodic}
    which = ctx.choice([k for k in models if not (k == 'periodic' and name == 'rot')])
    dim = 2 if name == 'spiral' else ctx.choice([2, 3])
    nl, pw, npart, inf, frozen = ctx.choice(['tanh', 'sigmoid', 'relu', 'identity']), ctx.choice([0.5, 1.0, 3.0]), ctx.choice([2, 5]), ctx.choice([1, 3]), ctx.rng.random() < 0.3
    init = which != 'simple' and ctx.rng.random() < 0.4
    ity = ctx.choice(['direct', 'linear', 'mini_nn'])
    mode = ctx.choice(['particles', 'particles', 'pf_rnn'] + (['pf_time'] if name == 'spiral' else []))
    method = ctx.choice(['rk4', 'dopri5'])
    step = ctx.choice([0.1, 0.25])
    si = dict(method=method, use_adjoint=False, step_size=step)
    sb = dict(shooting_model=which, parameter_weight=pw, nr_of_particles=npart, inflation_factor=inf, nonlinearity=nl, use_particle_rnn_mode=frozen, use_particle_free_rnn_mode=mode == 'pf_rnn',
              optimize_over_data_initial_conditions=init, optimize_over_data_initial_conditions_type=ity)
    ik = dict(in_features=dim, nonlinearity=nl, parameter_weight=pw, nr_of_particles=npart, particle_dimension=1, particle_size=dim, use_analytic_solution=True, use_rnn_mode=frozen)
    bk = dict(use_particle_free_rnn_mode=mode == 'pf_rnn')
    if which != 'simple':
        ik.update(inflation_factor=inf, optimize_over_data_initial_conditions=init, optimize_over_data_initial_conditions_type=ity)
    if which == 'updown_universal':
        ik['optional_weight'] = 0.1
    tmax = 1.0
    if name == 'spiral':
        tmax = ctx.choice([1.0, 2.0])
        sb.update(use_particle_free_time_dependent_mode=mode == 'pf_time', nr_of_particle_free_time_dependent_steps=3, optional_weight=4.0, max_integration_time=tmax)
        bk.update(use_particle_free_time_dependent_mode=mode == 'pf_time', nr_of_particle_free_time_dependent_steps=3, max_integration_time=tmax)
        if which == 'updown_universal':
            ik['optional_weight'] = 4.0
    else:
        sb['in_features'] = dim
    ctx.note(script=name, settings=str(sb), method=method)
    seed_all(ctx)
    b = quiet(m.setup_shooting_block, integrator=quiet(m.setup_integrator, **si), **sb)
    it = generic_integrator.GenericIntegrator(integrator_library='odeint', integrator_name=method, use_adjoint_integration=False, integrator_options={'step_size': step} if method == 'rk4' else {},
                                              rtol=1e-10, atol=1e-10)
    r = quiet(shooting_blocks.ShootingBlockBase, name='simple', shooting_integrand=models[which](**ik), integrator=it, **bk)
    x = ctx.randn(3, 1, dim) * 0.5
    for blk in (b, r):
        blk.set_integration_time(tmax)
        blk(x=x)  # parameters are complete after a first pass
    ctx.check({k: tuple(v.shape) for k, v in b.state_dict().items()} == {k: tuple(v.shape) for k, v in r.state_dict().items()}, 'configured',
              'parameters {} instead of {}'.format({k: tuple(v.shape) for k, v in b.state_dict().items()}, {k: tuple(v.shape) for k, v in r.state_dict().items()}))
    ctx.check([k for k, _ in b.named_parameters()] == [k for k, _ in r.named_parameters()], 'configured', 'trained parameters')
    if mode == 'particles' and 'q1' in b.state_dict():
        q = b.state_dict()['q1']
        mag = 1.0 if name == 'spiral' else 0.5
        ctx.check(float(q.abs().max()) <= 6 * mag and float(q.abs().max()) > 0, 'initial', 'particles up to {}'.format(float(q.abs().max())))
    ctx.check(True, 'initial', '')
    for p in b.parameters():
        p.data = ctx.randn(*p.shape) * 0.3
    r.load_state_dict(b.state_dict())
    gb, gr = b(x=x), r(x=x)
    lib.finite_or_skip(gr[0], bound=10)
    tol = 1e-9 if method == 'rk4' else 2e-3
    ctx.close(gb[0], gr[0], 'configured', 'result', rtol=tol, atol=tol)
    ctx.close(b.get_norm_penalty(), r.get_norm_penalty(), 'configured', 'penalty', rtol=1e-9)
    ctx.key(name, which, mode, method, nl, init, ity, frozen)


@check.scenario(quick=4, thorough=40, requires=('evaluation',))
def evaluations(ctx):
    """The errors of the image experiments are mean squared differences at the stated time points, one per sample in order."""
    which = ctx.choice(['rot', 'balls'])
    m = demo(which)
    N, bs = ctx.choice([4, 7]), ctx.choice([2, 4, 5])
    if N % bs == 1:
        N += 1
    ev = ctx.rng.randrange(16)
    a = argparse.Namespace(i_eval=ev, evaluate_ahead=ctx.choice([1, 4, 10]))
    T = 16 if which == 'rot' else 20
    X = ctx.rand(N, T, 1, 28, 28)
    R = ctx.rand(N, T, 1, 28, 28)
    seen = []

    class Recorder(torch.nn.Module):
        """Stands in for the network: answers with stored images, found by the first image."""
        def forward(self, x, use_mask=None):
            ctx.check(not self.training, 'evaluation', 'the network is not in evaluation mode')
            ctx.check(use_mask in (None, False), 'evaluation', 'the network is masked')
            rows = []
            for i in range(x.size(0)):
                f = x[i].reshape(-1, 28, 28)[0]
                rows.append([j for j in range(N) if torch.equal(X[j, 0, 0], f)][0])
                want = X[rows[-1], 0] if which == 'rot' else X[rows[-1], 0:3, 0]
                ctx.equal(x[i], want, 'evaluation', 'input of the network')
            seen.extend(rows)
            out = R[rows]
            return (None, None, out) if which == 'rot' else (None, out)
    net = Recorder()
    net.train()
    ds = demo('utils').Dataset(X) if which == 'rot' else torch.utils.data.TensorDataset(X)
    loader = torch.utils.data.DataLoader(ds, batch_size=bs, shuffle=False)
    if which == 'rot':
        err, tot = m.evaluate(a, net, loader, torch.device('cpu'))
        ctx.check(tot == N, 'evaluation', 'counts {} samples'.format(tot))
        want = ((R - X) ** 2)[:, ev].reshape(N, -1).mean(1)
    else:
        m.device = torch.device('cpu')
        err, hat, tru = m.evaluate(a, net, loader)
        k = a.evaluate_ahead
        want = ((R - X) ** 2)[:, 3:3 + k].reshape(N, k, -1).mean(2)
        ctx.close(torch.tensor(np.concatenate(hat)), R[:, 3:3 + k, 0], 'evaluation', 'predicted images', rtol=1e-9)
        ctx.close(torch.tensor(np.concatenate(tru)), X[:, 3:3 + k, 0], 'evaluation', 'true images', rtol=1e-9)
    ctx.close(torch.tensor(np.array(err)), want, 'evaluation', 'errors', rtol=1e-7)
    ctx.check(seen == list(range(N)), 'evaluation', 'samples seen {}'.format(seen))
    ctx.note(script=which, N=N, batch=bs, at=ev)
    ctx.key(which, N, bs, ev, a.evaluate_ahead)
