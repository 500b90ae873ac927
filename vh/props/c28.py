"""C28: figures show exactly the given data."""
import argparse
import contextlib
import os
import warnings
from collections import defaultdict
import numpy as np
import torch
import matplotlib
matplotlib.use('Agg')
import matplotlib.axes
import matplotlib.backend_bases
import matplotlib.figure
import matplotlib.pyplot as plt
from matplotlib.quiver import Quiver
import neuro_shooting.figure_settings as fs
import neuro_shooting.shooting_hooks as sh
import neuro_shooting.vector_visualization as vv
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec

warnings.filterwarnings('ignore')
check = Check('C28', 'one case = one set of trajectories, particles or recorded series drawn by one routine; showing and saving are intercepted and the contents of every figure (curves, arrows, '
              'titles, labels) are compared with the data. Non-trivial: at least one curve with two points; distinct by routine, sizes and options.',
              ['showing and writing of figures are replaced by recorders (no display and no LaTeX here; C26 covers writing)', 'colours and layout are not judged, except that true and predicted curves differ',
               'block names do not start like the excluded series (t, energy, dot_)'])


def content(fig):
    out = []
    for ax in fig.axes:
        lines = [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), (ln.get_color(), ln.get_linestyle(), ln.get_marker())) for ln in ax.lines]
        qu = [(np.asarray(c.X, float).reshape(-1), np.asarray(c.Y, float).reshape(-1), np.ma.filled(np.ma.asarray(c.U, float)).reshape(-1), np.ma.filled(np.ma.asarray(c.V, float)).reshape(-1))
              for c in ax.collections if isinstance(c, Quiver)]
        out.append(dict(lines=lines, quivers=qu, title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel()))
    return out


@contextlib.contextmanager
def recording():
    """Replaces showing and saving of figures by recorders: list of ('show', figures) and ('save', path, figure)."""
    ev = []
    F, C, A = matplotlib.figure.Figure, matplotlib.backend_bases.FigureCanvasBase, matplotlib.axes.Axes
    keep = (plt.show, F.savefig, F.tight_layout, C.draw_idle, A.streamplot)
    fields = []

    def show(*a, **k):
        ev.append(('show', [content(plt.figure(n)) for n in plt.get_fignums()]))
        plt.close('all')

    def save(self, fname, *a, **k):
        ev.append(('save', str(fname), content(self)))
        with open(str(fname), 'w') as f:
            f.write('x')
    plt.show, F.savefig, F.tight_layout, C.draw_idle = show, save, (lambda self, *a, **k: None), (lambda self, *a, **k: None)
    A.streamplot = lambda self, x, y, u, v, *a, **k: fields.append((np.array(x), np.array(y), np.array(u), np.array(v)))
    try:
        plt.close('all')
        yield ev, fields
    finally:
        plt.show, F.savefig, F.tight_layout, C.draw_idle, A.streamplot = keep
        plt.close('all')


def same_curves(ctx, lines, want, what, monitor='curves'):
    """The drawn curves are exactly the wanted ones (in any order)."""
    left = list(range(len(lines)))
    style = []
    for x, y in want:
        hit = next((i for i in left if lines[i][0].shape == np.shape(x) and np.allclose(lines[i][0], x, rtol=1e-12, atol=0) and np.allclose(lines[i][1], y, rtol=1e-12, atol=0)), None)
        ctx.check(hit is not None, monitor, '{}: the curve {} .. is not drawn'.format(what, list(zip(np.ravel(x)[:3], np.ravel(y)[:3]))))
        left.remove(hit)
        style.append(lines[hit][2])
    ctx.check(not left, monitor, '{}: {} further curves are drawn'.format(what, len(left)))
    return style


def same_arrows(ctx, ax, q, p, what, tol=1e-12):
    ctx.check(len(ax['quivers']) == 1, 'arrows', '{}: {} sets of arrows'.format(what, len(ax['quivers'])))
    X, Y, U, V = ax['quivers'][0]
    got = np.stack([X, Y, U, V])
    want = np.stack([q[:, 0], q[:, 1], p[:, 0], p[:, 1]])
    ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol), 'arrows', '{}: arrows do not start at the particles with their momenta'.format(what))


def trajectories_wanted(y, pred):
    return [(y[:, n, 0, 0], y[:, n, 0, 1]) for n in range(y.shape[1])], [(pred[:, n, 0, 0], pred[:, n, 0, 1]) for n in range(pred.shape[1])]


def check_trajectories(ctx, ax, val, train, what):
    want, groups = [], []
    for pair in (val, train):
        if pair is not None:
            a, b = trajectories_wanted(*pair)
            groups += [(len(want), len(want) + len(a)), (len(want) + len(a), len(want) + len(a) + len(b))]
            want += a + b
    st = same_curves(ctx, ax['lines'], want, what)
    sets = [set(st[a:b]) for a, b in groups]
    for i in range(0, len(sets), 2):
        ctx.check(not sets[i] & sets[i + 1], 'distinguished', what + ': true and predicted curves look the same')


def project(q, p):
    """Two principal directions (up to sign), momenta projected alike."""
    c = q - q.mean(0)
    _, s, vt = np.linalg.svd(c, full_matrices=False)
    return c @ vt[:2].T, p @ vt[:2].T, 100 * (s[:2] ** 2).sum() / (s ** 2).sum(), s


def check_particles(ctx, ax, q, p, what):
    q, p = q[:, 0, :], p[:, 0, :]
    same_curves(ctx, ax['lines'], [(q[:, 0], q[:, 1])], what)
    same_arrows(ctx, ax, q, p, what)
    for v in (q.min(), q.max(), p.min(), p.max()):
        ctx.check('{:.1f}'.format(v) in ax['title'], 'title', '{}: {:.1f} not in the title {!r}'.format(what, v, ax['title']))


def check_higher(ctx, ax, q, p, what):
    q, p = q[:, 0, :], p[:, 0, :]
    if q.shape[1] > 2 and q.shape[0] > 1:
        a, b, var, s = project(q, p)
        ctx.check(any('{:.1f}'.format(var + e) in ax['title'] for e in (-0.01, 0, 0.01)), 'title', '{}: explained variance {:.1f} not in {!r}'.format(what, var, ax['title']))
        if len(s) > 1 and (len(s) < 3 or s[1] - s[2] > 1e-3 * s[0]) and s[0] - s[1] > 1e-3 * s[0] and s[1] > 1e-6 * s[0]:
            ctx.check(len(ax['lines']) == 1 and len(ax['quivers']) == 1, 'arrows', what + ': particles are not drawn once')
            lx, ly, _ = ax['lines'][0]
            X, Y, U, V = ax['quivers'][0]
            ctx.check(np.allclose(np.stack([lx, ly]), np.stack([X, Y]), atol=1e-9), 'arrows', what + ': arrows do not start at the particles')
            for d, (pos, arr) in enumerate(((X, U), (Y, V))):
                sg = 1.0 if np.dot(pos, a[:, d]) >= 0 else -1.0
                ctx.check(np.allclose(pos, sg * a[:, d], atol=1e-6 * (1 + np.abs(a).max())), 'projection', '{}: positions are not the principal component {}'.format(what, d + 1))
                ctx.check(np.allclose(arr, sg * b[:, d], atol=1e-6 * (1 + np.abs(b).max())), 'projection', '{}: momenta are not projected on the principal component {}'.format(what, d + 1))
    else:
        same_curves(ctx, ax['lines'], [(q[:, 0], q[:, 1])], what)
        same_arrows(ctx, ax, q, p, what)
        ctx.count('projection')


def rnd(ctx, *shape):
    return (ctx.randn(*shape) * ctx.choice([0.3, 1.0, 4.0])).numpy()


def upto(ctx, a, b, many):
    """Mostly small numbers, every now and then many."""
    return ctx.rng.randint(a, b) if ctx.rng.random() < 0.85 else ctx.rng.randint(b + 1, many)


@check.scenario(quick=50, thorough=800, requires=('curves', 'arrows', 'projection', 'title', 'distinguished'))
def parts(ctx):
    with recording():
        fig = plt.figure()
        ax, ax2, ax3 = (fig.add_subplot(1, 3, i) for i in (1, 2, 3))
        T, n = upto(ctx, 2, 9, 300), upto(ctx, 1, 5, 70)
        mk = lambda: (rnd(ctx, T, n, 1, 2), rnd(ctx, T, n, 1, 2))
        val, train = (mk() if ctx.rng.random() < 0.8 else None), (mk() if ctx.rng.random() < 0.5 else None)
        kw = {}
        if val is not None and ctx.rng.random() < 0.3:
            val = (rnd(ctx, T + 3, n, 1, 2), val[1])      # prediction up to now against the whole truth
        losses = {'model_name': ctx.choice(['updown', 'a_b']), 'loss': ctx.rng.random(), 'sim_loss': ctx.rng.random(), 'norm_loss': ctx.rng.random(), 'par_norm': 10 * ctx.rng.random()}
        if ctx.rng.random() < 0.5:
            kw['losses_to_print'] = losses
        pars = {'overall': ctx.rng.randint(100, 200), 'fixed': ctx.rng.randint(0, 50), 'optimized': ctx.rng.randint(51, 99)}
        if ctx.rng.random() < 0.5:
            kw['nr_of_pars'] = pars
        itr, name = ctx.rng.randint(0, 999), ctx.choice(['iter', 'time'])
        pr = ctx.rng.random() < 0.3
        vv.plot_trajectories(val[0] if val else None, val[1] if val else None, train_y=train[0] if train else None, train_pred_y=train[1] if train else None, itr=itr, itr_name=name, ax=ax, print=pr, **kw)
        N, D = upto(ctx, 1, 6, 90), ctx.rng.choice([2, 2, 3, 5, 12])
        q, p, q2, p2 = rnd(ctx, N, 1, 2), rnd(ctx, N, 1, 2), rnd(ctx, N, 1, D), rnd(ctx, N, 1, D)
        keep = [v.copy() for v in (q, p, q2, p2)]
        vv.plot_particles(q1=q, p_q1=p, ax=ax2)
        vv.plot_higher_order_state(q2=q2, p_q2=p2, ax=ax3)
        ctx.note(T=T, samples=n, val=val is not None, train=train is not None, options=sorted(kw), N=N, D=D)
        c = content(fig)
    check_trajectories(ctx, c[0], val, train, 'trajectories')
    tt = c[0]['title']
    want = [str(itr), name]
    if 'losses_to_print' in kw:
        want += ['{:.4f}'.format(losses[k]) for k in ('loss', 'sim_loss', 'norm_loss', 'par_norm')] + [losses['model_name'].split('_')[0]]
    if 'nr_of_pars' in kw:
        want += [str(v) for v in pars.values()]
    for w in want:
        ctx.check(w in tt, 'title', '{} is not in the title {!r}'.format(w, tt))
    if pr:
        ctx.check(all(ch != '_' or tt[i - 1] == '\\' for i, ch in enumerate(tt)), 'title', 'unescaped title {!r}'.format(tt))
    check_particles(ctx, c[1], q, p, 'particles')
    check_higher(ctx, c[2], q2, p2, 'second state')
    for a, b in zip((q, p, q2, p2), keep):
        ctx.check(np.array_equal(a, b), 'inputs_untouched', 'the drawn arrays were modified')
    ctx.key(T, n, val is None, train is None, str(sorted(kw)), N, D, pr)


def user_settings(ctx, tex=False):
    """Figure settings the user has chosen before (they have to survive)."""
    pool = {'font.family': ['monospace', 'sans-serif'], 'pgf.rcfonts': [True, False], 'pgf.texsystem': ['xelatex', 'lualatex'], 'pgf.preamble': ['% mine'], 'font.size': [7.0, 13.0], 'lines.linewidth': [3.0]}
    if tex:
        pool['text.usetex'] = [True]
    for k in ctx.rng.sample(sorted(pool), ctx.rng.randint(0, len(pool))):
        matplotlib.rcParams[k] = ctx.choice(pool[k])


def run_recorded(ctx, name):
    spec = rand_spec(ctx, models=['updown', 'universal', 'periodic', 'simple'], analytic=ctx.rng.random() < 0.5, mag=0.4)
    spec.size = 2
    b = lib.block(spec, name=name, integ=lib.integrator(ctx.choice(['rk4', 'euler', 'midpoint']), step_size=0.5))
    lib.randomize(b, ctx, scale=0.4)
    rec = defaultdict(list)
    h = b.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    b.shooting_integrand.set_custom_hook_data(data=rec)
    with torch.no_grad():
        o = b(x=spec.data(ctx, ctx.choice([1, 2, 3]), scale=0.4))
    h.remove()
    lib.finite_or_skip(o[0], bound=100)
    lib.finite_or_skip(*[torch.as_tensor(np.asarray(v, dtype=float)) for v in rec.values()], bound=1e6)
    return spec, b, rec


def series(v):
    """All entries of a recorded series over time."""
    a = np.asarray(v, dtype=float)
    return a.reshape(a.shape[0], -1)


@check.scenario(quick=30, thorough=300, requires=('series', 'all_series', 'labels', 'shown_or_saved', 'settings_restored'))
def temporal(ctx):
    name = ctx.choice(['simple', 'b1', 'a_b'])
    if ctx.rng.random() < 0.6:
        spec, b, rec = run_recorded(ctx, name)
        what = spec.describe()
    else:
        T, N = upto(ctx, 2, 9, 300), upto(ctx, 1, 4, 30)
        rec = {'t': list(np.cumsum(np.random.RandomState(ctx.case_seed % 2 ** 31).rand(T))), 'energy': list(rnd(ctx, T))}
        for k in ctx.rng.sample(['state.q1', 'state.q2', 'costate.p_q1', 'data.q1', 'dot_state.q1', 'dot_costate.p_q1', 'dot_data.q1'], 5):
            rec['{}.{}'.format(name, k)] = [rnd(ctx, N, 1, 3) for _ in range(T)]
        for k in ('l1.weight', 'sum_sqr_frobenius_norm', 'energy_kinetic', 'z')[:ctx.rng.randint(0, 4)]:
            rec[k] = [rnd(ctx, 2, 3) if '.' in k else float(rnd(ctx, 1)[0]) for _ in range(T)]
        what = 'generated'
    mode = ctx.cycle(['none', 'viz', 'save', 'both', 'neither'])
    args = None if mode == 'none' else argparse.Namespace(viz=mode in ('viz', 'both'), save_figures=mode in ('save', 'both'), output_directory=os.path.join(ctx.scratch, 'out'), output_basename='base')
    keep = {k: [np.array(v) for v in rec[k]] for k in rec}
    start = dict(matplotlib.rcParams)
    user_settings(ctx)
    rc = dict(matplotlib.rcParams)
    with recording() as (ev, _):
        vv.plot_temporal_data(rec, name, args)
        left = plt.get_fignums()
        rc2 = dict(matplotlib.rcParams)
        if matplotlib.get_backend().lower() != 'agg':
            matplotlib.use('Agg')
    matplotlib.rcParams.update(start)
    ctx.note(data=str(what), mode=mode, keys=sorted(rec))
    skip = ('t', 'energy', 'dot_state', 'dot_costate', 'dot_data')
    keys = [k for k in rec if not any(k.startswith(s) or k.startswith(name + '.' + s) for s in skip)]
    shows = [f for e in ev if e[0] == 'show' for f in e[1]]
    saves = [e for e in ev if e[0] == 'save']
    ctx.check(not left, 'shown_or_saved', 'figures left open')
    ctx.check(bool(shows) == (mode in ('none', 'viz', 'both')) and bool(saves) == (mode in ('save', 'both')), 'shown_or_saved', '{} figures shown and {} written (mode {})'.format(len(shows), len(saves), mode))
    t = np.asarray(rec['t'], dtype=float)
    files = {}
    for e in saves:
        files.setdefault(os.path.splitext(e[1])[0], e[2])
    groups = []
    if shows:
        groups.append([(f, None) for f in shows])
    if files:
        groups.append([(f, os.path.basename(n)) for n, f in files.items()])
        ctx.check(all(os.path.dirname(n) == args.output_directory for n in files), 'shown_or_saved', 'written to {}'.format(sorted(files)))
    for g in groups:
        ctx.check(len(g) == 1 + len(keys), 'all_series', '{} figures for {} series'.format(len(g), 1 + len(keys)))
        for k in ['energy'] + keys:
            esc = k.replace('_', '\\_')
            fig = [(f, n) for f, n in g if f[0]['ylabel'] in (k, esc)]
            ctx.check(len(fig) == 1, 'all_series', '{} figures for the series {}'.format(len(fig), k))
            f, n = fig[0]
            ctx.check(f[0]['xlabel'] == 'time' and (f[0]['ylabel'] == (k if n is None else esc)), 'labels', 'labels {} {}'.format(f[0]['xlabel'], f[0]['ylabel']))
            if n is not None:
                ctx.check(n == 'base-' + k, 'labels', 'the figure of {} is written as {}'.format(k, n))
            s = series(rec[k])
            same_curves(ctx, f[0]['lines'], [(t, s[:, i]) for i in range(s.shape[1])], 'series ' + k, monitor='series')
    ctx.check(rc2 == rc, 'settings_restored', 'changed settings {}'.format([k for k in rc if rc.get(k) != rc2.get(k)][:5]))
    for k in rec:
        ctx.check(all(np.array_equal(np.asarray(a), b) for a, b in zip(rec[k], keep[k])), 'inputs_untouched', 'the record was modified')
    ctx.key(str(what), mode, str(sorted(rec)), len(t))


@check.scenario(quick=24, thorough=250, requires=('frames', 'frame_order', 'animation', 'arrows', 'curves'))
def evolution(ctx):
    name = ctx.choice(['simple', 'tt', 'x1'])
    spec, b, rec = run_recorded(ctx, name)
    T = len(rec['t'])
    n = rec[name + '.data.q1'][0].shape[0]
    val = rnd(ctx, ctx.rng.randint(2, 9), n, 1, 2)
    save = ctx.rng.random() < 0.6
    d = os.path.join(ctx.scratch, 'frames')
    prefix = ctx.choice(['evolution', 'ev2'])
    md = ctx.choice([0, 1, 3, 10])
    if save and ctx.rng.random() < 0.3:
        os.mkdir(d)
    # stand-in for the program which creates animations: records its arguments
    bindir = os.path.join(ctx.scratch, 'bin')
    os.mkdir(bindir)
    log = os.path.join(ctx.scratch, 'convert.log')
    with open(os.path.join(bindir, 'convert'), 'w') as f:
        f.write('#!/bin/bash\nprintf "%s\\n" "$@" > {}\n'.format(log))
    os.chmod(os.path.join(bindir, 'convert'), 0o755)
    path = os.environ['PATH']
    os.environ['PATH'] = bindir + ':' + path
    ctx.note(spec=spec.describe(), save=save, T=T, max_display=md)
    try:
        with recording() as (ev, _):
            vv.visualize_time_evolution(torch.as_tensor(val) if ctx.rng.random() < 0.5 else val, rec, name, max_display=md, save_to_directory=d if save else None, file_prefix=prefix)
    finally:
        os.environ['PATH'] = path
    frames = [(e[2], e[1]) for e in ev if e[0] == 'save'] if save else [(f, None) for e in ev if e[0] == 'show' for f in e[1]]
    if save:
        ctx.check(not any(e[0] == 'show' for e in ev), 'frames', 'frames are shown although they are saved')
        ctx.check(len(frames) == T, 'frames', '{} frames saved of {}'.format(len(frames), T))
        paths = sorted(p for _, p in frames)
        ctx.check([p for _, p in frames] == paths and len(set(paths)) == T and all(os.path.dirname(p) == d and os.path.basename(p).startswith(prefix + '-') and p.endswith('.png') for p in paths), 'frame_order',
                  'frames are written as {}'.format(paths[:3]))
        with open(log) as f:
            a = f.read().split('\n')[:-1]
        ctx.check([v for v in a if v.endswith('.png')] == paths and a[-1].endswith('.gif') and prefix in os.path.basename(a[-1]), 'animation', 'animation created with {}'.format(a[-3:]))
    else:
        ctx.check(not any(e[0] == 'save' for e in ev) and not os.path.exists(log), 'frames', 'frames are saved although they are shown')
        ctx.check(len(frames) in (min(T, md), min(T, md + 1)) and len(frames) > 0 or md == 0, 'frames', '{} frames shown of {} with a limit of {}'.format(len(frames), T, md))
    for i, (f, p) in enumerate(frames):
        ctx.check(len(f) == 3 or len(f) == 2 and name + '.state.q2' not in rec, 'frames', '{} parts in a frame'.format(len(f)))
        pred = np.stack([np.asarray(v, float) for v in rec[name + '.data.q1'][:i + 1]])
        check_trajectories(ctx, f[0], (val, pred), None, 'frame {}'.format(i))
        ctx.check('{:.2f}'.format(rec['t'][i]) in f[0]['title'], 'title', 'time of frame {} is shown as {!r}'.format(i, f[0]['title']))
        g = lambda k: np.asarray(rec[name + k][i], float)
        check_particles(ctx, f[1], g('.state.q1'), g('.costate.p_q1'), 'particles of frame {}'.format(i))
        if name + '.state.q2' in rec:
            check_higher(ctx, f[2], g('.state.q2'), g('.costate.p_q2'), 'second state of frame {}'.format(i))
    ctx.key(spec.key(), save, T, md, prefix)


@check.scenario(quick=30, thorough=300, requires=('shown_or_saved', 'curves', 'arrows', 'settings_restored'))
def overview(ctx):
    spec = rand_spec(ctx, models=['updown', 'universal', 'simple'], mag=0.4)
    spec.size = 2
    b = lib.block(spec, name='s')
    lib.randomize(b, ctx, scale=0.6)
    T, n = upto(ctx, 2, 6, 250), upto(ctx, 1, 4, 50)
    tens = ctx.rng.random() < 0.5
    cv = (lambda v: torch.as_tensor(v).requires_grad_(True)) if tens else (lambda v: v)
    val, train = (rnd(ctx, T, n, 1, 2), rnd(ctx, T, n, 1, 2)), ((rnd(ctx, T, n, 1, 2), rnd(ctx, T, n, 1, 2)) if ctx.rng.random() < 0.5 else None)
    mode = ctx.cycle(['none', 'viz', 'save', 'both', 'neither'])
    part = ctx.rng.random() < 0.7
    args = None if mode == 'none' else argparse.Namespace(viz=mode in ('viz', 'both'), save_figures=mode in ('save', 'both'), output_directory=os.path.join(ctx.scratch, 'o'), output_basename='bn')
    itr = ctx.rng.choice([ctx.rng.randint(0, 5000), ctx.rng.randint(9990, 200000)])
    start = dict(matplotlib.rcParams)
    user_settings(ctx)
    rc = dict(matplotlib.rcParams)
    with recording() as (ev, _):
        vv.basic_visualize(b, val_y=cv(val[0]), val_pred_y=cv(val[1]), val_sim_time=np.arange(T), train_y=cv(train[0]) if train else None, train_pred_y=cv(train[1]) if train else None,
                           train_t=None, itr=itr, uses_particles=part, args=args)
        left = plt.get_fignums()
        rc2 = dict(matplotlib.rcParams)
        if matplotlib.get_backend().lower() != 'agg':
            matplotlib.use('Agg')
    matplotlib.rcParams.update(start)
    ctx.note(spec=spec.describe(), mode=mode, particles=part, tensors=tens)
    shows = [f for e in ev if e[0] == 'show' for f in e[1]]
    saves = [e for e in ev if e[0] == 'save']
    ctx.check(len(shows) == int(mode in ('none', 'viz', 'both')) and bool(saves) == (mode in ('save', 'both')) and not left, 'shown_or_saved', '{} shown, {} written, {} open (mode {})'.format(len(shows), len(saves), len(left), mode))
    for e in saves:
        bn = os.path.basename(e[1])
        ctx.check(os.path.dirname(e[1]) == args.output_directory and 'bn' in bn and str(itr) in bn, 'shown_or_saved', 'written as {}'.format(e[1]))
    np_ = {k: v.detach().numpy() for k, v in b.named_parameters()}
    for f in shows + [e[2] for e in saves]:
        ctx.check(len(f) in ((2, 3) if part and 'q2' not in np_ else (3,) if part else (1,)), 'shown_or_saved', '{} parts'.format(len(f)))
        check_trajectories(ctx, f[0], val, train, 'overview')
        if part:
            check_particles(ctx, f[1], np_['q1'], np_['p_q1'], 'particles')
            if 'q2' in np_:
                check_higher(ctx, f[2], np_['q2'], np_['p_q2'], 'second state')
    ctx.check(rc2 == rc, 'settings_restored', 'changed settings {}'.format([k for k in rc if rc.get(k) != rc2.get(k)][:5]))
    ctx.expect_raises(lambda: vv._basic_visualize(b, val[0], val[1], None, visualize=True, print=True), ValueError, 'rejected', 'showing and printing at once') if hasattr(vv, '_basic_visualize') else None
    ctx.key(spec.key(), mode, part, tens, train is None, T, n)


@check.scenario(quick=16, thorough=150, requires=('curves', 'vector_field'))
def phase(ctx):
    """True and predicted curves over time and in the plane, and the direction in which the block moves a grid of points."""
    spec = rand_spec(ctx, models=['updown', 'universal', 'periodic'], mag=0.4, nl=['tanh', 'sigmoid'])
    spec.size = 2
    b = lib.block(spec, name='s', integ=lib.integrator('rk4', step_size=0.25))
    lib.randomize(b, ctx, scale=0.5)
    T, n = upto(ctx, 5, 8, 60), upto(ctx, 1, 3, 30)
    st = torch.linspace(0.0, ctx.choice([0.5, 1.0]), T)
    y, pr = torch.as_tensor(rnd(ctx, T, n, 1, 2)), torch.as_tensor(rnd(ctx, T, n, 1, 2)).requires_grad_(True)
    with recording() as (ev, fields):
        vv.visualize(y, pr, st, b, itr=3)
    ctx.note(spec=spec.describe(), T=T, samples=n)
    figs = [f for e in ev if e[0] == 'show' for f in e[1]]
    ctx.check(len(figs) == 1 and len(fields) == 1, 'curves', '{} figures, {} fields'.format(len(figs), len(fields)))
    t = st.numpy()
    prn = pr.detach()
    want = [(t, v[:, i, 0, c].numpy()) for v in (y, prn) for i in range(n) for c in (0, 1)]
    same_curves(ctx, figs[0][0]['lines'], want, 'curves over time')
    a, c = trajectories_wanted(y.numpy(), prn.numpy())
    same_curves(ctx, figs[0][1]['lines'], a + c, 'curves in the plane')
    x, yy, u, v = fields[0]
    ctx.check(x.shape == (21, 21) and u.shape == x.shape and v.shape == x.shape, 'vector_field', 'grid of size {}'.format(x.shape))
    pts = torch.as_tensor(np.stack([x.reshape(-1), yy.reshape(-1)], -1)).unsqueeze(1)
    b.set_integration_time_vector(st[:5], suppress_warning=True)
    with torch.no_grad():
        o = b(x=pts)[0]
    dd = (o[-1] - o[0])[:, 0, :].numpy()
    mag = np.linalg.norm(dd, axis=1)
    ok = (mag > 1e-9) & (mag < 1e3)
    got = np.stack([u.reshape(-1), v.reshape(-1)], -1)
    ctx.check(np.allclose(got[ok], (dd / np.maximum(mag, 1e-300)[:, None])[ok], atol=1e-6), 'vector_field', 'the drawn directions are not those in which the block moves the grid')
    ctx.key(spec.key(), T, n)


@check.scenario(quick=6, thorough=12, requires=('settings_restored', 'fonts'))
def settings(ctx):
    start = dict(matplotlib.rcParams)
    matplotlib.use(ctx.choice(['Agg', 'svg', 'pdf']))
    user_settings(ctx, tex=True)
    rc = dict(matplotlib.rcParams)
    be = matplotlib.get_backend()
    prev, old = fs.setup_pgf_plotting()
    ctx.check(matplotlib.get_backend().lower() == 'pgf' and matplotlib.rcParams['text.usetex'] is True, 'settings_restored', 'LaTeX output is not set up')
    fs.reset_pgf_plotting(backend=prev, rcsettings=old)
    ctx.check(matplotlib.get_backend() == be and dict(matplotlib.rcParams) == rc, 'settings_restored', 'settings are not restored')
    matplotlib.use('Agg')
    matplotlib.rcParams.update(start)
    with recording():
        fig, (ax, other) = plt.subplots(1, 2)
        for a in (ax, other):
            a.plot([0, 1], [1, 2])
            a.set_title('t')
            a.set_xlabel('x')
        before = other.title.get_fontsize(), other.xaxis.label.get_fontsize()
        s = ctx.choice([7, 18, 23])
        fs.set_font_size_for_axis(ax, fontsize=s)
        items = [ax.title, ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()
        ctx.check(all(i.get_fontsize() == s for i in items), 'fonts', 'font sizes {}'.format([i.get_fontsize() for i in items]))
        ctx.check((other.title.get_fontsize(), other.xaxis.label.get_fontsize()) == before, 'fonts', 'other axes are changed')
    ctx.key(s)
