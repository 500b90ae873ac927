"""C24: recorded parameter norms and the complexity measures derived from them are the defined quantities."""
from collections import defaultdict
import math
import numpy as np
import torch
import neuro_shooting.overwrite_classes as oc
import neuro_shooting.shooting_hooks as sh
import neuro_shooting.validation_measures as vm
from vh import lib, ref as R
from vh.core import Check
from vh.lib import rand_spec

check = Check('C24', 'one case = one set of weight matrices (random, degenerate, scaled), or one recorded trajectory, or one record with arbitrary (also restarting) times; norms are compared with values '
              'computed from the eigenvalues of the Gram matrix and measures with a scalar summation. Non-trivial: nonzero weights; distinct by sizes / configuration / record.',
              ['vector-valued models (norms of convolution kernels are a documented TODO)', 'squared norms, biases excluded'])
KINDS = ['frobenius', 'nuclear', 'spectral']


def norms(W):
    """Squared norms from the eigenvalues of the Gram matrix (independent of an SVD)."""
    W = W.double()
    if max(W.shape) > 12:       # the roots of tiny eigenvalues would add up
        s = torch.from_numpy(np.linalg.svd(W.numpy(), compute_uv=False))
        return {'frobenius': float((W ** 2).sum()), 'nuclear': float(s.sum() ** 2), 'spectral': float(s.max() ** 2)}
    G = W @ W.t() if W.shape[0] <= W.shape[1] else W.t() @ W
    ev = torch.linalg.eigvalsh(G).clamp(min=0)
    s = ev.sqrt()
    return {'frobenius': float((W ** 2).sum()), 'nuclear': float(s.sum() ** 2), 'spectral': float(ev.max())}


def compare(ctx, got, weights, monitor):
    tot = {k: 0.0 for k in KINDS}
    for name, W in weights.items():
        n = norms(W)
        for k in KINDS:
            key = 'sqr_{}_norm_{}'.format(k, name)
            ctx.check(key in got, monitor, 'no {} norm for {}'.format(k, name))
            ctx.close(torch.tensor(float(got[key])), torch.tensor(n[k]), monitor, key, rtol=1e-6, atol=1e-9)
            tot[k] += n[k]
    for k in KINDS:
        ctx.close(torch.tensor(float(got['sum_sqr_{}_norm'.format(k)])), torch.tensor(tot[k]), monitor, 'sum of the squared {} norms'.format(k), rtol=1e-6, atol=1e-9)
    extra = set(got) - {'sqr_{}_norm_{}'.format(k, n) for k in KINDS for n in weights} - {'sum_sqr_{}_norm'.format(k) for k in KINDS}
    ctx.check(not extra, monitor, 'unexpected entries {}'.format(sorted(extra)))


@check.scenario(quick=100, thorough=3000, requires=('matrix_norms', 'unchanged'))
def matrices(ctx):
    objs, weights = {}, {}
    for i in range(ctx.rng.randint(1, 4)):
        top = 6 if ctx.idx % 4 else 90
        a, b = ctx.rng.randint(1, top), ctx.rng.randint(1, top)
        o = oc.SNN_Linear(in_features=a, out_features=b, bias=ctx.rng.random() < 0.6, weight=ctx.choice([None, 2.0]))
        W = ctx.randn(b, a, scale=ctx.choice([1e-3, 1.0, 50.0]))
        kind = ctx.choice(['full', 'full', 'rank1', 'zero', 'orthogonal'])
        if kind == 'rank1':
            W = ctx.randn(b, 1) @ ctx.randn(1, a)
        elif kind == 'zero':
            W = torch.zeros(b, a)
        elif kind == 'orthogonal' and a <= b:
            W = torch.linalg.qr(ctx.randn(b, b))[0][:, :a]
        d = o.get_parameter_dict()
        d['weight'] = W
        if d.get('bias') is not None:
            d['bias'] = ctx.randn(b, scale=7.0)
        name = 'l{}'.format(i + 1)
        objs[name] = o
        weights[name + '.weight'] = W.clone()
        ctx.note(**{name: (b, a, kind)})
    got = sh.compute_parameter_norms(objs)
    compare(ctx, got, weights, 'matrix_norms')
    for n in objs:
        ctx.equal(objs[n].get_parameter_dict()['weight'], weights[n + '.weight'], 'unchanged', n)
    ctx.key(str(ctx.info))


@check.scenario(quick=50, thorough=800, requires=('recorded_norms', 'recorded_measure'))
def recorded(ctx):
    """Norms recorded along real trajectories and the measures of these records."""
    spec = rand_spec(ctx, models=R.VECTOR, mag=0.4)
    iover, kw = {}, {}
    mode = ctx.choice(['plain', 'plain', 'frozen', 'pf_time'])
    if mode == 'frozen':
        iover['use_rnn_mode'] = True
    elif mode == 'pf_time':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2)
    b = lib.block(spec, integ=lib.integrator(ctx.choice(['rk4', 'euler', 'midpoint']), step_size=0.25), iover=iover, **kw)
    lib.randomize(b, ctx, scale=0.4)
    ctx.note(spec=spec.describe(), mode=mode)
    x = spec.data(ctx, 2, scale=0.4)
    tr = lib.RhsTrace(b.shooting_integrand)
    rec = defaultdict(list)
    h = b.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    b.shooting_integrand.set_custom_hook_data(data=rec)
    with torch.no_grad():
        o = b(x=x)
    lib.finite_or_skip(o[0], bound=100)
    h.remove()
    tr.close()
    for e in tr.events:
        for l in e['th']:
            lib.finite_or_skip(e['th'][l]['weight'], bound=1e3)
    ctx.check(len(rec['t']) == len(tr.events), 'recorded_norms', '{} records of {} evaluations'.format(len(rec['t']), len(tr.events)))
    tot = {k: [] for k in KINDS}
    for i, e in enumerate(tr.events):
        ws = {l + '.weight': e['th'][l]['weight'] for l in e['th']}
        got = {k: rec[k][i] for k in rec if 'sqr_' in k}
        compare(ctx, got, ws, 'recorded_norms')
        for k in KINDS:
            tot[k].append(sum(norms(w)[k] for w in ws.values()))
    t = [e['t'] for e in tr.events]
    if min(min(v) for v in tot.values()) > 1e-12:
        m = vm.compute_complexity_measures(rec)
        for k in KINDS:
            want = sum(max(t[i + 1] - t[i], 0.0) * math.log2(0.5 * (tot[k][i] + tot[k][i + 1])) for i in range(len(t) - 1))
            ctx.close(torch.tensor(float(m['log2_' + k])), torch.tensor(want), 'recorded_measure', 'log2 ' + k, rtol=1e-6, atol=1e-7)
    ctx.key(spec.key(), mode)


@check.scenario(quick=100, thorough=3000, requires=('measure', 'scaling', 'restart', 'record_untouched'))
def measures(ctx):
    n = ctx.rng.randint(2, 12) if ctx.idx % 5 else ctx.rng.randint(40, 80)
    t = sorted(ctx.rng.uniform(0, 3) for _ in range(n))
    for _ in range(ctx.rng.randint(0, 2)):      # chunks which start again from an earlier time
        i = ctx.rng.randrange(1, n)
        off = t[i] - ctx.rng.choice([0.0, t[0]])
        t = t[:i] + [v - off for v in t[i:]]
    if ctx.rng.random() < 0.2:
        t = [0.0] * n
    t = [v * s for s in [ctx.choice([1.0, 1.0, 1e-3, 1e-6, 100.0])] for v in t]
    rec = {'t': list(t)}
    for k in KINDS:
        rec['sum_sqr_{}_norm'.format(k)] = [np.array(ctx.choice([1e-3, 1.0, 30.0]) * (0.1 + ctx.rng.random())) if ctx.idx % 2 else 0.1 + 5 * ctx.rng.random() for _ in range(n)]
    if ctx.idx % 3 == 0:
        rec = {k: np.array(v, dtype=float) for k, v in rec.items()}
    keep = {k: [float(v) for v in rec[k]] for k in rec}
    ctx.note(times=t)
    m = vm.compute_complexity_measures(rec)
    ctx.check({k: [float(v) for v in rec[k]] for k in rec} == keep, 'record_untouched', 'the record was modified')
    ctx.check(set(m) == {'log2_' + k for k in KINDS}, 'measure', 'measures {}'.format(sorted(m)))
    dt = [max(b - a, 0.0) for a, b in zip(t, t[1:])]
    for k in KINDS:
        v = keep['sum_sqr_{}_norm'.format(k)]
        want = math.fsum(d * math.log2(0.5 * (a + b)) for d, a, b in zip(dt, v, v[1:]))
        ctx.close(torch.tensor(float(m['log2_' + k])), torch.tensor(want), 'measure', k, rtol=1e-9, atol=1e-10 * (1e-9 + max(t) - min(t)))
    # scaling all norms by c adds the elapsed time times log2 c; extending the record by a restart adds nothing
    c = ctx.choice([0.5, 2.0, 10.0])
    r2 = {k: ([c * x for x in v] if k != 't' else v) for k, v in rec.items()}
    m2 = vm.compute_complexity_measures(r2)
    r3 = {k: list(v) + [v[0] if k != 't' else min(t) - 1.0] for k, v in rec.items()}
    m3 = vm.compute_complexity_measures(r3)
    for k in KINDS:
        ctx.close(torch.tensor(float(m2['log2_' + k] - m['log2_' + k])), torch.tensor(sum(dt) * math.log2(c)), 'scaling', k, rtol=1e-8, atol=1e-8)
        ctx.close(torch.tensor(float(m3['log2_' + k])), torch.tensor(float(m['log2_' + k])), 'restart', k, rtol=1e-9, atol=1e-9)
    ctx.key(str(t))
