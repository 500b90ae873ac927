"""Runs an experiment script as its main program under monitors and writes what they saw.

usage: demo_runner.py CONFIG.json LOG.pt SCRIPT ARGUMENTS...
Observed from outside of the script: every call of the networks named in the configuration, every step of the optimiser (learning
rate, gradients, parameters before and after) and, where the configuration describes the loss, the gradients of that loss computed
independently from what the network returned.
"""
import json
import math
import os
import runpy
import sys
import torch
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt


def touch(self, fname, *a, **k):
    """No LaTeX here: figures are only recorded as written."""
    open(fname, 'wb').close()


matplotlib.figure.Figure.savefig = touch
_use, _set = matplotlib.use, matplotlib.RcParams.__setitem__
matplotlib.use = lambda backend, *a, **k: _use('Agg' if backend == 'pgf' else backend, *a, **k)
matplotlib.RcParams.__setitem__ = lambda self, key, val: _set(self, key, False if key == 'text.usetex' else val)
plt.tight_layout = lambda *a, **k: None
plt.pause = lambda *a, **k: None

with open(sys.argv[1]) as f:
    CONF = json.load(f)
LOGFILE, SCRIPT, ARGS = sys.argv[2], sys.argv[3], sys.argv[4:]
LOG = []
EXPECTED = {}
CURRENT = {}
DATA = torch.load(CONF['data']) if CONF.get('data') else None


def block_of(mod):
    return mod if type(mod).__name__ == 'ShootingBlockBase' else getattr(mod, 'blk', None)


def description(mod, x, out):
    """The loss the experiment states, from the input and the output of its network, or None."""
    k = CONF['kind']
    b = block_of(mod)
    pen = CONF['norm_weight'] * b.get_norm_penalty() if (b is not None and CONF['penalty']) else 0.0
    if k == 'fm':
        y = x ** 3 if CONF['fcn'] == 'cubic' else x ** 2 + 3.0 / (1.0 + x ** 2)
        return CONF['sim_weight'] * ((out - y) ** 2).mean() + pen
    if k == 'spiral':
        traj = DATA['y']
        first = traj[:, 0, 0].tolist()
        n = out.shape[0]
        y = torch.stack([traj[first.index(float(x[i, 0, 0])):][:n] for i in range(x.shape[0])], 1)
        d = out - y
        return CONF['sim_weight'] * (d.abs().mean() if CONF['sim_norm'] == 'l1' else ((d ** 2).sum(3)).sqrt().mean()) + pen
    if k == 'cc':
        y = (x.reshape(len(x), -1).norm(dim=1) > 0.75).to(x.dtype).reshape(-1, 1)
        return CONF['sim_weight'] * torch.nn.functional.binary_cross_entropy_with_logits(out, y)
    if k == 'rot':
        img, idx = out
        rows = [match(x[i]) for i in range(len(x))]
        y = torch.stack([DATA['train'][r][idx[i, :, 0]] for i, r in enumerate(rows)])
        return CONF['sim_weight'] * ((img.reshape(y.shape) - y) ** 2).mean() + pen
    if k == 'balls':
        y = torch.stack([DATA['train'][match(x[i, 0])][:20] for i in range(len(x))])
        return CONF['sim_weight'] * ((out.reshape(y.shape) - y) ** 2).mean() + pen


def match(img):
    hits = [j for j in range(len(DATA['train'])) if torch.equal(DATA['train'][j, 0].reshape(-1), img.reshape(-1))]
    return hits[0]


def on_forward(mod, args, kwargs, result):
    if type(mod).__name__ not in CONF['watch']:
        return
    x = args[0] if args else kwargs['x']
    kind = CONF['kind']
    main = type(mod).__name__ == CONF['watch'][0]
    if type(x) is tuple:
        x = x[0]
    if kind == 'rot':
        out = (result[2], result[1])
    elif kind in ('cc', 'balls'):
        out = result[1]
    else:
        out = result[0] if type(result) is tuple else result
    o = out[0] if kind == 'rot' else out
    grad = o.requires_grad
    e = {'k': 'fwd', 'x': x.detach().clone(), 'grad': grad, 'train': mod.training, 'masked': kind == 'rot' and out[1] is not None}
    if o.numel() < 400000:
        e['out'] = o.detach().clone()
    b = block_of(mod)
    if b is not None:
        e['pen'] = float(b.get_norm_penalty())
        sd = b.state_dict()
        if 'q1' in sd:
            e['q1'] = sd['q1'].detach().clone()
    CURRENT['mod'] = mod
    if grad and main:
        EXPECTED.clear()
        if not (kind == 'rot' and out[1] is None) and not (kind in ('balls', 'cc') and not mod.training) and not (kind == 'spiral' and (x.dim() != 3 or out.shape[0] != CONF['batch_time'])):
            l = description(mod, x.detach(), out)
            if l is None:
                LOG.append(e)
                return
            e['loss'] = float(l)
            if CONF.get('no_gradients'):
                LOG.append(e)
                return
            ps = [(n, p) for n, p in mod.named_parameters() if p.requires_grad]
            keep = [p.grad for _, p in ps]
            for _, p in ps:
                p.grad = None
            l.backward(retain_graph=True)
            g = [p.grad for _, p in ps]
            for (_, p), v in zip(ps, keep):
                p.grad = v
            EXPECTED.update({n: v for (n, _), v in zip(ps, g)})
    LOG.append(e)


_call = torch.nn.Module.__call__


def watched_call(self, *args, **kwargs):
    r = _call(self, *args, **kwargs)
    if type(self).__name__ in CONF['watch']:
        on_forward(self, args, kwargs, r)
    return r


torch.nn.Module.__call__ = watched_call

_step = torch.optim.Adam.step


def watched_step(self, *a, **k):
    mod = CURRENT.get('mod')
    ids = {id(p) for g in self.param_groups for p in g['params']}
    names = dict(mod.named_parameters())
    e = {'k': 'step', 'lr': [g['lr'] for g in self.param_groups], 'wd': [g['weight_decay'] for g in self.param_groups], 'missing': [n for n, p in names.items() if id(p) not in ids],
         'frozen': [n for n, p in names.items() if not p.requires_grad], 'numel': {n: p.numel() for n, p in names.items()}}
    if EXPECTED:
        worst = 0.0
        for n, g in EXPECTED.items():
            p = names[n]
            have = torch.zeros_like(p) if p.grad is None else p.grad
            want = torch.zeros_like(p) if g is None else g
            s = max(float(want.abs().max()), 1e-3) if want.numel() else 1.0
            dif = float((have - want).abs().max()) / s if want.numel() else 0.0
            dif = dif if math.isfinite(float(want.abs().sum())) else 0.0
            if not dif <= worst:
                worst, e['worst'] = dif, n
        e['graderr'] = worst
        EXPECTED.clear()
    before = {n: p.detach().clone() for n, p in names.items()}
    r = _step(self, *a, **k)
    e['moved'] = {n: float((p.detach() - before[n]).abs().max()) if p.numel() else 0.0 for n, p in names.items()}
    LOG.append(e)
    return r


torch.optim.Adam.step = watched_step
sys.argv = [SCRIPT] + ARGS
sys.path[0] = os.path.dirname(SCRIPT)
rc = 0
try:
    runpy.run_path(SCRIPT, run_name='__main__')
finally:
    mod = CURRENT.get('mod')
    final = {n: p.detach().clone() for n, p in mod.state_dict().items()} if mod is not None else {}
    torch.save({'log': LOG, 'final': final}, LOGFILE)
