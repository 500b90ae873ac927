"""C25: the plateau scheduler reduces learning rates exactly when the monitored quantity stalls, restarts its memory after a reduction and reports convergence."""
import contextlib
import copy
import io
import math
import torch
from vh.core import Check

check = Check('C25', 'one case = one scheduler configuration and one history of metric values (random, plateaus, near-threshold, infinite), with saving/restoring in between; the learning rates of '
              'all groups and the convergence flag after every step are compared with an independent state machine. Non-trivial: at least one reduction; distinct by configuration and history.',
              ['after an effective reduction the best value is forgotten (this is what distinguishes it from the scheduler shipped with torch)'])


class Model(object):
    """Independent state machine of the scheduler."""

    def __init__(self, lrs, mode, factor, patience, threshold, threshold_mode, cooldown, min_lrs, eps):
        self.lrs, self.mode, self.factor, self.patience, self.thr, self.tm, self.cd, self.mins, self.eps = list(lrs), mode, factor, patience, threshold, threshold_mode, cooldown, min_lrs, eps
        self.best, self.bad, self.cool, self.conv, self.reductions = None, 0, 0, False, 0

    def better(self, v):
        if math.isnan(v):
            return False
        if self.best is None:
            return v < math.inf if self.mode == 'min' else v > -math.inf
        s = 1 if self.mode == 'min' else -1
        lim = self.best * (1 - s * self.thr) if self.tm == 'rel' else self.best - s * self.thr
        return s * v < s * lim

    def step(self, v):
        if self.better(v):
            self.best, self.bad = v, 0
        else:
            self.bad += 1
        if self.cool > 0:
            self.cool -= 1
            self.bad = 0
        if self.bad > self.patience:
            for i, lr in enumerate(self.lrs):
                new = max(lr * self.factor, self.mins[i])
                if lr - new > self.eps:
                    self.lrs[i] = new
                    self.best = None
                    self.reductions += 1
                else:
                    self.conv = True
            self.cool, self.bad = self.cd, 0


def make(ctx):
    import neuro_shooting.custom_lr_scheduler as cs
    ng = ctx.choice([1, 1, 2, 3])
    lrs = [ctx.choice([0.1, 1.0, 0.02]) for _ in range(ng)]
    mk = lambda: torch.optim.SGD([{'params': [torch.nn.Parameter(torch.zeros(1))], 'lr': lr} for lr in lrs], lr=0.1)
    conf = dict(mode=ctx.choice(['min', 'max']), factor=ctx.choice([0.1, 0.5, 0.9, 0.75]), patience=ctx.choice([0, 1, 2, 5, 10]), threshold=ctx.choice([0.0, 1e-4, 0.13, 0.37]),
                threshold_mode=ctx.choice(['rel', 'abs']), cooldown=ctx.choice([0, 0, 1, 3]), eps=ctx.choice([1e-8, 1e-3, 0.0]))
    mins = ctx.choice([0, 1e-3, 'list', 'tuple'])
    if isinstance(mins, str):
        conf['min_lr'] = [ctx.choice([0.0, 0.01, 0.5]) for _ in range(ng)]
        if mins == 'tuple':
            conf['min_lr'] = tuple(conf['min_lr'])
        ml = list(conf['min_lr'])
    else:
        conf['min_lr'] = mins
        ml = [mins] * ng
    drop = [k for k, d in (('mode', 'min'), ('factor', 0.1), ('patience', 10), ('threshold', 1e-4), ('threshold_mode', 'rel'), ('cooldown', 0), ('eps', 1e-8), ('min_lr', 0)) if conf[k] == d and ctx.rng.random() < 0.5]
    model = Model(lrs, conf['mode'], conf['factor'], conf['patience'], conf['threshold'], conf['threshold_mode'], conf['cooldown'], ml, conf['eps'])
    args = {k: v for k, v in conf.items() if k not in drop}
    opt = mk()
    return cs, mk, opt, args, conf, model


def history(ctx, n, thr=0.0):
    v = ctx.rng.uniform(0.5, 5)
    out = []
    kind = ctx.choice(['down', 'up', 'plateau', 'noise', 'mixed', 'negative', 'near'])
    if ctx.rng.random() < 0.2:
        out += [ctx.choice([math.inf, -math.inf, math.nan])] * ctx.choice([1, 1, 2, 3, 6, 11])   # nothing useful at first
    for i in range(n):
        k = kind if kind != 'mixed' else ctx.choice(['down', 'up', 'plateau', 'noise', 'inf'])
        if k == 'down':
            v *= ctx.choice([0.5, 0.9, 0.99, 1 - 1e-5])
        elif k == 'up':
            v *= ctx.choice([2, 1.1, 1.01, 1 + 1e-5])
        elif k == 'noise':
            v = ctx.rng.uniform(0.5, 5)
        elif k == 'near':
            v *= 1 + ctx.choice([-1, 1]) * thr * ctx.choice([0.6, 0.9, 1.1, 1.4, 1.9])
        elif k == 'negative':
            v = ctx.rng.uniform(-5, 5)
        elif k == 'inf':
            out.append(ctx.choice([math.inf, -math.inf]))
            continue
        if ctx.rng.random() < 0.1:
            v = ctx.choice([v, v * 1.5, v * 0.5, v * 0.9, v * 1.1])
        out.append(v)
    return out


@check.scenario(quick=300, thorough=8000, requires=('learning_rate', 'converged', 'restored', 'reduced', 'other_settings'))
def trace(ctx):
    cs, mk, opt, args, conf, model = make(ctx)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sch = cs.CustomReduceLROnPlateau(opt, verbose=ctx.rng.random() < 0.3, **args)
        hist = history(ctx, ctx.rng.randint(5, 80), conf['threshold'])
        ctx.note(conf={k: str(v) for k, v in conf.items()}, lrs=model.lrs[:], history=hist)
        ctx.check(sch.has_convergence_been_reached() is False, 'converged', 'convergence before the first step')
        restore = ctx.rng.randrange(len(hist)) if ctx.rng.random() < 0.5 else None
        other = [{k: v for k, v in g.items() if k not in ('params', 'lr')} for g in opt.param_groups]
        for i, v in enumerate(hist):
            if i == restore:
                sd = copy.deepcopy(sch.state_dict())
                osd = copy.deepcopy(opt.state_dict())
                opt = mk()
                opt.load_state_dict(osd)
                sch = cs.CustomReduceLROnPlateau(opt, mode='max' if conf['mode'] == 'min' else 'min', patience=1)
                sch.load_state_dict(sd)
                ctx.count('restored')
            if i % 3 == 2:
                sch.step(torch.tensor(v))
            elif i % 3 == 1:
                sch.step(v, epoch=i)
            else:
                sch.step(v)
            before = list(model.lrs)
            model.step(v)
            if model.lrs != before:
                ctx.count('reduced')
            for gi, g in enumerate(opt.param_groups):
                ctx.check(abs(g['lr'] - model.lrs[gi]) <= 1e-12 * max(1.0, model.lrs[gi]), 'learning_rate',
                          'group {} after step {} (value {}): learning rate {} expected {}'.format(gi, i, v, g['lr'], model.lrs[gi]))
            ctx.check(bool(sch.has_convergence_been_reached()) == model.conv, 'converged', 'after step {}: convergence {} expected {}'.format(i, sch.has_convergence_been_reached(), model.conv))
        ctx.check([{k: v for k, v in g.items() if k not in ('params', 'lr')} for g in opt.param_groups] == other, 'other_settings', 'settings other than the learning rate changed')
    if model.reductions:
        ctx.key(str(conf), str(hist))


@check.scenario(quick=12, thorough=40, requires=('rejected',))
def rejects(ctx):
    import neuro_shooting.custom_lr_scheduler as cs
    o = torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=0.1)
    ctx.expect_raises(lambda: cs.CustomReduceLROnPlateau(o, factor=ctx.choice([1.0, 1.5])), ValueError, 'rejected', 'factor not below one')
    ctx.expect_raises(lambda: cs.CustomReduceLROnPlateau('x'), TypeError, 'rejected', 'no optimizer')
    ctx.expect_raises(lambda: cs.CustomReduceLROnPlateau(o, mode='avg'), ValueError, 'rejected', 'unknown mode')
    ctx.expect_raises(lambda: cs.CustomReduceLROnPlateau(o, threshold_mode='abc'), ValueError, 'rejected', 'unknown threshold mode')
    ctx.expect_raises(lambda: cs.CustomReduceLROnPlateau(o, min_lr=[0.1, 0.2]), ValueError, 'rejected', 'wrong number of minimal rates')
    ctx.key('rejects')
