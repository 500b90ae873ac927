"""Runtime-monitoring core: case scheduling, monitors, verdicts, evidence.

A check is a set of scenarios.  A scenario is a function f(ctx) which runs the
real code of /repo on a generated workload and reports to monitors through ctx.
Every case is reproducible from (property, tier-independent scenario name, index, seed).
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))


QUICK_FACTOR = 3     # cases of the quick tier, relative to the numbers given with the scenarios


class Violation(Exception):
    """Raised (directly or through ctx.fail) when a monitor sees the property broken."""


class Skip(Exception):
    """The generated workload is outside the quantifier of the property (e.g. numeric blow-up)."""


class CaseTimeout(BaseException):
    pass


def case_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') % (2 ** 62)


class Ctx(object):
    """Per-case context: random source, monitors and event counters."""
    ambient = None      # random source of choices which no result may depend on

    def __init__(self, prop, scenario, idx, seed, tier, scratch):
        import numpy as np
        import random
        import torch
        self.prop, self.scenario, self.idx, self.seed, self.tier = prop, scenario, idx, seed, tier
        self.scratch = scratch
        s = case_seed(prop, scenario, idx, seed)
        self.case_seed = s
        self.rng = random.Random(s)
        self.np = np.random.RandomState(s % (2 ** 32))
        random.seed(s % (2 ** 31))
        np.random.seed(s % (2 ** 31))
        torch.manual_seed(s % (2 ** 31))
        self.gen = torch.Generator().manual_seed((s >> 5) % (2 ** 31))
        Ctx.ambient = random.Random(s ^ 0x5EED)
        torch.set_default_dtype(torch.float64)
        self.events = {}
        self.keys = set()
        self.info = {}
        self.nontrivial = False

    # ---- reporting
    def count(self, monitor, n=1):
        self.events[monitor] = self.events.get(monitor, 0) + int(n)

    def note(self, **kw):
        self.info.update(kw)

    def key(self, *parts):
        """Declares this case (or a state seen in it) as non-trivial and identifies it."""
        self.nontrivial = True
        self.keys.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, monitor, msg):
        self.count(monitor)
        if not cond:
            raise Violation('{}: {}'.format(monitor, msg() if callable(msg) else msg))

    def close(self, got, want, monitor, what, rtol=1e-7, atol=1e-9, scale=None):
        """Compares tensors: |got-want| <= atol + rtol*max(scale, |want|_max)."""
        import torch
        self.count(monitor)
        if got is None or want is None:
            raise Violation('{}: {}: missing value (observed {}, expected {})'.format(
                monitor, what, 'None' if got is None else 'a value', 'None' if want is None else 'a value'))
        got = torch.as_tensor(got).detach()
        want = torch.as_tensor(want).detach()
        if tuple(got.shape) != tuple(want.shape):
            raise Violation('{}: {}: observed shape {}, expected {}'.format(monitor, what, tuple(got.shape), tuple(want.shape)))
        if got.numel() == 0:
            return 0.0
        g, w = got.double(), want.double()
        if not bool(torch.isfinite(w).all()):
            raise Skip('reference value not finite: ' + what)
        if not bool(torch.isfinite(g).all()):
            raise Violation('{}: {}: observed value is not finite'.format(monitor, what))
        s = float(w.abs().max())
        if scale is not None:
            s = max(s, float(scale))
        err = float((g - w).abs().max())
        if not err <= atol + rtol * s:
            i = int((g - w).abs().reshape(-1).argmax())
            raise Violation('{}: {}: observed {:.10g}, expected {:.10g} (max abs error {:.3g}, scale {:.3g}, flat index {})'.format(
                monitor, what, float(g.reshape(-1)[i]), float(w.reshape(-1)[i]), err, s, i))
        return err

    def equal(self, got, want, monitor, what):
        """Bitwise equality of tensors."""
        import torch
        self.count(monitor)
        if got is None or want is None:
            raise Violation('{}: {}: missing value'.format(monitor, what))
        if tuple(got.shape) != tuple(want.shape):
            raise Violation('{}: {}: observed shape {}, expected {}'.format(monitor, what, tuple(got.shape), tuple(want.shape)))
        if not torch.equal(got.detach(), want.detach()):
            if want.is_floating_point() and bool(torch.isnan(want.detach()).any()):
                raise Skip('reference value not finite: ' + what)
            raise Violation('{}: {}: values differ (max abs {:.3g})'.format(
                monitor, what, float((got.detach().double() - want.detach().double()).abs().max())))

    # ---- random helpers
    def choice(self, seq):
        return self.rng.choice(list(seq))

    def cycle(self, seq, salt=0):
        """Round-robin over seq with the case index, so small case counts still cover everything."""
        seq = list(seq)
        return seq[(self.idx + salt) % len(seq)]

    def randn(self, *size, scale=1.0):
        import torch
        return torch.randn(*size, generator=self.gen, dtype=torch.float64).to(torch.get_default_dtype()) * scale

    def rand(self, *size):
        import torch
        return torch.rand(*size, generator=self.gen, dtype=torch.float64).to(torch.get_default_dtype())

    def expect_raises(self, fn, exc, monitor, what):
        self.count(monitor)
        try:
            fn()
        except exc:
            return
        except Violation:
            raise
        raise Violation('{}: {}: was accepted silently'.format(monitor, what))


class Scenario(object):
    def __init__(self, name, fn, quick, thorough, requires):
        self.name, self.fn, self.quick, self.thorough, self.requires = name, fn, quick, thorough, requires


class Check(object):
    def __init__(self, prop, rule, assumptions=(), case_timeout=90):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.scenarios = []
        self.case_timeout = case_timeout

    def scenario(self, quick, thorough, requires=()):
        """Decorator. quick/thorough: number of cases; requires: monitors which must have fired."""
        def deco(fn):
            self.scenarios.append(Scenario(fn.__name__, fn, quick, thorough, requires))
            return fn
        return deco


def _alarm(signum, frame):
    raise CaseTimeout()


def _in(path, root):
    return os.path.abspath(path).startswith(root + os.sep)


def run_case(check, sc, idx, seed, tier, scratch):
    import torch
    scratch = tempfile.mkdtemp(prefix='case', dir=scratch)
    ctx = Ctx(check.prop, sc.name, idx, seed, tier, scratch)
    res = {'scenario': sc.name, 'idx': idx, 'status': 'ok'}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(check.case_timeout)
    t0 = time.time()
    try:
        sc.fn(ctx)
    except Skip as e:
        res['status'] = 'skip'
        res['msg'] = str(e)
    except Violation as e:
        res['status'] = 'violation'
        res['msg'] = str(e)
        res['trace'] = traceback.format_exc()[-3000:]
    except CaseTimeout:
        res['status'] = 'timeout'
        res['msg'] = 'no result after {} s'.format(check.case_timeout)
        res['trace'] = traceback.format_exc()[-3000:]
    except torch.linalg.LinAlgError as e:
        # norms of parameters of a trajectory which left the numerically meaningful range
        res['status'] = 'skip'
        res['msg'] = 'exception: ' + repr(e)[:300]
        res['trace'] = traceback.format_exc()[-3000:]
    except (MemoryError, ImportError) as e:
        # a module of the repository which cannot be imported is broken; anything else is our problem
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        res['status'] = 'violation' if isinstance(e, ImportError) and any(_in(f, REPO) for f in frames) else 'error'
        res['msg'] = repr(e)
        res['trace'] = traceback.format_exc()[-3000:]
    except OSError as e:
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        res['status'] = 'violation' if any(_in(f, REPO) for f in frames) else 'error'
        res['msg'] = 'exception: ' + repr(e)[:600]
        res['trace'] = traceback.format_exc()[-3000:]
    except (Exception, SystemExit) as e:
        # On supported inputs the code must not raise and its results must have the documented
        # structure: neither happens on the unchanged tree, so this is an observation of a break.
        res['status'] = 'violation'
        res['msg'] = 'exception in a supported configuration: ' + repr(e)[:600]
        res['trace'] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        os.chdir(os.path.dirname(scratch))
        shutil.rmtree(scratch, ignore_errors=True)
    res['wall'] = round(time.time() - t0, 3)
    res['events'] = ctx.events
    res['keys'] = sorted(ctx.keys)
    res['info'] = ctx.info
    res['seed'] = ctx.case_seed
    torch.set_default_dtype(torch.float32)
    return res


def _worker(wid, nworkers, check, cases, seed, tier, scratch, out, deadline):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    err = os.open(os.path.join(scratch, 'stderr.{}'.format(wid)), os.O_WRONLY | os.O_CREAT, 0o600)
    os.dup2(err, 2)
    wd = os.path.join(scratch, 'w{}'.format(wid))
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    nviol = 0
    known = load_known(check.prop)
    with open(out, 'w') as f:
        for n, (si, idx) in enumerate(cases):
            if n % nworkers != wid:
                continue
            sc = check.scenarios[si]
            if time.time() > deadline and idx > 0:
                res = {'scenario': sc.name, 'idx': idx, 'status': 'notrun', 'events': {}, 'keys': [], 'info': {}, 'wall': 0}
            else:
                res = run_case(check, sc, idx, seed, tier, wd)
            f.write(json.dumps(res, default=str) + '\n')
            f.flush()
            if res['status'] == 'timeout' or (res['status'] == 'violation' and match_known(known, res) is None):
                nviol += 1
                if nviol >= 3:
                    break
        f.write('"done"\n')


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k.get('property') == prop]


def match_known(known, r):
    for k in known:
        if k['scenario'] == r['scenario'] and k['match'] in r['msg']:
            return k
    return None


def run_check(check, tier, seed, only=None, workers=None, limit_s=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vh_{}_'.format(check.prop))
    try:
        return _run_check(check, tier, seed, only, workers, limit_s, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(check, tier, seed, only, workers, limit_s, scratch, t0):
    import torch
    torch.set_num_threads(1)
    # interleave the scenarios so that all of them progress together
    per = [(min(QUICK_FACTOR * sc.quick, max(sc.quick, sc.thorough)) if tier == 'quick' else sc.thorough) for sc in check.scenarios]
    cases = []
    for i in range(max(per)):
        for si in range(len(check.scenarios)):
            if i < per[si]:
                cases.append((si, i))
    if only is not None:
        name, idx = only.rsplit(':', 1)
        cases = [(si, int(idx)) for si, sc in enumerate(check.scenarios) if sc.name == name]
    nworkers = workers or min(8, max(1, len(cases)))
    if limit_s is None:
        limit_s = 300 if tier == 'quick' else 5400
    deadline = t0 + limit_s
    pids = []
    outs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        out = os.path.join(scratch, 'res.{}.jsonl'.format(w))
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                _worker(w, nworkers, check, cases, seed, tier, scratch, out, deadline)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]

    results, errors = [], []
    for w, out in enumerate(outs):
        done = False
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r == 'done':
                    done = True
                else:
                    results.append(r)
        if not done or codes[w] != 0:
            tail = ''
            try:
                tail = open(os.path.join(scratch, 'stderr.{}'.format(w))).read()[-1500:]
            except OSError:
                pass
            errors.append('worker {} ended with {}: {}'.format(w, codes[w], tail))

    events, keys, skipped, notrun = {}, set(), 0, 0
    perscen = {sc.name: {'cases': 0, 'skipped': 0, 'events': 0} for sc in check.scenarios}
    samples, viol, timeouts = [], [], []
    seen_sample = {}
    skip_reasons = {}
    walls = []
    for r in sorted(results, key=lambda r: (r['scenario'], r['idx'])):
        ps = perscen[r['scenario']]
        if r['status'] == 'notrun':
            notrun += 1
            continue
        ps['cases'] += 1
        walls.append(r['wall'])
        if r['status'] == 'skip':
            skipped += 1
            ps['skipped'] += 1
            skip_reasons[r['msg'][:80]] = skip_reasons.get(r['msg'][:80], 0) + 1
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
            ps['events'] += v
        if r['status'] == 'ok':
            keys.update(r['scenario'] + k for k in r['keys'])
            if seen_sample.get(r['scenario'], 0) < 1:
                seen_sample[r['scenario']] = seen_sample.get(r['scenario'], 0) + 1
                samples.append({'scenario': r['scenario'], 'idx': r['idx'], 'case_seed': r['seed'],
                                'case': r['info'], 'events': r['events']})
        elif r['status'] == 'violation':
            viol.append(r)
        elif r['status'] == 'timeout':
            timeouts.append(r)
        elif r['status'] == 'error':
            errors.append('{}:{} {}\n{}'.format(r['scenario'], r['idx'], r['msg'], r.get('trace', '')))

    # a single slow case (adaptive solver on a stiff random field) is not a verdict; repeated ones are non-termination
    if len(timeouts) >= 3:
        viol.extend(timeouts)
    elif timeouts:
        for r in timeouts:
            perscen[r['scenario']]['skipped'] += 1
            skipped += 1
            skip_reasons[r['msg']] = skip_reasons.get(r['msg'], 0) + 1

    known = load_known(check.prop)
    reported, known_hit = [], {}
    for r in viol:
        hit = match_known(known, r)
        if hit is not None:
            known_hit[hit['id']] = hit
        else:
            reported.append(r)
    for k in known_hit.values():
        print('KNOWN-FINDING: property={} {}'.format(check.prop, k['what']))

    replay = None
    if reported:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        r = reported[0]
        replay = os.path.join(rdir, '{}-{}-{}-{}.json'.format(check.prop, seed, r['scenario'], r['idx']))
        with open(replay, 'w') as f:
            json.dump({'property': check.prop, 'scenario': r['scenario'], 'idx': r['idx'], 'seed': seed,
                       'what': r['msg'], 'case': r['info'], 'trace': r.get('trace'),
                       'rerun': 'cd /verif && bash check.sh {} {} --seed {} --only {}:{}'.format(
                           check.prop, tier, seed, r['scenario'], r['idx']),
                       'other_violations': [{'scenario': x['scenario'], 'idx': x['idx'], 'what': x['msg']} for x in reported[1:20]]},
                      f, indent=1, default=str)

    if only is None and not reported:
        # evidence must show that every monitor really observed something
        for sc in check.scenarios:
            ps = perscen[sc.name]
            if ps['cases'] == 0 or ps['cases'] == ps['skipped']:
                errors.append('scenario {} produced no observation ({} cases, {} skipped)'.format(sc.name, ps['cases'], ps['skipped']))
            for m in sc.requires:
                if events.get(m, 0) == 0:
                    errors.append('monitor {} of scenario {} never fired'.format(m, sc.name))

    ev = {
        'property': check.prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': len([r for r in results if r['status'] != 'notrun']),
            'distinct_nontrivial': len(keys),
            'rule': check.rule,
            'samples': samples[:12],
            'monitor_events': dict(sorted(events.items())),
            'scenarios': perscen,
            'skipped_outside_quantifier': skipped,
            'skip_reasons': skip_reasons,
            'not_run_time_limit': notrun,
            'slowest_case_s': max(walls) if walls else 0,
            'known_findings_seen': sorted(known_hit),
            'harness_errors': len(errors),
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reported),
    }
    if only is None:
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, '.{}.json.tmp'.format(check.prop))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(edir, '{}.json'.format(check.prop)))

    print('{} {} seed={}: {} executions, {} distinct non-trivial, {} monitor observations, {} skipped, {:.1f} s'.format(
        check.prop, tier, seed, ev['coverage']['evaluations'], len(keys), sum(events.values()), skipped, ev['wall_s']))
    for r in reported[:5]:
        print('  broken in {}:{}: {}'.format(r['scenario'], r['idx'], r['msg'][:500]))
    if reported:
        if only is not None:
            print(reported[0].get('trace', ''))
        print('VIOLATION property={} replay={}'.format(check.prop, replay))
        return 1
    if errors:
        for e in errors[:5]:
            print('HARNESS-ERROR ' + e[:2500], file=sys.stderr)
        return 2
    return 0
