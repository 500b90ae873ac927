"""C22: parameter sweeps run every combination exactly once with the right settings, also across interrupted sweeps."""
import argparse
import contextlib
import copy
import io
import itertools
import json
import os
import sys
import time
from collections import OrderedDict
import neuro_shooting.command_line_execution_tools as ce
import neuro_shooting.experiment_utils as eu
from vh.core import Check

check = Check('C22', 'one case = one sweep specification (swept settings, template, seeds, directories) executed for real through the shell with a recording stand-in for the interpreter, possibly '
              'interrupted and repeated; the log of started processes is compared with the expected set of runs. Non-trivial: at least two runs; distinct by specification and history.',
              ['names and values are words and numbers which the shell leaves alone; directories may contain brackets', 'the stand-in interpreter only appends to a log inside a scratch directory'])

STANDIN = '''#!/bin/bash
# records how it was called, then behaves as told by the file "behave" in the directory of this script
d="$(dirname "$0")"
n=$(cat "$d/calls" 2>/dev/null | wc -l)
{ printf '%s\\x1f' "$0" "${CUDA_VISIBLE_DEVICES-unset}${VH_PRE+ pre=$VH_PRE}" "$@"; printf '\\n'; } >> "$d/calls"
echo "stdout of run $n"
echo "stderr of run $n" >&2
out=""; prev=""
for a in "$@"; do if [ "$prev" = "--output_directory" ]; then out="$a"; fi; prev="$a"; done
if [ -f "$d/fail_$n" ]; then exit 3; fi
if [ -n "$out" ]; then : > "$out/result.pt"; fi
'''


def standin(ctx, name='py'):
    d = os.path.join(ctx.scratch, 'bin')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(STANDIN)
    os.chmod(p, 0o755)
    return p


def calls(path):
    p = os.path.join(os.path.dirname(path), 'calls')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [ln.rstrip('\n').split('\x1f')[:-1] for ln in f]


def quiet(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn()
    return r, buf.getvalue()


def parse(args):
    """--k v / --k flags -> dict"""
    d, i = {}, 0
    while i < len(args):
        a = args[i]
        if not a.startswith('--') or a[2:] in d:
            return None
        if i + 1 < len(args) and not args[i + 1].startswith('--'):
            d[a[2:]] = args[i + 1]
            i += 2
        else:
            d[a[2:]] = None
            i += 1
    return d


def rand_sweep(ctx, maxn=12):
    pool = {'lr': [0.1, 0.01, 1e-3], 'nr_of_particles': [2, 15, 25], 'shooting_model': ['updown', 'universal', 'simple'], 'fcn': ['cubic', 'quadratic'], 'use_rnn_mode': [True, False],
            'inflation_factor': [4, 16], 'optional_weight': [5.0, 10], 'verbose': [False, True], 'nonlinearity': ['relu', 'tanh'], 'zeta': [0], 'nan_ok': ['none']}
    keys = ctx.rng.sample(list(pool), ctx.rng.randint(1, 4)) if ctx.rng.random() > 0.06 else []
    s = OrderedDict()
    n = 1
    for k in keys:
        v = ctx.rng.sample(pool[k], ctx.rng.randint(1, len(pool[k])))
        if n * len(v) > maxn:
            v = v[:1]
        n *= len(v)
        s[k] = v
    return s


def merged(template, d):
    m = {k: (None if v is None else str(v)) for k, v in template.items()}
    for k, v in d.items():
        if v is True:
            m[k] = None
        elif v is False:
            m.pop(k, None)
        else:
            m[k] = str(v)
    return m


@check.scenario(quick=120, thorough=3000, requires=('product', 'order', 'specification_untouched'))
def product(ctx):
    s = rand_sweep(ctx, 200)
    keep = copy.deepcopy(s)
    if ctx.rng.random() < 0.5:
        s = dict(s)
    ctx.note(sweep={k: list(map(str, v)) for k, v in s.items()})
    for rep in range(2):
        got = ce.recursively_sweep_parameters(pars_to_sweep=s)
        want = [dict(zip(keep.keys(), c)) for c in itertools.product(*keep.values())]
        ctx.check(sorted(map(repr, map(lambda d: sorted(d.items()), got))) == sorted(map(repr, map(lambda d: sorted(d.items()), want))), 'product',
                  '{} combinations instead of {} (call {})'.format(len(got), len(want), rep + 1))
        ctx.check([dict(g) for g in got] == want, 'order', 'combinations are not enumerated in order')
        ctx.check(dict(s) == dict(keep) and list(s) == list(keep), 'specification_untouched', 'the specification was modified')
        ctx.check(len({id(g) for g in got}) == len(got), 'independent', 'combinations share storage')
        got[0]['added'] = 1
        ctx.check(all('added' not in g for g in got[1:]), 'independent', 'combinations share storage')
    ctx.key(str(list(s.items())))


@check.scenario(quick=40, thorough=500, requires=('runs', 'settings', 'directory', 'device', 'interpreter', 'log', 'resumed'))
def sweep(ctx):
    py = standin(ctx, ctx.choice(['py', 'python3.6', 'python']))
    s = rand_sweep(ctx, 6)
    template = OrderedDict()
    for k, v in ctx.rng.sample([('niters', 50), ('viz', None), ('use_rnn_mode', None), ('lr', 0.5), ('fcn', 'cubic'), ('shooting_model', 'periodic'), ('verbose', None)], ctx.rng.randint(0, 4)):
        template[k] = v
    nr, first, gpu = ctx.choice([1, 1, 2]), ctx.choice([0, 3, 11, 99, 100, 1234]), ctx.choice([0, 1, 2])
    base = ctx.choice(['res{}', 'res{}', 'res[{}]', 're-s.{}']).format(ctx.rng.randint(0, 99))
    prefix = os.path.join(ctx.scratch, ctx.choice(['', 'pre_']))
    args = argparse.Namespace(starting_seed_id=first, nr_of_seeds=nr, output_base_directory=base, path_to_python=py, gpu=gpu, shooting_model='general_updown', force_recompute=False)
    has_fcn = ctx.rng.random() < 0.6
    if has_fcn:
        args.fcn = 'quadratic'
    keep_s, keep_t, keep_a = copy.deepcopy(s), copy.deepcopy(template), copy.deepcopy(vars(args))
    combos = [dict(zip(s.keys(), c)) for c in itertools.product(*s.values())]
    root = os.path.join(prefix, base) if prefix.endswith('/') else prefix + base
    want = []
    for seed in range(first, first + nr):
        for d in combos:
            model = d.get('shooting_model', template.get('shooting_model', args.shooting_model))
            fcn = d.get('fcn', template.get('fcn', 'quadratic' if has_fcn else ''))
            name = 'run_{:02d}_{}_{}'.format(seed, fcn, model) + ''.join('_{}_{}'.format(k, v) for k, v in d.items())
            m = merged(template, d)
            m['output_directory'] = os.path.join(prefix + base if not prefix.endswith('/') else os.path.join(prefix, base), name)
            m['seed'] = str(seed)
            want.append((name, m))
    n = len(want)
    fails = sorted(i for i in range(n) if ctx.rng.random() < 0.3)
    for i in fails:
        open(os.path.join(os.path.dirname(py), 'fail_{}'.format(i)), 'w').close()
    pre_done = None
    if ctx.rng.random() < 0.3 and n > 1:
        # results which exist already, and a file which is no result
        pre_done = ctx.rng.randrange(n)
    recompute = ctx.rng.random() < 0.2
    ctx.note(sweep={k: list(map(str, v)) for k, v in s.items()}, template=dict(template), seeds=(first, nr), fails=fails, pre_done=pre_done, recompute=recompute)
    os.makedirs(root, exist_ok=True) if (pre_done is not None or ctx.rng.random() < 0.3) else None
    if pre_done is not None:
        os.makedirs(want[pre_done][1]['output_directory'])
        open(os.path.join(want[pre_done][1]['output_directory'], 'old.pt'), 'w').close()
        other = (pre_done + 1) % n
        os.makedirs(want[other][1]['output_directory'], exist_ok=True)
        decoy = os.path.join(want[other][1]['output_directory'], ctx.choice(['notes.txt', 'script.sh', 'checkpoint.log', 'x.ptx', 'x.pt.bak', 'pt', 'result_pt', 'old/result.pt']))
        os.makedirs(os.path.dirname(decoy), exist_ok=True)
        open(decoy, 'w').close()
    script = ctx.choice(['spiral.py', 'dir/some_example.py'])
    done = set() if pre_done is None else {pre_done}
    opts = dict(do_not_recompute=not recompute) if recompute or ctx.rng.random() < 0.5 else {}
    total = 0
    for attempt in range(3):
        todo = [i for i in range(n) if recompute or i not in done]
        quiet(lambda: eu.sweep_parameters(args, run_args_to_sweep=s, run_args_template=template, python_script=script, output_dir_prefix=prefix, **opts))
        cl = calls(py)[total:]
        ctx.check(len(cl) == len(todo), 'runs', 'attempt {}: {} runs were started instead of {}'.format(attempt + 1, len(cl), len(todo)))
        for c, i in zip(cl, todo):
            name, m = want[i]
            ctx.check(c[0] == py, 'interpreter', 'run with {} instead of the requested interpreter'.format(c[0]))
            ctx.check(c[1] == str(gpu), 'device', 'visible device {} instead of {}'.format(c[1], gpu))
            ctx.check(c[2] == script, 'settings', 'script {} instead of {}'.format(c[2], script))
            got = parse(c[3:])
            ctx.check(got == m, 'settings', 'run {} got the settings {} instead of {}'.format(i, got, m))
            ctx.check(os.path.isdir(m['output_directory']), 'directory', 'no directory {}'.format(name))
        for j, i in enumerate(todo):
            log = os.path.join(want[i][1]['output_directory'], 'runlog.log')
            lines = ['stdout of run {}'.format(total + j), 'stderr of run {}'.format(total + j)]
            end = time.time() + 20
            while True:   # the log is written by a process which may outlive the shell
                txt = open(log).read() if os.path.exists(log) else ''
                if sorted(txt.split('\n')[:-1]) == sorted(lines) or time.time() > end:
                    break
                time.sleep(0.01)
            ctx.check(sorted(txt.split('\n')[:-1]) == sorted(lines), 'log', 'log of run {} is {!r}'.format(i, txt[:200]))
        if attempt:
            ctx.count('resumed')
        for j, i in enumerate(todo):
            if total + j not in fails:
                done.add(i)
        total += len(todo)
        dirs = {d for d in os.listdir(root) if os.path.isdir(os.path.join(root, d))}
        ctx.check(dirs == {w[0] for w in want}, 'directory', 'directories {} expected {}'.format(sorted(dirs), sorted(w[0] for w in want)))
    ctx.check(s == keep_s and list(s) == list(keep_s) and template == keep_t and vars(args) == keep_a, 'specification_untouched', 'the specification was modified')
    if n > 1:
        ctx.key(str(list(s.items())), str(template), first, nr, str(fails))


@check.scenario(quick=60, thorough=1000, requires=('merge', 'specification_untouched'))
def merge(ctx):
    t = {k: ctx.choice([None, 1, 'x', 0.5]) for k in ctx.rng.sample('abcdef', ctx.rng.randint(0, 4))}
    d = {k: ctx.choice([True, False, 1, 0, 'y', 2.5, None]) for k in ctx.rng.sample('abcdef', ctx.rng.randint(0, 5))}
    kt, kd = copy.deepcopy(t), copy.deepcopy(d)
    ctx.note(template=t, add=d)
    m = eu.merge_args(run_args_template=t, add_args=d)
    want = dict(t)
    for k, v in d.items():
        if v is True:
            want[k] = None
        elif v is False:
            want.pop(k, None)
        else:
            want[k] = v
    ctx.check(m == want and all(type(m[k]) is type(want[k]) for k in want), 'merge', 'merged {} expected {}'.format(m, want))
    ctx.check(t == kt and d == kd, 'specification_untouched', 'inputs were modified')
    ctx.key(str(t), str(d))


@check.scenario(quick=36, thorough=400, requires=('arguments', 'configuration_string', 'verbatim', 'script_output', 'pre_command'))
def shell(ctx):
    """Single commands: arguments, environment, configuration strings and output as the called program sees them."""
    py = standin(ctx)
    kv = OrderedDict((k, ctx.choice([1, 2.5, 'abc'])) for k in ctx.rng.sample(['a', 'bb', 'c1', 'd_d'], ctx.rng.randint(1, 4)))
    cs = ce.create_kv_string(kv)
    plain = ';'.join('{}={}'.format(k, v) for k, v in kv.items())
    if ctx.rng.random() < 0.2:
        cs, plain = cs + '\\;', plain + ';'
    add = ctx.choice([None, 'e=1', 'e=1;f=2', 'e=1;f=2;g=3', 'e=1;', ';e=1'])
    ctx.note(config=plain, add=add)
    cs2 = ce.add_to_config_string(cs, add)
    plain2 = plain if add is None else plain + ';' + add
    cs3 = ce.add_to_config_string(ctx.choice([None, '']), plain)
    a = OrderedDict([('config', cs), ('flag', None), ('more', cs2), ('first', cs3), ('n', ctx.rng.randint(-5, 5))])
    gpu = ctx.choice([0, 3])
    log = ctx.choice([None, os.path.join(ctx.scratch, 'x.log')])
    dev = dict(cuda_visible_devices=gpu) if gpu or ctx.rng.random() < 0.5 else {}
    quiet(lambda: ce.run_command_with_args(python_script='s.py', run_args=a, path_to_python=py, log_file=log, **dev))
    pre = 'export VH_PRE=1'
    quiet(lambda: ce.execute_python_script_via_bash('t.py', ['--x', '1'], pre_command=ce.get_bash_precommand(cuda_visible_devices=None, pre_command=pre), log_file=log, python_command=py))
    quiet(lambda: ce.execute_python_script_via_bash('u.py', [], pre_command=ce.get_bash_precommand(cuda_visible_devices=gpu, pre_command=pre), log_file=log, python_command=py))
    quiet(lambda: ce.execute_python_script_via_bash('v.py', ['--y'], log_file=log, python_command=py))
    weird = ['a b', '$HOME', '*', '"q"', "it's", ';', '']
    quiet(lambda: ce.execute_command(py, weird, verbose=bool(ctx.idx % 2)))
    cl = calls(py)
    ctx.check(len(cl) == 5, 'arguments', '{} commands were run instead of 5'.format(len(cl)))
    c = cl[0]
    ctx.check(c[1] == str(gpu), 'arguments', 'visible device {} instead of {}'.format(c[1], gpu))
    got = {c[i]: c[i + 1] for i in range(3, len(c) - 1) if c[i] in ('--config', '--more', '--first', '--n')}
    ctx.check(got.get('--config') == plain, 'configuration_string', 'configuration arrived as {} instead of {}'.format(got.get('--config'), plain))
    ctx.check(got.get('--more') == plain2, 'configuration_string', 'extended configuration arrived as {} instead of {}'.format(got.get('--more'), plain2))
    ctx.check(got.get('--first') == plain, 'configuration_string', 'initial configuration arrived as {} instead of {}'.format(got.get('--first'), plain))
    ctx.check(got.get('--n') == str(a['n']) and '--flag' in c and c[2] == 's.py' and len(c) == 3 + 9, 'arguments', 'arguments arrived as {}'.format(c))
    ctx.check(cl[1][2:] == ['t.py', '--x', '1'] and cl[2][2:] == ['u.py'] and cl[3][2:] == ['v.py', '--y'], 'arguments', 'commands arrived as {}'.format(cl[1:4]))
    ctx.check(cl[2][1] == str(gpu) + ' pre=1', 'pre_command', 'device and preceding command: {}'.format(cl[2][1]))
    outer = os.environ.get('CUDA_VISIBLE_DEVICES', 'unset')
    ctx.check(cl[1][1] == outer + ' pre=1', 'pre_command', 'preceding command without device: {}'.format(cl[1][1]))
    ctx.check(cl[3][1] == outer, 'pre_command', 'neither device nor preceding command: {}'.format(cl[3][1]))
    ctx.check(cl[4][2:] == weird, 'verbatim', 'arguments arrived as {}'.format(cl[4][2:]))
    ctx.check(os.path.basename(ce.get_stage_log_filename('d', 3)) == 'log_stage_3.txt' and ce.get_stage_log_filename('d', 2, 'p') == os.path.join('d', 'log_stage_2_p.txt'),
              'arguments', 'log file names')
    # output of a called script: every line which is no comment
    sc = os.path.join(ctx.scratch, 'p.py')
    lines = [ctx.choice(['# no', 'yes {}'.format(i), '  # indented', '#', 'a # b', '\u00fc']) for i in range(ctx.rng.randint(1, 8))]
    with open(sc, 'w') as f:
        f.write('import sys\nsys.stdout.buffer.write({!r})\n'.format('\n'.join(lines).encode()))
    _, out = quiet(lambda: ce.call_python_script(sc))
    want = [ln for ln in lines if not ln.startswith('#')]
    ctx.check([o for o in out.split('\n')][:-1] == want, 'script_output', 'printed {!r} expected {!r}'.format(out, want))
    ctx.key(plain, str(add), gpu, str(lines))


@check.scenario(quick=12, thorough=60, requires=('options', 'rejected'))
def command_line(ctx):
    kind = ctx.cycle(['simple_functional_mapping', 'simple_functional_weighting', 'spiral'])
    opts = {'--gpu': 2, '--nr_of_seeds': 4, '--starting_seed_id': 7, '--output_base_directory': 'zz', '--path_to_python': '/x/py'}
    if kind != 'simple_functional_weighting':
        opts['--shooting_model'] = 'periodic'
    if kind != 'spiral':
        opts['--fcn'] = 'quadratic'
    use = {k: opts[k] for k in ctx.rng.sample(sorted(opts), ctx.rng.randint(0, len(opts)))}
    force = ctx.rng.random() < 0.5
    default = {'gpu': 0, 'nr_of_seeds': 1, 'starting_seed_id': 0, 'output_base_directory': 'sfm_results', 'force_recompute': False}
    flags = {k: ctx.rng.random() < 0.5 for k in ('sweep_updown', 'sweep_updown_universal')} if kind == 'simple_functional_weighting' else {}
    old = sys.argv
    sys.argv = ['prog'] + [str(v) for kv in use.items() for v in kv] + (['--force_recompute'] if force else []) + ['--' + k for k, v in flags.items() if v]
    try:
        a = eu.setup_cmdline_parsing(kind, **ctx.choice([{}, {'cmdline_title': 'some title'}]))
    finally:
        sys.argv = old
    for k in default:
        want = use.get('--' + k, default[k]) if k != 'force_recompute' else force
        ctx.check(getattr(a, k) == want, 'options', '{} is {} instead of {}'.format(k, getattr(a, k), want))
    for k in flags:
        ctx.check(getattr(a, k) is flags[k], 'options', '{} is {} instead of {}'.format(k, getattr(a, k), flags[k]))
    if kind != 'simple_functional_weighting':
        ctx.check(a.shooting_model == use.get('--shooting_model', 'updown_universal'), 'options', 'model {}'.format(a.shooting_model))
    if kind != 'spiral':
        ctx.check(a.fcn == use.get('--fcn', 'cubic'), 'options', 'function {}'.format(a.fcn))
    for k in use:
        ctx.check(getattr(a, k[2:]) == use[k], 'options', '{} is {}'.format(k, getattr(a, k[2:])))
    ctx.expect_raises(lambda: eu.setup_cmdline_parsing('unknown'), ValueError, 'rejected', 'unknown command line type')
    ctx.key(kind, str(use))
