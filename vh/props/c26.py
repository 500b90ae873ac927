"""C26: text and figure output: escaped text is the intended LaTeX, figures are written completely and nowhere else."""
import os
import re
import string
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import neuro_shooting.figure_utils as fu
from vh.core import Check

check = Check('C26', 'one case = one text (random characters, special characters in all neighbourhoods, already escaped text, unicode) or one figure; escaped text is decoded by an independent LaTeX '
              'text reader and compared with the original. Non-trivial: text contains a special character; distinct by text.',
              ['the pgf backend needs a LaTeX installation which is not present: writing of figures is observed at the saving call for that format'])

DECODE = [(r'\textbackslash{}', '\\'), (r'\textasciitilde{}', '~'), (r'\textless{}', '<'), (r'\textgreater{}', '>'), (r'\^{}', '^'),
          (r'\&', '&'), (r'\%', '%'), (r'\$', '$'), (r'\#', '#'), (r'\_', '_'), (r'\{', '{'), (r'\}', '}')]
SPECIAL = '&%$#_{}~^\\<>'


def decode(s):
    """Reads LaTeX text left to right; fails on anything which would not be plain text."""
    out, i = [], 0
    while i < len(s):
        for code, ch in DECODE:
            if s.startswith(code, i):
                out.append(ch)
                i += len(code)
                break
        else:
            if s[i] in SPECIAL:
                raise ValueError('unescaped {!r} at {}'.format(s[i], i))
            out.append(s[i])
            i += 1
    return ''.join(out)


@check.scenario(quick=200, thorough=20000, requires=('decodes', 'ordinary_kept', 'concatenation'))
def escape(ctx):
    alpha = ctx.choice([SPECIAL, SPECIAL + 'ab ', string.printable, SPECIAL + '\u00e4\u20ac\n\t', 'textbackslash{}\\^', 'abc 123'])
    n = ctx.rng.randint(0, 30)
    t = ''.join(ctx.rng.choice(alpha) for _ in range(n))
    if ctx.idx < len(SPECIAL):
        t = SPECIAL[ctx.idx]
    ctx.note(text=t)
    e = fu.escape_latex_special_characters(t)
    try:
        d = decode(e)
    except ValueError as err:
        ctx.fail('decodes: {!r} was escaped to {!r}: {}'.format(t, e, err))
    ctx.check(d == t, 'decodes', '{!r} was escaped to {!r} which reads {!r}'.format(t, e, d))
    plain = ''.join(c for c in t if c not in SPECIAL)
    ctx.check(fu.escape_latex_special_characters(plain) == plain, 'ordinary_kept', 'ordinary text {!r} was changed'.format(plain))
    # escaping works character by character and can be repeated (for text which is itself about LaTeX)
    k = ctx.rng.randint(0, len(t))
    ctx.check(fu.escape_latex_special_characters(t[:k]) + fu.escape_latex_special_characters(t[k:]) == e, 'concatenation', 'escaping parts of {!r} differs from escaping the whole'.format(t))
    ctx.check(decode(decode(fu.escape_latex_special_characters(e))) == t, 'decodes', 'escaping twice')
    if any(c in SPECIAL for c in t):
        ctx.key(t)


@check.scenario(quick=8, thorough=30, requires=('files', 'nothing_else'))
def figures(ctx):
    real = plt.savefig
    seen = []

    def save(fname, *a, **k):
        seen.append(str(fname))
        if str(fname).endswith('.pgf'):
            open(fname, 'w').close()
            return
        return real(fname, *a, **k)
    fig = plt.figure(figsize=(1, 1))
    plt.plot([0, 1], [1, ctx.rng.random()])
    d = os.path.join(ctx.scratch, 'out')
    if ctx.idx % 2:
        os.mkdir(d)
        open(os.path.join(d, 'keep.txt'), 'w').close()
    names = ctx.rng.sample(['fig', 'a_b', 'x.y'], 2)
    plt.savefig = save
    try:
        for nm in names:
            fu.save_all_formats(output_directory=d, filename=nm)
    finally:
        plt.savefig = real
        plt.close(fig)
    want = {'{}.{}'.format(nm, f) for nm in names for f in ('png', 'pdf', 'pgf')}
    got = set(os.listdir(d))
    ctx.check(want <= got, 'files', 'written {} expected {}'.format(sorted(got), sorted(want)))
    ctx.check(got - want <= {'keep.txt'} and set(os.listdir(ctx.scratch)) == {'out'} and (not ctx.idx % 2 or 'keep.txt' in got), 'nothing_else', 'unexpected files {}'.format(sorted(got - want)))
    for nm in names:
        ctx.check(open(os.path.join(d, nm + '.png'), 'rb').read(8) == b'\x89PNG\r\n\x1a\n' and open(os.path.join(d, nm + '.pdf'), 'rb').read(4) == b'%PDF', 'files', 'files are not of their type')
    ctx.key(str(names), ctx.idx % 2)
