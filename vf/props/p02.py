import contextlib
import io
import os
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import warm as _warm
from vf.core import facet, Violation, R
from vf.main import REPO
from vf.props import calls
from vf.props.p01 import fbits

ID = 'P02'
TITLE = 'The command line computes what the routines compute'
RULE = ('Random inputs of the four routines, files in both formats or the '
        'screen, through the entry point and as a program; random invalid '
        'commands. Oracle: the same call in Python, saved and loaded data; '
        'errors are reported through the exit status and leave no output. '
        'Non-trivial: every executed command.')
ASSUMPTIONS = []


def warm():
    _warm.kernel(half=True, rev=True)


@st.composite
def case(draw):
    c = draw(calls.call(routs=('dipole', 'bipole', 'loop', 'analytical')))
    c['hook'] = False
    if c['solution'] in ('dsplit', 'dtetm'):
        c['solution'] = 'dhs'       # Several fields: not three-dimensional
    c['ht'] = min(c['ht'], 4)
    if c['signal'] is not None:
        c['ht'] = 0
    if c['ft'] == 3:
        c['ft'] = 0
    c['out'] = draw(st.sampled_from(['json', 'txt', 'none']))
    c['sq'] = draw(st.sampled_from([None, True, False]))
    c['verb'] = draw(st.sampled_from([0, 1, 3]))
    return c


def prepare(c, d):
    import empymod
    kw = calls.build(c, True)
    kw.pop('squeeze')
    if c['sq'] is not None:
        kw['squeeze'] = c['sq']     # Not considered
    kw['verb'] = c['verb']
    inp = os.path.join(d, 'in.json')
    empymod.io.save_input(inp, kw)
    with contextlib.redirect_stdout(io.StringIO()):
        ref = getattr(empymod, c['fn'])(**{**kw, 'squeeze': False})
    args = [c['fn'], inp]
    out = None
    if c['out'] != 'none':
        out = os.path.join(d, 'out.'+c['out'])
        args.append(out)
    return args, np.array(ref), out, inp


def compare(c, ref, out, inp, printed):
    import empymod
    if out is None:
        if str(ref) not in printed.replace('\r', ''):
            raise Violation(f'printed {printed[-300:]!r}, not {str(ref)!r}')
        return
    got = R(empymod.io.load_data, out)
    if got.shape != ref.shape or fbits(got.real) != fbits(ref.real) or \
            fbits(np.imag(got)) != fbits(np.imag(ref)):
        raise Violation(f'{c["fn"]} {c["out"]}: {got.ravel()[:3]} instead of '
                        f'{ref.ravel()[:3]}')
    info = f'Generated with <empymod.{c["fn"]}()> from input <{inp}>.'
    if info not in open(out).read():
        raise Violation('no origin in the meta data')
    if c['verb'] == 0 and printed.strip():
        raise Violation(f'printed: {printed[:200]!r}')


@facet('entry', case(), quick=400, shards=3)
def entry(c):
    from empymod.__main__ import main
    with tempfile.TemporaryDirectory() as d:
        args, ref, out, inp = prepare(c, d)
        f = io.StringIO()
        old = sys.argv
        sys.argv = ['x', '--version']       # Not considered
        try:
            with contextlib.redirect_stdout(f):
                r = main(args)
        except SystemExit as e:
            raise Violation(f'main({args}) exits: {e}')
        finally:
            sys.argv = old
        if r is not None:
            raise Violation(f'main({args}) returns {r!r}')
        compare(c, ref, out, inp, f.getvalue())
        left = sorted(os.listdir(d))
        if left != sorted(['in.json'] + ([os.path.basename(out)] if out
                                         else [])):
            raise Violation(f'files {left}')
    return [c['fn'], c['out']]


def prog(args, d, **kw):
    env = {**os.environ, 'PYTHONPATH': os.path.realpath(REPO)}
    return subprocess.run([sys.executable, '-m', 'empymod'] + args, cwd=d,
                          env=env, capture_output=True, text=True,
                          timeout=300, **kw)


@facet('program', case().map(lambda c: {**c, 'fn': 'analytical'}), quick=10,
       shards=2, thorough=100)
def program(c):
    """As a program: same bytes, status zero."""
    with tempfile.TemporaryDirectory() as d:
        args, ref, out, inp = prepare(c, d)
        r = prog(args, d)
        if r.returncode:
            raise Violation(f'status {r.returncode}: {r.stderr[-300:]}')
        compare(c, ref, out, inp, r.stdout)
    return [c['fn'], c['out']]


BADC = ['nofile', 'routine', 'kwarg', 'ab', 'missing', 'ext', 'flag', 'depth',
        'four']


@facet('errors', st.tuples(st.sampled_from(BADC), case(), st.booleans()),
       quick=120, thorough=1000)
def errors(x):
    import empymod
    from empymod.__main__ import main
    bad, c, asprog = x
    with tempfile.TemporaryDirectory() as d:
        kw = calls.build(c, True)
        kw['verb'] = 0
        inp, out = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        args = [c['fn'], inp, out]
        if bad == 'kwarg':
            kw['unknown'] = 3
        elif bad == 'ab':
            if 'ab' not in kw:
                return None
            kw['ab'] = 77
        elif bad == 'missing':
            kw.pop('res')
        elif bad == 'depth':
            if c['fn'] == 'analytical':   # Unused, with a warning
                return None
            kw['depth'] = [0, 3, 1, 5]
        empymod.io.save_input(inp, kw)
        if bad == 'nofile':
            os.remove(inp)
        elif bad == 'routine':
            args[0] = 'gpr'
        elif bad == 'ext':
            args[2] = out = os.path.join(d, 'out.npz')
        elif bad == 'flag':
            args.insert(1, '--unknown')
        elif bad == 'four':
            args.append('more')
        f, e = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(f), contextlib.redirect_stderr(e):
                r = main(args)
            # sys.exit(main()) of the entry point: non-zero for anything
            # but None and zero.
            bad_status = r is not None and r != 0
        except SystemExit as ex:
            bad_status = bool(ex.code)
        except Exception as ex:
            raise Violation(f'{bad}: {type(ex).__name__} is not handled: {ex}')
        if not bad_status:
            raise Violation(f'{bad}: no error')
        if os.path.exists(out):
            raise Violation(f'{bad}: there is an output file')
    return [bad, c['fn']]


@facet('info', st.tuples(
    st.sampled_from([['--version'], ['--report'], [], ['dipole'],
                     ['--version', '--report'], ['dipole', 'x', '--version'],
                     ['--report', 'dipole', 'x.json']]),
    st.booleans()), quick=30, thorough=60)
def info(x):
    """Version, report, hint: nothing is computed."""
    import empymod
    from empymod.__main__ import main
    args, glob = x
    f = io.StringIO()
    old = sys.argv
    try:
        if glob:
            sys.argv = ['empymod'] + args
        with contextlib.redirect_stdout(f), tempfile.TemporaryDirectory() as d:
            r = main() if glob else main(args)
            left = os.listdir(d)
    finally:
        sys.argv = old
    t = f.getvalue()
    if r is not None or left:
        raise Violation(f'{args}: returns {r}, files {left}')
    v = empymod.__version__
    if '--version' in args:
        ok = t.strip() == f'empymod v{v}'
    elif '--report' in args:
        ok = 'numba' in t and 'numpy' in t and v in t
    else:
        ok = '3D electromagnetic modeller for 1D VTI media' in t and v in t
    if not ok:
        raise Violation(f'{args}: {t[:200]!r}')
    return ' '.join(args) or '-'
