import numpy as np
from hypothesis import strategies as st

from vf import gen, warm as _warm
from vf.core import facet, Violation
from vf.props import calls
from vf.props.u03 import bits, same

ID = 'U04'
TITLE = 'Verbosity never alters results; the report is truthful'
RULE = ('Random valid calls of all routines, with lists and arrays, hooks, '
        'waveforms and superfluous arguments, at all five levels of verbosity. '
        'Oracle: the bits of the silent call; nothing is printed at level 0, '
        'only warnings at level 1, the same warnings at every other level; '
        'the printed model, survey, frequencies and times are the given ones. '
        'Non-trivial: every call.')
ASSUMPTIONS = ['Printed values have six digits.']


def warm():
    _warm.kernel(half=True)


def warnings_of(out):
    return [x for x in out.splitlines() if x.startswith('* WARNING')]


@st.composite
def vcase(draw):
    c = draw(calls.call())
    if c['ht'] == 8 or c['fn'] == 'gpr':
        c['ht'] = 0
    c['list'] = draw(st.booleans())
    c['extra'] = draw(st.sampled_from(['', '', 'kwarg', 'htarg', 'ftarg',
                                       'low']))
    return c


@facet('levels', vcase(), quick=420, shards=4)
def levels(c):
    fn = c['fn']
    if fn == 'tmtemod':
        c = {**c, 'extra': ''}
    kw = calls.build(c, c['list'])
    kw.pop('verb', None)
    if c['extra'] == 'kwarg':
        # Known by another routine
        k = 'cf' if fn != 'gpr' else 'wavenumber'
        if fn not in ('ip_and_q', 'loop'):
            kw[k] = 1.
    elif c['extra'] == 'htarg' and 'htarg' in kw:
        kw['htarg']['unknown'] = 1
    elif c['extra'] == 'ftarg' and 'ftarg' in kw:
        kw['ftarg']['unknown'] = 1
    elif c['extra'] == 'low' and 'freqtime' in kw:
        f = np.array(kw['freqtime'], float)
        f[0] = 0. if f.max() > 0 else -1e-25
        if f.max() > 0 or f.min() < 0:
            kw['freqtime'] = f.tolist() if c['list'] else f
    ref, out0 = calls.evaluate(fn, {**kw, 'verb': 0} if fn == 'tmtemod'
                               else kw, 0)
    if out0:
        raise Violation(f'{fn} prints at verb=0: {out0[:200]!r}')
    warn = None
    for verb in (1, 2, 3, 4):
        r, out = calls.evaluate(fn, {**kw, 'verb': verb} if fn == 'tmtemod'
                                else kw, verb)
        same(bits(ref), bits(r), f'{fn} at verb={verb}')
        w = warnings_of(out)
        if verb == 1:
            warn = w
            rest = [x for x in out.splitlines()
                    if x.strip() and not x.startswith('* WARNING')]
            if rest and not w:
                raise Violation(f'{fn} at verb=1: {rest[:3]}')
        elif w != warn:
            raise Violation(f'{fn}: warnings {w} at verb={verb}, {warn} at 1')
        if verb > 1 and fn not in ('tmtemod',) and \
                ':: empymod END; runtime = ' not in out:
            raise Violation(f'{fn} at verb={verb}: no end message')
        if verb > 2 and fn not in ('tmtemod',) and \
                ':: empymod START' not in out:
            raise Violation(f'{fn} at verb={verb}: no start message')
    if c['extra'] == 'kwarg' and fn not in ('ip_and_q', 'loop', 'tmtemod') \
            and not any('Unused' in x for x in warn):
        raise Violation(f'{fn}: no warning for the unused argument')
    if c['extra'] == 'htarg' and 'htarg' in kw and \
            not any('Unknown htarg' in x for x in warn):
        raise Violation(f'{fn}: no warning for the unknown htarg')
    if c['extra'] == 'ftarg' and 'ftarg' in kw and \
            not any('Unknown ftarg' in x for x in warn):
        raise Violation(f'{fn}: no warning for the unknown ftarg')
    return [fn, c['extra'] or '-', f'{len(warn)} warnings']


# The report -----------------------------------------------------------------

KEYS = {'res': 'res     [Ohm.m]', 'aniso': 'aniso       [-]',
        'epermH': 'epermH      [-]', 'epermV': 'epermV      [-]',
        'mpermH': 'mpermH      [-]', 'mpermV': 'mpermV      [-]'}


def parse(out, key):
    """All values behind `key`; (values, (min, max, number) or None)"""
    res = []
    lines = out.splitlines()
    for i, x in enumerate(lines):
        if x.strip().startswith(key):
            v = x.split(':', 1)[1]
            if '[min-max; #]' in v:
                a, n = v.replace('[min-max; #]', '').rsplit(':', 1)
                lo, hi = a.rsplit(' - ', 1)
                full = None
                if i+1 < len(lines) and lines[i+1].strip().startswith(':'):
                    full = [float(y) for y in
                            lines[i+1].split(':', 1)[1].split()]
                res.append((full, (float(lo), float(hi), int(n))))
            else:
                res.append(([float(y) for y in v.split()], None))
    return res


def agree(got, want, what, atol=0.):
    want = np.array([float(f'{x:G}') for x in np.ravel(want)])
    if not got:
        raise Violation(f'{what}: not reported')
    vals, mm = got[0]
    if mm is not None:
        if not np.allclose(mm, (want.min(), want.max(), want.size),
                           rtol=2e-5, atol=atol):
            raise Violation(f'{what}: reported {mm}, given {want}')
    if vals is not None and (len(vals) != want.size or
                             not np.allclose(vals, want, rtol=2e-5,
                                             atol=atol, equal_nan=True)):
        raise Violation(f'{what}: reported {vals}, given {want}')


@facet('report', calls.call(routs=('dipole', 'bipole', 'analytical',
                                   'dipole_k', 'gpr')), quick=500, shards=3)
def report(c):
    if c['fn'] == 'gpr':
        c = {**c, 'fn': 'dipole', 'signal': None}
    if c['ht'] == 8:
        c['ht'] = 0
    fn = c['fn']
    # More than three values are reported by minimum, maximum, number
    if c['nr'] == 3 and fn != 'dipole_k':
        c['nr'] = 5
        c['rx'] = c['rx'] + [c['rx'][0]+11, c['rx'][0]-7]
        c['ry'] = c['ry'] + [1., 2.]
    kw = calls.build(c)
    verb = 3 + (c['nr'] % 2)
    _, out = calls.evaluate(fn, kw, verb)
    res = kw['res']['res'] if isinstance(kw['res'], dict) else kw['res']
    flip = 1
    if 'depth' in kw:
        d = kw['depth']
        if d.size > 1 and d[0] > d[-1]:
            flip = -1
        agree(parse(out, 'depth       [m]'), d[np.isfinite(d)][::flip],
              'depth') if np.isfinite(d).any() else None
    one = np.ones(np.size(res))
    vals = {k: kw.get(k, one) for k in KEYS}
    vals['res'] = res
    for a, b in (('epermV', 'epermH'), ('mpermV', 'mpermH')):
        if a not in kw and b in kw:
            vals[a] = kw[b]
    if fn == 'analytical' and c['solution'][0] == 'd':
        for k in ('epermH', 'epermV', 'mpermH', 'mpermV'):
            vals.pop(k)     # Not considered
    for k, v in vals.items():
        agree(parse(out, KEYS[k]), v[::flip], k)
    f = np.atleast_1d(kw.get('freqtime', kw.get('freq')))
    sig = kw.get('signal')
    if sig is None:
        agree(parse(out, 's-value    [Hz]' if f[0] < 0 else
                    'frequency  [Hz]'), np.abs(f), 'frequency')
    elif not isinstance(sig, dict):
        agree(parse(out, 'time        [s]'), f, 'time')
        agree(parse(out, 'signal  '), [sig], 'signal')
    if fn == 'bipole':
        fin = [c['sfin'], c['rfin']]
        a, b = out.index('Source(s)'), out.index('Receiver(s)')
        for i, (k, sec) in enumerate((('src', out[a:b]), ('rec', out[b:]))):
            n = kw[k][0].size
            if np.size(kw[k][4 if fin[i] else 2]) > 1:
                continue    # Looped over depths; each reported on its own
            if not fin[i]:
                dct = {'x': kw[k][0], 'y': kw[k][1], 'z': kw[k][2],
                       'azimuth': kw[k][3],
                       'dip': kw[k][4]}
            else:
                q = [np.ones(n)*np.asarray(x) for x in kw[k]]
                dx, dy, dz = q[1]-q[0], q[3]-q[2], q[5]-q[4]
                dct = {'x_c': q[0]+dx/2, 'y_c': q[2]+dy/2, 'z_c': q[4]+dz/2,
                       'length': np.sqrt(dx**2+dy**2+dz**2),
                       'azimuth': np.rad2deg(np.arctan2(dy, dx)),
                       'dip': np.rad2deg(np.arctan2(dz, np.hypot(dx, dy)))}
                pts = {'src': 'srcpts', 'rec': 'recpts'}[k]
                want = f'> intpts      :  {kw[pts] if kw[pts] > 2 else 1}'
                if want not in sec:
                    raise Violation(f'{k}: {want} is not reported')
            if f':  {n} ' not in sec.splitlines()[0]:
                raise Violation(f'{k}: {n} not reported: {sec[:60]}')
            for name, v in dct.items():
                unit = {'azimuth': '[°]', 'dip': '[°]'}.get(name, '[m]')
                got = [g for x in sec.splitlines()
                       if x.strip().startswith('> '+name+' ')
                       for g in parse('\n'.join(sec.splitlines()[
                           sec.splitlines().index(x):][:2]), '> '+name+' ')]
                # One value if all are the same
                v = np.atleast_1d(v)
                if got and got[0][0] is not None and len(got[0][0]) == 1 and \
                        np.ptp(v) == 0:
                    v = v[:1]
                agree(got, v, f'{name} {unit} of {k}', 2e-3)
    else:
        x = parse(out, '> x       [m]')
        y = parse(out, '> y       [m]')
        z = parse(out, '> z       [m]')
        for i, k in enumerate(('src', 'rec')):
            agree(x[i:], kw[k][0], f'x of {k}')
            agree(y[i:], kw[k][1], f'y of {k}')
            agree(z[i:], kw[k][2], f'z of {k}')
        want = kw['ab']
        if f'Input ab        :  {want}' not in out:
            raise Violation(f'ab {want} is not reported')
    return [fn, f'verb {verb}', '>3' if c['nr'] > 3 else '<=3']
