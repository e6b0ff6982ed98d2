import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet, Violation, R

ID = 'U02'
TITLE = 'Minimum values are stored, applied and reported'
RULE = ('Random sequences of set_minimum and random calls with values below '
        'and above each minimum. Oracle: a dictionary as model of the '
        'settings; the call with the values replaced by the minima; the '
        'superposition of dipoles with the small factors left out; a warning '
        'exactly if something was replaced. Non-trivial: at least one value '
        'below the minimum.')
ASSUMPTIONS = ['Relative difference 1e-9 of the field.']
NAMES = ['min_freq', 'min_time', 'min_off', 'min_res', 'min_angle']
DEF = dict(min_freq=1e-20, min_time=1e-20, min_off=1e-3, min_res=1e-20,
           min_angle=1e-10)


def warm():
    _warm.kernel()


ops = st.lists(st.dictionaries(
    st.sampled_from(NAMES), st.one_of(st.none(), gen.lg(1e-12, 10.),
                                      st.just(0.)), max_size=3), max_size=8)


@facet('store', ops, quick=1500)
def store(c):
    from empymod import utils
    R(utils.set_minimum, **DEF)
    model = dict(DEF)
    try:
        for op in c:
            R(utils.set_minimum, **op)
            model.update({k: v for k, v in op.items() if v is not None})
            got = R(utils.get_minimum)
            if got != model:
                raise Violation(f'after {op}: {got} instead of {model}')
            # A returned dictionary is not the setting
            got.update({k: -1 for k in got})
            if utils.get_minimum() != model:
                raise Violation('get_minimum returns the settings themselves')
    finally:
        utils.set_minimum(**DEF)
    return [f'{len(c)} calls'] if any(c) else None


@st.composite
def case(draw):
    b = draw(sym.base(nmax=3, off=(20., 1000.), p=(.05, 2.), nf=3,
                      airvac=True))
    return {**b, 'what': draw(st.sampled_from(
        ['freq', 'freq', 'off', 'off', 'res', 'res', 'time', 'none'])),
        'frac': [draw(gen.lg(.05, 20.)) for _ in range(4)],
        'zero': draw(st.integers(0, 3)) == 0,
        'ab': draw(st.sampled_from(gen.ABS34)),
        'fn': draw(st.sampled_from(['dipole', 'bipole', 'dipole_k',
                                    'analytical']))}


def call(fn, src, rec, f, m, ab, xd, verb=1, **kw):
    """Result, and what was printed."""
    import empymod
    out = io.StringIO()
    ang = {1: [0, 0], 2: [90, 0], 3: [0, 90]}
    with contextlib.redirect_stdout(out):
        if fn == 'dipole':
            r = R(empymod.dipole, src, rec, freqtime=f, ab=ab, verb=verb,
                  xdirect=xd, **gen.mkw(m), **kw)
        elif fn == 'dipole_k':
            r = R(empymod.dipole_k, src, rec, freq=f, ab=ab, verb=verb,
                  wavenumber=np.array([1e-3, 1e-2, .1]), **gen.mkw(m))
            r = np.array(r)
        elif fn == 'analytical':
            k = gen.mkw({k: v[:1] for k, v in m.items()})
            k.pop('depth')
            r = R(empymod.analytical, src, rec, freqtime=f, ab=ab, verb=verb,
                  **k, **kw)
        else:
            r = R(empymod.bipole, src+ang[(ab % 10-1) % 3+1],
                  rec+ang[(ab//10-1) % 3+1], freqtime=f, verb=verb,
                  msrc=ab % 10 > 3, mrec=ab//10 > 3, xdirect=xd, **gen.mkw(m),
                  **kw)
    return np.asarray(r), out.getvalue()


@facet('applied', case(), quick=1600, shards=2)
def applied(c):
    from empymod import utils
    m, ab, fn, what = c['m'], c['ab'], c['fn'], c['what']
    m2 = {k: list(v) for k, v in m.items()}
    f = list(c['f'])
    sgn = -1 if f[0] < 0 else 1
    zr = c['zr'] if c['zr'] != c['zs'] else c['zr'] + 1.
    src = [0., 0., c['zs']]
    xy = list(c['xy'])
    rec = [[xy[0], 2*xy[0]], [xy[1], 2*xy[1]], zr]
    xd = c['xd']
    kw, kw2, f2, rec2 = {}, {}, f, rec
    mins, below, name = {}, False, None
    if what == 'freq':
        f = [abs(f[0])*x for x in c['frac'][:3]]
        mn = abs(c['f'][0])
        if c['zero'] and sgn < 0:
            f[1] = 0.
        elif c['zero'] and max(f) > 0:
            f[1] = 0.
        if sgn > 0 and max(f) <= 0:
            return None
        f2 = [sgn*max(x, mn) for x in f]
        below = any(x < mn for x in f)
        f = [sgn*x for x in f]
        mins = {'min_freq': mn}
        name = 'Frequencies' if sgn > 0 else 'Laplace val'
    elif what == 'off':
        r = np.hypot(*xy)
        fr = [0. if c['zero'] else c['frac'][0], c['frac'][1]]
        u = np.array(xy)/r
        if c['zero']:
            u = np.array([1., 0.])   # Angle zero
        mn = r
        rec = [[gen.r6(u[0]*r*x) for x in fr], [gen.r6(u[1]*r*x) for x in fr],
               zr]
        o = np.hypot(rec[0], rec[1])
        if np.any(np.abs(o/mn-1) < 1e-4):
            return None
        rec2 = [[u[0]*max(x, mn) for x in o],
                [u[1]*max(x, mn) for x in o], zr]
        # Rounding of the angle in between
        a = np.arctan2(rec[1], rec[0])
        k = np.maximum(o, mn)
        rec2 = [list(k*np.cos(a)), list(k*np.sin(a)), zr]
        below = bool(np.any(o < mn))
        mins = {'min_off': mn}
        name = 'Offsets'
    elif what == 'res':
        mn = gen.r4(m['res'][0]*c['frac'][0])
        n = 1 if fn == 'analytical' else len(m['res'])
        for i in range(n):
            r, a = m['res'][i], m['aniso'][i]
            r2 = max(r, mn)
            v = max(a*a*r2, mn)
            if abs(r/mn-1) < 1e-9 or abs(a*a*r2/mn-1) < 1e-9:
                return None
            below = below or r < mn or a*a*r2 < mn
            m2['res'][i], m2['aniso'][i] = r2, np.sqrt(v/r2)
        mins = {'min_res': mn}
        name = ' < '
    elif what == 'time':
        if fn in ('dipole_k', 'analytical') or sgn < 0:
            return None
        t = [x/(6*abs(f[0])) for x in (.2, 1., 3.)]
        mn = t[1]*c['frac'][0]**.5
        f, f2 = t, [max(x, mn) for x in t]
        below = any(x < mn for x in t)
        mins = {'min_time': mn}
        name = 'Times'
        kw = dict(signal=[-1, 0, 1][len(m['res']) % 3],
                  ftarg={'dlf': 'key_81_2009', 'pts_per_dec': 0})
        if ab % 10 > 3 and ab//10 > 3:
            ab -= 30
        kw2 = kw
    else:   # Smaller minima change nothing
        mins = {'min_freq': 1e-30, 'min_res': 1e-30, 'min_off': 1e-9,
                'min_time': 1e-30}
    R(utils.set_minimum, **DEF)
    try:
        # As it would be without a minimum
        ex, p0 = call(fn, src, rec2, f2, m2, ab, xd, **kw2)
        utils.set_minimum(**mins)
        out, p1 = call(fn, src, rec, f, m, ab, xd, **kw)
        out0, p2 = call(fn, src, rec, f, m, ab, xd, verb=0, **kw)
    finally:
        utils.set_minimum(**DEF)
    if 'WARN' in p0:
        raise Violation(f'{fn}: warning without reason: {p0}')
    warn = 'WARNING' in p1 and 'are set to' in p1 and (name or '?') in p1
    if what != 'none' and warn != below or what == 'none' and 'WARN' in p1:
        raise Violation(f'{fn}: below {mins}: {below}, but printed {p1!r}')
    if p2:
        raise Violation(f'{fn}: verb=0 prints {p2!r}')
    if not np.array_equal(out, out0):
        raise Violation(f'{fn}: {out} {out0} for verb=1, 0')
    if out.shape != ex.shape:
        raise Violation(f'{fn}: shape {out.shape} {ex.shape}')
    s = np.abs(ex)
    # Nulls of the angle factors
    s = s + 1e-3*s.max() + 1e-30
    if c['what'] == 'time':
        s = s.max() + 0*s
    e = np.abs(out-ex) > 1e-6*s
    if np.any(e):
        raise Violation(f'{fn} {what} {mins}: {out.tolist()} instead of '
                        f'{ex.tolist()}')
    return [what, fn, 'warned' if below else 'fine',
            'laplace' if sgn < 0 else 'freq'] if below or what == 'none' \
        else None


@st.composite
def case_ang(draw):
    b = draw(sym.base(nmax=3, off=(20., 1000.), p=(.05, 2.), nf=1,
                      airvac=True))
    return {**b, 'min': draw(gen.lg(1e-3, .9)),
            'az': [draw(gen.un(0, 360, 720)), draw(gen.un(0, 360, 720))],
            'dip': [draw(gen.un(-90, 90, 360)), draw(gen.un(-90, 90, 360))],
            'msrc': draw(st.booleans()), 'mrec': draw(st.booleans())}


def uvec(az, dip):
    a, d = np.deg2rad(az), np.deg2rad(dip)
    return np.array([np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)])


@facet('angle', case_ang(), quick=700)
def angle(c):
    import empymod
    from empymod import utils
    f = c['f']
    z1 = c['zr'] if c['zr'] != c['zs'] else c['zr'] + 1.
    src, rec = [0., 0., c['zs']], [*c['xy'], z1]
    us, ur = [uvec(a, d) for a, d in zip(c['az'], c['dip'])]
    W = np.outer(ur, us)
    if np.any(np.abs(np.abs(W)/c['min']-1) < 1e-6):
        return None
    kw = dict(freqtime=f, xdirect=c['xd'], verb=0, **gen.mkw(c['m']))
    ex, mg, left = 0, 0, 0
    for i in range(3):
        for j in range(3):
            ab = 10*(i+1+3*c['mrec']) + j+1+3*c['msrc']
            g = W[i, j]*np.asarray(R(empymod.dipole, src, rec, ab=ab, **kw))
            mg += np.abs(g)
            if abs(W[i, j]) > c['min']:
                ex = ex + g
            else:
                left += np.abs(g)
    try:
        utils.set_minimum(min_angle=c['min'])
        out = np.asarray(R(empymod.bipole, src+[c['az'][0], c['dip'][0]],
                           rec+[c['az'][1], c['dip'][1]], msrc=c['msrc'],
                           mrec=c['mrec'], **kw))
    finally:
        utils.set_minimum(**DEF)
    if np.any(np.abs(out-ex) > 1e-6*mg):
        raise Violation(f'min_angle={c["min"]}: {out} instead of {ex}, '
                        f'factors {W.tolist()}')
    return np.any(left > 1e-5*mg) and 'left out'


@st.composite
def case_rnd(draw):
    return {'dec': draw(st.integers(-1, 3)),
            'p': [draw(gen.un(-50., 50., 100000)) for _ in range(4)],
            'z': draw(gen.un(10., 60., 100000)), 'f': draw(gen.lg(1., 100.)),
            'd': [draw(gen.pm(5., 50.)), draw(gen.pm(5., 50.))],
            'res': draw(gen.lg(1., 100.))}


@facet('rounding', case_rnd(), quick=500)
def rounding(c):
    """Coordinates of finite bipoles are rounded to the minimum offset."""
    import empymod
    from empymod import utils
    x, y = c['p'][:2]
    dx, dy = c['d']
    cx, cy, dec = x+dx/2, y+dy/2, c['dec']
    q = 10.**-dec
    for v in (cx, cy, c['z']):
        if abs((v/q) % 1 - .5) < 1e-3:
            return None
    rec = [300., 200., 70., 20., 10.]
    kw = dict(depth=[0.], res=[1e8, c['res']], freqtime=c['f'], verb=0)
    az = np.rad2deg(np.arctan2(dy, dx))
    try:
        R(utils.set_minimum, min_off=q)
        out = R(empymod.bipole, [x, x+dx, y, y+dy, c['z'], c['z']], rec, **kw)
    finally:
        utils.set_minimum(**DEF)
    ex = R(empymod.bipole, [np.round(cx, dec), np.round(cy, dec),
                            np.round(c['z'], dec), az, 0], rec, **kw)
    no = R(empymod.bipole, [cx, cy, c['z'], az, 0], rec, **kw)
    if abs(out-ex) > 1e-8*abs(ex):
        raise Violation(f'min_off={q}: {out} instead of {ex}')
    return f'dec={dec}' if abs(no-ex) > 1e-6*abs(ex) else None
