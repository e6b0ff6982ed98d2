import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import facet, Violation, R

ID = 'H02'
TITLE = 'Digital linear filters transform known functions'
RULE = ('Random superpositions of functions with known Hankel (J0, J1), '
        'sine and cosine transforms; every filter of the library; standard, '
        'lagged and splined; any combination of the three kernels, angle '
        'factors, J2 terms, number and order of output points. Oracle: the '
        'closed-form transforms. Non-trivial: a non-zero transform.')
ASSUMPTIONS = ['Output points within 0.3 to 10 times the scale of the '
               'functions; accuracy per filter.']

# Accuracy per filter: standard, splined, lagged.
H = {'anderson_801_1982': (3e-5, 1e-4, 1e-3), 'gupt_61_1997': (3e-3, 4e-3, .2),
     'gupt_120_1997': (3e-4, 3e-4, .08), 'gupt_47_1997': (.015, .015, .04),
     'gupt_140_1997': (1e-3, 1e-3, .1), 'kong_61_2007b': (.4, .4, .4),
     'kong_241_2007': (.3, .3, .3), 'key_101_2009': (.02, .02, .02),
     'key_201_2009': (5e-3, 5e-3, 5e-3), 'key_401_2009': (1e-6, 2e-4, 3e-3),
     'key_51_2012': (.02, .04, .05), 'key_101_2012': (5e-3, 5e-3, 5e-3),
     'key_201_2012': (2e-5, 1e-4, .02), 'wer_201_2018': (8e-3, 8e-3, 8e-3),
     'wer_2001_2018': (.03, .03, .03)}
F = {'key_81_2009': (2e-3, 2e-3, .04), 'key_241_2009': (2e-4, 2e-4, 4e-3),
     'key_601_2009': (4e-4, 4e-4, 1e-3), 'key_101_2012': (2e-3, 2e-3, .09),
     'key_201_2012': (6e-4, 6e-4, .01), 'grayver_50_2021': (.016, .016, .1),
     'wer_201_2018': (4e-4, 4e-4, 4e-3), 'wer_101_2020a': (4e-4, 4e-4, .013),
     'wer_101_2020b': (.03, .03, .1)}
COS_ONLY = ['wer_201_2018']    # its sine coefficients are of little use

# (kernel, transform) of k, r, a
J0 = [(lambda k, a: k*np.exp(-k**2*a**2),
       lambda r, a: np.exp(-r**2/4/a**2)/2/a**2),
      (lambda k, a: np.exp(-a*k), lambda r, a: 1/np.hypot(a, r)),
      (lambda k, a: k*np.exp(-a*k), lambda r, a: a/np.hypot(a, r)**3)]
J1 = [(lambda k, a: k**2*np.exp(-k**2*a**2),
       lambda r, a: r*np.exp(-r**2/4/a**2)/4/a**4),
      (lambda k, a: k*np.exp(-a*k), lambda r, a: r/np.hypot(a, r)**3),
      (lambda k, a: np.exp(-a*k),
       lambda r, a: r/np.hypot(a, r)/(np.hypot(a, r)+a))]
SIN = [(lambda k, a: k*np.exp(-a**2*k**2),
        lambda t, a: np.sqrt(np.pi)*t*np.exp(-t**2/4/a**2)/4/a**3),
       (lambda k, a: np.exp(-a*k), lambda t, a: t/(a*a+t*t))]
COS = [(lambda k, a: np.exp(-a**2*k**2),
        lambda t, a: np.sqrt(np.pi)/2/a*np.exp(-t**2/4/a**2)),
       (lambda k, a: np.exp(-a*k), lambda t, a: a/(a*a+t*t))]


@st.composite
def mix(draw, pairs):
    """A complex-weighted sum of known pairs: [[i, re, im, a], ...]"""
    return [[draw(st.integers(0, len(pairs)-1)), draw(gen.un(-2, 2)),
             draw(gen.un(-2, 2)), draw(gen.lg(.7, 1.5))]
            for _ in range(draw(st.integers(1, 2)))]


def ev(m, pairs, which, x, r0):
    """Function (0) or transform (1), length scale r0."""
    out, mag = 0, 0
    for i, re, im, a in m:
        v = pairs[i][which](x*r0 if which == 0 else x/r0, a)
        if which == 1:
            v = v/r0
        out = out + (re+1j*im)*v
        mag = mag + abs(re+1j*im)*np.abs(v)
    return out, mag


@st.composite
def case(draw):
    c = {'filt': draw(st.sampled_from(list(H))),
         'ppd': draw(st.sampled_from([0, 0, -1, 40., 101.])),
         'r0': draw(gen.lg(1e-2, 1e4)),
         'r': [draw(gen.lg(.3, 10.)) for _ in range(draw(st.integers(1, 6)))],
         'use': draw(st.integers(1, 7)), 'real': draw(st.booleans()),
         'J0': draw(mix(J0)), 'J1': draw(mix(J1)), 'J0b': draw(mix(J0)),
         'ab': draw(st.sampled_from([11, 12, 24, 31, 33, 15, 44, 62])),
         'ang': draw(st.sampled_from(['none', 'one', 'const', 'vary'])),
         'a0': draw(gen.un(-1, 1)), 'int_pts': draw(st.booleans())}
    return c


ALL3 = [11, 12, 21, 22, 14, 24, 15, 25]


@facet('hankel', case(), quick=6000, shards=4)
def hankel(c):
    import empymod
    filt = getattr(empymod.filters.Hankel(), c['filt'])
    r0 = c['r0']
    r = np.array(c['r'])*r0
    lam, ipts = R(empymod.transform.get_dlf_points, filt, r, c['ppd'])
    use = [bool(c['use'] & i) for i in (1, 2, 4)]
    if not hasattr(filt, 'j0'):
        use = [False, True, False]
    if not hasattr(filt, 'j1'):
        use[1] = False
    if not any(use):
        return None
    if c['ang'] == 'none':
        use[2] = False
        if not any(use):
            return None
    sig, exp, mag, pk = [], 0, 0, 0
    n = r.size
    ang = {'none': None, 'one': np.ones(n), 'const': c['a0']*np.ones(n),
           'vary': c['a0']*np.cos(np.arange(n)+1.)}[c['ang']]
    af = 1. if ang is None else ang
    for u, nm, prs in zip(use, ('J0', 'J1', 'J0b'), (J0, J1, J0)):
        if not u:
            sig.append(None)
            continue
        m = [[i, re, 0 if c['real'] else im, a] for i, re, im, a in c[nm]]
        v, _ = ev(m, prs, 0, lam, r0)
        sig.append(v.real if c['real'] else v)
        t, g = ev(m, prs, 1, r, r0)
        if nm == 'J1' and c['ab'] in ALL3:
            t, g = t/r, g/r
        p = ev(m, prs, 1, np.array([.3, 1.])*r0, r0)[1].max()
        fac = af if nm != 'J0' else 1.
        if nm == 'J1' and c['ab'] in ALL3:
            p = p/r0
        pk = pk + p*np.max(np.abs(fac))
        exp, mag = exp + fac*t, mag + np.abs(fac)*g
    # the two kernels of J2 are of similar size
    out = R(empymod.transform.dlf, tuple(sig), lam, r, filt, c['ppd'],
            ang_fact=ang, ab=c['ab'], **({'int_pts': ipts} if c['int_pts']
                                         else {}))
    out = np.asarray(out).reshape(n)
    tol = H[c['filt']][0 if c['ppd'] == 0 else 2 if c['ppd'] < 0 else 1]
    if not np.any(mag > 1e-30*np.max(mag)) or pk == 0:
        return None
    e = np.max(np.abs(out-exp)/(mag + 1e-2*pk))
    if not e <= tol:
        raise Violation(f"{c['filt']} pts_per_dec={c['ppd']}: {out} instead "
                        f'of {exp} (error {e:.1e})')
    if not np.any(mag):
        return None
    return [c['filt'], f"ppd={c['ppd']}", 'ang='+c['ang'], f'use={use}']


@st.composite
def case_f(draw):
    return {'filt': draw(st.sampled_from(list(F))),
            'ppd': draw(st.sampled_from([0, 0, -1, 40.])),
            'r0': draw(gen.lg(1e-6, 1e4)),
            'r': [draw(gen.lg(.3, 10.))
                  for _ in range(draw(st.integers(1, 6)))],
            'sin': draw(mix(SIN)), 'cos': draw(mix(COS)),
            'kind': draw(st.sampled_from(['sin', 'cos'])),
            'int_pts': draw(st.booleans())}


@facet('fourier', case_f(), quick=5000, shards=4)
def fourier(c):
    import empymod
    filt = getattr(empymod.filters.Fourier(), c['filt'])
    kind = c['kind']
    if c['filt'] in COS_ONLY:
        kind = 'cos'
    if not hasattr(filt, kind):
        kind = 'sin'
    r0 = c['r0']
    t = np.array(c['r'])*r0
    lam, ipts = R(empymod.transform.get_dlf_points, filt, t, c['ppd'])
    cm = [[i, re, 0, a] for i, re, _, a in c['cos']]
    sm = [[i, re, 0, a] for i, re, _, a in c['sin']]
    sig = ev(cm, COS, 0, lam, r0)[0].real - 1j*ev(sm, SIN, 0, lam, r0)[0].real
    exp, mag = (ev(sm, SIN, 1, t, r0) if kind == 'sin' else
                ev(cm, COS, 1, t, r0))
    out = R(empymod.transform.dlf, sig, lam, t, filt, c['ppd'], kind=kind,
            **({'int_pts': ipts} if c['int_pts'] else {}))
    out = np.asarray(out).reshape(t.size)
    tol = F[c['filt']][0 if c['ppd'] == 0 else 2 if c['ppd'] < 0 else 1]
    pk = ev(*((sm, SIN) if kind == 'sin' else (cm, COS)), 1,
            np.array([.3, 1.])*r0, r0)[1].max()
    if pk == 0:
        return None
    e = np.max(np.abs(out-exp.real)/(mag + 1e-2*pk))
    if not e <= tol:
        raise Violation(f"{c['filt']} {kind} pts_per_dec={c['ppd']}: {out} "
                        f'instead of {exp.real} (error {e:.1e})')
    return [c['filt'], f"ppd={c['ppd']}", kind] if np.any(mag) else None
