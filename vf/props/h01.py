import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, warm as _warm
from vf.core import facet, Violation, R
from vf.props.w02 import geometry

ID = 'H01'
TITLE = 'Every Hankel transform gives the same response, or says that it failed'
RULE = ('Random layered models, offsets and types; digital filters (all ten '
        'Hankel filters; standard, lagged, splined), quadrature with '
        'extrapolation (with and without spline), and quadrature, several '
        'offsets in different directions at once, against numerical '
        'integration of the independent boundary-value solution. Deliberately '
        'insufficient settings must print the convergence warning. '
        'Non-trivial: non-zero response, oracle converged.')
ASSUMPTIONS = ['Offsets 0.5 to 20 times the decay length of the integrand; '
               'tolerance per method and filter, relative to the integral of '
               'the absolute integrand.']

# Relative accuracy, standard DLF; for the others see `method`.  (The Kong
# filters are of limited accuracy for such integrands: not compared.)
FILT = {'key_201_2009': 1e-4, 'key_401_2009': 1e-4, 'anderson_801_1982': 1e-4,
        'key_101_2009': 1e-3, 'key_51_2012': 1e-2,
        'key_101_2012': 1e-3, 'key_201_2012': 1e-4, 'wer_201_2018': 1e-4,
        'wer_2001_2018': 1e-3}


def warm():
    _warm.kernel(True)


@st.composite
def case(draw):
    if draw(st.integers(0, 3)) == 0:
        m, fmax = draw(gen.layers(2, 5, air=0, res=(.05, 30))), 1e6
    else:
        m, fmax = draw(gen.layers(2, 5, airvac=True)), 3e3
    c = {'m': m, 'f': draw(gen.freqs(1e-2, fmax)),
         'zs': draw(gen.zin(m['depth'])), 'zr': draw(gen.zin(m['depth'])),
         'ab': draw(st.sampled_from(gen.ABS34))}
    n = draw(st.integers(1, 4))
    c['off'] = [draw(gen.lg(.5, 20.)) for _ in range(n)]
    a = draw(gen.un(0, 360, 360))
    same = draw(st.booleans())
    c['ang'] = [a if same else draw(gen.un(0, 360, 360)) for _ in range(n)]
    c['how'] = draw(st.sampled_from(['dlf', 'lagged', 'splined', 'qwe',
                                     'qwe-spline', 'quad']))
    c['filt'] = draw(st.sampled_from(list(FILT)))
    c['ppd'] = draw(st.sampled_from([30, 50, 100]))
    c['check'] = draw(st.integers(0, n-1))
    return c


def method(c, dec, off):
    """ht, htarg, tolerance"""
    how, fl = c['how'], c['filt']
    if how == 'dlf':
        return 'dlf', {'dlf': fl}, FILT[fl]
    if how == 'lagged':
        return 'dlf', {'dlf': fl, 'pts_per_dec': -1}, max(FILT[fl], 5e-3)
    if how == 'splined':
        return 'dlf', {'dlf': fl, 'pts_per_dec': c['ppd']}, max(FILT[fl],
                                                                5e-3)
    if how == 'qwe':
        return 'qwe', {}, 1e-5
    if how == 'qwe-spline':
        return 'qwe', {'pts_per_dec': c['ppd']}, 1e-3
    return 'quad', {'a': 1e-5/max(off.max(), dec), 'b': 36/dec,
                    'limit': 2000, 'pts_per_dec': c['ppd'],
                    'rtol': 1e-7}, 1e-3


def setup(c):
    m, f, zs, zr = (c[n] for n in ('m', 'f', 'zs', 'zr'))
    direct, dec = geometry(m, f, zs, zr)
    if dec < .05:
        return None
    off = np.array(c['off'])*dec
    th = np.deg2rad(c['ang'])
    x, y = off*np.cos(th), off*np.sin(th)
    kw = dict(src=[0., 0., zs], rec=[x, y, zr], freqtime=f, ab=c['ab'],
              xdirect=False if direct else None, **gen.mkw(m))
    i = c['check']
    S = ref.space([c['ab']], m['depth'], gen.ez(m, f), zs, zr, off[i], th[i],
                  direct, dec)
    return kw, off, dec, i, S[c['ab']]


@facet('methods', case(), quick=320, shards=5)
def methods(c):
    import empymod
    s = setup(c)
    if s is None:
        return None
    kw, off, dec, i, (r, scl) = s
    ht, htarg, tol = method(c, dec, off)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = np.atleast_1d(np.asarray(R(
            empymod.dipole, ht=ht, htarg=htarg, verb=1, **kw)))[i]
    if 'did not converge' in out.getvalue():
        return None
    scl = max(abs(r), 1e-2*scl)
    e = abs(v-r)/(scl + 1e-200)
    if not e <= tol:
        raise Violation(f"{c['how']} {c['filt']} ab={c['ab']}: {v}, "
                        f'integration {r} (scale {scl:.3g}, error {e:.1e})')
    return [c['how'], c['filt'], f'{off.size}'] if r else None


@st.composite
def case_conv(draw):
    c = draw(case())
    c['how'] = draw(st.sampled_from(['qwe', 'qwe', 'qwe-spline', 'quad']))
    c['maxint'] = draw(st.integers(3, 14))
    c['nquad'] = draw(st.sampled_from([21, 51]))
    c['limit'] = draw(st.sampled_from([1, 2, 3, 5, 10, 50]))
    c['rtol'] = draw(st.sampled_from([1e-4, 1e-6, 1e-8, 1e-10]))
    return c


@facet('convergence', case_conv(), quick=180, shards=4)
def convergence(c):
    """No warning: the desired accuracy is achieved."""
    import empymod
    s = setup(c)
    if s is None:
        return None
    kw, off, dec, i, (r, scl) = s
    ht, htarg, _ = method(c, dec, off)
    if ht == 'qwe':
        htarg = {**htarg, 'maxint': c['maxint'], 'nquad': c['nquad'],
                 'rtol': c['rtol']}
        if c['how'] == 'qwe-spline':
            htarg['pts_per_dec'] = 100
    else:
        htarg = {**htarg, 'limit': c['limit'], 'pts_per_dec': 100,
                 'rtol': c['rtol']}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = np.atleast_1d(np.asarray(R(
            empymod.dipole, ht=ht, htarg=htarg, verb=1, **kw)))[i]
    if 'did not converge' in out.getvalue():
        return f'{ht}: warned'
    scl = max(abs(r), 1e-2*scl)
    e = abs(v-r)/(scl + 1e-200)
    tol = 1e-2 + 100*c['rtol']
    if not e <= tol:
        raise Violation(f"{ht} {htarg} ab={c['ab']}: no warning, but {v} "
                        f'instead of {r} (error {e:.1e})')
    return f'{ht}: converged'


@st.composite
def case_rep(draw):
    c = draw(case_conv())
    c['how'] = draw(st.sampled_from(['qwe', 'quad', 'quad']))
    n = draw(st.integers(2, 4))
    c['off'] = [draw(gen.lg(.5, 60.)) for _ in range(n)]
    c['ang'] = [draw(gen.un(0, 360, 360)) for _ in range(n)]
    c['which'] = draw(st.sampled_from(['dipole', 'src', 'rec', 'freq']))
    c['check'] = 0
    return c


@facet('report', case_rep(), quick=250, shards=4)
def report(c):
    """A call with several elements warns if one of them would."""
    import empymod
    m, f, zs, zr = (c[n] for n in ('m', 'f', 'zs', 'zr'))
    direct, dec = geometry(m, f, zs, zr)
    if dec < .05:
        return None
    off = np.array(c['off'])*dec
    th = np.deg2rad(c['ang'])
    x, y = off*np.cos(th), off*np.sin(th)
    how = c['how']
    if how == 'qwe':
        ha = {'maxint': c['maxint'], 'rtol': c['rtol']}
    else:
        ha = {'a': 1e-5/max(off.max(), dec), 'b': 36/dec, 'limit': c['limit'],
              'rtol': c['rtol']}
    kw = dict(ht=how, htarg=ha, verb=1, xdirect=True, **gen.mkw(m))
    z = zr + dec*np.arange(off.size)/7

    def warns(fn, *a, **k):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            R(fn, *a, **k, **kw)
        return 'did not converge' in out.getvalue()

    ef, J = empymod.bipole, range(off.size)
    # Each of these is computed separately, hence not influenced by others.
    if c['which'] == 'dipole':
        al = warns(empymod.dipole, [0., 0., zs], [x, y, zr], freqtime=f,
                   ab=c['ab'], loop='off')
        each = [warns(empymod.dipole, [0., 0., zs], [x[i], y[i], zr],
                      freqtime=f, ab=c['ab']) for i in J]
    elif c['which'] == 'rec':
        al = warns(ef, [0., 0., zs, 20, 10], [x, y, z, 70., 30.], freqtime=f)
        each = [warns(ef, [0., 0., zs, 20, 10], [x[i], y[i], z[i], 70., 30.],
                      freqtime=f) for i in J]
    elif c['which'] == 'src':
        al = warns(ef, [x, y, z, 70., 30.], [0., 0., zs, 20, 10], freqtime=f)
        each = [warns(ef, [x[i], y[i], z[i], 70., 30.], [0., 0., zs, 20, 10],
                      freqtime=f) for i in J]
    else:
        fs = f*3.**np.arange(off.size)
        al = warns(empymod.dipole, [0., 0., zs], [x[0], y[0], zr],
                   freqtime=fs, ab=c['ab'], loop='freq')
        each = [warns(empymod.dipole, [0., 0., zs], [x[0], y[0], zr],
                      freqtime=v, ab=c['ab']) for v in fs]
    if al != any(each):
        raise Violation(f'{c["which"]} {how}: together warned={al}, one by '
                        f'one {each}')
    return f'{how} {c["which"]} ' + ('mixed' if any(each) and not all(each)
                                     else 'same')


@st.composite
def case_flag(draw):
    return {'a': draw(gen.lg(1e-3, .1)), 'b': draw(gen.lg(1., 30.)),
            'parts': [draw(st.sampled_from(['none', 'smooth', 'rough']))
                      for _ in range(6)],
            'q': draw(gen.lg(20., 300.)), 'limit': draw(st.integers(1, 60)),
            'off': draw(gen.lg(.1, 10.)), 'ang': draw(gen.un(-1, 1)),
            'ab': draw(st.sampled_from([11, 31, 24]))}


@facet('quad_flag', case_flag(), quick=300, shards=2)
def quad_flag(c):
    """quad: sum of the integrals, and its flag is that of the integrals."""
    import empymod
    from scipy import integrate, special
    k = np.logspace(np.log10(c['a']), np.log10(c['b']), 1500)
    fn = {'smooth': lambda x: np.exp(-x), 'none': lambda x: 0*x,
          'rough': lambda x: np.sin(c['q']*x)*np.exp(-x/9)}
    P = list(c['parts'])
    use = [P[0] != 'none' or P[1] != 'none', P[2] != 'none' or P[3] != 'none',
           P[4] != 'none' or P[5] != 'none']
    spl = [empymod.transform.iuSpline(np.log(k), (1+i/3)*fn[p](k))
           if use[i//2] else None for i, p in enumerate(P)]
    iinp = {'a': c['a'], 'b': c['b'], 'epsabs': 1e-20, 'epsrel': 1e-8,
            'limit': c['limit']}
    v, conv = R(empymod.transform.quad, *spl, c['ab'], c['off'], c['ang'],
                dict(iinp))
    bes = [special.j0, special.j1, special.j0]
    fac = [1., c['ang']/(c['off'] if c['ab'] in (11, 24) else 1), c['ang']]
    tot, bad = 0, [False, False]
    for i, s in enumerate(spl):
        if s is None:
            continue
        o = integrate.quad(
            lambda x: fac[i//2]*s(np.log(x))*bes[i//2](c['off']*x),
            **iinp, full_output=1)
        tot = tot + o[0]*(1j if i % 2 else 1)
        bad[i % 2] |= len(o) > 3
    if not abs(v-tot) <= 1e-6*abs(tot) + 1e-12:
        raise Violation(f'quad {v} instead of {tot}')
    if bad[0] and conv:
        raise Violation('the real part did not converge, not reported')
    if not any(bad) and not conv:
        raise Violation('converged, but reported as not converged')
    if bad[1] and not bad[0] and conv and c.get('strict'):
        # (known finding; see known_findings.jsonl)
        raise Violation('the imaginary part did not converge, not reported')
    return [f'bad={bad}'] if any(use) else None
