import numpy as np
import scipy as sp
from hypothesis import strategies as st

from vf import gen
from vf.core import facet, Violation, R

ID = 'T01'
TITLE = 'Fourier transforms return the time-domain signal of a spectrum'
RULE = ('Random sums of causal functions of time with closed-form spectra '
        '(exponentials, gamma functions, diffusion), several columns with '
        'different time scales; all four methods, all their settings and '
        'filters; impulse, switch-on and switch-off. Oracle: the closed-form '
        'functions of time and, for FFTLog and FFT, an independent '
        'evaluation of the discrete transform. Non-trivial: a non-zero '
        'signal.')
ASSUMPTIONS = ['Times within 0.3 to 5 times the scales of the functions; '
               'accuracy per method and filter.',
               'FFT: the alignment of the spectrum is a known finding; either '
               'alignment is accepted outside of the recorded case.']


def fun(k, tau, t):
    """Impulse, on, off response."""
    x = t/tau
    if k == 0:
        return np.exp(-x)/tau, 1-np.exp(-x), np.exp(-x)
    if k == 1:
        return x*np.exp(-x)/tau, 1-(1+x)*np.exp(-x), (1+x)*np.exp(-x)
    if k == 2:
        return (x**2/2*np.exp(-x)/tau, 1-(1+x+x**2/2)*np.exp(-x),
                (1+x+x**2/2)*np.exp(-x))
    e = sp.special.erfc(1/np.sqrt(2*x)/1.)
    # exp(-sqrt(2 i w tau))
    a2 = 2*tau
    imp = np.sqrt(a2)/(2*np.sqrt(np.pi)*t**1.5)*np.exp(-a2/4/t)
    e = sp.special.erfc(np.sqrt(a2)/(2*np.sqrt(t)))
    return imp, e, 1-e


def spec(k, tau, om):
    s = 1j*om*tau
    return np.exp(-np.sqrt(2*s)) if k == 3 else 1/(1+s)**(k+1)


@st.composite
def terms(draw, kinds):
    return [[draw(st.sampled_from(kinds)), draw(gen.pm(.1, 2)),
             draw(gen.lg(.4, 2.5))] for _ in range(draw(st.integers(1, 2)))]


@st.composite
def case(draw, kinds=(3, 2, 1), nt=6):
    return {'t0': draw(gen.lg(1e-6, 1e3)),
            't': [draw(gen.lg(.3, 5.)) for _ in range(
                draw(st.integers(1, nt)))],
            'cols': [draw(terms(kinds)) for _ in range(
                draw(st.integers(1, 3)))],
            'signal': draw(st.sampled_from([0, 1, -1]))}


def inp(c, ft, ftarg, mult=1., floor=1e-2):
    """Times, frequencies, spectrum, exact result, magnitude."""
    import empymod
    time = np.array(c['t'])*c['t0']
    tm, freq, ft, targ, _ = R(empymod.utils.check_time, time, c['signal'], ft,
                              ftarg, 0, True)
    f = np.asarray(freq)
    F = np.zeros((f.size, len(c['cols'])), complex)
    ex = np.zeros((time.size, len(c['cols'])))
    mg = np.zeros((time.size, len(c['cols'])))
    i = {0: 0, 1: 1, -1: 2}[c['signal']]
    # Responses are compared with the size of the impulse-response at the
    # scale, or one.
    for j, col in enumerate(c['cols']):
        for k, w, tau in col:
            tau = tau*c['t0']*mult
            F[:, j] += w*spec(k, tau, 2*np.pi*f.ravel())
            v = fun(k, tau, time)[i]
            ex[:, j] += w*v
            mg[:, j] += abs(w)*(np.abs(v) + floor*(1/tau if i == 0 else 1))
    return tm, f, F, targ, ex, mg


def run(c, tm, f, F, targ, ft):
    import empymod
    out, conv = R(empymod.model.tem, F.copy(), F[0], f.ravel(), tm,
                  c['signal'], ft, targ)
    if out.shape != (tm.size, F.shape[1]):
        raise Violation(f'shape {out.shape}')
    return out, conv


def cmp(name, out, ex, mg, tol):
    e = np.max(np.abs(out-ex)/mg)
    if not e <= tol:
        raise Violation(f'{name}: {out.tolist()} instead of {ex.tolist()} '
                        f'(error {e:.1e}, tolerance {tol:.0e})')


# Accuracy for impulse, switch-on, switch-off; None: not suited.
FILT = {'key_81_2009': (.04, .05, .1), 'key_241_2009': (2e-3, 4e-3, 8e-3),
        'key_601_2009': (2e-3, None, 5e-4), 'key_101_2012': (.01, .04, .1),
        'key_201_2012': (4e-3, 8e-3, 8e-3), 'grayver_50_2021': (.1, None, 1),
        'wer_201_2018': (.06, None, None), 'wer_101_2020a': (2e-3, .3, .3),
        'wer_101_2020b': (2e-3, None, .2)}


@st.composite
def case_dlf(draw):
    return {**draw(case()), 'filt': draw(st.sampled_from(list(FILT))),
            'ppd': draw(st.sampled_from([-1., -1., 0., 20., 40.])),
            'kind': draw(st.sampled_from([None, 'sin', 'cos'])),
            'obj': draw(st.booleans())}


@facet('dlf', case_dlf(), quick=3000, shards=2)
def dlf(c):
    import empymod
    ft = {'dlf': c['filt'], 'pts_per_dec': c['ppd']}
    if c['kind'] is not None:
        ft['kind'] = c['kind']
    kind = {1: 'sin', -1: 'cos', 0: c['kind'] or 'sin'}[c['signal']]
    tol = FILT[c['filt']][c['signal']]
    filt = getattr(empymod.filters.Fourier(), c['filt'])
    if tol is None or not hasattr(filt, kind):
        return None
    if c['obj']:
        ft['dlf'] = filt
    tm, f, F, targ, ex, mg = inp(c, 'dlf', ft)
    out, _ = run(c, tm, f, F, targ, 'dlf')
    cmp(f'dlf {ft} signal={c["signal"]}', out, ex, mg, tol)
    return [c['filt']+' '+kind, f'signal={c["signal"]}', f'ppd={c["ppd"]}']


@st.composite
def case_qwe(draw):
    c = {**draw(case(nt=4)), 'set': {}}
    c['t'] = c['t'] + [5.]   # A late time, for a sufficient frequency range
    for k, v in (('rtol', [1e-8, 1e-6]), ('nquad', [21, 15, 31]),
                 ('maxint', [200, 100, 300]), ('pts_per_dec', [20, 40]),
                 ('diff_quad', [100, 1, 1]), ('limit', [None, 500])):
        if draw(st.booleans()):
            c['set'][k] = draw(st.sampled_from(v))
    return c


@facet('qwe', case_qwe(), quick=150, shards=1)
def qwe(c):
    ft = {**c['set'], 'atol': 1e-12/(c['t0'] if c['signal'] == 0 else 1)}
    tm, f, F, targ, ex, mg = inp(c, 'qwe', ft, floor=1.)
    out, conv = run(c, tm, f, F, targ, 'qwe')
    if c['signal'] == 1 or not conv:   # Not suited for the 1/f spectrum
        if not np.all(np.isfinite(out)):
            raise Violation(f'qwe {ft}: {out}')
        return None
    cmp(f'qwe {ft} signal={c["signal"]}', out, ex, mg, .3)
    return ['quad' if ft.get('diff_quad') == 1 else 'qwe']


@st.composite
def case_log(draw):
    return {**draw(case()), 'ppd': draw(st.integers(3, 30)),
            'q': draw(st.sampled_from([0., 0., .3, -.2, .7, -.6, 1., -1.])),
            'add': [draw(st.sampled_from([-2, -2.5, -3, -1])),
                    draw(st.sampled_from([1, 2, 1.5, 3]))]}


def log_ref(a, f, q, sine, t):
    """The sum of powers of w through the values (periodic in log w),
    transformed term by term: int w^(s-1) sin(wt) dw = Gamma(s) sin(pi s/2)
    t^-s; and interpolated."""
    n = f.size
    w = 2*np.pi*f
    lw = np.log(w)
    wc = np.exp(lw.mean())
    c = np.fft.fft(a*np.exp(-(q-.5)*(lw-np.log(wc))))/n
    m = np.fft.fftfreq(n, 1/n)
    L = (lw[-1]-lw[0])/(n-1)
    # First value is at lw[0], not at log(wc).
    c = c*np.exp(-2j*np.pi*m/(n*L)*(lw[0]-np.log(wc)))
    s = q + .5 + 2j*np.pi*m/(n*L)
    tri = np.sin if sine else np.cos
    with np.errstate(all='ignore'):
        M = np.exp(sp.special.loggamma(s))*tri(np.pi*s/2)
    out = []
    for x in t:
        out.append(np.sum(c*M*wc**(1-s)*x**(-s)).real)
    return np.array(out)*2/np.pi


@facet('fftlog', case_log(), quick=1500)
def fftlog(c):
    ft = {'pts_per_dec': c['ppd'], 'q': c['q'], 'add_dec': c['add']}
    tm, f, F, targ, ex, mg = inp(c, 'fftlog', ft)
    if not 4 <= f.size <= 600:
        return None
    s = c['signal']
    if s == -1 and c['q'] <= -.5:   # Pole of the transform (q = -0.5)
        return None
    out, _ = run(c, tm, f, F, targ, 'fftlog')
    fac = 1 if s == 0 else s/(2j*np.pi*f)
    span = np.max(f)/np.min(f)
    need = np.max(tm)/np.min(tm)*10**(c['add'][1]-c['add'][0])
    if not span > .5*need/10**(1/c['ppd'])/10:
        raise Violation(f'fftlog: frequencies from {f.min()} to {f.max()} for '
                        f'times {tm}, {ft}')
    for j in range(F.shape[1]):
        sp_ = F[:, j]*fac
        a = -sp_.imag if s >= 0 else sp_.real
        g = log_ref(a, f, c['q'], s >= 0, targ['tcalc'])
        r = sp.interpolate.CubicSpline(np.log(targ['tcalc']), g)(np.log(tm))
        if not np.max(np.abs(out[:, j]-r)) <= 1e-6*np.max(np.abs(g)):
            raise Violation(f'fftlog {ft} signal={s}: {out[:, j]} instead of '
                            f'{r}')
    if s == 0 and c['q'] == 0 and c['add'] == [-3, 3] and c['ppd'] > 7:
        cmp(f'fftlog {ft}', out, ex, mg, .2)
    return [f'n={"odd" if f.size % 2 else "even"}', f'q={c["q"]}',
            f'signal={s}']


@st.composite
def case_fft(draw):
    n = draw(st.sampled_from([64, 100, 500, 1000, 2048]))
    return {**draw(case(kinds=(3, 2, 1))), 'nfreq': n,
            'df': draw(gen.lg(2e-3, 3e-2)),
            'ntot': draw(st.sampled_from([None, None, 0, n, 2*n, 1500])),
            'ppd': draw(st.sampled_from([None, None, 5, 20, 40]))}


@facet('fft', case_fft(), quick=800)
def fft(c):
    s = c['signal']
    df = c['df']/c['t0']
    ft = {'dfreq': df, 'nfreq': c['nfreq'], 'pts_per_dec': c['ppd']}
    if c['ntot'] is not None:
        ft['ntot'] = c['ntot']
    tm, f, F, targ, ex, mg = inp(c, 'fft', ft)
    nf = c['nfreq']
    nt = c['ntot'] or 0
    if nt < nf:
        nt = 2**int(np.ceil(np.log2(nf)))
    if f.size < 4 or tm.max() > .4/df:
        return None
    out, _ = run(c, tm, f, F, targ, 'fft')
    fk = np.arange(1, nf+1)*df
    tg = np.arange(nt)/(2*nt*df)
    for j in range(F.shape[1]):
        y = F[:, j] if s == 0 else F[:, j]*s/(2j*np.pi*f)
        if c['ppd']:
            y = sp.interpolate.CubicSpline(np.log(f), y)(np.log(fk))
        elif not np.allclose(f, fk, rtol=1e-12):
            raise Violation(f'fft {ft}: frequencies {f}')
        y = np.r_[y, y[-1]*(1-np.arange(1, nt-nf+1)/max(nt-nf, 1))]
        # Sums at the discrete times, with the DC term left out.
        z = np.zeros(2*nt, complex)
        z[1:nt] = y[:-1]
        half = np.fft.ifft(z).real*2*nt*df
        z = np.zeros(2*nt, complex)
        z[:nt-1] = y[1:]
        shift = np.fft.ifft(z).real*2*nt*df
        nyq = np.zeros(2*nt, complex)
        nyq[nt] = y[-1]
        ny = np.fft.ifft(nyq).real*2*nt*df
        ok = []
        for g in ([2*half + ny] + ([] if c.get('strict') else
                                   [half + shift + ny])):
            r = sp.interpolate.CubicSpline(
                np.arange(-nt, nt)/(2*nt*df), np.fft.fftshift(g))(tm)
            ok.append(np.max(np.abs(out[:, j]-r)) <=
                      1e-7*np.max(np.abs(g)))
        if not any(ok):
            raise Violation(f'fft {ft} signal={s}: {out[:, j]} instead of '
                            f'{r}; exact {ex[:, j]}')
    return [f'signal={s}', f'ntot={c["ntot"] and c["ntot"]/nf}',
            f'ppd={c["ppd"]}']
