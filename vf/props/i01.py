import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, sym, warm as _warm
from vf.core import facet, Violation, R

ID = 'I01'
TITLE = 'Hooks for material parameters and band-pass filters are applied'
RULE = ('Random layered models whose parameters are provided through '
        'func_eta and func_zeta with additional parameters, over random '
        'numbers for the ordinary parameters; any order and notation of the '
        'layers; frequency, Laplace and time domain; dipole, bipole and '
        'analytical. Oracle: the call with the parameters given directly; '
        'dispersive (Cole-Cole) parameters frequency by frequency. Band-pass '
        'filters: frequency responses times the filter, and their transform. '
        'Non-trivial: a response which differs from the one without hook.')
ASSUMPTIONS = ['Relative difference 1e-6 of the field.']


def warm():
    _warm.kernel(rev=True)


def sval(p):
    """Laplace parameter from what the hook gets."""
    from empymod import utils
    f = np.asarray(p['freq'], float)
    if np.iscomplexobj(p['etaH']):
        return 2j*np.pi*f
    return f


def f_eta(inp, p):
    s = sval(p)
    return (1/inp['rho'] + np.outer(s, ref.EPS0*inp['eh']),
            1/(inp['rho']*inp['lam']**2) + np.outer(s, ref.EPS0*inp['ev']))


def f_zeta(inp, p):
    s = sval(p)
    return np.outer(s, ref.MU0*inp['muh']), np.outer(s, ref.MU0*inp['muv'])


def f_rel(inp, p):
    """Relative to what is given."""
    return p['etaH']*inp['fh'], p['etaV']*inp['fv']


@st.composite
def case(draw):
    b = draw(sym.base(nmax=4, off=(20., 2000.), p=(1e-2, 3.)))
    n = len(b['m']['res'])
    return {**b, 'eta': draw(st.sampled_from([0, 1, 1, 2])),
            'zeta': draw(st.booleans()),
            'what': draw(st.sampled_from(['dipole', 'dipole', 'bipole',
                                          'time', 'analytical'])),
            'base': [draw(gen.lg(.1, 100.)) for _ in range(n)],
            'fv': [draw(gen.lg(.3, 3.)) for _ in range(n)],
            'order': draw(st.sampled_from(['', 'inc', 'dec', 'dec'])),
            'ab': draw(st.sampled_from(gen.ABS34)),
            'signal': draw(st.sampled_from([0, 1, -1])),
            'const': draw(st.booleans()),
            'lst': draw(st.booleans())}


@facet('material', case(), quick=700, shards=3)
def material(c):
    import empymod
    m = {k: list(v) for k, v in c['m'].items()}
    what, n = c['what'], len(m['res'])
    if not c['eta'] and not c['zeta']:
        return None
    base, fv = list(c['base']), list(c['fv'])
    if c['const']:   # Ordinary parameters of a full-space
        base = [base[0]]*n
        if c['eta'] == 1:
            fv = [fv[0]]*n
        if not c['zeta']:
            m['mh'] = m['mv'] = [m['mh'][0]]*n
    if what == 'analytical':
        m = {k: v[-1:] if k != 'depth' else [] for k, v in m.items()}
        base, fv = base[-1:], fv[-1:]
    o = c['order']
    if o == 'dec' and len(m['depth']) < 2:
        o = 'inc'
    if o == 'dec':
        m['depth'] = (m['depth'] + [np.inf])[::-1] if c['lst'] else (
                m['depth'][::-1])
        base, fv = base[::-1], fv[::-1]
        m.update({k: v[::-1] for k, v in m.items() if k != 'depth'})
        if len(m['depth']) == 1:
            return None
    elif o == 'inc':
        m['depth'] = [-np.inf] + m['depth']
    ab = c['ab']
    # Plain parameters, given directly
    plain = gen.mkw(m)
    # The same through hooks, over other numbers
    kw = dict(plain)
    ar = (lambda x: list(x)) if c['lst'] else np.array
    inp = {'res': ar(m['res'])}
    if c['eta'] == 1:
        inp.update(res=ar(base), rho=ar(m['res']), lam=ar(m['aniso']),
                   eh=ar(m['eh']), ev=ar(m['ev']), func_eta=f_eta)
        kw.update(aniso=None, epermH=np.array(fv), epermV=None)
    elif c['eta'] == 2:
        # etaV *= fv, etaH *= fv: the same as res/fv, eperm*fv
        inp.update(fh=ar(fv), fv=ar(fv), func_eta=f_rel)
        g = np.array(fv)
        plain.update(res=np.array(m['res'])/g,
                     epermH=np.array(m['eh'])*g, epermV=np.array(m['ev'])*g)
    if c['zeta']:
        inp.update(muh=ar(m['mh']), muv=ar(m['mv']), func_zeta=f_zeta)
        kw.update(mpermH=np.array(fv), mpermV=None)
    kw['res'] = inp
    src, rec = [0, 0, c['zs']], [*c['xy'], c['zr']]
    f = list(c['f'])
    arg = {}
    if c['xd'] is None and n > 1 and what != 'analytical' and all(
            np.ptp(plain[k]) == 0 for k in plain if k != 'depth'):
        # What the direct field is in a full-space cut into layers depends on
        # whether it is recognized
        return None
    if what in ('dipole', 'time'):
        fn = empymod.dipole
        arg = dict(ab=ab, xdirect=c['xd'])
        if what == 'time':
            if c['zs'] == c['zr']:
                rec[2] += 1.
            if ab % 10 > 3 and ab//10 > 3:
                ab = arg['ab'] = ab-30
            f = [1/(6*abs(x)) for x in f]
            arg.update(signal=c['signal'],
                       ftarg={'dlf': 'key_81_2009'})
    elif what == 'bipole':
        fn = empymod.bipole
        src, rec = src + [10*c['fv'][0], 20.], rec + [-33., 12*c['fv'][0]]
        arg = dict(msrc=ab % 10 > 3, mrec=ab//10 > 3, xdirect=c['xd'])
    else:
        fn = empymod.analytical
        plain.pop('depth'), kw.pop('depth')
        arg = dict(ab=ab)
        if c['zr'] == c['zs']:
            rec[2] += 1.
    a = np.asarray(R(fn, src, rec, freqtime=f, verb=0, **plain, **arg))
    b = np.asarray(R(fn, src, rec, freqtime=f, verb=0, **kw, **arg))
    if not np.any(a):
        if np.any(b):
            raise Violation(f'{what}: hooks {b} instead of {a}')
        return None
    # The field of the other directions for the scale
    if what == 'bipole':
        s = np.abs(a)
    else:
        s = np.max([np.abs(R(fn, src, rec, freqtime=f, verb=0, **plain,
                             **{**arg, 'ab': x})) for x in sym.group(ab)],
                   axis=0)
    s = s.max() if what == 'time' else s
    tol = 1e-6
    if what == 'bipole':
        tol = 1e-4
        s = s.max() + 0*s
    full = n == 1 or what == 'analytical' or c['xd'] is not False
    if n == 1 and c['xd']:   # Full-space in closed form versus layers
        tol = 1e-5
    sym.same(f'{what} hooks {list(inp)}', ab, b, a, s + 1e-30, tol)
    return [what, f"eta={c['eta']}", f"zeta={c['zeta']}", f'order={o}',
            'laplace' if c['f'][0] < 0 else 'freq'] + ['full']*bool(full)


def f_cole(inp, p):
    s = sval(p)[:, None]
    sig = 1/inp['res']*(1 + inp['m']/(1-inp['m'])*(
            1 - 1/(1+(s*inp['tau'])**inp['c'])))
    return sig + 0*p['etaH'], sig/inp['lam']**2 + 0*p['etaV']


@st.composite
def case_cole(draw):
    b = draw(sym.base(nmin=1, nmax=4, off=(20., 2000.), p=(1e-2, 3.), nf=3,
                      eps=0, perm=False))
    n = len(b['m']['res'])
    return {**b, 'mm': [draw(gen.un(0., .8)) for _ in range(n)],
            'tau': draw(gen.lg(.01, 100.)), 'c': draw(gen.un(.2, 1.)),
            'ab': draw(st.sampled_from(gen.ABS34)),
            'dec': draw(st.booleans())}


@facet('dispersive', case_cole(), quick=300, shards=2)
def dispersive(c):
    """Cole-Cole: several frequencies at once against the wavenumber solution
    for complex conductivities via permittivities."""
    import empymod
    m, n, ab = c['m'], len(c['m']['res']), c['ab']
    if c['f'][0] < 0:
        return None
    tau = c['tau']/(2*np.pi*np.mean(c['f']))
    p = {'m': np.array(c['mm']), 'tau': np.full(n, tau),
         'c': np.full(n, c['c']), 'lam': np.array(m['aniso'])}
    kw = gen.mkw(m)
    kw['aniso'] = kw['epermH'] = kw['epermV'] = None
    inp = {'res': np.array(m['res']), 'func_eta': f_cole, **p}
    if c['dec'] and len(m['depth']) > 1:
        kw['depth'] = m['depth'][::-1]
        inp = {k: v if callable(v) else v[::-1] for k, v in inp.items()}
    src, rec = [0, 0, c['zs']], [*c['xy'], c['zr']]
    arg = dict(verb=0, xdirect=c['xd'], ab=ab)
    out = np.asarray(R(empymod.dipole, src, rec, res=inp, freqtime=c['f'],
                       **{k: v for k, v in kw.items() if k != 'res'}, **arg))
    lab = []
    for i, f in enumerate(c['f']):
        s = 2j*np.pi*f
        sig = 1/np.array(m['res'])*(1 + p['m']/(1-p['m'])*(
                1 - 1/(1+(s*tau)**c['c'])))
        # sigma = 1/res' + s eps0 eps'
        eh = sig.imag/(2*np.pi*f*ref.EPS0)
        lam = p['lam']
        args = dict(depth=m['depth'], res=1/sig.real, aniso=lam, epermH=eh,
                    epermV=eh/lam**2, mpermH=m['mh'], mpermV=m['mv'])
        T = {a: np.asarray(R(empymod.dipole, src, rec, freqtime=f,
                             **{**arg, 'ab': a}, **args))
             for a in sym.group(ab)}
        sc = max(np.abs(v) for v in T.values())
        sym.same(f'Cole-Cole f={f}', ab, out[i], T[ab], sc, 1e-5)
        if abs(T[ab]) > 1e-9*sc and np.any(p['m'] > .01):
            lab = ['cole', f'layers={n}']
    return lab


@st.composite
def case_bp(draw):
    b = draw(sym.base(nmax=3, off=(20., 2000.), p=(.1, 2.), eps=0,
                      airvac=True, perm=False, nf=3))
    return {**b, 'cut': draw(gen.lg(.3, 3.)), 'order': draw(st.integers(1, 3)),
            'what': draw(st.sampled_from(['dipole', 'bipole'])),
            'dom': draw(st.sampled_from(['f', 'f', 't'])),
            'signal': draw(st.sampled_from([0, 1, -1])),
            'nr': draw(st.integers(1, 3)), 'ns': draw(st.integers(1, 2)),
            'squeeze': draw(st.booleans()),
            'loop': draw(st.sampled_from([None, 'freq', 'off'])),
            'ab': draw(st.sampled_from(gen.ABS34))}


def filt(f, c):
    f0 = abs(c['f'][0])*c['cut']
    return 1/(1+1j*f/f0)**c['order']


@facet('bandpass', case_bp(), quick=240, shards=2)
def bandpass(c):
    import empymod
    seen = []

    def func(inp, p):
        seen.append((np.array(p['freq']), p['EM'].shape, inp['x']))
        p['EM'] *= filt(p['freq'], c)[:, None]
    dom = c['dom'] if c['f'][0] > 0 else 'f'
    if c['f'][0] < 0:
        return None
    f = np.array([abs(x) for x in c['f']])
    z1 = c['zr'] if c['zr'] != c['zs'] else c['zr'] + 1.
    nr, ns, ab = c['nr'], c['ns'], c['ab']
    src = [[0.+7*i for i in range(ns)], [0.]*ns, c['zs']]
    rec = [[c['xy'][0]*(1+.2*i) for i in range(nr)],
           [c['xy'][1]+3.*i for i in range(nr)], z1]
    kw = dict(verb=0, xdirect=c['xd'], loop=c['loop'], **gen.mkw(c['m']))
    if c['what'] == 'dipole':
        fn, arg = empymod.dipole, dict(ab=ab)
    else:
        fn, arg = empymod.bipole, dict(msrc=ab % 10 > 3, mrec=ab//10 > 3)
        src, rec = src + [20., 10.], rec + [-30., 60.]
    bp = {'func': func, 'x': 3}
    if dom == 'f':
        raw = np.asarray(R(fn, src, rec, freqtime=f, squeeze=False, **arg,
                           **kw))
        ex = raw*filt(f, c)[:, None, None]
        out = np.asarray(R(fn, src, rec, freqtime=f, bandpass=bp, squeeze=c[
            'squeeze'], **arg, **kw))
        need = f
    else:
        t = np.array([.2, .6])/f[0]
        ft = {'dlf': 'key_81_2009', 'pts_per_dec': 0}
        tm, need, fft, targ, _ = empymod.utils.check_time(
            t, c['signal'], 'dlf', ft, 0, True)
        raw = np.asarray(R(fn, src, rec, freqtime=need.ravel(), squeeze=False,
                           **arg, **kw))
        w = filt(need.ravel(), c)[:, None, None]
        tE, _ = empymod.model.tem(
            (raw*w).reshape((-1, nr*ns), order='F'), np.zeros(nr*ns),
            need.ravel(), tm, c['signal'], fft, targ)
        ex = tE.reshape((-1, nr, ns), order='F')
        out = np.asarray(R(fn, src, rec, freqtime=t, bandpass=bp, squeeze=c[
            'squeeze'], signal=c['signal'], ftarg=ft, **arg, **kw))
    if len(seen) != 1:
        raise Violation(f'the filter was called {len(seen)} times')
    if (seen[0][1] != (need.size, nr*ns) or seen[0][2] != 3
            or not np.allclose(seen[0][0], need.ravel(), rtol=1e-12)):
        raise Violation(f'the filter was called with {seen}')
    if c['squeeze']:
        ex = np.squeeze(ex)
    if out.shape != ex.shape:
        raise Violation(f'shape {out.shape} instead of {ex.shape}')
    # Per frequency or time
    s = np.abs(ex).max() if dom == 't' else np.abs(ex)
    sym.same(f'{c["what"]} {dom} bandpass', ab, out, ex, s + 1e-30, 1e-8)
    return [c['what'], dom, f'nr={nr}', f'ns={ns}'] if np.any(ex) else None
