import warnings

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, sym, warm as _warm
from vf.core import facet, Violation, R

ID = 'G01'
TITLE = 'Wrappers: radar signal, in-phase and quadrature, deprecated names'
RULE = ('Random models for gpr, ip_and_q, loop and the deprecated '
        'signatures. Oracles: gpr in a full-space is the numerical inverse '
        'Fourier transform of the closed-form field times the wavelet, and in '
        'layers the composition of dipole, wavelet, transform, and gain; '
        'in-phase and quadrature is the secondary field over the closed-form '
        'primary field; deprecated names equal their replacements and warn. '
        'Non-trivial: non-zero response.')
ASSUMPTIONS = ['gpr against the closed form within 10 % of the maximum '
               '(discretisation and alignment of the FFT).']


def warm():
    _warm.kernel(laplace=False)


@st.composite
def case_gpr(draw):
    return {'loss': draw(gen.lg(.01, .3)), 'eps': draw(gen.un(1, 30)),
            'mu': draw(st.sampled_from([1., 1., 2.5])),
            'cf': draw(gen.lg(1e7, 3e9)), 'r': draw(gen.lg(2., 8.)),
            'dir': [draw(gen.un(0, 360)), draw(gen.un(-80, 80))],
            'ab': draw(st.sampled_from([a for a in gen.ABS34
                                        if a % 10 < 4 or a//10 < 4])),
            'gain': draw(st.sampled_from([None, None, 0., 1., 2.5])),
            'v': draw(st.booleans())}


@facet('pulse', case_gpr(), quick=500, shards=2)
def pulse(c):
    """Pulse in a full-space."""
    import empymod
    v = ref.C/np.sqrt(c['eps']*c['mu'])
    res = 1/(2*np.pi*c['cf']*ref.EPS0*c['eps']*c['loss'])
    r = c['r']*v/c['cf']   # distance in wavelengths
    a, d = np.deg2rad(c['dir'])
    p = r*np.array([np.cos(a)*np.cos(d), np.sin(a)*np.cos(d), np.sin(d)])
    p = np.array([gen.r6(x) for x in p])
    if np.hypot(p[0], p[1]) < .01*r:
        return None
    n, df = 4096, c['cf']/800
    t = r/v + np.linspace(-1.5, 2, 15)/c['cf']
    # Midpoint rule for the closed form
    d = c['cf']/100
    f = (np.arange(400)+.5)*d
    s = 2j*np.pi*f
    W = -(f/c['cf'])**2*np.exp(-(f/c['cf'])**2)

    def spectrum(ab, f=f, s=s):
        return np.array([ref.fullspace(
            ab, *p, *[1/res + x*ref.EPS0*c['eps']]*2,
            *[x*ref.MU0*c['mu']]*2) for x in s])
    F = spectrum(c['ab'])
    ex = 2*np.real(np.exp(2j*np.pi*t[:, None]*f) @ (F*W))*d
    # The strength of the pulse: all directions
    k = slice(50, 150, 20)
    mx = np.abs(F*W).sum()*d*2
    mx = max(mx, .1*c['cf']*max(np.abs(spectrum(a, f[k], s[k])*W[k]).max()
                                for a in sym.group(c['ab'])))
    g = 1 if c['gain'] is None else 1 + np.abs((t*1e9)**c['gain'])
    out = np.asarray(R(
        empymod.gpr, [0, 0, 0], list(p), [], res, t, c['cf'],
        gain=c['gain'], ab=c['ab'], epermH=c['eps'], mpermH=c['mu'],
        xdirect=True, ft='fft', ftarg={'dfreq': df, 'nfreq': n}, verb=0))
    if out.shape != t.shape or np.iscomplexobj(out):
        raise Violation(f'{out.shape} {out.dtype}')
    e = np.max(np.abs(out/g-ex))
    if not e <= .1*mx:
        raise Violation(f'gpr ab={c["ab"]}: {(out/g).tolist()} instead of '
                        f'{ex.tolist()} (strength {mx:.2e})')
    return ['gain' if c['gain'] is not None else 'no gain',
            'ab=%d' % c['ab']] if mx > 0 and np.max(
            np.abs(ex)) > .15*mx else None


@st.composite
def case_comp(draw):
    b = draw(sym.base(nmax=3, off=(20., 1000.), p=(.3, 2.), nf=1, eps=0,
                      airvac=True, perm=False))
    return {**b, 'ab': draw(st.sampled_from(gen.ABS34)),
            'nr': draw(st.integers(1, 3)), 'ns': draw(st.integers(1, 2)),
            'nt': draw(st.integers(1, 3)),
            'gain': draw(st.sampled_from([None, 0., 1.5])),
            'ft': draw(st.sampled_from(['fft', 'fft', 'dlf', 'dlf0',
                                        'fftlog'])),
            'loop': draw(st.sampled_from([None, 'freq', 'off']))}


@facet('layers', case_comp(), quick=150)
def layers(c):
    """gpr is built from dipole."""
    import empymod
    if c['f'][0] < 0:
        return None
    cf = c['f'][0]
    nr, ns, nt = c['nr'], c['ns'], c['nt']
    z1 = c['zr'] if c['zr'] != c['zs'] else c['zr'] + 1.
    src = [[0.+7*i for i in range(ns)], [0.]*ns, c['zs']]
    rec = [[c['xy'][0]*(1+.2*i) for i in range(nr)],
           [c['xy'][1]+3.*i for i in range(nr)], z1]
    t = np.array([.3, .7, 1.5])[:nt]/cf
    ft = {'fft': {'dfreq': cf/10, 'nfreq': 40}, 'dlf': {'dlf': 'key_81_2009'},
          'dlf0': {'dlf': 'key_81_2009', 'pts_per_dec': 0},
          'fftlog': {}}[c['ft']]
    kw = dict(verb=0, xdirect=c['xd'], loop=c['loop'], ht='dlf',
              ab=c['ab'], **gen.mkw(c['m']))
    name = c['ft'][:3] if c['ft'] == 'dlf0' else c['ft']
    out = np.asarray(R(empymod.gpr, src, rec, freqtime=t, cf=cf, ft=name,
                       ftarg=dict(ft), gain=c['gain'], **kw))
    tm, f, ftn, targ, _ = empymod.utils.check_time(t, 0, name, dict(ft), 0,
                                                   True)
    f = np.ravel(f)
    E = np.asarray(R(empymod.dipole, src, rec, freqtime=f, squeeze=False,
                     **kw)).reshape((f.size, -1), order='F')
    # The transform takes the first frequency as zero frequency.
    x = (np.r_[0, f[:-1]]/cf)**2
    E = E*(-x*np.exp(-x))[:, None]
    ex, _ = R(empymod.model.tem, E, E[0], f, tm, 0, ftn, targ)
    if c['gain'] is not None:
        ex = ex*(1+(t*1e9)**c['gain'])[:, None]
    ex = np.squeeze(ex.reshape((-1, nr, ns), order='F'))
    if out.shape != ex.shape:
        raise Violation(f'shape {out.shape} instead of {ex.shape}')
    sym.same('gpr '+c['ft'], c['ab'], out, ex, np.abs(ex).max() + 1e-200,
             1e-8)
    return [c['ft'], f'rec={nr}', f'src={ns}'] if np.any(ex) else None


MM = [44, 45, 46, 54, 55, 56, 64, 65, 66]


@st.composite
def case_iq(draw):
    b = draw(sym.base(nmin=2, nmax=5, off=(20., 1000.), p=(1e-2, 3.), nf=2,
                      on_if=False, vti=False, eps=0, airvac=True))
    return {**b, 'ab': draw(st.sampled_from(MM)),
            'scale': draw(st.sampled_from([None, 1e6, 1.])),
            'h': [draw(gen.lg(.5, 100)), draw(gen.lg(.5, 100))],
            'above': draw(st.booleans()), 'nr': draw(st.integers(1, 3)),
            'perm': draw(st.booleans())}


@facet('ipq', case_iq(), quick=400, shards=2)
def ipq(c):
    import empymod
    m = c['m']
    f = [abs(x) for x in c['f']]
    zs, zr = c['zs'], c['zr']
    if c['above']:
        zs, zr = [m['depth'][0]-h for h in c['h']]
    nr = c['nr']
    rec = [[c['xy'][0]*(1+.2*i) for i in range(nr)],
           [c['xy'][1]+3.*i for i in range(nr)], zr]
    kw = gen.mkw(m)
    if not c['perm']:
        if any(x != 1 for x in m['mh']):
            return None
        kw = {k: kw[k] for k in ('depth', 'res')}
    arg = dict(src=[0, 0, zs], rec=rec, freqtime=f, verb=0, **kw)
    keep = {k: repr(v) for k, v in arg.items()}
    sc = {} if c['scale'] is None else {'scale': c['scale']}
    ip, q = R(empymod.ip_and_q, ab=c['ab'], **arg, **sc)
    if {k: repr(v) for k, v in arg.items()} != keep:
        raise Violation(f'input changed: {arg}')
    ip, q = np.asarray(ip), np.asarray(q)
    if np.iscomplexobj(ip) or np.iscomplexobj(q):
        raise Violation('complex in-phase or quadrature')
    Hs = {ab: np.asarray(R(empymod.dipole, ab=ab, xdirect=None, **arg))
          for ab in MM}
    co = {4: 44, 5: 55, 6: 66}[c['ab'] % 10]
    Hp, mx = np.zeros((2, nr), complex), np.zeros((2, nr))
    for i in range(2):
        s = 2j*np.pi*f[i]
        for j in range(nr):
            a = [rec[0][j], rec[1][j], zr-zs,
                 *[1/m['res'][0] + s*ref.EPS0*m['eh'][0]]*2,
                 *[s*ref.MU0*m['mh'][0]]*2]
            Hp[i, j] = ref.fullspace(co, *a)
            mx[i, j] = max(abs(ref.fullspace(x, *a)) for x in (44, 55, 66))
    Hp = np.squeeze(Hp)
    ex = (c['scale'] or 1e3)*Hs[c['ab']]/Hp
    if ip.shape != ex.shape or q.shape != ex.shape:
        raise Violation(f'shapes {ip.shape}, {q.shape}, {ex.shape}')
    if np.any(np.abs(Hp) < 1e-6*np.squeeze(mx)):   # Null of the dipole
        return None
    s = (c['scale'] or 1e3)*np.max([np.abs(v) for v in Hs.values()],
                                   axis=0)/np.abs(Hp)
    # Cancellation in the primary field
    tol = 1e-6 + 1e-10*np.max(np.squeeze(mx)/np.abs(Hp))
    sym.same('in-phase', c['ab'], ip, ex.real, s, tol)
    sym.same('quadrature', c['ab'], q, ex.imag, s, tol)
    return ['ab=%d' % c['ab'], 'air' if c['above'] else 'anywhere',
            'perm' if any(x != 1 for x in m['mh']) else 'plain']


@st.composite
def case_old(draw):
    b = draw(sym.base(nmax=3, off=(20., 1000.), p=(.1, 2.), nf=2,
                      vti=False))
    return {**b, 'what': draw(st.sampled_from(
        ['loop', 'loop', 'loop', 'filter', 'time', 'bipole'])),
        'mrec': draw(st.sampled_from([None, True, False, 'b', 'j'])),
        'az': [draw(gen.un(0, 360)) for _ in range(4)],
        'recpts': draw(st.sampled_from([None, 1, 4])),
        'strength': draw(st.sampled_from([None, 0, 2.5, 10.])),
        'fin': draw(st.booleans()), 'k': draw(st.integers(0, 14)),
        'signal': draw(st.sampled_from([None, None, 0, 1, -1])),
        'ft': draw(st.sampled_from(['dlf', 'qwe', 'fftlog', 'fft']))}


def warns(fn, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = R(fn, *a, **k)
    if not any(issubclass(x.category, DeprecationWarning) for x in w):
        raise Violation(f'{getattr(fn, "__name__", fn)}: no '
                        'DeprecationWarning')
    return out


def same(name, a, b):
    if isinstance(a, dict):
        if list(a) != list(b):
            raise Violation(f'{name}: {list(a)} {list(b)}')
        for k in a:
            same(name, a[k], b[k])
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            raise Violation(f'{name}: {a} {b}')
        for x, y in zip(a, b):
            same(name, x, y)
    elif callable(a) or hasattr(a, 'base') and hasattr(a, 'factor'):
        if getattr(a, '__name__', None) != getattr(b, '__name__', None):
            raise Violation(f'{name}: {a} {b}')
    elif not np.array_equal(a, b):
        raise Violation(f'{name}: {a} {b}')


OLD = ['kong_61_2007', 'kong_241_2007', 'key_101_2009', 'key_201_2009',
       'key_401_2009', 'anderson_801_1982', 'key_51_2012', 'key_101_2012',
       'key_201_2012', 'wer_201_2018', 'key_81_CosSin_2009',
       'key_241_CosSin_2009', 'key_601_CosSin_2009', 'key_101_CosSin_2012',
       'key_201_CosSin_2012']


@facet('deprecated', case_old(), quick=120, shards=2)
def deprecated(c):
    import empymod
    from empymod import filters, utils
    w = c['what']
    if w == 'filter':
        o = OLD[c['k']]
        a = warns(getattr(filters, o))
        lib = filters.Fourier() if 'CosSin' in o else filters.Hankel()
        n = o.replace('_CosSin', '') + ('b' if 'kong_61' in o else '')
        b = getattr(lib, n)
        for k in ('base', 'factor', 'j0', 'j1', 'sin', 'cos'):
            if hasattr(a, k) != hasattr(b, k):
                raise Violation(f'{o}: {k}')
            if hasattr(a, k) and not np.array_equal(getattr(a, k),
                                                    getattr(b, k)):
                raise Violation(f'{o}: {k} differs')
        return 'filter'
    if w == 'time':
        t = np.array([.5, 1, 7.5])/abs(c['f'][0])
        s = c['signal'] or 0
        a = warns(utils.check_time, t, s, c['ft'], {}, 0)
        b = utils.check_time(t, s, c['ft'], {}, 0, True)
        same('check_time', a, b[:4])
        a = warns(utils.check_time_only, t, s, 0)
        same('check_time_only', a, utils.check_time_only(t, s, 0, True)[0])
        return 'time'
    if w == 'bipole':
        p = [0., 50., *c['xy'], c['zs'], c['zr']] if c['fin'] else [
            *c['xy'], c['zs'], *c['az'][:2]]
        a = warns(utils.check_bipole, p, 'src')
        same('check_bipole', a, utils.check_bipole(p, 'src', False, 0)[:4])
        return 'bipole'
    src = [0., 0, c['zs'], *c['az'][:2]]
    z1 = c['zr'] if c['zr'] != c['zs'] else c['zr'] + 1.
    if c['fin']:
        rec = [c['xy'][0], c['xy'][0]+20, c['xy'][1], c['xy'][1]+3, z1, z1]
    else:
        rec = [*c['xy'], z1, *c['az'][2:]]
    kw = {**gen.mkw(c['m']), 'verb': 0, 'freqtime': c['f'],
          'xdirect': c['xd']}
    if c['signal'] is not None and c['f'][0] > 0:
        kw.update(freqtime=1/(6*np.array(c['f'])), signal=c['signal'],
                  ftarg={'dlf': 'key_81_2009'})
    opt = {k: c[k] for k in ('mrec', 'recpts', 'strength')
           if c[k] is not None}
    a = np.asarray(warns(empymod.loop, src, rec, **kw, **opt))
    b = np.asarray(R(empymod.bipole, src, rec, **kw,
                     **{'mrec': True, **opt, 'msrc': 'b'}))
    same('loop', a, b)
    return ['loop', f"mrec={c['mrec']}"] if np.any(a) else None
