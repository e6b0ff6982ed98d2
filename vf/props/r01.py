import warnings

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import facet, Violation, R
from vf.props import calls

ID = 'R01'
TITLE = 'Results are finite and have the documented shape and type'
RULE = ('Random valid calls of every routine (all options), and calls with '
        'extreme but valid models, surveys, frequencies and times. Oracle: '
        'number of frequencies or times, receivers and sources; real for '
        'Laplace and time, complex for frequency; finite. Non-trivial: '
        'non-zero result.')
ASSUMPTIONS = ['Extremes: resistivities 1e-3 to 1e12 Ohm.m, thicknesses 1 mm '
               'to 100 km, offsets 0 to 1000 km, frequencies 1e-8 to 1e9 Hz, '
               'times within 6 decades of the diffusion time.  (Layers of zero '
               'thickness with extreme contrasts are 0/0 in floats; W01 and '
               'S03 have them with moderate contrasts.)']


def warm():
    calls.warm()


ROUT = tuple(r for r in calls.ROUT if r != 'tmtemod')


@facet('documented', calls.call(routs=ROUT), quick=700, shards=4)
def documented(c):
    import empymod
    fn = c['fn']
    kw = calls.build(c)
    kw['verb'] = 0
    f = getattr(empymod, fn, None) or getattr(empymod.model, fn)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = R(f, **kw)
    nr, ns = c['nr'], c['ns']
    fr = kw['freq'] if fn == 'dipole_k' else kw['freqtime']
    nf = np.size(fr)
    shp = [nf, nr, ns]
    lap = np.all(np.asarray(fr) < 0)
    real = lap or kw.get('signal') is not None
    squeeze = kw.get('squeeze', True)
    multi = 1
    if fn == 'gpr':
        real, cls = True, np.ndarray
    elif fn == 'ip_and_q':
        real, multi, cls = True, 2, np.ndarray
    elif fn == 'dipole_k':
        shp, multi, cls = [nf, nr*ns, 3], 2, np.ndarray
    else:
        cls = empymod.utils.EMArray
        if fn == 'analytical' and kw['solution'] in ('dsplit', 'dtetm'):
            shp = [5 if kw['solution'] == 'dtetm' else 3] + shp
    if multi > 1:
        if not isinstance(out, tuple) or len(out) != multi:
            raise Violation(f'{fn}: number of results')
    else:
        out = (out, )
    if squeeze:
        shp = [n for n in shp if n > 1]
    for o in out:
        if not isinstance(o, cls):
            raise Violation(f'{fn}: class of the result: {str(type(o))}')
        if list(o.shape) != shp:
            raise Violation(f'{fn}: shape {o.shape} instead of {shp}')
        if o.dtype != (np.float64 if real else np.complex128):
            raise Violation(f'{fn}: type of the result: {str(o.dtype)}')
        if not np.isfinite(o).all():
            raise Violation(f'{fn}: result is not finite: {str(o)}')
        if o.base is not None and any(
                np.shares_memory(o, v) for v in kw.values()
                if isinstance(v, np.ndarray)):
            raise Violation(f'{fn}: result is a view of the input')
    return calls.label(c) if any(np.any(o != 0) for o in out) else None


@st.composite
def case(draw):
    fn = draw(st.sampled_from(['dipole', 'dipole', 'bipole', 'dipole_k',
                               'time', 'analytical', 'gpr_like']))
    n = draw(st.integers(1, 5))
    th = [draw(gen.lg(1e-3, 1e5)) for _ in range(max(0, n-2))]
    depth = [float(sum(th[:i])) for i in range(n-1)]
    res = [draw(gen.lg(1e-3, 1e12)) for _ in range(n)]

    def z():
        if depth and draw(st.integers(0, 2)) == 0:
            return draw(st.sampled_from(depth))
        return draw(st.one_of(gen.lg(1e-3, 1e5), gen.lg(1e-3, 1e5).map(
            lambda x: -x), st.just(0.)))

    def xy():
        return draw(st.one_of(gen.pm(1e-3, 1e6), st.just(0.)))
    c = {'fn': fn, 'depth': depth, 'res': res,
         'aniso': [draw(gen.lg(.1, 10)) for _ in range(n)],
         'eh': [draw(st.one_of(st.just(1.), gen.un(0, 100)))
                for _ in range(n)],
         'mh': [draw(gen.lg(.5, 1000)) for _ in range(n)],
         'src': [0., 0., z()],
         'rec': [[xy(), xy()] for _ in range(draw(st.integers(1, 3)))],
         'zr': z(),
         'f': [draw(gen.lg(1e-8, 1e9)) for _ in range(
             draw(st.integers(1, 3)))],
         'lap': draw(st.integers(0, 2)) == 0,
         'ab': draw(st.sampled_from(gen.ABS)),
         'ang': [draw(gen.un(0, 360, 8)), draw(gen.un(-90, 90, 8))],
         'xd': draw(st.sampled_from([True, False, None])),
         'signal': draw(st.sampled_from([0, 1, -1])),
         'sol': draw(st.sampled_from(['fs', 'dfs', 'dhs', 'dsplit',
                                      'dtetm'])),
         'lag': draw(st.sampled_from([0, 0, -1, 10])),
         'lam': draw(gen.lg(1e-9, 1e4))}
    return c


@facet('extremes', case(), quick=2500, shards=4)
def extremes(c):
    import empymod
    fn = c['fn']
    m = dict(depth=c['depth'], res=c['res'], aniso=c['aniso'], epermH=c['eh'],
             mpermH=c['mh'], verb=0)
    xr = [x for x, _ in c['rec']]
    yr = [y for _, y in c['rec']]
    f = np.array(c['f'])*(-1 if c['lap'] else 1)
    rec = [xr, yr, c['zr']]
    ht = dict(htarg={'pts_per_dec': c['lag']})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if fn in ('dipole', 'gpr_like'):
            out = R(empymod.dipole, c['src'], rec, freqtime=f, ab=c['ab'],
                    xdirect=c['xd'], **ht, **m)
        elif fn == 'bipole':
            out = R(empymod.bipole, c['src']+c['ang'], rec+c['ang'][::-1],
                    freqtime=f, xdirect=c['xd'], msrc=c['ab'] % 2 == 0,
                    mrec=c['ab'] % 3 == 0, **m)
        elif fn == 'dipole_k':
            out = R(empymod.dipole_k, c['src'], rec, freq=f, ab=c['ab'],
                    wavenumber=np.array([c['lam']]), **m)
            out = np.array(out)
        else:
            # 6 decades around the diffusion time of the largest distance.
            r = max(np.hypot(*p) for p in c['rec'])
            r = np.hypot(r, abs(c['zr']) + abs(c['src'][2]))
            t = 4e-7*np.pi*max(r, 1e-3)**2/4/c['res'][-1]
            t = t*10**((np.log10(c['f'][0])-.5)*12/17)
            t = min(max(t, 1e-15), 1e8)
            if fn == 'time':
                out = R(empymod.dipole, c['src'], rec, freqtime=t, ab=c['ab'],
                        xdirect=c['xd'], signal=c['signal'], **ht, **m)
            else:
                for k in ('depth', 'epermH', 'mpermH'):
                    m.pop(k)
                m['res'], m['aniso'] = c['res'][-1], c['aniso'][-1]
                ab = [11, 12, 13, 21, 22, 23, 31, 32, 33][c['ab'] % 9]
                sol = c['sol']
                sig = c['signal'] if sol != 'fs' and c['lap'] else None
                # Half-space: both below the surface.
                out = R(empymod.analytical, [0, 0, abs(c['src'][2])],
                        [xr, yr, abs(c['zr'])], solution=sol, ab=ab,
                        freqtime=f if sig is None else t, signal=sig, **m)
    out = np.asarray(out)
    if not np.isfinite(out).all():
        raise Violation(f'{fn}: result is not finite: {out}')
    return [fn] if np.any(out != 0) else None
