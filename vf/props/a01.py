import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, warm as _warm
from vf.core import facet, Violation

ID = 'A01'
TITLE = 'Analytical diffusive solutions are right in every domain'
RULE = ('Random VTI half-spaces below air, electric source and receiver at '
        'or below the surface, frequency/Laplace/time (impulse, switch-on, '
        'switch-off). Oracles: numerical wavenumber integration of the '
        'boundary-value problem (also by mode), Laplace transform of the '
        'time-domain solutions by quadrature, additivity of the split '
        'solutions, and the modeller. Non-trivial: non-zero response.')
ASSUMPTIONS = ['Relative to the largest component; 1e-6 (frequency), 1e-3 '
               '(Laplace transform of time-domain solutions), 2e-2 '
               '(modeller in time).']

EE = [11, 12, 13, 21, 22, 23, 31, 32, 33]


def warm():
    _warm.kernel(True)


@st.composite
def case(draw, zmin=0.):
    c = {'res': draw(gen.lg(.05, 1e3)),
         'aniso': draw(st.one_of(st.just(1.), gen.lg(.4, 4.))),
         'zs': draw(st.one_of(st.just(zmin), gen.lg(max(zmin, .5), 500.))),
         'zr': draw(st.one_of(st.just(zmin), gen.lg(max(zmin, .5), 500.)))}
    c['xy'] = draw(gen.hor(1., 1.))
    H = c['zs']+c['zr']
    off = draw(gen.lg(.5, 15.))*(H if H > 1 else 50.)
    c['xy'] = [gen.r6(p*off) for p in c['xy']]
    R = np.hypot(off, H)
    # distance in skin depths
    p = draw(gen.lg(1e-2, 6.))
    c['f'] = gen.r4(p**2*c['res']/(np.pi*ref.MU0*R**2))
    c['lap'] = draw(st.integers(0, 2)) == 0
    return c


def call(c, ab, solution, signal=None, ft=None):
    import empymod
    f = -c['f'] if c.get('lap') else c['f']
    return empymod.analytical(
        [0, 0, c['zs']], [*c['xy'], c['zr']], c['res'],
        f if ft is None else ft, solution, signal=signal, ab=ab,
        aniso=c['aniso'], verb=0)


def tmte(G, tm):
    keep = [('Eu', 'Ju'), ('Eu', 'Jz'), ('Ez', 'Ju'), ('Ez', 'Jz')]
    if not tm:
        keep = [('Ev', 'Jv')]
    return {k: v for k, v in G.items() if k in keep}


def omitted(c, f, ab, off, th):
    g = np.sqrt((2j*np.pi*f if f > 0 else -f)*ref.MU0/c['res'])
    ang = {11: np.cos(2*th), 22: -np.cos(2*th)}.get(ab, np.sin(2*th))
    return c['res']*g*np.exp(-g*(c['zs']+c['zr']))*ang/(4*np.pi*off**2)


@facet('frequency', case(), quick=500, shards=5)
def frequency(c):
    """reflected + air against the boundary-value problem, by mode;
    direct against the closed-form full-space without displacement."""
    import empymod
    H = c['zs']+c['zr']
    f = -c['f'] if c['lap'] else c['f']
    off, th = np.hypot(*c['xy']), np.arctan2(c['xy'][1], c['xy'][0])
    D = {}
    n = 0
    for ab in EE:
        dTE, dTM, rTE, rTM, air = (complex(np.squeeze(x)) for x in
                                   call(c, ab, 'dtetm'))
        D[ab] = dTE, dTM, rTE, rTM, air
        d, r, a = (complex(np.squeeze(x)) for x in call(c, ab, 'dsplit'))
        fs = complex(call(c, ab, 'dfs'))
        hs = complex(call(c, ab, 'dhs'))
        s = max(abs(x) for x in (dTE, dTM, rTE, rTM, air, d, r, a, hs))
        for nm, x, y in (('direct', d, dTE+dTM), ('reflected', r, rTE+rTM),
                         ('air', a, air), ('dfs', fs, d),
                         ('dhs', hs, d+r+a)):
            if not abs(x-y) <= 1e-10*s:
                raise Violation(f'ab={ab} {nm}: {x} != {y}')
    # Direct
    A = {ab: complex(empymod.analytical(
            [0, 0, c['zs']], [*c['xy'], c['zr']], c['res'], f, 'fs', ab=ab,
            aniso=c['aniso'], epermH=0, epermV=0, verb=0)) for ab in EE}
    s = max(abs(x) for x in A.values())
    for ab in EE:
        v = D[ab][0] + D[ab][1]
        t = max(abs(D[ab][0]), s)
        if not abs(v - A[ab]) <= 1e-7*t:
            raise Violation(f'ab={ab}: dfs {v}, full-space {A[ab]}')
        n += v != 0
    # Reflected and air wave, from the boundary-value problem
    total = {}
    if H*min(1, c['aniso']) < off/40 or H < .5:
        return 'surface' if n else None
    ez = ref.eta_zeta(f, [c['res']*1e10, c['res']], [1, c['aniso']],
                      [0, 0], [0, 0], [1, 1], [1, 1])
    dec = H*min(1, c['aniso'])
    kmax = 42/dec
    k, w = ref.panels(kmax, off, 1e-9)
    G = ref.green_k(k, [0.], *ez, c['zs'], c['zr'], False)
    from scipy import special
    J0, J1 = special.j0(k*off), special.j1(k*off)
    if c['zs'] == 0 or c['zr'] == 0:
        return 'surface' if n else None
    for tm in (True, False):
        Gm = tmte(G, tm)
        for ab in EE:
            if not tm and '3' in str(ab):
                continue
            p0, p1, s0, s1 = ref.pj(ab, k, Gm, off, th)
            v = np.sum(w*(p0*J0+p1*J1))
            sc = np.sum(w*(s0*np.abs(J0)+s1*np.abs(J1)))
            total[ab] = total.get(ab, 0) + v
            got = D[ab][3] if tm else D[ab][2] + D[ab][4]
            sc = max(sc, max(abs(D[ab][3]), abs(D[ab][2]), abs(D[ab][4])))
            # The code leaves the terms in exp(-gamma h) out of both modes (they
            # cancel in the sum): a known finding, see DESIGN.md.
            x = 0 if '3' in str(ab) or c.get('strict') else omitted(
                    c, f, ab, off, th)*(-1 if tm else 1)
            if not min(abs(got-v), abs(got-v-x)) <= 1e-6*sc:
                raise Violation(
                    f"ab={ab} {'TM' if tm else 'TE'} secondary: {got} vs "
                    f'integration {v} (scale {sc:.3g})')
    sc = max(abs(x) for y in D.values() for x in y)
    for ab in EE:
        got = sum(D[ab][2:])
        if not abs(got-total[ab]) <= 1e-6*sc:
            raise Violation(f'ab={ab}: secondary {got}, integration '
                            f'{total[ab]} (scale {sc:.3g})')
    return ['laplace' if c['lap'] else 'freq', 'vti' if c['aniso'] != 1
            else 'iso'] if n else None


_X, _W = np.polynomial.legendre.leggauss(24)


@st.composite
def case_t(draw):
    c = draw(case(zmin=1.))
    c['lap'] = False
    c['s'] = draw(gen.lg(.05, 20.))
    c['sol'] = draw(st.sampled_from(['dfs', 'dhs', 'dsplit', 'dtetm']))
    c['ab'] = draw(st.sampled_from(EE))
    return c


def laplace_of(fn, s, t0):
    """int_0^inf exp(-s t) fn(t) dt, log-spaced panels."""
    lo, hi = np.log(t0*1e-3), np.log(60/s)
    if hi <= lo:
        return None
    n = int(np.ceil((hi-lo)*1.5))
    e = np.linspace(lo, hi, n+1)
    h = np.diff(e)/2
    u = ((e[1:]+e[:-1])/2)[:, None] + h[:, None]*_X
    t = np.exp(u).ravel()
    w = (h[:, None]*_W).ravel()*t*np.exp(-s*t)
    return [np.sum(w*y) for y in fn(t)]


@facet('time', case_t(), quick=800, shards=2)
def time(c):
    """Laplace transform of impulse and step response = Laplace domain."""
    ab = c['ab']
    H = c['zs']+c['zr']
    dmin = min(H, np.hypot(np.hypot(*c['xy']), c['zs']-c['zr']))
    amin = min(c['aniso'], 1/c['aniso'], 1.)
    td = ref.MU0*dmin**2/c['res']/4*amin**2
    R = np.hypot(np.hypot(*c['xy']), H)
    s = c['s']/(ref.MU0*R**2/c['res'])
    cl = {**c, 'lap': True, 'f': s}

    def split(x):
        return [np.real(np.squeeze(np.atleast_1d(y))) for y in
                (x if c['sol'] in ('dsplit', 'dtetm') else [x])]
    F = split(call(cl, ab, c['sol']))
    sc = max(abs(float(np.squeeze(np.real(x)))) for x in
             call(cl, ab, 'dtetm'))
    if sc == 0:
        return None
    for signal in (0, 1):
        T = laplace_of(lambda t: split(call(c, ab, c['sol'], signal, t)), s,
                       td)
        if T is None:
            return None
        for i, (x, y) in enumerate(zip(T, F)):
            if signal == 1:
                x = x*s
            if not abs(x - y) <= 2e-3*sc:
                raise Violation(
                    f"{c['sol']}[{i}] ab={ab} signal={signal}: transform of "
                    f'the time-domain solution {x}, Laplace domain {y}')
    # switch-off = DC - switch-on
    t = np.array([.1, 1., 10.])*ref.MU0*R**2/c['res']
    if 1e4 < 1e6*ref.MU0*R**2/c['res']:  # (parts reach DC as 1/sqrt(t))
        return [c['sol'], f'ab={ab}']
    DC = split(call({**c, 'lap': True, 'f': 1e-10/(ref.MU0*R**2/c['res'])},
                    ab, c['sol']))
    on, of = (split(call(c, ab, c['sol'], g, t)) for g in (1, -1))
    for i, (x, y, z) in enumerate(zip(on, of, DC)):
        sd = max(np.max(np.abs(x)), np.max(np.abs(z)), sc)
        if not np.all(np.abs(x + y - z) <= 2e-3*sd):
            raise Violation(f"{c['sol']}[{i}] ab={ab}: on {x} + off {y} != DC "
                            f'{z}')
    return [c['sol'], f'ab={ab}']


@st.composite
def case_m(draw):
    c = draw(case(zmin=1.))
    c['lap'] = False
    c['signal'] = draw(st.sampled_from([-1, 0, 1]))
    c['ab'] = draw(st.sampled_from(EE))
    c['t'] = [draw(gen.lg(.1, 20.)) for _ in range(2)]
    c['ft'] = 'dlf'     # (methods: T01)
    return c


@facet('modeller', case_m(), quick=120, shards=4)
def modeller(c):
    import empymod
    ab, sg = c['ab'], c['signal']
    R2 = c['xy'][0]**2 + c['xy'][1]**2 + (c['zs']+c['zr'])**2
    if not .3 < c['aniso'] < 3 or np.hypot(*c['xy']) < 5:
        return None
    td = ref.MU0*R2/c['res']
    t = np.array(c['t'])*td
    H = c['zs'] + c['zr']
    if H < .1*np.hypot(*c['xy']):
        return None
    ft = c['ft']
    sol = {a: np.atleast_1d(call(c, a, 'dhs', sg, t)) for a in EE}
    s = np.max([np.abs(x) for x in sol.values()], axis=0)
    v = np.atleast_1d(empymod.dipole(
        [0, 0, c['zs']], [*c['xy'], c['zr']], 0, [c['res']*1e8, c['res']], t,
        sg, ab, [1, c['aniso']], [0, 0], [0, 0], ft=ft, verb=0,
        xdirect=True))
    tol = 2e-2
    dc = np.max([np.max(np.abs(np.atleast_1d(call(c, a, 'dhs', 1,
                                                  [t.max()*100]))))
                 for a in EE])/(1 if sg else td)
    bad = ~(np.abs(v-sol[ab]) <= tol*s + 1e-3*dc)
    if np.any(bad):
        raise Violation(f'ab={ab} signal={sg} ft={ft} t={t}: modeller {v}, '
                        f'analytical {sol[ab]} (scale {s})')
    return [f'signal={sg}', ft]


@st.composite
def case_v(draw):
    c = draw(case())
    c['nr'], c['ns'] = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    c['nf'] = draw(st.integers(1, 3))
    c['sol'] = draw(st.sampled_from(['fs', 'dfs', 'dhs', 'dsplit', 'dtetm']))
    c['signal'] = (draw(st.sampled_from([None, -1, 0, 1]))
                   if c['sol'] != 'fs' else None)
    c['ab'] = draw(st.sampled_from(EE if c['sol'] != 'fs' else gen.ABS))
    c['squeeze'] = draw(st.booleans())
    return c


@facet('arrays', case_v(), quick=800)
def arrays(c):
    """Several sources, receivers, frequencies/times = one by one."""
    import empymod
    ft = np.array([c['f']*(1+i) for i in range(c['nf'])])
    if c['signal'] is not None:
        ft = 1/ft
    sx = [7.*i for i in range(c['ns'])]
    rx = [c['xy'][0] + 13.*i for i in range(c['nr'])]
    ry = [c['xy'][1] + 3.*i for i in range(c['nr'])]
    kw = dict(solution=c['sol'], signal=c['signal'], ab=c['ab'],
              aniso=c['aniso'], verb=0)
    full = empymod.analytical(
        [sx if c['ns'] > 1 else sx[0], [0]*c['ns'] if c['ns'] > 1 else 0,
         c['zs']], [rx if c['nr'] > 1 else rx[0], ry if c['nr'] > 1 else
                    ry[0], c['zr']], c['res'], ft if c['nf'] > 1 else ft[0],
        squeeze=c['squeeze'], **kw)
    n = {'dsplit': 3, 'dtetm': 5}.get(c['sol'], 1)
    full = np.asarray(full)
    shp = (c['nf'], c['nr'], c['ns'])
    ex = (n,)*(n > 1) + shp
    if c['squeeze']:
        ex = tuple(i for i in ex if i > 1)
    if full.shape != ex:
        raise Violation(f'shape {full.shape} instead of {ex}')
    full = full.reshape((n,)+shp)
    out = 0
    for i in range(c['nf']):
        for j in range(c['nr']):
            for k in range(c['ns']):
                one = np.asarray(empymod.analytical(
                    [sx[k], 0, c['zs']], [rx[j], ry[j], c['zr']], c['res'],
                    ft[i], **kw)).reshape(n)
                a = full[:, i, j, k]
                sc = np.abs(one)
                if c['signal'] == -1:   # DC minus switch-on
                    sc = np.abs(np.asarray(empymod.analytical(
                        [sx[k], 0, c['zs']], [rx[j], ry[j], c['zr']],
                        c['res'], ft[i]*1e3, **{**kw, 'signal': 1})))
                sc = max(np.max(sc), np.max(np.abs(one)))
                if not np.all(np.abs(a - one) <= 1e-9*sc):
                    raise Violation(f'[{i},{j},{k}]: {a} != {one}')
                out += np.any(one != 0)
    return c['sol'] if out else None
