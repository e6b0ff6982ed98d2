import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet, Violation, R

ID = 'T02'
TITLE = 'Signals and arbitrary waveforms are convolutions of one response'
RULE = ('Random waveforms (nodes, amplitudes, signal, quadrature points) and '
        'times, before, at, within and after the segments. Oracle: the exact '
        'convolution of a polynomial response of a degree for which the '
        'quadrature is exact, and for the modelling routines the weighted '
        'sum of their responses at the quadrature points. Impulse, switch-on '
        'and switch-off responses of random layered models are related by '
        'their integrals and by the static value. Non-trivial: at least one '
        'changing segment, or a non-zero response.')
ASSUMPTIONS = ['The sign of the waveform follows the regression data of the '
               'repository: minus the slope times the response of `signal`.',
               'Relation of the signals within the accuracy of the '
               'transforms.']


def warm():
    _warm.kernel(laplace=False)


@st.composite
def wave(draw, nmax=6):
    n = draw(st.integers(1, nmax))
    t0 = draw(gen.lg(1e-6, 1e2))
    start = draw(st.sampled_from([0., 0., -1., 1., -3.5]))*t0
    nodes = [gen.r6(start/t0)*t0]
    for _ in range(n):
        nodes.append(nodes[-1] + t0*draw(gen.lg(1e-3, 3.)))
    amp = [draw(st.sampled_from([0., 1., -1., None])) for _ in range(n+1)]
    # Flat segments, ramps, jumps back
    amp = [draw(gen.pm(.1, 5.)) if a is None else a for a in amp]
    span = nodes[-1] - nodes[0]
    times = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 3))
        if k == 0:     # at a node
            times.append(draw(st.sampled_from(nodes)))
        elif k == 1:   # within
            times.append(nodes[0] + span*draw(gen.un(.001, .999)))
        elif k == 2:   # after
            times.append(nodes[-1] + span*draw(gen.lg(1e-4, 10)))
        else:          # before
            times.append(nodes[0] - span*draw(gen.lg(1e-3, .5)))
    times = [abs(t) if t <= 0 else t for t in times]
    return {'t0': t0, 'nodes': nodes, 'amp': amp,
            'times': [t if t > 0 else t0 for t in times],
            'nquad': draw(st.sampled_from([None, 3, 1, 2, 5, 8])),
            'signal': draw(st.sampled_from([None, 0, 1, -1])),
            'lst': draw(st.booleans())}


def sig(c):
    a = (lambda x: x) if c['lst'] else np.array
    s = {'nodes': a(c['nodes']), 'amplitudes': a(c['amp'])}
    for k in ('nquad', 'signal'):
        if c[k] is not None:
            s[k] = c[k]
    return s


@st.composite
def case_poly(draw):
    c = draw(wave())
    # Seconds to nanoseconds and to years, any current
    k = draw(st.one_of(st.just(1.), gen.lg(1e-6, 1e8)))
    for key in ('nodes', 'times'):
        c[key] = [k*x for x in c[key]]
    c['t0'] *= k
    a = draw(st.one_of(st.just(1.), gen.lg(1e-9, 1e4)))
    c['amp'] = [a*x for x in c['amp']]
    c['poly'] = [[draw(gen.pm(.1, 2)) for _ in range(
        draw(st.integers(1, 2*(c['nquad'] or 3))))]
        for _ in range(draw(st.integers(1, 3)))]
    return c


def active(c):
    """Segments with a slope which have begun at some of the times."""
    return [i for i in range(len(c['nodes'])-1)
            if c['amp'][i] != c['amp'][i+1]
            and any(c['nodes'][i] < t for t in c['times'])]


@facet('exact', case_poly(), quick=3000, shards=2)
def exact(c):
    import empymod
    s = sig(c)
    t = np.array(c['times'])
    if not active(c):
        try:
            empymod.utils.check_time_only(t, s, 0, True)
        except ValueError:
            return None
        raise Violation('all times before the waveform: no error')
    ct, sg = R(empymod.utils.check_time_only, t, s, 0, True)
    if sg['signal'] != (c['signal'] or 0):
        raise Violation(f'signal {sg["signal"]}')
    if np.any(ct <= 0) or np.any(ct > t.max()-c['nodes'][0]+1e-9*c['t0']):
        raise Violation(f'times {ct}')
    P = [np.polynomial.Polynomial(p) for p in c['poly']]
    out = sg['apply_waveform'](np.array([p(ct/c['t0']) for p in P]).T)
    ex = np.zeros((t.size, len(P)))
    mg = np.zeros((t.size, len(P)))
    for j, p in enumerate(P):
        q = p.integ()
        b = np.polynomial.Polynomial(np.abs(p.coef)).integ()
        for k, x in enumerate(t):
            for i in range(len(c['nodes'])-1):
                n0, n1 = c['nodes'][i:i+2]
                sl = (c['amp'][i+1]-c['amp'][i])/(n1-n0)
                hi, lo = max(x-n0, 0)/c['t0'], max(x-n1, 0)/c['t0']
                if n0 < x:
                    ex[k, j] -= sl*(q(hi)-q(lo))*c['t0']
                    mg[k, j] += abs(sl)*b(hi)*c['t0']
    if out.shape != ex.shape:
        raise Violation(f'shape {out.shape} instead of {ex.shape}')
    e = np.abs(out-ex) > 1e-9*mg + 1e-200
    if np.any(e):
        raise Violation(f'waveform {s} at {t}: {out.tolist()} instead of '
                        f'{ex.tolist()}')
    n = len(active(c))
    lab = [f'segments={n}', f'signal={c["signal"]}']
    if any(any(c['nodes'][i] < x < c['nodes'][i+1] for x in t)
           for i in active(c)):
        lab.append('within a segment')
    if any(x <= c['nodes'][i] for i in active(c) for x in t):
        lab.append('before a segment')
    return lab


@st.composite
def case_api(draw):
    b = draw(sym.base(nmax=3, p=(.3, 2.), off=(50., 2000.), nf=1,
                      airvac=True, perm=False, eps=0))
    b['f'] = [abs(b['f'][0])]
    w = draw(wave(nmax=3))
    # Time scale around the diffusion time
    k = 1/(2*np.pi*b['f'][0])/w['t0']*draw(gen.lg(.3, 3.))
    w['nodes'] = [n*k for n in w['nodes']]
    w['times'] = [t*k for t in w['times']][:3]
    w['t0'] *= k
    w['nquad'] = draw(st.sampled_from([None, 1, 2, 3, 4]))
    return {**b, 'w': w, 'kind': draw(st.sampled_from(['dipole', 'bipole'])),
            'nrec': draw(st.integers(1, 2)), 'nsrc': draw(st.integers(1, 2)),
            'ab': draw(st.sampled_from(gen.ABS34)),
            'loop': draw(st.sampled_from([None, 'freq', 'off'])),
            'xd': draw(st.sampled_from([False, None]))}


@facet('api', case_api(), quick=120, shards=2)
def api(c):
    """Modelling routines: the weighted sum of their own responses."""
    import empymod
    w = c['w']
    if not active(w):
        return None
    t = np.array(w['times'])
    z1 = c['zr'] if c['zr'] != c['zs'] else c['zr'] + 1.
    src = [[0.+7*i for i in range(c['nsrc'])], [0.]*c['nsrc'], c['zs']]
    rec = [[c['xy'][0]*(1+.2*i) for i in range(c['nrec'])],
           [c['xy'][1]+3.*i for i in range(c['nrec'])], z1]
    kw = dict(verb=0, xdirect=c['xd'], loop=c['loop'], squeeze=False,
              ftarg={'dlf': 'key_81_2009', 'pts_per_dec': 0},
              htarg={'dlf': 'kong_61_2007b'}, **gen.mkw(c['m']))
    if c['kind'] == 'dipole':
        def run(t, s):
            return np.asarray(R(empymod.dipole, src, rec, freqtime=t,
                                signal=s, ab=c['ab'], **kw))
    else:
        def run(t, s):
            return np.asarray(R(empymod.bipole, src+[20., 10.],
                                rec+[-30., 60.], freqtime=t, signal=s,
                                msrc=c['ab'] % 10 > 3, mrec=c['ab']//10 > 3,
                                **kw))
    out = run(t, sig(w))
    if out.shape != (t.size, c['nrec'], c['nsrc']):
        raise Violation(f'shape {out.shape}')
    x, wt = np.polynomial.legendre.leggauss(w['nquad'] or 3)
    pts, cf = [], []
    for k, tk in enumerate(t):
        for i in active(w):
            n0, n1 = w['nodes'][i:i+2]
            if n0 < tk:
                hi, lo = tk-n0, max(tk-n1, 0)
                sl = (w['amp'][i+1]-w['amp'][i])/(n1-n0)
                for a, b in zip(x, wt):
                    pts.append((hi+lo)/2 + (hi-lo)/2*a)
                    cf.append((k, -sl*(hi-lo)/2*b))
    r = run(np.array(pts), w['signal'] or 0)
    ex, mg = np.zeros(out.shape), np.zeros(out.shape)
    for (k, a), v in zip(cf, r):
        ex[k] += a*v
        mg[k] += abs(a*v)
    # Round-off of the digital filter
    mg += 1e-3*mg.max()
    if not np.all(np.abs(out-ex) <= 1e-6*mg + 1e-200):
        raise Violation(f'{c["kind"]} ab={c["ab"]} waveform {sig(w)} at {t}: '
                        f'{out.tolist()} instead of {ex.tolist()}')
    if not np.any(ex):
        return None
    return [c['kind'], f"signal={w['signal']}", f"rec={c['nrec']}",
            f"src={c['nsrc']}", f"loop={c['loop']}"]


@st.composite
def case_rel(draw):
    b = draw(sym.base(nmax=4, p=(.3, 2.), off=(50., 2000.), nf=1, eps=0,
                      airvac=True, res=(.3, 300)))
    b['f'] = [abs(b['f'][0])]
    return {**b, 'u': draw(gen.lg(.3, 3.)), 'r': draw(gen.un(1.1, 2.)),
            'ab': draw(st.sampled_from(gen.ABS34))}


@facet('relations', case_rel(), quick=160, shards=2)
def relations(c):
    """on + off = static value; difference of on = integral of impulse."""
    import empymod
    t1 = c['u']/(2*np.pi*c['f'][0])
    t2 = t1*c['r']
    x, wt = np.polynomial.legendre.leggauss(5)
    ti = (t1+t2)/2 + (t2-t1)/2*x
    src, rec = [0, 0, c['zs']], [*c['xy'], c['zr'] if c['zr'] != c['zs']
                                 else c['zr'] + 1.]
    kw = dict(verb=0, xdirect=False, **gen.mkw(c['m']))
    ANG = {1: [0, 0], 2: [90, 0], 3: [0, 90]}

    def run(ab, t, s):
        # The static field of a loop: moment instead of magnetic current
        return np.asarray(R(
            empymod.bipole, src+ANG[(ab % 10-1) % 3+1],
            rec+ANG[(ab//10-1) % 3+1], freqtime=t, signal=s,
            msrc=False if ab % 10 < 4 else ('b' if ab > 40 else True),
            mrec=ab > 40, **kw))
    ab = c['ab']
    T = [t1, t2]
    on, off = run(ab, T, 1), run(ab, T, -1)
    imp = run(ab, np.r_[t1, ti, t2], 0)
    F = {a: run(a, [c['f'][0]*1e-7, c['f'][0]], None) for a in sym.group(ab)}
    dc = F[ab][0].real
    # On a scale of the fields of all directions
    s = max(np.max(np.abs(v)) for v in F.values())
    if s < 1e-30:
        return None
    e = np.abs(on+off-dc)
    if not np.all(e <= .02*s):
        raise Violation(f'ab={ab} t={T}: on {on} + off {off} != static {dc} '
                        f'(scale {s:.2e})')
    if not np.all(np.isfinite(imp)):
        raise Violation(f'ab={ab}: impulse {imp}')
    I = np.sum(wt*imp[1:-1])*(t2-t1)/2
    for nm, d in (('on', on[1]-on[0]), ('off', off[0]-off[1])):
        if not abs(d-I) <= .02*s:
            raise Violation(f'ab={ab} t={T}: change of {nm} {d} != integral '
                            f'of the impulse response {I} (scale {s:.2e})')
    big = abs(I) > 1e-3*s
    return ['ab=%d' % ab] if np.any(np.abs(on) > 1e-6*s) or big else None
