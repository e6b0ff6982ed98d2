import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet, Violation, R
from vf.props.b01 import axis_angle, dip_angle, seg

ID = 'V01'
TITLE = 'Many sources, receivers and frequencies at once equal one by one'
RULE = ('Random layered models, 1-4 sources, 1-4 receivers (common or '
        'different depths, dipoles or bipoles, any variable of size one), '
        '1-4 frequencies or times, every loop option and squeeze; and '
        'equivalent ways to write models and coordinates. Oracle: one call '
        'per source, receiver and frequency. Non-trivial: more than one '
        'element and non-zero response.')
ASSUMPTIONS = ['1e-9 of the largest component (frequency), 1e-6 of the '
               'largest over the receivers (time).']


def warm():
    _warm.kernel(True)


def compress(v, on):
    """[a, a, a] may be written a or [a]."""
    if len(set(v)) == 1:
        if on == 1:
            return v[0]
        if on == 2:
            return [v[0]]
    return v


def form(x, how):
    if isinstance(x, (int, float)):
        return [x, np.float64(x), np.array(x), x][how]
    return [list(x), np.array(x, dtype=float), tuple(x), np.array(x)][how]


@st.composite
def case_dip(draw):
    c = draw(sym.base(off=(5., 3000.)))
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    c['f'] = [c['f'][0]*x for x in draw(st.lists(
        st.sampled_from([.1, .3, .5, 1., .01]), min_size=1, max_size=4))]
    dx = draw(st.sampled_from([0., 1., 20.]))
    dy = draw(st.sampled_from([0., 3., 10.]))
    c['sx'] = [dx*i for i in range(n)]
    c['sy'] = [-dy*i for i in range(n)]
    c['rx'] = [gen.r6(c['xy'][0] + (7+dx)*i) for i in range(m)]
    c['ry'] = [gen.r6(c['xy'][1] + 2*dy*i) for i in range(m)]
    c['cmp'] = draw(st.integers(0, 2))
    c['form'] = draw(st.integers(0, 3))
    c['loop'] = draw(st.sampled_from([None, 'freq', 'off']))
    c['ab'] = draw(st.sampled_from(gen.ABS))
    c['squeeze'] = draw(st.booleans())
    c['ht'] = 'dlf'
    return c


@st.composite
def case_ad(draw):
    c = draw(case_dip())
    c['ht'] = draw(st.sampled_from(['qwe', 'quad']))
    n = 2
    for k in ('sx', 'sy', 'rx', 'ry', 'f'):
        c[k] = c[k][:n]
    c['xd'] = True
    return c


def cut(x, sq):
    return tuple(i for i in x if i > 1) if sq else tuple(x)


@facet('dipole', case_dip(), quick=600, shards=4)
def dipole(c):
    return _dipole(c)


@facet('adaptive', case_ad(), quick=80, shards=4)
def adaptive(c):
    return _dipole(c)


def _dipole(c):
    import empymod
    n, m, k = len(c['sx']), len(c['rx']), len(c['f'])
    if np.min(np.hypot(np.subtract.outer(c['rx'], c['sx']),
                       np.subtract.outer(c['ry'], c['sy']))) < 1:
        return None
    kw = dict(ab=c['ab'], xdirect=c['xd'], verb=0, **gen.mkw(c['m']))
    ht = c['ht']
    kw['ht'] = ht
    src = [compress(c['sx'], c['cmp']), compress(c['sy'], c['cmp']), c['zs']]
    rec = [compress(c['rx'], c['cmp']), compress(c['ry'], c['cmp']), c['zr']]
    # an all-size-one pair would be one dipole
    ns = max(np.size(src[0]), np.size(src[1]))
    nr = max(np.size(rec[0]), np.size(rec[1]))
    src = [form(x, c['form']) for x in src]
    rec = [form(x, c['form']) for x in rec]
    A = R(empymod.dipole, src, rec, freqtime=form(c['f'], c['form']),
          loop=c['loop'], squeeze=c['squeeze'], **kw)
    ex = cut((k, nr, ns), c['squeeze'])
    if A.shape != ex:
        raise Violation(f'shape {A.shape} instead of {ex}')
    A = np.asarray(A).reshape(k, nr, ns)
    T = [np.abs(np.asarray(empymod.dipole(
        [0, 0, c['zs']], [*c['xy'], c['zr']], freqtime=c['f'],
        **{**kw, 'ab': a, 'ht': 'dlf', 'xdirect': True})))
         for a in sym.group(c['ab'])]
    sc = np.max(T, axis=0).reshape(k)
    n0 = 0
    for i in range(k):
        for j in range(nr):
            for p in range(ns):
                v = complex(np.asarray(empymod.dipole(
                    [c['sx'][p], c['sy'][p], c['zs']],
                    [c['rx'][j], c['ry'][j], c['zr']], freqtime=c['f'][i],
                    **kw)))
                tol = 1e-9 if ht == 'dlf' else 1e-3
                if not abs(v - A[i, j, p]) <= tol*max(sc[i], abs(v)):
                    raise Violation(
                        f'[{i},{j},{p}] {ht}: {A[i, j, p]} instead of {v}')
                n0 += v != 0
    if not n0 or n*m*k == 1:
        return None
    return [f'loop={c["loop"]}', f'{k},{m},{n}', ht]


@st.composite
def poles(draw, ctr, n, dip):
    """n dipoles or bipoles; list of size-one or size-n columns."""
    same_z = draw(st.booleans())
    same_a = draw(st.booleans())
    out = []
    ang = [axis_angle(), dip_angle()]
    if draw(st.integers(0, 2)) == 0:   # Only along the axes
        ang = [st.sampled_from([0., 90., 180., -90.]),
               st.sampled_from([0., 0., 90., -90.])]
    a0 = [draw(ang[0]), draw(ang[1])]
    b0 = draw(seg([0., 0., 0.]))
    for i in range(n):
        x = gen.r6(ctr[0] + 37*i*(1 if ctr[0] >= 0 else -1))
        y = gen.r6(ctr[1] + draw(st.sampled_from([0., 11.])))
        z = ctr[2] if same_z else round(ctr[2] + draw(
            st.sampled_from([0., 3.3, 13.1, -7.7, .02, -.05])), 4)
        if dip:
            a = a0 if same_a else [draw(ang[0]), draw(ang[1])]
            out.append([x, y, z, *a])
        else:
            b = b0 if same_a else draw(seg([0., 0., 0.]))
            if same_z and any(b[i] != b[i+1] for i in (0, 2)):
                # Different directions and lengths at one (pair of) depth
                b = list(b[:4]) + list(b0[4:])
            out.append([round(u, 4) for u in
                        (x+b[0], x+b[1], y+b[2], y+b[3], z+b[4], z+b[5])])
    return out


@st.composite
def case_bip(draw, time=False):
    c = draw(sym.base(nmin=1, nmax=4, on_if=False, off=(200., 2000.),
                      nf=draw(st.integers(1, 3))))
    c['sd'], c['rd'] = draw(st.booleans()), draw(st.booleans())
    c['xy'][0] = abs(c['xy'][0])
    # Anywhere in the coordinate system
    z0 = draw(st.sampled_from([0., 0., 3000., -9000., 2e4]))
    c['m']['depth'] = [round(z+z0, 4) for z in c['m']['depth']]
    c['zs'], c['zr'] = round(c['zs']+z0, 4), round(c['zr']+z0, 4)
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    c['src'] = draw(poles([-1., 0., c['zs']], n, c['sd']))
    c['rec'] = draw(poles([*c['xy'], c['zr']], m, c['rd']))
    c['msrc'] = draw(st.sampled_from([False, True, 'b']))
    c['mrec'] = draw(st.sampled_from([False, True, 'b', 'j']))
    c['strength'] = draw(st.sampled_from([0, 2.]))
    c['np'] = [draw(st.sampled_from([1, 3])), draw(st.sampled_from([1, 3]))]
    c['cmp'] = draw(st.integers(0, 2))
    c['form'] = draw(st.integers(0, 3))
    c['loop'] = draw(st.sampled_from([None, 'freq', 'off']))
    c['squeeze'] = draw(st.booleans())
    if time:
        c['signal'] = draw(st.sampled_from([-1, 0, 1]))
        c['np'] = [1, 1]
        c['ft'] = draw(st.sampled_from(['dlf', 'fftlog']))
        c['f'] = [1/(8*abs(f)) for f in c['f']]
    return c


def columns(P, cmp_, how):
    out = []
    for col in zip(*P):
        out.append(form(compress(list(col), cmp_), how))
    return out


@facet('bipole', case_bip(), quick=500, shards=3)
def bipole(c):
    return _bipole(c, 1e-9)


@facet('bipole_time', case_bip(time=True), quick=100, shards=4)
def bipole_time(c):
    return _bipole(c, 1e-6)


def _bipole(c, tol):
    import empymod
    n, m, k = len(c['src']), len(c['rec']), len(c['f'])
    kw = dict(msrc=c['msrc'], mrec=c['mrec'], strength=c['strength'],
              srcpts=c['np'][0], recpts=c['np'][1], xdirect=c['xd'],
              signal=c.get('signal'), ft=c.get('ft', 'dlf'), verb=0,
              freqtime=c['f'], **gen.mkw(c['m']))
    src = columns(c['src'], c['cmp'], c['form'])
    rec = columns(c['rec'], c['cmp'], c['form'])
    ns, nr = (max(np.size(x) for x in y) for y in (src, rec))
    A = R(empymod.bipole, src, rec, loop=c['loop'], squeeze=c['squeeze'],
          **kw)
    ex = cut((k, nr, ns), c['squeeze'])
    if A.shape != ex:
        raise Violation(f'shape {A.shape} instead of {ex}')
    A = np.asarray(A).reshape(k, nr, ns)
    ones = np.zeros_like(A)
    for j in range(nr):
        for p in range(ns):
            ones[:, j, p] = np.asarray(empymod.bipole(
                c['src'][p], c['rec'][j], **kw)).reshape(k)
    # Scale: largest component of the vector field
    mr = c['mrec'] not in (False, 'j')
    sc = np.abs(ones).max(axis=(1, 2))
    for r in ([0, 0], [90, 0], [0, 90]):
        for s in ([0, 0], [90, 0], [0, 90]):
            v = empymod.bipole([-1., 0., c['zs'], *s],
                               [*c['xy'], c['zr'], *r],
                               **{**kw, 'strength': 0, 'srcpts': 1,
                                  'recpts': 1})
            sc = np.maximum(sc, np.abs(np.asarray(v)).reshape(k))
    if 'signal' in c:
        sc = sc.max()*np.ones(k)
    if not np.all(np.isfinite(ones)):
        return None
    bad = ~(np.abs(A-ones) <= tol*sc[:, None, None])
    if np.any(bad):
        i = tuple(int(x[0]) for x in np.nonzero(bad))
        raise Violation(f'{i}: {A[i]} instead of {ones[i]} (scale {sc})')
    if not np.any(ones) or n*m*k == 1:
        return None
    return [f'{k},{m},{n}', f"{'dip' if c['sd'] else 'bip'}-"
            f"{'dip' if c['rd'] else 'bip'}", f'loop={c["loop"]}',
            'mrec' if mr else 'erec']


@st.composite
def case_w(draw):
    c = draw(sym.base())
    m = c['m']
    # some parameters at their default
    for k in ('aniso', 'eh', 'mh'):
        if draw(st.booleans()):
            m[k] = [1.]*len(m['res'])
    for h, v in (('eh', 'ev'), ('mh', 'mv')):
        if draw(st.booleans()):
            m[v] = list(m[h])
    c['how'] = draw(st.sampled_from(['list', 'array', 'tuple', 'omit',
                                     'dict']))
    c['depth'] = draw(st.sampled_from(['list', 'array', '-inf', 'inf',
                                       'both', 'scalar']))
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    return c


@facet('writing', case_w(), quick=600, shards=2)
def writing(c):
    """Equivalent ways to write the same model and geometry."""
    import empymod
    m = c['m']
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    kw = dict(freqtime=c['f'], xdirect=c['xd'], verb=0)
    a = np.asarray(empymod.dipole(p, q, ab=c['ab'], **kw, **gen.mkw(m)))
    g = gen.mkw(m)
    d = g['depth']
    if c['depth'] == 'scalar' and len(d) == 1:
        g['depth'] = d[0]
    elif c['depth'] not in ('list', 'scalar'):
        g['depth'] = gen.write_depth(d, c['depth'])
    if len(d) == 0 and c['depth'] in ('inf', '-inf', 'both'):
        g['depth'] = []
    how = c['how']
    conv = {'array': np.array, 'tuple': tuple}.get(how, list)
    for k in g:
        if k != 'depth':
            g[k] = conv(g[k])
    if how == 'omit':
        one = [1.]*len(m['res'])
        if m['ev'] == m['eh']:
            g['epermV'] = None
        if m['mv'] == m['mh']:
            g['mpermV'] = None
        for k, h, v in (('aniso', 'aniso', None), ('epermH', 'eh', 'ev'),
                        ('mpermH', 'mh', 'mv')):
            if m[h] == one and (v is None or m[v] == one):
                g[k] = None
    if how == 'dict':
        g['res'] = {'res': g['res'], 'extra': [1.]*len(m['res'])}
    b = np.asarray(R(empymod.dipole, tuple(p), np.array(q), ab=c['ab'], **kw,
                     **g))
    # and as rotated dipole
    r, s = c['ab']//10, c['ab'] % 10
    ang = {1: (0, 0), 2: (90, 0), 0: (0, 90)}
    e = np.asarray(R(
        empymod.bipole, p + list(ang[s % 3]), q + list(ang[r % 3]),
        msrc=s > 3, mrec=r > 3, **kw, **g))
    sc = np.max([np.abs(np.asarray(empymod.dipole(
        p, q, ab=x, **{**kw, 'xdirect': True}, **gen.mkw(m))))
        for x in sym.group(c['ab'])], axis=0)
    sc = np.maximum(sc, np.abs(a))
    sym.same(f'{how}/{c["depth"]}', c['ab'], a, b, sc, 1e-12)
    sym.same(f'bipole {how}/{c["depth"]}', c['ab'], a, e, sc, 1e-9)
    return [how, 'depth='+c['depth']] if np.any(a) else None
