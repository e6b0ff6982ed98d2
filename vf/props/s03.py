import numpy as np
from hypothesis import strategies as st

from vf import gen, sym, warm as _warm
from vf.core import facet

ID = 'S03'
TITLE = 'Interfaces without material contrast have no influence'
RULE = ('Random layered VTI models; layers are split at random depths '
        '(several times, also exactly at the source or receiver, or with '
        'zero thickness) into layers with the same parameters; all responses '
        'must stay. Non-trivial: non-zero response and at least one split.')
ASSUMPTIONS = ['Relative to the largest component at the receiver, 1e-6 plus '
               'the round-off due to the resistivity contrast.']


def warm():
    _warm.kernel(True)


def split(m, at):
    """Insert interfaces at the depths `at`."""
    m = {k: list(v) for k, v in m.items()}
    for z in at:
        i = int(np.searchsorted(m['depth'], z, side='left'))
        m['depth'].insert(i, z)
        for k in m:
            if k != 'depth':
                m[k].insert(i, m[k][i])
    return m


@st.composite
def case(draw, **kw):
    c = draw(sym.base(nmin=1, nmax=4, **kw))
    at = []
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 3))
        at.append(c['zs'] if how == 0 else c['zr'] if how == 1 else
                  draw(gen.zin(c['m']['depth'], on_if=False)))
    if draw(st.integers(0, 4)) == 0:
        at.append(at[0])      # a layer of zero thickness
    at = list(dict.fromkeys(at)) if draw(st.integers(0, 1)) else at
    # (Source and receiver are not on the existing interfaces if split there.)
    c['at'] = [z for z in at if z not in c['m']['depth']]
    dep = [d for d in c['m']['depth'] if d not in (c['zs'], c['zr'])]
    if dep and draw(st.integers(0, 3)) == 0:
        # At the lower end of a layer: zero thickness
        c['at'].append(draw(st.sampled_from(dep)))
        if draw(st.booleans()):
            c['at'] = c['at'][-1:]
    c['xd'] = False
    return c


def zero_ok(c):
    """Zero-thickness layers are only tested away from source/receiver."""
    dup = [z for z in c['at'] if c['at'].count(z) > 1]
    return not (set(dup) & {c['zs'], c['zr']})


@facet('split', case(), quick=300, shards=6)
def check_split(c):
    if not c['at'] or not zero_ok(c):
        return None
    m = c['m']
    p, q = [0., 0., c['zs']], [*c['xy'], c['zr']]
    A = sym.tensor(p, q, c['f'], m, xdirect=False)
    m2 = split(m, c['at'])
    B = sym.tensor(p, q, c['f'], m2, xdirect=False)
    for ab in gen.ABS:
        sym.same(f"split at {c['at']}", ab, A[ab], B[ab], sym.scale(A, ab),
                 sym.tol(m))
    lab = sym.labels(c)
    if c['zs'] in c['at']:
        lab.append('at-source')
    if c['zr'] in c['at']:
        lab.append('at-receiver')
    if len(set(c['at'])) < len(c['at']) or set(c['at']) & set(m['depth']):
        lab.append('zero-thickness')
    return lab


@st.composite
def case_x(draw):
    c = draw(case(on_if=False, off=(30., 3000.)))
    c['xd'] = draw(st.sampled_from([True, None]))
    c['ab'] = draw(st.sampled_from(gen.ABS34))
    lo, hi = sorted([c['zs'], c['zr']])
    # Secondary field/analytical direct field: outside of [source, receiver]
    c['at'] = [z for z in c['at'] if z < lo or z > hi]
    return c


@facet('split_xdirect', case_x(), quick=1500, shards=2)
def split_xdirect(c):
    """Analytical or no direct field, split outside source-receiver."""
    if not c['at']:
        return None
    import empymod
    m = c['m']
    inp = dict(src=[0., 0., c['zs']], rec=[*c['xy'], c['zr']],
               freqtime=c['f'], ab=c['ab'], xdirect=c['xd'], verb=0)
    a = np.asarray(empymod.dipole(**inp, **gen.mkw(m)))
    b = np.asarray(empymod.dipole(**inp, **gen.mkw(split(m, c['at']))))
    T = sym.tensor(inp['src'], inp['rec'], c['f'], m, xdirect=True,
                   abs_=sym.group(c['ab']))
    s = np.max([np.abs(v) for v in T.values()], axis=0)
    sym.same(f"split at {c['at']}", c['ab'], a, b,
             np.maximum(s, np.abs(a)), 1e-5 + sym.tol(m))
    return sym.labels(c)


@st.composite
def case_bip(draw):
    c = draw(case(off=(100., 2000.)))
    c['dz'] = [draw(gen.un(-30, 30)), draw(gen.un(-30, 30))]
    c['msrc'], c['mrec'] = draw(st.booleans()), draw(st.booleans())
    c['t'] = draw(st.integers(0, 5)) == 5
    return c


@facet('split_bipole', case_bip(), quick=240, shards=3)
def split_bipole(c):
    """Finite bipoles crossing the fictitious interfaces; time domain."""
    if not c['at'] or not zero_ok(c):
        return None
    import empymod
    m = c['m']
    a, b = c['dz']
    src = [-10, 10, -5, 5, c['zs']-a, c['zs']+a+.5]
    x, y = c['xy']
    rec = [x-10, x+10, y-5, y+5, c['zr']-b, c['zr']+b+.5]
    kw = dict(src=src, rec=rec, freqtime=c['f'], srcpts=4, recpts=3, verb=0,
              msrc=c['msrc'], mrec=c['mrec'])
    if c['t']:
        kw['srcpts'] = kw['recpts'] = 1
        kw['freqtime'] = [1/(8*abs(f)) for f in c['f']]
        kw['signal'] = 0
    A = np.asarray(empymod.bipole(**kw, **gen.mkw(m)))
    B = np.asarray(empymod.bipole(**kw, **gen.mkw(split(m, c['at']))))
    if not np.all(np.isfinite(A)):
        return None
    T = sym.tensor([0, 0, c['zs']], [x, y, c['zr']], kw['freqtime'], m,
                   abs_=sym.GROUPS[c['mrec'], c['msrc']],
                   signal=kw.get('signal'))
    s = np.max([np.abs(v) for v in T.values()], axis=0)
    s = np.maximum(s, np.abs(A))
    if c['t']:
        s = s.max()
    sym.same(f"split at {c['at']}", (c['msrc'], c['mrec']), A, B, s,
             (1e-4 if c['t'] else 1e-6) + sym.tol(m))
    return sym.labels(c) + ['time' if c['t'] else 'frequency']
