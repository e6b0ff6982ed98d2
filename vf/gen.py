"""Generators (hypothesis strategies) of JSON-able cases, and small helpers."""
import numpy as np
from hypothesis import strategies as st

ABS = [r*10+s for r in range(1, 7) for s in range(1, 7)]
ABS34 = [ab for ab in ABS if ab not in (36, 63)]


def r4(x):
    return float(f'{x:.4g}')


def lg(lo, hi, n=400):
    """Log-uniform on a grid of n steps, four digits; shrinks to `lo`."""
    a, b = np.log(lo), np.log(hi)
    return st.integers(0, n).map(
        lambda i: r4(float(np.exp(a + (b-a)*i/n))))


def un(lo, hi, n=1000):
    """Uniform on a grid of n steps; shrinks to lo."""
    return st.integers(0, n).map(lambda i: r4(lo + (hi-lo)*i/n))


def pm(lo, hi):
    """+- uniform with |x| in [lo, hi] (log)."""
    return st.tuples(st.sampled_from([1, -1]), lg(lo, hi)).map(
        lambda t: t[0]*t[1])


@st.composite
def layers(draw, nmin=1, nmax=6, air=1e8, res=(.05, 2e3), vti=True, eps=80.,
           perm=True, thick=(.5, 500.), zero_thick=False,
           airvac=False):
    """Model dictionary."""
    nl = draw(st.integers(nmin, nmax))
    top = draw(st.sampled_from([0., 0., 0., 100., -35.5]))
    lo = 0 if zero_thick else None
    th = [0. if lo == 0 and draw(st.integers(0, 2)) == 0
          else draw(lg(*thick)) for _ in range(max(0, nl-2))]
    depth = [r4(top + sum(th[:i])) for i in range(nl-1)]
    r = [draw(lg(*res)) for _ in range(nl)]
    if air and nl > 1 and draw(st.booleans()):
        r[0] = float(air)
    m = {'depth': depth, 'res': r}
    one = [1.]*nl

    def par(on, strat):
        if not on or draw(st.integers(0, 2)) == 0:
            return list(one)
        return [draw(strat) for _ in range(nl)]
    m['aniso'] = par(vti, lg(.35, 4.))
    m['eh'] = par(eps, un(0., eps or 1))
    m['ev'] = (par(eps, un(0., eps or 1)) if vti and draw(st.booleans())
               else list(m['eh']))
    m['mh'] = par(perm, lg(.5, 8.))
    m['mv'] = (par(perm, lg(.5, 8.)) if vti and draw(st.booleans())
               else list(m['mh']))
    if nl > 1 and draw(st.integers(0, 7)) == 0:
        # A single property varies
        which = draw(st.sampled_from(['res', 'aniso', 'eh', 'ev', 'mh', 'mv']))
        for k in ('res', 'aniso', 'eh', 'ev', 'mh', 'mv'):
            if k != which and (vti or k[0] != which[0]):
                m[k] = [m[k][-1]]*nl
    if airvac and r[0] == air:
        for k in ('eh', 'ev', 'mh', 'mv'):
            m[k][0] = 1.
    return m


@st.composite
def zin(draw, depth, spread=100., on_if=True):
    """A z anywhere in the model; sometimes exactly on an interface."""
    d = list(depth)
    i = draw(st.integers(0, len(d)))
    if on_if and d and draw(st.integers(0, 4)) == 0:
        return d[min(i, len(d)-1)]
    f = draw(un(.01, .99, 98))
    if not d:
        return r4(-spread + 2*spread*f)
    if i == 0:
        return r4(d[0] - spread*f)
    if i == len(d):
        return r4(d[-1] + spread*f)
    a, b = d[i-1], d[i]
    return float(f'{a + (b-a)*f:.6g}')


def freqs(lo=1e-2, hi=1e4, laplace=True):
    f = lg(lo, hi)
    if not laplace:
        return f
    return st.tuples(st.integers(0, 3), f).map(
        lambda t: -t[1] if t[0] == 3 else t[1])


def hor(lo, hi):
    """Horizontal (dx, dy) given by offset and angle; principal directions
    included."""
    return st.tuples(lg(lo, hi), st.one_of(
        un(0, 360, 720), st.sampled_from([0., 90., 180., 270., 45.]))).map(
        lambda t: [r6(t[0]*np.cos(np.deg2rad(t[1]))),
                   r6(t[0]*np.sin(np.deg2rad(t[1])))])


def r6(x):
    x = float(x)
    return 0. if abs(x) < 1e-9 else float(f'{x:.6g}')


def mkw(m):
    """Keyword arguments of a model for empymod."""
    return {'depth': m['depth'], 'res': m['res'], 'aniso': m['aniso'],
            'epermH': m['eh'], 'epermV': m['ev'], 'mpermH': m['mh'],
            'mpermV': m['mv']}


def depth_forms(depth):
    """Strategy index -> equivalent ways to write the depths."""
    return st.sampled_from(['as', 'array', '-inf', 'inf', 'both'])


def write_depth(depth, form):
    d = list(depth)
    if form == 'array':
        return np.array(d, dtype=float)
    if form == '-inf':
        return [-np.inf] + d
    if form == 'inf':
        return d + [np.inf]
    if form == 'both':
        return [-np.inf] + d + [np.inf]
    return d


def ez(m, f):
    from vf import ref
    return ref.eta_zeta(f, m['res'], m['aniso'], m['eh'], m['ev'], m['mh'],
                        m['mv'])
