"""Independent reference solutions of Maxwell's equations in layered VTI media.

Conventions: z positive downwards (the RHS/LHS question only reverses y),
time factor e^{+i w t},

    -curl H + eta E = -J ,     curl E + zeta H = -M ,

eta_h,v = sigma_h,v + s eps_h,v, zeta_h,v = s mu_h,v.  Spatial transform:
F(x) = 1/(2 pi)^2 int F(k) exp(-i k.x) d2k.  In a frame (u, v, z) with u along
k, TM = (Eu, Ez, Hv) and TE = (Ev, Hu, Hz) decouple into first-order systems

    d/dz Eu = -(zeta_h + k^2/eta_v) Hv - Mv + i k Jz/eta_v
    d/dz Hv = -eta_h Eu - Ju
    d/dz Ev = zeta_h Hu + Mu
    d/dz Hu = (eta_h + k^2/zeta_v) Ev + Jv + i k Mz/zeta_v

Nothing here follows the reflection-coefficient recursions of the code under
test: one linear system for all up- and downgoing amplitudes is solved.
"""
import numpy as np
from scipy import special

C = 299792458.
MU0 = 4e-7*np.pi
EPS0 = 1/(MU0*C*C)


def eta_zeta(freq, res, aniso, eh, ev, mh, mv):
    """freq < 0 is Laplace: s = -freq.  Arrays over layers."""
    freq = np.asarray(freq, float)
    s = 2j*np.pi*freq if freq > 0 else -freq
    res, aniso = np.asarray(res, float), np.asarray(aniso, float)
    return (1/res + s*EPS0*np.asarray(eh, float),
            1/(res*aniso**2) + s*EPS0*np.asarray(ev, float),
            s*MU0*np.asarray(mh, float), s*MU0*np.asarray(mv, float))


def _mode(z_if, A, B, zs, zr, jump1, jump2, ls, lr, direct):
    """Solve d/dz f = -A g, d/dz g = -B f; jumps (f, g) at zs.

    A, B: (nk, nlayer); z_if: (nlayer-1,) interfaces.
    jump1, jump2: (nk,).  Returns f, g at zr in layer lr: (nk,)
    If zr == zs, the value is that at zr -> zs from `below` and `above`
    averaged (principal value).
    Also returns the magnitude of the contributing waves, for tolerances.
    """
    nk, nl = A.shape
    gam = np.sqrt(A*B)
    gam = np.where(gam.real < 0, -gam, gam)
    Y = B/gam          # g = Y f for downgoing (+z), -Y f for upgoing
    # Work in the layer of the source: particular solution
    # f_p(z) = +-0.5 ..., i.e. direct field
    #   z > zs: f = d e^{-gam (z-zs)}, g = Y f;   z < zs: f = u e^{gam (z-zs)},
    #   g = -Y f; f jump: d - u = j1; g jump: Y (d + u) = j2
    gs, Ys = gam[:, ls], Y[:, ls]
    d = (jump2/Ys + jump1)/2
    u = (jump2/Ys - jump1)/2

    def direct_at(z):
        dz = z - zs
        if dz > 0:
            f = d*np.exp(-gs*dz)
            return f, Ys*f
        elif dz < 0:
            f = u*np.exp(gs*dz)
            return f, -Ys*f
        return (d+u)/2, Ys*(d-u)/2

    f = np.zeros(nk, complex)
    g = np.zeros(nk, complex)
    # Round-off of the linear system: relative to the source's amplitude.
    mag = 1e-9*(np.abs(d)+np.abs(u))
    Yr = Y[:, lr]
    if nl > 1:
        # Unknowns: per layer downgoing a_i (ref. top), upgoing b_i
        # (ref. bottom).  Homogeneous part only.
        n = 2*nl
        M = np.zeros((nk, n, n), complex)
        rhs = np.zeros((nk, n), complex)
        M[:, 0, 0] = 1            # a_0 = 0
        M[:, n-1, n-1] = 1        # b_last = 0
        for i in range(nl-1):     # interface between i and i+1
            z = z_if[i]
            r = 1 + 2*i
            # scale for second row: 1/Y of one side
            sc = 1/np.sqrt(np.abs(Y[:, i]*Y[:, i+1]))
            ei = (np.exp(-gam[:, i]*(z - z_if[i-1])) if i > 0
                  else np.zeros(nk))
            ej = (np.exp(-gam[:, i+1]*(z_if[i+1] - z)) if i+1 < nl-1
                  else np.zeros(nk))
            M[:, r, 2*i] = ei
            M[:, r, 2*i+1] = 1
            M[:, r, 2*i+2] = -1
            M[:, r, 2*i+3] = -ej
            M[:, r+1, 2*i] = ei*Y[:, i]*sc
            M[:, r+1, 2*i+1] = -Y[:, i]*sc
            M[:, r+1, 2*i+2] = -Y[:, i+1]*sc
            M[:, r+1, 2*i+3] = ej*Y[:, i+1]*sc
            if i == ls:           # source layer is above this interface
                df, dg = direct_at(z) if z != zs else (d, Ys*d)
                rhs[:, r] -= df
                rhs[:, r+1] -= dg*sc
            if i+1 == ls:         # source layer is below
                df, dg = direct_at(z) if z != zs else (u, -Ys*u)
                rhs[:, r] += df
                rhs[:, r+1] += dg*sc
        x = np.linalg.solve(M, rhs[:, :, None])[:, :, 0]
        gr = gam[:, lr]
        if lr > 0:
            dn = x[:, 2*lr]*np.exp(-gr*(zr - z_if[lr-1]))
            f += dn
            g += Yr*dn
            mag = mag + np.abs(dn)
        if lr < nl-1:
            up = x[:, 2*lr+1]*np.exp(-gr*(z_if[lr] - zr))
            f += up
            g -= Yr*up
            mag = mag + np.abs(up)
    if direct and ls == lr:
        df, dg = direct_at(zr)
        f += df
        g += dg
    if ls == lr:   # (without direct field: what was cancelled)
        mag = mag + np.maximum(np.abs(d), np.abs(u))*np.exp(
                -gs.real*abs(zr-zs))
    return f, g, mag, np.abs(Yr)*mag


def layer_of(z, z_if):
    """Layer number; a point on an interface belongs to the layer above."""
    return int(np.searchsorted(np.asarray(z_if, float), z, side='left'))


def green_k(k, z_if, etaH, etaV, zetaH, zetaV, zs, zr, direct=True,
            only=None):
    """All Green's functions in the (u, v, z) frame.

    Returns dict {(rec, src): (value, magnitude)} for rec in Eu Ev Ez Hu Hv Hz and
    src in Ju Jv Jz Mu Mv Mz (non-zero ones only).
    """
    k = np.asarray(k, float)
    z_if = np.asarray(z_if, float)
    ls, lr = layer_of(zs, z_if), layer_of(zr, z_if)
    etaH, etaV, zetaH, zetaV = (np.asarray(x, complex)[None, :]
                                for x in (etaH, etaV, zetaH, zetaV))
    k2 = (k*k)[:, None]
    one, zero = np.ones_like(k, complex), np.zeros_like(k, complex)
    ik = 1j*k
    out = {}
    # TM: f=Eu, g=Hv; A = zetaH + k2/etaV, B = etaH
    A, B = zetaH + k2/etaV, etaH + 0*k2
    for src, j1, j2 in (('Ju', zero, -one), ('Mv', -one, zero),
                        ('Jz', ik/etaV[0, ls], zero)):
        f, g, mf, mg = _mode(z_if, A, B, zs, zr, j1, j2, ls, lr, direct)
        out['Eu', src] = f, mf
        out['Hv', src] = g, mg
        out['Ez', src] = -ik*g/etaV[0, lr], np.abs(ik*mg/etaV[0, lr])
    # TE: f=Ev, g=-Hu: d/dz Ev = -zetaH (-Hu) + Mu;
    #   d/dz (-Hu) = -(etaH + k2/zetaV) Ev - Jv - ik Mz/zetaV
    A, B = zetaH + 0*k2, etaH + k2/zetaV
    for src, j1, j2 in (('Jv', zero, -one), ('Mu', one, zero),
                        ('Mz', zero, -ik/zetaV[0, ls])):
        f, g, mf, mg = _mode(z_if, A, B, zs, zr, j1, j2, ls, lr, direct)
        out['Ev', src] = f, mf
        out['Hu', src] = -g, mg
        out['Hz', src] = ik*f/zetaV[0, lr], np.abs(ik*mf/zetaV[0, lr])
    return out


# harmonics e^{i n phi}: {n: coeff} of cos phi, sin phi, -sin phi, 1
_COS = {1: .5, -1: .5}
_SIN = {1: -.5j, -1: .5j}
_NSIN = {1: .5j, -1: -.5j}
_ONE = {0: 1.}
# Component (1, 2, 3) of a vector (u, v, z): list of (axis, harmonic)
_PROJ = {1: [('u', _COS), ('v', _NSIN)], 2: [('u', _SIN), ('v', _COS)],
         3: [('z', _ONE)]}


def harmonics(ab, G):
    """{n: (nk,)} azimuthal harmonics of component ab (11..66), and scale."""
    rec, src = ab//10, ab % 10
    rt, st = ('E' if rec < 4 else 'H'), ('J' if src < 4 else 'M')
    rc, sc = (rec-1) % 3+1, (src-1) % 3+1
    out, scale = {}, 0
    for ra, rh in _PROJ[rc]:
        for sa, sh in _PROJ[sc]:
            g = G.get((rt+ra, st+sa))
            if g is None:
                continue
            g, mag = g
            scale = scale + mag
            for n1, c1 in rh.items():
                for n2, c2 in sh.items():
                    out[n1+n2] = out.get(n1+n2, 0) + c1*c2*g
    return out, scale


def pj(ab, k, G, off, theta):
    """PJ0, PJ1 (coefficients of J0(k r) and J1(k r)), and their scales."""
    har, scale = harmonics(ab, G)
    p0, p1 = np.zeros(k.size, complex), np.zeros(k.size, complex)
    for n, c in har.items():
        # (-i)^n J_n e^{in theta}; J_{-n} = (-1)^n J_n
        c = c*(-1j)**n*np.exp(1j*n*theta)*k/(2*np.pi)
        if n < 0:
            c = c*(-1)**n
        if n == 0:
            p0 = p0 + c
        elif abs(n) == 1:
            p1 = p1 + c
        else:
            p0 = p0 - c
            p1 = p1 + 2*c/(k*off)
    s = scale*k/(2*np.pi)
    return p0, p1, s, s*(2/(k*off) if 2 in har else 1)


def r6(x):
    return float(f'{x:.6g}')


def panels(kmax, off, klow, branch=()):
    """Composite Gauss-Legendre nodes on (0, kmax)."""
    nlog = max(2, int(np.ceil(np.log10(kmax/klow)*4)))
    e = np.r_[0, np.logspace(np.log10(klow), np.log10(kmax), nlog+1)]
    step = np.pi/off
    # Refine around branch points (weakly attenuated waves).
    for b in branch:
        if klow < b < kmax:
            w = b*2.**-np.arange(1, 34)
            e = np.r_[e, b, b-w, b+w]
    e = np.unique(e[e <= kmax*(1+1e-9)])
    edges = [0.]
    for a, b in zip(e[:-1], e[1:]):
        m = max(1, int(np.ceil((b-a)/step)))
        edges.extend(list(a + (b-a)*np.arange(1, m+1)/m))
    edges = np.array(edges)
    x, w = np.polynomial.legendre.leggauss(12)
    h = np.diff(edges)/2
    c = (edges[1:]+edges[:-1])/2
    return (c[:, None]+h[:, None]*x).ravel(), (h[:, None]*w).ravel()


def space(abs_, z_if, ez, zs, zr, off, theta, direct=True, decay=None):
    """Space-frequency responses {ab: (value, scale)} by direct quadrature.

    The integrands must decay like exp(-k*decay)."""
    kmax = 42/decay
    eH, eV, zH, zV = (np.atleast_1d(np.asarray(x, complex)) for x in ez)
    kb = np.r_[np.sqrt(-zH*eV), np.sqrt(-eH*zV)]
    kb = np.unique([r6(abs(b.real)) for b in kb
                    if abs(b.imag) < .3*abs(b.real)])
    k, w = panels(kmax, off, min(1e-9, kmax*1e-6), kb)
    G = green_k(k, z_if, *ez, zs, zr, direct)
    j0, j1 = special.j0(k*off), special.j1(k*off)
    out = {}
    for ab in abs_:
        p0, p1, s0, s1 = pj(ab, k, G, off, theta)
        v = np.sum(w*(p0*j0 + p1*j1))
        sc = np.sum(w*(s0*np.abs(j0) + s1*np.abs(j1)))
        out[ab] = (v, sc)
    return out


def fullspace(ab, dx, dy, dz, etaH, etaV, zetaH, zetaV):
    """Closed-form VTI whole-space Green's function by a different route.

    Uses potentials evaluated with complex-step free analytic derivatives:
    isotropic case only (etaH==etaV, zetaH==zetaV)."""
    assert etaH == etaV and zetaH == zetaV
    eta, zeta = complex(etaH), complex(zetaH)
    g = np.sqrt(eta*zeta)
    if g.real < 0:
        g = -g
    r = np.array([dx, dy, dz], float)
    R = np.linalg.norm(r)
    n = r/R
    G = np.exp(-g*R)/(4*np.pi*R)
    # Hessian and gradient of G
    grad = -n*(g + 1/R)*G
    hess = G*(np.outer(n, n)*(g*g + 3*g/R + 3/R**2)
              - np.eye(3)*(g/R + 1/R**2))
    rec, src = ab//10, ab % 10
    a, b = (rec-1) % 3, (src-1) % 3
    eps = np.zeros((3, 3, 3))
    for i, j, m in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        eps[i, j, m], eps[j, i, m] = 1, -1
    curl = np.einsum('ajb,j->ab', eps, grad)   # (curl (G e_b))_a
    if rec < 4 and src < 4:
        return -zeta*G*(a == b) + hess[a, b]/eta
    if rec > 3 and src > 3:
        return -eta*G*(a == b) + hess[a, b]/zeta
    if rec > 3:      # H from J: H = curl G J
        return curl[a, b]
    return -curl[a, b]   # E from M: E = -curl G M
