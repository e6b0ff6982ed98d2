"""Random valid calls of the modelling routines as JSON-able descriptions, and
their evaluation with inputs in various forms.  Used by U01, U03, U04."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vf import gen

ROUT = ['dipole', 'bipole', 'analytical', 'dipole_k', 'gpr', 'ip_and_q',
        'loop', 'tmtemod']
HT = [('dlf', {}), ('dlf', {}), ('dlf', {'dlf': 'key_51_2012'}),
      ('dlf', {'dlf': 'kong_61_2007b', 'pts_per_dec': -1}),
      ('dlf', {'dlf': 'kong_61_2007b', 'pts_per_dec': 20}),
      ('qwe', {'rtol': 1e-6, 'atol': 1e-20, 'nquad': 21, 'maxint': 20}),
      ('qwe', {'rtol': 1e-6, 'atol': 1e-20, 'nquad': 21, 'maxint': 20,
               'pts_per_dec': 30}),
      ('qwe', {'rtol': 1e-6, 'nquad': 21, 'maxint': 20, 'diff_quad': 1}),
      ('quad', {'rtol': 1e-4, 'limit': 50, 'a': 1e-6, 'b': .1,
                'pts_per_dec': 20})]
FT = [('dlf', {'dlf': 'key_81_2009'}), ('dlf', {'dlf': 'key_81_2009',
                                               'pts_per_dec': 0}),
      ('dlf', {'dlf': 'key_81_2009', 'pts_per_dec': 10}),
      ('qwe', {'maxint': 30, 'pts_per_dec': 10}),
      ('fftlog', {}), ('fftlog', {'pts_per_dec': 5, 'q': .2,
                                  'add_dec': [-1, 1]}),
      ('fft', {'dfreq': .5, 'nfreq': 64, 'ntot': 256}),
      ('fft', {'dfreq': .5, 'nfreq': 64, 'pts_per_dec': 10})]


@st.composite
def call(draw, routs=tuple(ROUT), time=True):
    fn = draw(st.sampled_from(list(routs)))
    m = draw(gen.layers(1 if fn != 'tmtemod' else 2, 3, air=1e8, res=(.5, 100),
                        eps=0, thick=(10., 200.)))
    nr, ns = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    c = {'fn': fn, 'm': m, 'nr': nr, 'ns': ns,
         'f': [draw(gen.lg(.1, 10)) for _ in range(draw(st.integers(1, 3)))],
         'lap': draw(st.integers(0, 3)) == 0,
         'ab': draw(st.sampled_from(gen.ABS)),
         'sx': [draw(gen.un(-20, 20)) for _ in range(ns)],
         'sz': draw(gen.un(1, 300.)),
         'rx': [draw(gen.un(100, 900)) for _ in range(nr)],
         'ry': [draw(gen.un(-300, 300)) for _ in range(nr)],
         'rz': draw(gen.un(1, 300.)),
         'zz': draw(st.booleans()),
         'sfin': draw(st.booleans()), 'rfin': draw(st.booleans()),
         'ang': [draw(gen.un(0, 360)), draw(gen.un(-90, 90))],
         'msrc': draw(st.sampled_from([False, True, 'b'])),
         'mrec': draw(st.sampled_from([False, True, 'b', 'j', 'loop'])),
         'pts': [draw(st.sampled_from([1, 1, 3, 4])),
                 draw(st.sampled_from([1, 1, 3]))],
         'strength': draw(st.sampled_from([0, 0, 1.5, -2.])),
         'xd': draw(st.sampled_from([False, True, None])),
         'loop': draw(st.sampled_from([None, 'freq', 'off'])),
         'ht': draw(st.integers(0, len(HT)-1)),
         'ft': draw(st.integers(0, len(FT)-1)),
         'signal': None,
         'solution': draw(st.sampled_from(['fs', 'dfs', 'dhs', 'dsplit',
                                           'dtetm'])),
         'squeeze': draw(st.booleans()),
         'opt': draw(st.lists(st.sampled_from(
             ['aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']), unique=True)),
         'hook': draw(st.integers(0, 5)) == 0,
         'gain': draw(st.sampled_from([None, 1.])),
         'depth': draw(st.sampled_from(['', 'inc', 'dec', 'none']))}
    if time:
        c['signal'] = draw(st.sampled_from([None, None, None, 0, 1, -1,
                                            'wave']))
    return c


def f_eta(inp, p):
    return p['etaH']*inp['fact'], p['etaV']*inp['fact']


def build(c, as_list=False):
    """Positional-free keyword arguments; arrays of float by default, the
    form in which aliasing of the input is possible."""
    A = (lambda x: np.asarray(x).tolist()) if as_list else (
            lambda x: np.array(x, dtype=float))
    fn, m = c['fn'], {k: list(v) for k, v in c['m'].items()}
    if fn == 'tmtemod':
        m['depth'] = [0.] + [x-m['depth'][0]+30 for x in m['depth'][1:]]
    kw = {}
    # Model
    dep = m['depth']
    par = [k for k in ('res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')
           if k == 'res' or k in c['opt']]
    key = dict(res='res', aniso='aniso', epermH='eh', epermV='ev',
               mpermH='mh', mpermV='mv')
    vals = {k: m[key[k]] for k in par}
    if 'epermV' in vals and 'epermH' not in vals:
        vals.pop('epermV')
    if 'mpermV' in vals and 'mpermH' not in vals:
        vals.pop('mpermV')
    single = fn == 'analytical'
    if single:
        vals = {k: v[-1:] for k, v in vals.items()}
    elif fn == 'tmtemod':
        # One medium around source and receiver, isotropic mu
        vals = {k: v for k, v in vals.items() if k in ('res', 'aniso')}
        kw['depth'] = A(dep)
    else:
        if c['depth'] == 'dec' and len(dep) > 1:
            dep = dep[::-1]
            vals = {k: v[::-1] for k, v in vals.items()}
        elif c['depth'] == 'inc':
            dep = [-np.inf] + dep
        kw['depth'] = A(dep)
    kw.update({k: A(v) for k, v in vals.items()})
    if c['hook'] and fn in ('dipole', 'bipole', 'loop', 'gpr') or \
            c['hook'] and single and c['solution'] == 'fs':
        kw['res'] = {'res': kw['res'], 'func_eta': f_eta,
                     'fact': A([1.5]*len(vals['res']))}
    # Survey
    n, nr = c['ns'], c['nr']
    sx, rx, ry = A(c['sx']), A(c['rx']), A(c['ry'])
    rz = c['rz'] if abs(c['rz']-c['sz']) > .5 else c['sz'] + 1.
    sz = c['sz']
    if fn == 'tmtemod':
        sz, rz = (abs(x) % 20 + 5 for x in (sz, rz))
        if abs(sz-rz) < .5:
            rz += 1.
        n = 1
        sx = A(c['sx'][:1])
        kw['rec'] = [A([rx[0]]), A([ry[0]]), A([rz])]
        kw['src'] = [sx, A([0.]), A([sz])]
        kw['freqtime'] = A(c['f'][:1])
        kw['verb'] = 0
        return kw
    zz = c['zz']
    if fn in ('bipole', 'loop'):
        if c['sfin'] and fn == 'bipole':
            src = [sx, A(np.array(sx)+15), A([0.]*n), A([4.]*n),
                   A([sz+i for i in range(n)]) if zz else A([sz]),
                   A([sz+i for i in range(n)]) if zz else A([sz])]
        else:
            src = [sx, A([0.]*n), A([sz+i for i in range(n)]) if zz else sz,
                   c['ang'][0], A([c['ang'][1]])]
        if c['rfin']:
            rec = [rx, A(np.array(rx)+10), ry, ry, A([rz]), A([rz+5])]
        else:
            rec = [rx, ry, A([rz+2*i for i in range(nr)]) if zz else rz,
                   A([20.]), c['ang'][1]]
        kw.update(recpts=c['pts'][1], mrec=c['mrec'], strength=c['strength'])
        if fn == 'bipole':
            kw.update(msrc=c['msrc'], srcpts=c['pts'][0])
    else:
        src = [sx, A([0.]*n), A([sz])]
        rec = [rx, ry, A([rz])]
    kw.update(src=src, rec=rec)
    ab = c['ab']
    if fn == 'ip_and_q':
        ab = [44, 45, 46, 54, 55, 56, 64, 65, 66][ab % 9]
    if single and c['solution'] != 'fs':
        ab = [11, 12, 13, 21, 22, 23, 31, 32, 33][ab % 9]
    if fn not in ('bipole', 'loop'):
        kw['ab'] = ab
    # Frequency or time
    f = [-x if c['lap'] else x for x in c['f']]
    sig = c['signal']
    if fn == 'dipole_k':
        kw['freq'] = A(f)
        kw['wavenumber'] = np.array([1e-3, 1e-2, .1])
    elif fn == 'gpr':
        kw['freqtime'] = A([1/(6*x) for x in c['f']])
        kw['cf'] = c['f'][0]
        kw['gain'] = c['gain']
        kw['ft'], kw['ftarg'] = FT[c['ft']][0], dict(FT[c['ft']][1])
    elif sig is None or fn == 'ip_and_q':
        kw['freqtime'] = A([abs(x) for x in f] if fn == 'ip_and_q' else f)
    else:
        t = [1/(6*x) for x in c['f']]
        if sig == 'wave' and single:
            sig = 0
        if sig == 'wave':
            sig = {'nodes': np.array([0, .3, .6])*min(t),
                   'amplitudes': np.array([0., 1., 0.])}
            if as_list:
                sig = {k: v.tolist() for k, v in sig.items()}
        if single and c['solution'] == 'fs':
            sig = None
        kw['freqtime'] = A(t if sig is not None else f)
        kw['signal'] = sig
        if not single:
            kw['ft'], kw['ftarg'] = FT[c['ft']][0], dict(FT[c['ft']][1])
    if single:
        kw.update(solution=c['solution'], squeeze=c['squeeze'])
    if fn in ('dipole', 'bipole', 'loop', 'gpr'):
        kw.update(xdirect=c['xd'], loop=c['loop'])
        ht, ha = HT[c['ht']]
        if (fn == 'gpr' or kw.get('signal') is not None) and ht != 'dlf':
            ht, ha = HT[0]      # Quadratures are slow in time
        kw.update(ht=ht, htarg=dict(ha))
        if fn != 'gpr':
            kw['squeeze'] = c['squeeze']
    if fn == 'ip_and_q':
        kw['scale'] = 1e6
    return kw


def evaluate(fn, kw, verb=0):
    """Returns arrays (list), printed text."""
    import empymod
    from empymod.scripts import tmtemod
    kw = dict(kw)
    out = io.StringIO()
    f = tmtemod.dipole if fn == 'tmtemod' else getattr(empymod, fn, None)
    if f is None:
        f = getattr(empymod.model, fn)
    if 'verb' in kw:
        verb = kw.pop('verb') if fn == 'tmtemod' else verb
    with contextlib.redirect_stdout(out):
        r = f(verb=verb, **kw)
    if isinstance(r, (tuple, list)):
        r = list(np.array(x) for x in r)
    else:
        r = [np.array(r)]
    return r, out.getvalue()


def label(c):
    kw = build(c)
    s = kw.get('signal')
    return [c['fn'], 'wave' if isinstance(s, dict) else
            'time' if s is not None else 'freq', kw.get('ht', '-'),
            'hook' if isinstance(kw.get('res'), dict) else 'plain']


def warm():
    """Run one call of most kinds, so that forked children start compiled."""
    import itertools
    base = {'m': {'depth': [0., 50.], 'res': [1e8, 1., 10.],
                  'aniso': [1., 1.5, 1.], 'eh': [1., 2., 1.],
                  'ev': [1., 2., 1.], 'mh': [1., 1., 2.], 'mv': [1., 1., 2.]},
            'nr': 2, 'ns': 2, 'f': [1., 3.], 'sx': [0., 1.], 'sz': 10.,
            'rx': [300., 400.], 'ry': [10., -20.], 'rz': 60., 'zz': True,
            'sfin': False, 'rfin': True, 'ang': [20., 30.], 'msrc': False,
            'mrec': False, 'pts': [1, 1], 'strength': 0, 'xd': False,
            'loop': None, 'ft': 0, 'solution': 'dhs', 'squeeze': True,
            'opt': ['aniso'], 'hook': False, 'gain': None}
    for fn, lap, sig, ht, dep, ab in itertools.chain(
            itertools.product(ROUT, (False, True), (None,), (0,), ('',),
                              (11,)),
            itertools.product(('dipole',), (False, True), (None,), (0,),
                              ('dec',), (11, 46)),
            itertools.product(('dipole', 'bipole', 'analytical'), (False,),
                              (1, 'wave'), (0,), ('',), (11,)),
            itertools.product(('dipole',), (False, True), (None,),
                              range(1, len(HT)), ('',), (11,))):
        c = {**base, 'fn': fn, 'lap': lap, 'signal': sig, 'ht': ht,
             'depth': dep, 'ab': ab, 'xd': ab == 46}
        try:
            evaluate(fn, build(c))
        except Exception:
            pass
    for ft in range(1, len(FT)):
        try:
            evaluate('dipole', build({
                **base, 'fn': 'dipole', 'lap': False, 'signal': 0, 'ht': 0,
                'depth': '', 'ab': 11, 'ft': ft}))
        except Exception:
            pass
