D = {}
D['W01'] = '''
gen: 1-7 layers with VTI sigma, eps, mu, zero-thickness layers, source/receiver
anywhere incl. on interfaces, real frequency or Laplace, wavenumbers over ten
decades, all 36 types.  oracle: `ref.solve` (global system) for `dipole_k`, for
`kernel.wavenumber` with and without direct field; vectorised = one by one.
tol: 1e-7 of the magnitude of contributing waves.  why: every branch of the
recursions (above/below/in layer, first/last layer) times type; tests have a few
stored models.'''
D['W02'] = '''
gen: as W01, plus offset/azimuth.  oracle: wavenumber integration of `ref.solve`
with Bessel functions and angle factors derived from the Cartesian tensor; direct
field in either domain and left out.  tol: 1e-3 of the integral of the absolute
integrand (default filter); 1e-9 relations between the direct-field options.'''
D['F01'] = '''
gen: homogeneous VTI media (eps, mu too), positions, frequency/Laplace, types.
oracle: closed-form isotropic tensor (1e-8), wavenumber integration for VTI
(1e-6), the modeller for the medium cut in fictitious layers (1e-4).'''
D['S01'] = '''
gen: layered models, pairs of positions, all types; rotated and finite bipoles;
times and signals.  oracle: the exchanged experiment.  tol: 1e-6..1e-9 of the
largest component.  why: exchanges the up/down branches and the
magnetic/electric mapping of `check_ab`.'''
D['S02'] = '''
gen: shift, rotation, mirror planes, reversed depth order applied to random
experiments.  oracle: tensor transformation of the other run.  tol: 1e-7 of the
field magnitude (positions of finite bipoles on the millimetre grid).'''
D['S03'] = '''
gen: random models, any number of extra interfaces in any layer (also at
source/receiver depth, zero thickness), types, signals, direct field options,
bipoles.  oracle: the unsplit model.  tol: 1e-9 kernel noise scale, the transform
accuracy when a homogeneous model becomes a layered one.'''
D['S04'] = '''
gen: scale factors for lengths, conductivities, frequencies/times; duality
(eta <-> zeta).  oracle: powers given by Maxwell's equations.  tol: 1e-8 when the
same wavenumbers result; duality through func_eta/func_zeta-free parameters.'''
D['S05'] = '''
gen: models, interface, wavenumber, source type.  oracle: one-sided limits of
E_tan, H_tan, J_z, B_z in the wavenumber domain; layer assignment on an interface
(layer above); continuity across the depth of the source away from it.'''
D['A01'] = '''
gen: VTI half-spaces, positions, s/f/t, solutions dfs, dhs, dsplit, dtetm, all
signals.  oracle: wavenumber integration by mode; numerical Laplace transform of
the time-domain solution against its Laplace-domain value; modeller; one by one.
tol: 1e-6, 1e-3, 2e-2.'''
D['B01'] = '''
gen: angles incl. multiples of 90 degrees and mixtures of them, finite bipoles
crossing interfaces, several bipoles at different depths, srcpts/recpts 1-6,
strength of both signs, msrc/mrec incl. loop and j.  oracle: explicit
Gauss-Legendre sum of direction cosines times `dipole` responses times factor of
loop/current density; A-C = A-B + B-C.  tol: 1e-6 + 2 mm/distance.'''
D['V01'] = '''
gen: sources x receivers x frequencies/times x depths (mixtures) x loop x squeeze
x transform; dipole, bipole.  oracle: the separate calls at the documented index;
re-written notations.  tol: 1e-9 of the magnitude (standard), interpolation
accuracy (lagged/splined).'''
D['H01'] = '''
gen: DLF (ten filters; standard, lagged, splined), QWE (with/without spline, with
fallback to quad), QUAD with settings; several offsets.  oracle: wavenumber
integration of `ref.solve`; flag: insufficient settings must warn, a call warns
iff one of its elements does; `transform.quad` = sum of the integrals.'''
D['H02'] = '''
gen: kernels from closed-form pairs (j0, j1, j2-type, sin, cos), every filter,
variant, angle factors (mixed), unordered points.  oracle: the closed forms;
tol: per filter (10 times observed).'''
D['T01'] = '''
gen: sums of causal exponential-polynomial signals, times, all methods and
settings (n even/odd, bias q, ntot, pts_per_dec).  oracle: exact time signals for
DLF/QWE; the discrete Hankel/Fourier sums (explicit O(n^2)) for FFTLog and FFT.'''
D['T02'] = '''
gen: waveforms with any number of nodes, ramps, plateaus, tiny and huge scales,
times before/at/in/after segments.  oracle: exact convolution of polynomials with
the quadrature order that integrates them; API: bipole with waveform = sum;
relations between impulse and step responses.'''
D['I01'] = '''
gen: func_eta, func_zeta (also frequency dependent, extra parameters per layer,
decreasing depths), band-pass functions; routines.  oracle: same model by direct
parameters; Cole-Cole evaluated frequency by frequency with constant models;
band-pass applied outside.'''
D['G01'] = '''
gen: gpr, ip_and_q, loop, old signatures.  oracle: pulse from the closed form,
composition of public pieces, definition of the ratio (primary closed form),
replacement plus DeprecationWarning.'''
D['E01'] = '''
gen: arrays of 0-3 dimensions, any dtype/layout, options.  oracle: |z|, arg by
math, own unwrapping; amp*exp(i pha)=z; no modification.'''
D['U01'] = '''
gen: a random valid call of any routine; re-written in equivalent notation; or
corrupted by one of about 60 corruptions.  oracle: same numbers; or exception.'''
D['U02'] = '''
gen: sequences of set/get (stateful model), calls with values below/at/above the
minima.  oracle: dict model; replaced call; exact report.'''
D['U03'] = '''
gen: random calls and building blocks; histories of calls incl. failing ones;
thread groups.  oracle: bit-wise snapshots of every argument before/after, fresh
process (`vf/child.py`) for the same call, memory sharing.'''
D['U04'] = '''
gen: random calls at verb 0-4.  oracle: equality of results, output by level,
parsing of reported values.'''
D['P01'] = '''
gen: arrays (complex, nan/inf, denormal, any layout) and inputs, file names,
options.  oracle: bit patterns after loading, header; same result of the routine;
refusal leaves no file.'''
D['P02'] = '''
gen: input files for all routines, formats, output options; invalid commands.
oracle: the routine called directly; exit status; real subprocesses (facet
program) and in-process main.'''
D['D01'] = '''
gen: order and way of access of library filters; own filters written/read at
random paths; use in calls.  oracle: libdlf, bit patterns, closed-form pairs.'''
D['D02'] = '''
gen: parameters and arguments (any shape) of analytical pairs; layered models for
numerical ones.  oracle: numerical integration of the left-hand side.'''
D['D03'] = '''
gen: designs (n, spacing/shift grids, one to three pairs, criteria, check points,
own pairs), options that must not matter, saving.  oracle: own base, residuals
against the best least squares, own grid search, round trip.'''
D['M01'] = '''
gen: layered models, survey in one layer.  oracle: own transmission line for
TM/TE up/down contributions without the zero-wavenumber part; total of dipole;
unsupported input refused.'''
D['R01'] = '''
gen: random calls of all routines and options (`vf/props/calls.py`); extreme
models and surveys in log-uniform ranges.  oracle: invariant of the result (shape
from the sizes of the input, class, dtype, finite, not a view of an argument).
Outside: layers of exactly zero thickness with contrasts of 1e15 (0/0 in floats),
and closed-form impulse responses further than ~1e4 diffusion lengths (scipy's
`ive` returns NaN).'''
