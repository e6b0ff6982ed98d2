"""Texts of the properties; `tools/generate.py` writes properties.jsonl and
MANIFEST.json from it."""
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, tech, note='',
         observe=('return values of the public functions',)):
    P[id] = dict(title=title, statement=statement, over=over, text=text,
                 why=why, files=files, mechanism=mechanism, tech=tech,
                 note=note, observe=list(observe))


KER, TRA, UTI, MOD = ('empymod/kernel.py', 'empymod/transform.py',
                      'empymod/utils.py', 'empymod/model.py')

prop('W01', 'Wavenumber-domain kernel solves the layered Maxwell problem',
     'For every horizontally layered VTI model, source/receiver depth, '
     'frequency (real or Laplace), wavenumber and each of the 36 '
     'source-receiver types, the wavenumber-domain response returned by '
     'dipole_k (and the kernel behind it) equals the solution of the '
     "boundary-value problem of Maxwell's equations in that model, with and "
     'without the direct field. Evaluating several frequencies, offsets or '
     'wavenumbers at once gives what evaluating them one by one gives.',
     ['inputs', 'configurations'],
     'all models (1-n layers, anisotropic sigma, eps, mu, zero-thickness '
     'layers), all positions incl. on interfaces, all wavenumbers',
     'Tests compare a handful of fixed models with stored numbers of an '
     'earlier version; the statement is over every model and wavenumber.',
     [KER, MOD],
     [('recursive reflection coefficients, up- and downgoing fields',
       'empymod/kernel.py:reflections, fields, greenfct'),
      ('assembly of the components', 'empymod/kernel.py:wavenumber'),
      ('wavenumber-domain modeller', 'empymod/model.py:dipole_k')],
     'property-based testing against an independent boundary-value solver',
     'Generated models against a dense global linear system; tolerance '
     'relative to the contributing wave magnitudes.')

prop('W02', 'Frequency-domain dipole responses solve the layered problem in space',
     'For every layered VTI model and each of the 36 source-receiver types, '
     'the frequency- or Laplace-domain response of dipole equals, within the '
     'accuracy of the chosen Hankel transform, the wavenumber integral of the '
     "solution of Maxwell's equations. Whether the direct field is computed "
     'in the wavenumber or in the space domain makes no difference, and '
     'leaving it out removes exactly the direct field.',
     ['inputs', 'configurations'],
     'all models, positions, frequencies and source-receiver types',
     'Tests hold a few stored responses; the angle factors, combinations of '
     'Bessel functions and direct-field options multiply to far more cases.',
     [KER, TRA, MOD],
     [('angle factors', 'empymod/kernel.py:angle_factor'),
      ('combination of the kernels', 'empymod/transform.py:dlf, '
       'hankel_dlf, hankel_qwe, hankel_quad'),
      ('direct field in the frequency domain', 'empymod/model.py:fem')],
     'property-based testing against independent numerical integration',
     'Composite Gauss-Legendre integration of the independent solution.')

prop('F01', 'Closed-form full-space solution is exact and used consistently',
     'The analytical full-space solution equals the Green tensor of a '
     'homogeneous (VTI) medium for all 36 source-receiver types, positions, '
     'frequencies and Laplace parameters. The modeller returns the same for '
     'any homogeneous model, however it is layered.',
     ['inputs'], 'all homogeneous VTI media, positions, frequencies and '
     'source-receiver types',
     'Tests compare a few fixed positions with stored numbers.',
     [KER, MOD],
     [('closed-form solution', 'empymod/kernel.py:fullspace'),
      ('public access', 'empymod/model.py:analytical')],
     'property-based testing against closed-form and integrated Green tensors',
     'Isotropic Green tensor derived independently; VTI by numerical '
     'integration of the boundary-value solution.')

prop('S01', 'Source-receiver reciprocity',
     'Exchanging source and receiver gives the same response (with opposite '
     'sign between an electric and a magnetic one), for all 36 types, for '
     'rotated and finite-length bipoles, in the frequency, Laplace and time '
     'domain and for every layered VTI model.',
     ['inputs'], 'all models, geometries, types and domains',
     'Reciprocity is tested for a few geometries; it constrains every pair '
     'of code paths (above/below, electric/magnetic).',
     [KER, MOD, UTI],
     [('field below and above the source', 'empymod/kernel.py:fields'),
      ('exchange of source and receiver for the magnetic-magnetic and '
       'electric-magnetic cases', 'empymod/utils.py:check_ab')],
     'metamorphic property-based testing',
     'Relation between two runs of the real code, relative to the largest '
     'component at the receiver.')

prop('S02', 'Invariance under translation, rotation, mirroring and handedness',
     'Shifting the whole experiment (horizontally or with the layers '
     'vertically) changes nothing; rotating it about the vertical, or '
     'mirroring it, changes the components as vectors (electric) and '
     'pseudo-vectors (magnetic). Writing the depths in increasing or '
     'decreasing order (the two coordinate systems) are two ways to state '
     'the same model.',
     ['inputs'], 'all layered models, geometries, rotation angles and '
     'mirror planes',
     'The tests fix coordinates and angles; these symmetries tie together '
     'all quadrants, signs and layer orders.',
     [KER, MOD, UTI],
     [('angle', 'empymod/utils.py:get_off_ang'),
      ('coordinate system', 'empymod/utils.py:check_model'),
      ('angle factor', 'empymod/kernel.py:angle_factor')],
     'metamorphic property-based testing',
     'Relation between runs of the real code on transformed experiments.')

prop('S03', 'Interfaces without material contrast have no influence',
     'Splitting a layer into several layers of the same material, at any '
     'depth including those of source and receiver and including zero '
     'thickness, changes no response, whatever source-receiver type, '
     'domain or direct-field option.',
     ['inputs', 'configurations'],
     'all models and all ways to split their layers',
     'Tests contain one or two split models; the layer indices and '
     'recursions differ for each position of the additional interface.',
     [KER, MOD, UTI],
     [('recursions', 'empymod/kernel.py:reflections, fields'),
      ('layer number of source and receiver', 'empymod/utils.py:get_layer_nr')],
     'metamorphic property-based testing',
     'Relation between runs of the real code.')

prop('S04', 'Dimensional scaling and electric-magnetic duality',
     "Scaling lengths, material parameters and frequencies or times together "
     "as Maxwell's equations allow scales each field component by the "
     'prescribed power of the factors. Exchanging the electric and magnetic '
     'properties exchanges electric and magnetic sources and receivers.',
     ['inputs'], 'all models, factors and types; frequency, Laplace and time',
     'No test scales a model; the relations hold for a continuum of factors.',
     [KER, MOD, UTI],
     [('eta and zeta', 'empymod/utils.py:check_frequency'),
      ('magnetic-magnetic from electric-electric', 'empymod/kernel.py'),
      ('times and frequencies', 'empymod/utils.py:check_time')],
     'metamorphic property-based testing',
     'Relation between runs of the real code.')

prop('S05', 'Fields satisfy the continuity conditions at every interface',
     'At every interface the tangential electric and magnetic fields and the '
     'normal current and magnetic flux are continuous, for each source type. '
     'A source or receiver exactly on an interface counts as in the layer '
     'above; away from the source the field is continuous across its depth.',
     ['inputs'], 'all models, interfaces, wavenumbers and offsets',
     'Tests place receivers at fixed depths inside layers.',
     [KER, UTI],
     [('fields in the layer of the receiver', 'empymod/kernel.py:fields, '
       'greenfct'), ('layer assignment', 'empymod/utils.py:get_layer_nr')],
     'property-based testing of physical interface conditions',
     'One-sided limit is 1e-7 of the thickness scale.')

prop('A01', 'Analytical diffusive solutions are right in every domain',
     'The analytical diffusive full-space and half-space solutions equal the '
     'solution of the layered problem in the frequency and Laplace domain, '
     'and their impulse and step responses are its inverse transforms '
     '(switch-off being the DC value minus switch-on). The split solutions '
     'add up to the total, and any combination of sources, receivers and '
     'frequencies or times gives what they give one by one.',
     ['inputs', 'configurations'],
     'all VTI half-spaces, positions at or below the surface, frequencies, '
     'Laplace parameters and times, solutions and signals',
     'Tests compare one or two geometries with stored numbers.',
     [KER, MOD],
     [('half-space solutions', 'empymod/kernel.py:halfspace'),
      ('public access', 'empymod/model.py:analytical')],
     'property-based testing against integration, transforms and the modeller',
     'Laplace transforms by quadrature (2e-3), wavenumber integration (1e-6).'
     )

prop('B01', 'A bipole is the weighted superposition of point dipoles',
     'For arbitrarily oriented infinitesimal dipoles and finite-length '
     'bipoles as source and receiver (electric, magnetic, loop, current '
     'density), the response is the direction-cosine weighted, length- and '
     'strength-scaled sum of the responses of the x-, y- and z-directed '
     'dipoles along them. Bipoles put end to end add up, and swapping the '
     'end points of one changes the sign.',
     ['inputs', 'configurations'],
     'all orientations, lengths, numbers of integration points, strengths '
     'and types of sources and receivers in all layered models',
     'Tests use a few orientations; wrong signs or weights can hide in '
     'special directions (vertical, +-90 degrees) and in combinations.',
     [MOD, UTI],
     [('integration points and weights', 'empymod/utils.py:get_azm_dip'),
      ('required components', 'empymod/utils.py:get_abs'),
      ('geometrical factors', 'empymod/utils.py:get_geo_fact'),
      ('loops over bipole elements', 'empymod/model.py:bipole')],
     'property-based testing against explicit superposition',
     'Uses dipole responses of the real code as building blocks (checked by '
     'W01, W02).')

prop('V01', 'Many sources, receivers, frequencies at once equal runs one by one',
     'A call with several sources, receivers and frequencies, Laplace values '
     'or times returns, at the documented position of the result, what '
     'separate calls return; whatever the loop option, squeeze, or mixture of '
     'depths. Writing the same input differently (scalars, lists, arrays, '
     'explicit infinite depths, order of layers) makes no difference.',
     ['inputs', 'configurations'],
     'all numbers and mixtures of sources, receivers, depths, frequencies, '
     'loop options and notations',
     'Tests cover some shapes; the index arithmetic has four cases for '
     'bipoles, times loops, times point or finite elements.',
     [MOD, UTI, TRA],
     [('assembly of the output', 'empymod/model.py:bipole, dipole'),
      ('loops', 'empymod/model.py:fem'),
      ('ordering of offsets', 'empymod/utils.py:get_off_ang')],
     'differential property-based testing',
     'Relation between runs of the real code.')

prop('H01', 'Hankel transform methods agree or report non-convergence',
     'Digital filters, quadrature-with-extrapolation and adaptive quadrature '
     'return the same frequency-domain response, within their accuracy, for '
     'any model and set of offsets. A quadrature which did not reach its '
     'requested tolerance is reported as not converged.',
     ['inputs', 'configurations'],
     'all models, methods, settings and filters',
     'Tests compare the methods for one or two models each.',
     [TRA, UTI],
     [('quadrature with extrapolation', 'empymod/transform.py:hankel_qwe, '
       'qwe'), ('adaptive quadrature', 'empymod/transform.py:hankel_quad, '
                'quad'),
      ('digital filter', 'empymod/transform.py:hankel_dlf, dlf')],
     'property-based testing against independent numerical integration',
     'Tolerances per method and filter.')

prop('H02', 'Digital linear filters transform known functions',
     'The digital-filter transform returns the Hankel, sine or cosine '
     'transform of any function within the accuracy of the chosen filter, '
     'for the standard, lagged and splined variants, any angle factor and '
     'any order of the output points.',
     ['inputs', 'configurations'],
     'all filters of the library, variants, kernels and output points',
     'Tests compare stored numbers for few filters and one function.',
     [TRA, 'empymod/filters.py'],
     [('convolution', 'empymod/transform.py:dlf'),
      ('required points', 'empymod/transform.py:get_dlf_points'),
      ('coefficients', 'empymod/filters.py')],
     'property-based testing against closed-form transform pairs',
     'Tolerance per filter, about 10 times its observed accuracy.')

prop('T01', 'Fourier transforms return the time signal of a spectrum',
     'For each method (digital filter, quadrature, FFTLog, FFT) and its '
     'settings, the time-domain transform of a spectrum returns the impulse, '
     'switch-on or switch-off signal belonging to it within the accuracy of '
     'the method. FFTLog and FFT return exactly the discrete transforms they '
     'define, for every number of points and bias.',
     ['inputs', 'configurations'],
     'all spectra of causal signals, times, methods, filters and settings',
     'Tests compare stored numbers for one or two spectra per method.',
     [TRA, UTI, MOD],
     [('transforms', 'empymod/transform.py:fourier_dlf, fourier_qwe, '
       'fourier_fftlog, fourier_fft'),
      ('required frequencies', 'empymod/utils.py:check_time'),
      ('scaling for the step signals', 'empymod/model.py:tem')],
     'property-based testing against closed-form pairs and discrete sums',
     'One known finding (alignment of the FFT).')

prop('T02', 'Signals and waveforms are convolutions of one response',
     'The response to an arbitrary waveform is the convolution of the chosen '
     'signal with the piecewise-linear waveform, for any nodes, amplitudes, '
     'quadrature order and times before, at, within and after the segments. '
     'Switch-on and switch-off responses add up to the static value, and '
     'their differences are the integrals of the impulse response. Times '
     'before the waveform alone are rejected.',
     ['inputs', 'configurations'],
     'all waveforms, times, signals, models, sources and receivers',
     'Tests use three waveforms at eleven times.',
     [UTI, MOD],
     [('waveform quadrature', 'empymod/utils.py:check_waveform'),
      ('signals', 'empymod/model.py:tem')],
     'property-based testing against exact convolutions of polynomials',
     'The sign convention of the waveform is that of the regression data.')

prop('I01', 'Hooks for materials and band-pass filters are applied',
     'A model given through func_eta or func_zeta and additional layer '
     'parameters has the response of the same model given directly, '
     'including frequency-dependent parameters, for any notation and order '
     'of the layers, in frequency, Laplace and time domain. A band-pass '
     'filter is applied once to the frequency-domain response of all sources '
     'and receivers, before any transform to time.',
     ['inputs', 'configurations', 'modules'],
     'all models, hooks, orders of layers, routines',
     'Tests use a constant factor for one model.',
     [UTI, MOD],
     [('additional parameters', 'empymod/utils.py:check_model'),
      ('calls of the hooks', 'empymod/model.py:bipole, dipole, analytical')],
     'differential property-based testing (hooks against parameters)')

prop('G01', 'Radar, in-phase/quadrature and deprecated wrappers are right',
     'The radar routine returns the field convolved with the Ricker wavelet '
     'and multiplied by the gain. In-phase and quadrature are the real and '
     'imaginary part of the scaled ratio of the secondary to the co-planar '
     'primary field. Deprecated functions and signatures warn and return '
     'what their replacements return.',
     ['inputs', 'configurations'],
     'all models, surveys, wavelets, gains, scales and deprecated names',
     'Tests compare stored numbers for one model each.',
     [MOD, UTI, 'empymod/filters.py'],
     [('radar', 'empymod/model.py:gpr'),
      ('in-phase and quadrature', 'empymod/model.py:ip_and_q'),
      ('deprecated', 'empymod/model.py:loop, empymod/utils.py:check_time, '
       'check_time_only, check_bipole, empymod/filters.py')],
     'property-based testing against closed forms and compositions',
     'The radar signal within 10 % of its maximum (FFT).')

prop('E01', 'Amplitude and phase of the returned arrays',
     'Every returned array gives its amplitude and its phase, in radians or '
     'degrees, as lead or lag, wrapped or unwrapped along the last axis. '
     'Amplitude times the exponential of the phase is the field, also after '
     'slicing, copying, pickling and arithmetic. The array itself is not '
     'changed.',
     ['inputs'], 'all arrays, shapes, types and options',
     'Tests use four numbers.',
     [UTI],
     [('array class', 'empymod/utils.py:EMArray')],
     'property-based testing against the definition')

prop('U01', 'Equivalent input notations agree, bad input is rejected',
     'The same numbers result whichever documented notation is used for the '
     'model, survey, frequencies and transforms. Invalid models, surveys, '
     'components, signals, transforms, filters and arguments are rejected '
     'with an exception instead of returning numbers.',
     ['inputs', 'configurations'],
     'all arguments of all modelling routines',
     'Tests use a handful of invalid calls and notations.',
     [UTI, MOD],
     [('checks', 'empymod/utils.py:check_*, get_kwargs, _check_var'),
      ('routines', 'empymod/model.py:bipole, dipole, analytical, gpr, '
       'dipole_k, ip_and_q, loop')],
     'property-based testing (rewriting and corruption of random valid calls)')

prop('U02', 'Minimum values are stored, applied and reported',
     'The minimum frequency, time, offset, resistivity and angle factor set '
     'by the user are stored, unchanged ones are kept. Values below them are '
     'replaced in every routine, which is reported exactly if it happens, and '
     'results are those of the call with the replaced values.',
     ['inputs', 'histories'],
     'all sequences of settings, values below and above them, routines',
     'Tests set each minimum once.',
     [UTI, MOD],
     [('settings', 'empymod/utils.py:set_minimum, get_minimum'),
      ('application', 'empymod/utils.py:_check_min, get_geo_fact, '
       'check_frequency, check_model, check_time_only, get_off_ang')],
     'stateful property-based testing against a model of the settings')

prop('U03', 'Calls are pure: inputs stay, results depend on them only',
     'No routine or building block changes its arguments, nor returns a view '
     'of them. The result of a call depends only on its arguments and the '
     'minimum settings: not on earlier, failing or concurrent calls. Filters '
     'of the library do not change.',
     ['inputs', 'histories', 'schedules'],
     'all arguments, sequences of calls and threads',
     'Tests make single calls.',
     [MOD, UTI, 'empymod/transform.py', 'empymod/kernel.py',
      'empymod/filters.py'],
     [('copies of the input', 'empymod/utils.py:_check_var, check_hankel, '
       'check_time, check_model'),
      ('filter cache', 'empymod/filters.py:_BaseFilter')],
     'stateful property-based testing (snapshots, fresh processes, threads)',
     'Interleavings of threads are sampled.')

prop('U04', 'Verbosity never alters results; the report is truthful',
     'Results are the same at all levels of verbosity. Level 0 prints '
     'nothing, level 1 only warnings, and every level the same warnings. The '
     'reported model, survey, frequencies and times are those given.',
     ['inputs', 'configurations'],
     'all calls and levels of verbosity',
     'Tests look at single lines of output.',
     [UTI, MOD],
     [('printing', 'empymod/utils.py:check_*, get_azm_dip, get_off_ang, '
       'printstartfinish, conv_warning')],
     'differential property-based testing (levels), parsing of the report')

IO, CLI, FIL, FDE, TMT = ('empymod/io.py', 'empymod/__main__.py',
                          'empymod/filters.py', 'empymod/scripts/fdesign.py',
                          'empymod/scripts/tmtemod.py')

prop('P01', 'Saved data and inputs load as what was saved',
     'Data saved with save_data, as text or json, load with the same shape '
     'and values to the last bit, and the file carries the information '
     'which was asked for. A saved input, loaded and passed to its routine, '
     'gives the result of the original input. What cannot be saved is refused '
     'without leaving a file.',
     ['inputs', 'histories'],
     'all data (complex, non-finite, any layout), inputs, names and options',
     'Tests save one array and two inputs.',
     [IO], [('saving and loading', 'empymod/io.py:save_data, load_data, '
             'save_input, load_input')],
     'round-trip property-based testing (bit patterns)')

prop('P02', 'The command line computes what the routines compute',
     'For any input file the command line writes, to the file or the screen, '
     'the data which the chosen routine returns for that input, always in '
     'three dimensions. Errors are reported by the exit status and leave no '
     'output file. Version and report are shown without computing anything.',
     ['inputs', 'configurations'],
     'all routines, inputs, formats and invalid commands',
     'Tests run a few commands on stored files.',
     [CLI, IO], [('command line', 'empymod/__main__.py:main, run')],
     'differential property-based testing (command line against routine)')

prop('D01', 'Filters are those of the library and survive saving and loading',
     'Each available filter carries exactly the values of the library, '
     'whichever way and order it is accessed, and transforms smooth functions '
     'with its accuracy. Any filter written to files reads back with the same '
     'values. Filters given by name, as object or read from files give the '
     'same responses.',
     ['inputs', 'histories'],
     'all filters, coefficients, values, names, paths',
     'Tests look at a few values of a few filters.',
     [FIL, TRA],
     [('filters', 'empymod/filters.py:DigitalFilter, _BaseFilter, Hankel, '
       'Fourier')],
     'round-trip and differential property-based testing, known transform '
     'pairs')

prop('D02', 'Transform pairs of fdesign are transform pairs',
     'For all parameters and arguments the right-hand side of every '
     'analytical pair is the Hankel, sine or cosine transform of its '
     'left-hand side. The same holds for the numerical pairs built with the '
     'modeller for any layered model, for types j0, j1, j2 and lists of them.',
     ['inputs'], 'all parameters, models, arguments of any shape',
     'Tests evaluate each pair at one point.',
     [FDE, MOD], [('pairs', 'empymod/scripts/fdesign.py:j0_1, ..., cos_3, '
                   'empy_hankel')],
     'property-based testing against numerical integration')

prop('D03', 'Filter design returns the best filter of the grid',
     'The designed filter has the base given by its length, spacing and '
     'shift, its coefficients solve the equations of the given pairs in the '
     'least-squares sense, and no other point of the grid has a better '
     'criterion. Verbosity, output and saving do not change it nor the input; '
     'a saved filter and its inversion output load as they were.',
     ['inputs', 'configurations', 'histories'],
     'all lengths, grids, pairs, criteria, check points and options',
     'Tests design four filters and compare with stored values.',
     [FDE, FIL],
     [('design', 'empymod/scripts/fdesign.py:design, _calculate_filter, '
       '_get_min_val, _ls2ar'),
      ('files', 'empymod/scripts/fdesign.py:save_filter, load_filter')],
     'property-based testing against an independent implementation of the '
     'criterion and least-squares optimality; round trips')

prop('M01', 'TM/TE split: each mode is its physical part, together the total',
     'For every layered model, layer and survey, tmtemod.dipole returns the '
     'up- and downgoing TM and TE contributions of the documented theory, '
     'without their non-physical part at zero wavenumber. Together with the '
     'direct contributions they add up to the total field of dipole. Models '
     'and surveys which it does not support are refused.',
     ['inputs'], 'all models, layers, depths and surveys',
     'Tests compare two models with stored values.',
     [TMT],
     [('split', 'empymod/scripts/tmtemod.py:dipole, greenfct, fields')],
     'property-based testing against an independent transmission line')

prop('R01', 'Results are finite and have the documented shape and type',
     'Every valid call of the modelling routines returns finite numbers for '
     'every frequency or time, receiver and source, in that order, with axes '
     'of length one removed by squeeze; they are real for time and Laplace '
     'domain and complex for frequencies. This also holds for extreme models '
     'with resistivities from 1e-3 to 1e12 Ohm.m, layers from 1 mm to 100 km, '
     'offsets up to 1000 km, and frequencies from 1e-8 to 1e9 Hz.',
     ['inputs', 'configurations'],
     'all valid calls of bipole, dipole, loop, analytical, gpr, dipole_k, '
     'ip_and_q within these ranges',
     'Tests look at the shape and at the values of selected calls.',
     [MOD, KER, TRA, UTI],
     [('result arrays', 'empymod/model.py:bipole, dipole, loop, analytical, '
       'gpr, dipole_k, ip_and_q'),
      ('exponentials and reflections which must not overflow',
       'empymod/kernel.py:reflections, fields')],
     'property-based testing of an output invariant over random valid calls '
     'and extreme models',
     'Shape, class, type and finiteness; zero results do not count.')
