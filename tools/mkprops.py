#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when the list of properties changes)."""
import json
import os

S = 'src/pydsm/'
D = S + 'delsig/'
N = S + 'NTFdesign/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b}
                                        for a, b in mech],
                          'observe_at': observe or []}})


prop('C01', 'The simulator follows the state equations of the modulator',
     'For every modulator given in ABCD form, with any number of inputs, '
     'states and quantisers, and with every simulator backend, the outputs, '
     'the state snapshots and the quantiser inputs that are returned are '
     'those of the recursion y=Cx+D1u, v=Q(y), x\'=Ax+B1u+B2v from the given '
     'initial state. This does not depend on how the arguments are laid out '
     'in memory or on which array-like type carries them.',
     ['inputs', 'configurations'],
     'all ABCD matrices, inputs, level counts, initial states, array '
     'layouts and backends (scipy, scipy_blas, cblas, auto)',
     'The tests simulate one NTF with one sine wave and the comparison with '
     'ABCD form, multiple inputs, multiple quantisers and initial states is '
     'never made.',
     [D + '_simulateDSM.py', D + '_simulateDSM_scipy.py',
      D + '_simulateDSM_scipy_blas.pyx', D + '_simulateDSM_cblas.pyx',
      D + '_simulateDSM_helper.pxi'],
     [('dgemv based recursion', D + '_simulateDSM_scipy_blas.pyx'),
      ('backend selection', D + '_simulateDSM.py')],
     ['simulateDSM(...) return values'])

prop('C02', 'Quantisers output the nearest legal level and saturate',
     'Every sample out of an n level quantiser is one of the n integers of '
     'parity opposite to n between 1-n and n-1, it is the one nearest to the '
     'input (the upper one at a tie), and it is the outermost level beyond '
     'the range. With multiple quantisers each one applies its own number of '
     'levels to its own input.',
     ['inputs', 'configurations'],
     'all quantiser inputs (ties, huge values, negative ones), level counts '
     '>= 2, vectors of quantisers, backends and the stand-alone quantiser',
     'No test looks at the quantiser: only 2 level trajectories are '
     'compared among backends.',
     [D + '_simulateDSM_scipy.py', D + '_simulateDSM_helper.pxi'],
     [('ds_quantize', D + '_simulateDSM_scipy.py:ds_quantize'),
      ('ds_quantize (C)', D + '_simulateDSM_helper.pxi')],
     ['simulateDSM v, y', 'ds_quantize'])

prop('C03', 'The simulator is a causal, restartable, side-effect-free machine',
     'Cutting the input in pieces and simulating them in successive calls, '
     'each started from the final state of the previous one and possibly run '
     'by a different backend, gives the signals of a single call, and no '
     'output depends on later inputs. The flags asking for state history, '
     'state maxima and quantiser inputs only select what is returned; the '
     'state maxima include the initial state and no call changes its '
     'arguments or the results of earlier calls.',
     ['histories', 'inputs'],
     'all splits of all input sequences into calls, with any combination of '
     'backends, flags and forms of the initial state',
     'The tests make single calls from the null state.',
     [D + '_simulateDSM_scipy.py', D + '_simulateDSM_scipy_blas.pyx',
      D + '_simulateDSM_cblas.pyx'],
     [('initial state copy, xn, xmax handling',
       D + '_simulateDSM_scipy_blas.pyx')],
     ['simulateDSM(...) return values, arguments after the call'])

prop('C04', 'An NTF given to the simulator shapes the quantisation error',
     'For every NTF given as zeros, poles and gain, the simulated output is '
     'the input plus the quantisation error (output minus quantiser input) '
     'filtered by the NTF, so that the signal transfer function is unitary, '
     'and after an arbitrary initial state the same recursion holds as soon '
     'as the memory is filled. All the backends agree on it.',
     ['inputs', 'configurations'],
     'all conjugate-closed zero/pole sets of equal size, inputs, level '
     'counts, initial states and backends',
     'The only test compares backends among themselves for one NTF; the '
     'error-feedback relation is never verified.',
     [D + '_simulateDSM_scipy.py', D + '_simulateDSM_scipy_blas.pyx',
      D + '_simulateDSM_cblas.pyx'],
     [('realisation of -1/NTF with C=[1 0 ...]',
       D + '_simulateDSM_scipy.py:simulateDSM')],
     ['simulateDSM v, y'])

prop('C05', 'synthesizeNTF meets its specification',
     'For every order, oversampling ratio, zero placement option, H_inf and '
     'centre frequency for which no approximation warning is issued, the '
     'returned NTF is monic, minimum-phase up to zeros on the unit circle at '
     'the locations asked for, has stable poles giving a maximally flat '
     'in-band denominator, and its gain at the band-opposite frequency is '
     'H_inf. Requests that cannot be met are flagged by a warning, and '
     'answered with an FIR NTF with the same zeros when H_inf is too high; '
     'optimised zeros do not give more in-band noise than unoptimised ones '
     'unless the oversampling ratio is low.',
     ['inputs', 'configurations'],
     'orders 1-14, oversampling ratios >= 1, opt 0-4 or explicit zeros, '
     'H_inf > 1, f0 in [0, 0.5], with and without optimiser',
     'The tests compare about ten designs with stored pole/zero values.',
     [D + '_synthesizeNTF.py', D + '_synthesizeNTF0.py',
      D + '_synthesizeNTF1.py', D + '_ds.py'],
     [('secant search of the pole parameter', D + '_synthesizeNTF0.py'),
      ('zero optimisation', D + '_synthesizeNTF1.py')],
     ['zpk tuple', 'warnings'])

prop('C06', 'synthesizeChebyshevNTF meets its specification',
     'For every order, oversampling ratio, H_inf and centre frequency the '
     'returned NTF is monic, stable, with zeros on the unit circle inside '
     'the signal band, equiripple in the signal band, and its peak gain is '
     'H_inf as far as an in-band attenuation within 300 dB allows.',
     ['inputs', 'configurations'],
     'orders 1-12, oversampling ratios, H_inf, f0 = 0 or f0 above the '
     'half-bandwidth',
     'The tests compare two designs with stored values.',
     [D + '_synthesizeChebyshevNTF.py'],
     [('iteration on the attenuation of cheby2',
       D + '_synthesizeChebyshevNTF.py')], ['zpk tuple'])

prop('C07', 'CLANS designs respect the stability constraint',
     'For every order, oversampling ratio, number of levels and maximum pole '
     'radius, a CLANS design is monic, has the zeros of the corresponding '
     'synthesizeNTF design, all its poles within the maximum radius, and an '
     'impulse response whose absolute values sum to no more than the number '
     'of levels plus one. Its gain at the band edge is not substantially '
     'worse than that of the maximally flat NTF with the same zeros under '
     'the same constraint (save for isolated designs where the optimiser, '
     'that is local, gets trapped).',
     ['inputs', 'configurations'],
     'orders 1-9, oversampling ratios, numbers of levels, radii, zero '
     'placements', 'One design is compared with stored values.',
     [D + '_clans.py', D + '_dsclansNTF.py'],
     [('constrained SLSQP on mapped poles', D + '_clans.py:clans')],
     ['zpk tuple'])

prop('C08', 'Zero-placement helpers give the noise-minimising zeros',
     'The signal band reported for any oversampling ratio and centre '
     'frequency is the one that the designs use; the optimised zeros for any '
     'order minimise the integral of the squared in-band NTF numerator '
     '(with a double zero forced in the centre when asked), come in opposite '
     'couples and are as many as asked for; tabulated psychoacoustic zeros '
     'are as many as asked for and minimise the F-weighted noise; zeros '
     'spread on the unit circle are in the band, in couples, and such that '
     'the cost function given gets no lower moving slightly the zeros (apart '
     'from zeros stuck by symmetry: in the centre or coincident); the maximally flat zeros have the '
     'squared magnitude 1 + alpha (2 sin(w/2))^(2 order), up to its value at '
     'DC, and are minimum-phase; unavailable orders raise an error.',
     ['inputs', 'configurations'], 'all orders, options, osr, f0, costs',
     'One or two tabulated sets are reached through design tests.',
     [D + '_ds.py', N + 'psychoacoustic.py', N + 'helpers.py'],
     [('ds_optzeros table', D + '_ds.py:ds_optzeros'),
      ('ds_f1f2', D + '_ds.py:ds_f1f2'),
      ('dunn_optzeros', N + 'psychoacoustic.py')],
     ['return values'])

prop('C09', 'Quantisation noise gain is the weighted NTF energy',
     'For every NTF, weighting (function, filter in any form, or list of '
     'them), set of frequency bounds and averaging choice, the quantisation '
     'noise gain is the integral over the bounds of twice the squared NTF '
     'magnitude times the weighting (or its average). It is additive over '
     'adjacent bounds, quadratic in the NTF gain and it agrees with the '
     'time-domain evaluation by convolution and with the filter-based entry '
     'point.', ['inputs', 'configurations'],
     'all stable NTFs, weightings, bounds, averages and filter forms',
     'The tests evaluate it on two designs and compare two entry points.',
     [N + 'weighting/_quantization_noise_gain.py', N + 'merit_factors.py',
      N + 'legacy/_quantization_noise_gain.py', N + 'filter_based.py'],
     [('numerical integration', N + 'merit_factors.py'),
      ('convolution', N + 'legacy/_quantization_noise_gain.py')],
     ['return values'])

prop('C10', 'Noise weightings turn into the right quadratic form',
     'For every weighting function or filter, the vector computed from it '
     'has entries equal to twice the integral of weighting times '
     'cos(2 pi k f) over [0, 0.5], so that the FIR NTF cost is the quadratic '
     'form of its Toeplitz matrix; a filter, its impulse response and its '
     'magnitude function all give the same vector, and a product of '
     'weightings is the pointwise product of what it is made of.',
     ['inputs', 'configurations'],
     'all filters (zpk, ba, impulse response), functions, vector lengths',
     'One filter and one length are tested.',
     [N + 'weighting/_fir_weighting.py', N + 'legacy/_q0_from_ir.py',
      N + 'filter_based.py'],
     [('q0_weighting', N + 'weighting/_fir_weighting.py'),
      ('mult_weightings', N + 'weighting/_fir_weighting.py'),
      ('q0_from_filter_ir', N + 'legacy/_q0_from_ir.py')],
     ['return values'])

prop('C11', 'Weighted FIR NTFs are feasible and optimal',
     'For every noise weighting, order and H_inf, the FIR NTF designed from '
     'it is monic, of the order asked for, never exceeds H_inf at any '
     'frequency beyond solver accuracy, and its weighted noise is within '
     'solver accuracy of the least that any such FIR filter can have. All '
     'the modellers agree, and normalisation or scaling of the weighting '
     'does not change the result.', ['inputs', 'configurations'],
     'weightings, orders, H_inf > 1, modellers cvxpy_old, cvxpy, picos, '
     'normalisation options',
     'One weighting is designed by each modeller and compared with a stored '
     'NTF.', [N + 'weighting/_fir_weighting.py',
              N + 'weighting/_fir_weighting_cvxpy.py',
              N + 'weighting/_fir_weighting_cvxpy_tdr.py',
              N + 'weighting/_fir_weighting_picos.py'],
     [('bounded-real LMI', N + 'weighting/_fir_weighting_cvxpy.py'),
      ('quadratic form factorisation', N + 'weighting/_fir_weighting.py')],
     ['zpk tuple'])

prop('C12', 'Hybrid designs keep the given poles and are optimal given them',
     'For every weighting and every admissible set of poles, the NTF '
     'returned by the hybrid design has those poles (completed by poles in '
     'the origin), is monic, has as many zeros as the order, never exceeds '
     'H_inf beyond solver accuracy and has weighted noise not larger than '
     'any other numerator within H_inf, in particular not larger than the '
     'FIR design when no poles are given. Too many poles raise an error.',
     ['inputs', 'configurations'],
     'weightings, pole sets, orders, H_inf, modellers',
     'Two designs are compared with stored values.',
     [N + 'weighting/_fir_weighting.py'],
     [('ntf_hybrid_weighting', N + 'weighting/_fir_weighting.py')],
     ['zpk tuple'])

prop('C13', 'Min-max FIR NTFs minimise the in-band peak',
     'For every order, oversampling ratio, H_inf and centre frequency, the '
     'min-max NTF is a monic FIR filter of that order which never exceeds '
     'H_inf beyond solver accuracy, has the zero at the band centre when '
     'asked for, and whose in-band peak is within solver accuracy of the '
     'least possible. All the modellers agree.',
     ['inputs', 'configurations'],
     'orders, osr, H_inf, f0 in [0, 0.5], zf flag, modellers',
     'Six designs are compared with stored values.',
     [N + 'minmax/_fir_minmax.py', N + 'minmax/_fir_minmax_cvxpy.py',
      N + 'minmax/_fir_minmax_cvxpy_tdr.py', N + 'minmax/_fir_minmax_picos.py'],
     [('generalised KYP LMI', N + 'minmax/_fir_minmax_cvxpy.py')],
     ['zpk tuple'])

prop('C14', 'Psychoacoustic designs optimise the weighting they are given',
     'For every oversampling ratio, audio band, order and H_inf, '
     'psychoacoustic designs place the zeros of the in-band notch '
     'distribution scaled to the audio band, or are the FIR designs of '
     'the audio weighting translated to the modulator frequency axis and '
     'floored at the maximum attenuation. They meet H_inf and are monic.',
     ['inputs', 'configurations'],
     'osr, audio band, order, H_inf, attenuation, weighting functions',
     'No test exercises this module.',
     [N + 'psychoacoustic.py'],
     [('ntf_dunn', N + 'psychoacoustic.py'),
      ('ntf_fir_audio_weighting', N + 'psychoacoustic.py')], ['zpk tuple'])

prop('C15', 'Aliases and deprecated entry points do what they stand for',
     'Every deprecated, legacy or shorthand entry point returns exactly what '
     'the function replacing it returns for the same arguments, and the '
     'deprecated ones issue the deprecation warning of the package.',
     ['inputs', 'configurations'],
     'all deprecated and alias functions, all arguments',
     'Few of them are called by the tests, none of their warnings is '
     'checked.',
     [N + 'delsig.py', N + '__init__.py', N + 'psychoacoustic.py',
      N + 'filter_based.py', N + 'weighting/__init__.py', N + 'merit_factors.py',
      S + 'utilities.py', S + 'simulation.py'],
     [('wrappers', N + 'delsig.py')], ['return values, warnings'])

prop('C16', 'Options: defaults, overrides and no side effects',
     'For every function with default options, an option passed in a call '
     'has the effect of setting the same default for that call only; '
     'unspecified entries of option dictionaries keep their defaults; '
     'unknown options raise an error. Calls leave their arguments, the '
     'default options and the global numeric state unchanged, repeating '
     'a call gives the same result, and changing the default options of a '
     'function leaves those of the others unchanged.', ['histories', 'configurations'],
     'all histories of calls with options and of changes of the defaults',
     'No test passes options twice or looks at the defaults after a call.',
     [S + 'utilities.py', D + '_clans.py', N + 'weighting/_fir_weighting.py',
      N + 'minmax/_fir_minmax.py', S + 'ft.py', S + 'ir.py'],
     [('digested_options', S + 'utilities.py')],
     ['default_options attributes, arguments after calls'])

prop('C17', 'Fourier helpers follow the definition and invert each other',
     'The DTFT of any vector at any frequency is the sum of its '
     'samples times complex exponentials with the given time origin and '
     'sample rate; the Hermitian variants extend by symmetry, and inverse '
     'transforms return the samples of the original signal. The centred FFT '
     'returns the spectrum samples with matching frequencies.',
     ['inputs', 'configurations'],
     'vectors, frequencies, sampling rates, origins',
     'Two fixed vectors are transformed in the tests.',
     [S + 'ft.py'], [('dtft', S + 'ft.py'), ('idtft_hermitian', S + 'ft.py'),
                     ('fft_centered', S + 'ft.py')], ['return values'])

prop('C18', 'Correlations follow their definitions',
     'For every pair of vectors and every number of lags the raw '
     'cross-correlation is the sum of lagged products of the documented '
     'vectors, the raw autocorrelation is the case of equal vectors, and '
     'both transform into (cross-)power spectra.',
     ['inputs'], 'all vectors (real and complex) and lag counts',
     'Autocorrelation is only reached through one design.',
     [S + 'correlations.py'], [('raw_acorr, raw_xcorr', S + 'correlations.py')],
     ['return values'])

prop('C19', 'Impulse responses are right and long enough',
     'For every filter in any of the supported forms, the impulse response '
     'is the one of the difference equation; with an explicit length exactly '
     'that many samples are returned, and with automatic length the energy '
     'that is left out is as small as the requested attenuation.',
     ['inputs', 'configurations'],
     'stable filters (zpk, ba, FIR, multiple poles), lengths, dB values',
     'One filter is tested.', [S + 'ir.py', S + 'delsig/_tf.py'],
     [('impulse_response', S + 'ir.py'), ('guess_ir_length', S + 'ir.py')],
     ['return values'])

prop('C20', 'Matlab-like helpers do what they document',
     'For every array, conjugate pairing returns a permutation of its '
     'argument with couples adjacent, negative imaginary part first, real '
     'entries last, and refuses what cannot be paired; dimension shifting '
     'permutes the axes cyclically and is undone by the opposite shift; the '
     'spacing function is the distance to the next float; decibels convert '
     'back and forth.', ['inputs'],
     'arrays of any dimension, shifts, floats, tolerances',
     'A couple of docstring examples.', [S + 'relab.py'],
     [('cplxpair', S + 'relab.py'), ('shiftdim', S + 'relab.py'),
      ('eps', S + 'relab.py')], ['return values'])

prop('C21', 'General helpers respect their contracts',
     'For every argument, a value is negligible exactly when its magnitude is '
     'below the tolerance, chopping zeroes exactly the negligible real and '
     'imaginary parts and keeps everything else, the multiple dot product is '
     'the left-to-right matrix product, and option digestion returns the '
     'defaults overridden by the options given, consumes them and refuses '
     'the ones left over.', ['inputs'],
     'arrays, tolerances, conformable matrices, option sets',
     'They are only used in passing.', [S + 'utilities.py'],
     [('chop', S + 'utilities.py'), ('digested_options', S + 'utilities.py')],
     ['return values'])

prop('C22', 'Transfer function evaluation and rms figures are exact',
     'For every rational transfer function in zpk form and every set of '
     'points its evaluation equals the ratio of the root products with the '
     'shape of the points; the rms gain over a band is the rms of such '
     'evaluations over equally spaced points of the band; the rms of a '
     'signal is the square root of its average power, with the mean '
     'removed when asked for.', ['inputs'],
     'transfer functions, points (arrays of any dimension), bands, signals',
     'Only through designs.', [D + '_tf.py', D + '_rms.py', D + '_rmsGain.py'],
     [('evalTF', D + '_tf.py'), ('rmsGain', D + '_rmsGain.py')],
     ['return values'])

prop('C23', 'Decibel conversions are consistent',
     'For every quantity, the decibel functions follow their definitions for '
     'voltages, powers and dBm with any reference resistance, elementwise on '
     'arrays of any shape, and each inverse undoes the corresponding '
     'conversion.', ['inputs'], 'positive values, arrays, kinds, resistances',
     'Not tested.', [D + '_decibel.py', S + 'relab.py'],
     [('dbv, dbp, dbm, undbv, undbp, undbm', D + '_decibel.py')],
     ['return values'])

prop('C24', 'Padding, ABCD partitioning and plot helpers',
     'For every array and size, padding returns the argument extended on the '
     'documented side with the given value and never truncates; partitioning '
     'an ABCD matrix gives blocks that reassemble it for every number of '
     'inputs; axis labels are as many as the ticks with text only at the '
     'asked ones; pole-zero plots show each pole and zero once.',
     ['inputs', 'configurations'], 'arrays, sizes, fills, partitions, ranges',
     'One padding example per function.',
     [D + '_padding.py', D + '_partitionABCD.py', D + '_axisLabels.py',
      D + '_plot.py'],
     [('padl ...', D + '_padding.py'),
      ('partitionABCD', D + '_partitionABCD.py')], ['return values'])

prop('C25', 'Audio weightings follow the standards',
     'For every frequency and each of the A, B, C, D and F curves, the '
     'weighting returned as amplitude, power or decibels describes the same '
     'curve, which agrees with the transfer function in zpk form, with the '
     'normalisation at 1 kHz and, for A, B, C and D, with the analytical '
     'formulas of the standards.', ['inputs', 'configurations'],
     'frequencies in the audio range (scalars, arrays), curves, forms, '
     'normalisation flags', 'Not tested.', [S + 'audio_weightings.py'],
     [('zpk tables', S + 'audio_weightings.py')], ['return values'])

prop('C26', 'Equal loudness contours are consistent',
     'For every loudness and frequency the contour in dB SPL follows the '
     'formula of ISO 226 at the tabulated frequencies, grows with loudness, '
     'is inverted by the function giving the loudness of a tone, and is '
     'extended up to 20 kHz when asked for. The interpolated contour is the '
     'spline of the order asked for through it. Changing what is returned '
     'does not alter later results; out of range requests are errors.', ['inputs', 'configurations'],
     'loudness 0-90 phon, frequencies 20 Hz-20 kHz, extension flag',
     'Not tested.', [S + 'iso226.py'],
     [('tabled parameters', S + 'iso226.py'),
      ('iso226_spl_contour', S + 'iso226.py')], ['return values'])

prop('C27', 'Expressions of the bundled CVXPY evaluate as linear algebra',
     'For every expression built from variables, parameters, constants and '
     'the supported operators and constructors, in dense or sparse form, '
     'the value of the expression is the value of the same matrix expression '
     'over the values of its leaves, with the same shape; mismatched shapes '
     'are refused.', ['programs', 'inputs'],
     'random expression trees over scalars, matrices, sparse matrices, '
     'variables and parameters',
     'The bundled package has no tests, it is only used by few designs.',
     [S + 'cvxpy_tdr/arrays.py', S + 'cvxpy_tdr/scalars.py',
      S + 'cvxpy_tdr/interface.py', S + 'cvxpy_tdr/utils.py'],
     [('operator overloading', S + 'cvxpy_tdr/arrays.py')], ['value'])

prop('C28', 'The bundled CVXPY accepts only convex programs',
     'Every program that the disciplined convex rules accept has a convex '
     '(concave) objective to be minimised (maximised) and a convex feasible '
     'set, and every function composition following the rules is accepted; '
     'anything else is refused with an error, before being solved.',
     ['programs'], 'random compositions of atoms with affine arguments',
     'Not tested.', [S + 'cvxpy_tdr/scalars.py', S + 'cvxpy_tdr/programs.py',
                     S + 'cvxpy_tdr/constraints.py'],
     [('is_convex, is_concave, is_dcp', S + 'cvxpy_tdr/programs.py')],
     ['program.is_dcp, solve'])

prop('C29', 'The bundled CVXPY solves its programs to optimality',
     'For every disciplined program whose solution the solver declares '
     'valid, the value returned is the optimum and the variables take a '
     'feasible value attaining it; linear, least squares and semidefinite '
     'programs are always solved, also with redundant equalities, and their '
     'infeasibility or unboundedness is reported with an infinite value of '
     'the proper sign; solving again after changing the parameters gives '
     'the optimum of the new program; a program used as a function of its '
     'formals, on numbers or in the constraints of another, behaves as its '
     'optimal value, whatever the kind of its formals and arguments and '
     'however many times it is used; calls with arguments of the wrong '
     'number, shape or kind are refused.',
     ['programs', 'histories'],
     'random linear, quadratic, conic and semidefinite programs, with '
     'parameters', 'Not tested apart from the two NTF design programs.',
     [S + 'cvxpy_tdr/programs.py', S + 'cvxpy_tdr/procedures/solve_prog.py',
      S + 'cvxpy_tdr/procedures/expand.py',
      S + 'cvxpy_tdr/procedures/call_solver.py',
      S + 'cvxpy_tdr/procedures/re_eval.py'],
     [('expansion to conic form', S + 'cvxpy_tdr/procedures/expand.py'),
      ('solver call', S + 'cvxpy_tdr/procedures/call_solver.py')],
     ['solve return value, variable values'])

prop('C30', 'The atoms of the bundled CVXPY compute their functions',
     'Every function atom applied to numbers returns the value of the '
     'function it is named after, the same value results when it is '
     'minimised (maximised) over a variable pinned to those numbers, out of '
     'its domain it is the infinity that its curvature requires, and '
     'arguments that are not valid are refused. The value of an expression '
     'with atoms is the one of the functions over the values of the '
     'variables. Every set constrains its members '
     'to what it is documented to contain, also when a variable occurs more '
     'than once in them.', ['inputs', 'programs'],
     'all atoms and sets, random arguments and parameters', 'Not tested.',
     [S + 'cvxpy_tdr/functions/', S + 'cvxpy_tdr/sets/'],
     [('atoms as convex programs', S + 'cvxpy_tdr/functions/')],
     ['return values'])

prop('C31', 'Invalid arguments are refused with the documented error',
     'For every function that documents errors, each class of invalid '
     'argument it documents raises that error, whatever the other arguments, '
     'the backend and the modeller, instead of returning a result, crashing '
     'or hanging; valid arguments at the boundary are accepted.',
     ['inputs', 'configurations'],
     'documented invalid arguments combined with random valid ones',
     'Error paths are not tested.',
     [D + '_simulateDSM.py', D + '_simulateDSM_scipy.py', D + '_synthesizeNTF.py',
      D + '_ds.py', N + 'weighting/_fir_weighting.py', N + 'filter_based.py',
      N + 'minmax/_fir_minmax.py', S + 'iso226.py', S + 'relab.py'],
     [('argument validation', D + '_simulateDSM_scipy.py')],
     ['exceptions'])

with open(os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl'), 'w') as h:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        h.write(json.dumps(p) + '\n')
