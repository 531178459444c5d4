#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

QT='qmix/qtcurrent.py'; HB='qmix/harmonic_balance.py'; CC='qmix/circuit.py'; RF='qmix/respfn.py'
IV='qmix/exp/iv_data.py'; IF='qmix/exp/if_data.py'; IR='qmix/exp/if_response.py'; CD='qmix/exp/clean_data.py'; EX='qmix/exp/exp_data.py'
KK='qmix/mathfn/kktrans.py'; MO='qmix/mathfn/ivcurve_models.py'; MI='qmix/mathfn/misc.py'; FI='qmix/mathfn/filters.py'

prop('C01','Tunneling current equals the truncated multi-tone spectral sum',
 'For 1 to 4 tones, any harmonics and any summation limits, the current returned for an output frequency is the sum, over every combination of tone multiples within +-num_p whose frequency equals the requested one after rounding both to 4 decimals, of the MTSDA tunneling-current coefficient built from the phase-factor coefficients and the response function (at dc the result is real; the combination in which every multiple is zero contributes the imaginary part of its coefficient once). Frequencies that no combination reaches give exactly zero. A list of frequencies gives one row per frequency in order, a scalar gives the row itself, and verbose has no influence.',
 ['inputs','configurations'],'every junction voltage, response function value, tone frequency set, num_p, num_b (int or per-tone tuple) and list of output frequencies',
 'tests compare a handful of symmetric one-and-more tone cases with each other and never against the defining sum; index slips at spectrum edges or for one combination of tones/harmonics survive them',
 [QT],[('index matching and rounding','qtcurrent._current_N_tones'),('coefficient loops with edge guards','qtcurrent._current_coeff_N_tones')],['qmix.qtcurrent.qtcurrent'])
prop('C02','Phase-factor coefficients are the Bessel/harmonic convolution',
 'The phase-factor spectrum of tone f is the discrete convolution over its harmonics p of the sequences J_n(|V_fp|/(p*freq_f))*exp(-i*n*arg V_fp) placed at multiples of p, each sequence truncated at that tone\'s own summation limit (partial sums of the convolution kept up to the largest limit of all tones), with negative indices stored wrap-around. Without any applied signal it is 1 at index zero and 0 elsewhere. The input voltages are not modified.',
 ['inputs','configurations'],'every complex junction voltage array, positive frequencies, number of tones, harmonics, points, and int/tuple summation limits',
 'tests cover one real-voltage case per shape and an unpumped case; phases, unequal limits and three or more harmonics are never compared with the definition',
 [QT],[('alpha, phi, Bessel table','qtcurrent.calculate_phase_factor_coeff'),('recursive convolution','qtcurrent._convolve_coefficients')],['qmix.qtcurrent.calculate_phase_factor_coeff'])
prop('C03','Interpolated response matrix holds resp(vb + sum of photon steps)',
 'Entry [k, l, ...] (negative indices wrapping) of the pre-interpolated response matrix is the response function at bias voltage plus k*freq1 + l*freq2 + ... for every index within the per-tone summation limits and every bias point. Passing this matrix to the current calculation gives the same current as letting the calculation build it, also when the same circuit object is re-used after its frequencies, bias points or response function were changed.',
 ['inputs','configurations','histories'],'every bias sweep, frequency set of 1 to 4 tones, int/tuple summation limits, response function; sequences of two successive calls with changed circuit or response function',
 'the tests only check a few entries of equal-limit matrices and one call; per-tone limits, wrap-around and stale state between calls are not reached',
 [QT],[('index/voltage grid construction','qtcurrent._interpolate_respfn_N_tone'),('num_b unpacking','qtcurrent._unpack_num_b')],['qmix.qtcurrent.interpolate_respfn','qmix.qtcurrent.qtcurrent'])
prop('C04','Tunneling current is tone-order, padding and time-origin invariant',
 'Relabelling the tones (with their voltages, frequencies and summation limits) leaves every current unchanged; adding a tone or harmonic that carries no voltage leaves currents at frequencies it cannot help to form unchanged; shifting the time origin multiplies the current at each combination frequency by the matching phase factor and leaves the dc current unchanged; and the current is linear in the response function.',
 ['inputs','configurations'],'all complex voltages, frequency sets, phases, response function values, and tone permutations within the tone/harmonic/limit bounds',
 'metamorphic relations over continuous inputs; the tests check a few adding-empty-tone cases with fixed real voltages',
 [QT],[('tone loops','qtcurrent._current_N_tones'),('phase factors','qtcurrent.calculate_phase_factor_coeff')],['qmix.qtcurrent.qtcurrent'])
prop('C05','Reported harmonic-balance convergence means the circuit is solved',
 'When harmonic balance reports convergence (it stops before the last allowed iteration, or reports success in mode "x", or marks a bias point as finished in mode "m"), the returned junction voltage satisfies V_T - Z_T*I(V_J) = V_J at every tone and harmonic (at that bias point) with relative error at most stop_rerror, where I is the tunneling current of exactly that returned voltage. check_hb_error accepts a voltage exactly when every tone, harmonic and bias point satisfies the relation with relative error below the limit (relative to the junction voltage; when the circuit has any impedance, source voltages below 1e-10 count as 1e-10 (normalised), and a zero junction voltage is never accepted).',
 ['inputs','configurations'],'every tunneling-current function, circuit voltages/impedances, starting voltage, stop_rerror, and iteration limit within the bounds',
 'tests run converging examples only; a solver that stops too early, looks at one tone only or drops a bias point passes them',
 [HB],[('error vector and stop rule','harmonic_balance.harmonic_balance'),('independent check','harmonic_balance.check_hb_error')],['qmix.harmonic_balance.harmonic_balance','qmix.harmonic_balance.check_hb_error'])
prop('C06','Harmonic balance takes exact (damped) Newton steps',
 'If the junction\'s currents are an affine function of the real and imaginary parts of all the junction voltages and the circuit is non-degenerate, then one undamped iteration reaches the exact solution from any starting voltage, and one iteration with damping coefficient d covers exactly the fraction d of the way. This holds for every number of tones, harmonics and bias points, each bias point being solved on its own.',
 ['inputs','configurations'],'every affine (not merely complex-linear) junction, embedding impedance and voltage, initial voltage and damping coefficient within the size bounds',
 'a wrong Jacobian entry or correction sign for some tone/harmonic pair still converges on the tests\' mildly coupled examples, only more slowly',
 [HB],[('numerical Jacobian','harmonic_balance._inv_jacobian'),('correction','harmonic_balance.harmonic_balance')],['qmix.harmonic_balance.harmonic_balance'])
prop('C07','Harmonic balance has no side effects and honours its output mode',
 'Solving a circuit changes neither the circuit object nor the supplied starting voltage, works on locked circuits, and solving twice gives the same answer. Without a starting voltage the search starts from the voltage of a junction of impedance zj_guess. Mode "o" returns the voltage array, mode "x" the voltage, iteration count and success flag, and mode "m" the voltage and the mask of finished bias points, also when all embedding impedances are zero, in which case the junction voltage equals the Thevenin voltage at every bias point.',
 ['inputs','histories','configurations'],'every circuit (incl. zero sources, one-tone/one-harmonic and locked ones), starting voltage, mode; two successive solves',
 'tests never compare the inputs before and after and use mode "x"/"m" only on ordinary circuits',
 [HB],[('input preparation and return','harmonic_balance.harmonic_balance')],['qmix.harmonic_balance.harmonic_balance'])
prop('C08','Available power set, read back and expressed in any unit',
 'Setting the available power of any tone and harmonic in W, mW, uW, nW, pW, fW, dBm or dBW (any letter case) and reading it back in any of these units returns the same physical power, equal to |V_T*vgap|^2/(8*Re(Z_T)*R_N), changes only that tone\'s source voltage, and never the impedances or frequencies. A source with zero resistance has zero available power, and unknown units are rejected.',
 ['inputs','configurations'],'every positive power, gap voltage, normal resistance and complex impedance with positive real part, every tone/harmonic index, all 64 unit pairs',
 'tests use one value per unit at f=p=1 with real impedances',
 [CC],[('unit conversion','circuit.EmbeddingCircuit.available_power / set_available_power')],['EmbeddingCircuit.available_power','EmbeddingCircuit.set_available_power'])
prop('C09','Junction parameters and frequency units are mutually consistent',
 'A circuit built from either the gap voltage or the gap frequency has vgap*e = h*fgap, and igap = vgap/R_N whenever R_N is also known; vb is a uniform sweep from vb_min to vb_max with vb_npts points. Setting a tone\'s frequency in Hz, MHz, GHz, THz, V, mV or normalised units stores the same normalised value for the same physical frequency in the addressed tone only, "norm" working without any gap value; the photon voltages vph equal the normalised frequencies.',
 ['inputs','configurations'],'every positive gap voltage/frequency, resistance, sweep limits, frequency value, tone index and unit',
 'tests use single values for some units and never build circuits from fgap with rn',
 [CC],[('constructor','circuit.EmbeddingCircuit.__init__'),('unit conversion','circuit.EmbeddingCircuit.set_freq')],['EmbeddingCircuit','EmbeddingCircuit.set_freq'])
prop('C10','A saved circuit reads back to printed precision',
 'Saving a circuit to a file and reading it back restores the number of tones and harmonics and, for every tone and harmonic, the frequency and complex Thevenin voltage to 4 decimals and the complex impedance to 2 decimals, each in its own slot.',
 ['inputs','configurations'],'every frequency, complex voltage and impedance for 1-4 tones and 1-12 harmonics',
 'the test saves one small circuit with real positive values; two-digit harmonics, signs and per-slot mixing are not reached',
 [CC],[('writer','circuit.EmbeddingCircuit.save_info'),('parser','circuit.read_circuit')],['EmbeddingCircuit.save_info','read_circuit'])
prop('C11','set_alpha produces the requested junction drive level',
 'After set_alpha for tone f and harmonic p, a junction of (complex) impedance zj fed through that tone\'s Thevenin circuit sees a voltage whose drive level |V_J|/(p*freq_f) is exactly the requested alpha. Nothing but that Thevenin voltage changes.',
 ['inputs','configurations'],'every alpha, frequency, complex impedance, junction impedance, tone and harmonic',
 'one fundamental-tone test with real numbers',
 [CC],[('drive level to voltage','circuit.EmbeddingCircuit.set_alpha')],['EmbeddingCircuit.set_alpha'])
prop('C12','Response-function views agree and keep I-V/KK symmetry',
 'For any response function object, resp = ikk + j*idc, resp_conj is its complex conjugate, resp_swap = idc + j*ikk, calling the object equals resp, and didc/dikk (where the class offers them: every one but the unsmeared perfect model) are the derivatives of the very curves idc/ikk return. The tabulated curve spans negative and positive bias with current(-v) = -current(v), passing through the supplied points (or the model curve of the chosen parameters) when not smeared and being the Gaussian convolution (standard deviation v_smear) of that curve when smeared, and current_kk is the Kramers-Kronig transform of exactly that curve, on the same voltage grid; interpolation passes through the sampled points of each curve, among them all those near zero bias and near the gap, and with check_error a curve that misses a tabulated point inside the checked range by max_interp_error or more, in either direction, is refused. Tables that do not start at zero or do not reach 5 are refused, and the arrays passed in are not modified.',
 ['inputs','configurations'],'every supplied current table on a grid from 0 to beyond 5, every query voltage, smear setting and the spline order',
 'tests evaluate single voltages of the built-in models; swapped tables or a stale derivative on one class pass',
 [RF],[('odd reflection, KK, interpolators','respfn.RespFn.__init__'),('views','respfn.RespFn.idc/ikk/resp/...')],['qmix.respfn.RespFn','qmix.respfn.RespFnPerfect'])
prop('C13','Measured I-V data is resampled faithfully into a response function',
 'The response function built from measured I-V data follows the straight lines from the origin through the positive-bias samples below the voltage limit, continues beyond the last such sample with unit slope, ignores data at negative bias and beyond the limit, and is odd. The caller\'s arrays are not modified.',
 ['inputs','configurations'],'every sample current, sample positions drawn symbolically between grid points, every voltage limit, for up to a handful of samples',
 'one test compares against the analytic model on a dense grid',
 [RF],[('mask, extension and resampling','respfn.RespFnFromIVData.__init__')],['qmix.respfn.RespFnFromIVData'])
prop('C14','KK transforms are linear Hilbert transforms of (i - v) on even grids',
 'Both Kramers-Kronig routines are linear in the current after removing the ohmic line, return one value per sample, give zero for the ohmic line i = v, do not change their inputs, and turn an odd I-V curve on a symmetric grid into an even curve; the FFT version is minus the discrete Hilbert transform of i - v zero-padded to n times the length, and the trapezoid version is the principal-value sum (1/pi)*trapz((i-v)/(v\'-v)). Unevenly spaced voltages, whether the irregular step is larger or smaller than the first, are rejected.',
 ['inputs','configurations'],'every current array and every (un)even voltage grid up to the stated length and padding factor',
 'tests check two analytic curves at loose tolerance and one too-large step',
 [KK],[('FFT transform','kktrans.kk_trans'),('trapezoid transform','kktrans.kk_trans_trapz')],['qmix.mathfn.kktrans.kk_trans','qmix.mathfn.kktrans.kk_trans_trapz'])
prop('C15','I-V curve models have the physics they model',
 'Every I-V model is an odd function of voltage and gives the same value for a scalar and for an array element (float or integer, Python or NumPy); the perfect model is 0 below the gap, V/2 at the gap and V above it, and its KK transform is even, finite everywhere and equals the closed form; the polynomial model is v^(2n+1)/(1+v^(2n)); the exponential model depends on vgap, rn, rsg and agap through its logistic blend of the sub-gap line and the normal-resistance line, equals half their sum at the gap up to an exponentially small term, and rejects unknown model names. Inputs are not modified.',
 ['inputs','configurations'],'every voltage (incl. exactly +-1 and integers) and every positive model parameter',
 'tests use float arrays at selected voltages and default parameters',
 [MO],[('models','ivcurve_models.perfect/perfect_kk/polynomial/exponential/expanded')],['qmix.mathfn.ivcurve_models'])
prop('C16','Gaussian smoothing preserves length, constants and order',
 'gauss_conv returns as many samples as it is given, is linear, keeps constants unchanged, never leaves the range of its input, commutes with reversing the data, and in the interior equals the symmetric, normalised Gaussian-weighted mean centred on each sample. Too large windows are rejected and the input is not modified.',
 ['inputs','configurations'],'every data array (values symbolic) for lengths, sigma (integer and fractional) and ext_x within the bounds',
 'one test smooths a single curve with one integer sigma',
 [FI],[('window and edge reflection','filters.gauss_conv / _gauss')],['qmix.mathfn.filters.gauss_conv'])
prop('C17','Numerical slopes are exact secants on any grid',
 'slope returns at every interior sample the secant between its two neighbours and one-sided secants at the ends; slope_span_n gives the secant over the wider window from (span+1)/2 samples before to (span-1)/2 samples after each interior sample (and, within half a span of the ends, a one-sided secant: sample m from an end uses samples m and 3m+1 from it, and the end samples repeat their neighbours), so that on straight lines over any strictly increasing grid both are exact, results always lie between the smallest and largest secant of the data, and with nozeros no returned slope is zero while without it flat data gives zero. Inputs are not modified.',
 ['inputs','configurations'],'every strictly increasing x and every y up to the stated lengths, all odd windows within',
 'one parabola test on an even grid',
 [MI],[('central differences','misc.slope / slope_span_n')],['qmix.mathfn.slope','qmix.mathfn.slope_span_n'])
prop('C18','Cleaning data sorts it, drops NaNs and repeats, keeps the rest intact',
 'clean_xy and clean_matrix return strictly increasing, NaN-free x values, each with a y it was paired with in the input, covering every distinct x that has a NaN-free pair, for any number of samples including none or one; xy_to_matrix and matrix_to_xy are inverse. remove_doubles and sort on a matrix act on the chosen column and keep rows together, and refuse unsorted data when checking is on. Inputs are not modified.',
 ['inputs'],'every array of up to 4-5 samples with arbitrary ordering, ties and NaN positions',
 'tests use two fixed arrays with distinct structure',
 [CD],[('cleaning steps','clean_data.*')],['qmix.exp.clean_data.clean_xy','qmix.exp.clean_data.clean_matrix'])
prop('C19','I-V import returns the physical curve, whatever the file format',
 'Importing measured I-V data (dciv_curve, iv_curve) yields the true junction voltage and current: units and (positive) multipliers converted, the given offsets subtracted, series resistance removed as V - I*Rs, then normalised by vgap and vgap/rn and linearly interpolated onto npts points from -vmax to vmax, independent of voltage/current units, sweep direction, repeated samples and NaN rows. rn and vint are the inverse slope and the zero crossing of the least-squares line through the points inside vrn, rsg the inverse slope around vrsg, igap = vgap/rn and fgap = e*vgap/h. Beyond the measured data the dc curve holds its end values and the pumped curve is zero. A gap voltage that is given is used; otherwise it is the voltage at which the straight line through the steepest transition reaches half the current it has where it meets the normal-resistance line. The pumped curve uses the dc curve\'s offsets and gap values, and the caller\'s data is not modified.',
 ['inputs','configurations'],'every current value (and the stated symbolic voltages), unit combination, multiplier, offset, series resistance, sweep direction within the sample bounds; filter off',
 'tests run on two data files with default options',
 [IV],[('load/one pass','iv_data._load_iv'),('offset, series resistance','iv_data._correct_*'),('fits','iv_data._find_*'),('resample','iv_data.dciv_curve/iv_curve')],['qmix.exp.iv_data.dciv_curve','qmix.exp.iv_data.iv_curve'])
prop('C20','Noise temperature and gain are the Y-factor values of the data',
 'For hot and cold IF sweeps, if_data returns at every bias point gain = (P_hot-P_cold)/(T_hot-T_cold) and T_N = (T_hot - T_cold*Y)/(Y-1) with Y = P_hot/P_cold (clamped just above 1), calibrated powers, and Callen-Welton equivalent load temperatures (h f/2k) coth(h f/2kT). The result depends on the loads and frequency only through these, is not changed by rescaling both powers when self-calibrated, and neither input array is modified.',
 ['inputs','configurations'],'every pair of positive hot/cold power sweeps, load temperatures and LO frequency within the sample bound',
 'two data files with fixed loads',
 [IF],[('Y factor','if_data._find_tn_gain'),('Callen-Welton','if_data._temp_cw')],['qmix.exp.if_data.if_data'])
prop('C21','The reported best bias point is the best one',
 'The index reported by if_data is the point of maximum gain, of minimum noise temperature, or nearest to the requested voltage vbest, according to the selected option in any letter case; vbest takes precedence, and unknown options are rejected.',
 ['inputs','configurations'],'every pair of hot/cold power sweeps, all orderings of gains/noise temperatures, every vbest within the sample bound',
 'one data file per option where the extremes are well separated',
 [IF],[('selection','if_data._find_tn_gain')],['qmix.exp.if_data.if_data'])
prop('C22','IF noise is calibrated from the shot-noise line',
 'The IF calibration scales the power (of the sweep itself, or of a hot/cold pair by their average) such that the least-squares line through its samples in the shot-noise range has slope 5.8 K per mV of bias, the IF noise is that calibrated line at the normal-resistance intercept voltage, the fit flag says whether it lies strictly between 0 and 50 K, and samples outside the range have no influence. Without a given range, the samples used are on the straight part above the gap structure, so that scaling the power changes neither the IF noise nor the calibrated power. Rescaling the measured power rescales only the correction factor; supplying an earlier calibration re-uses it unchanged; the bias axis is (V*multiplier - offset [- series-resistance drop])/vgap resampled from 0 to vmax with zero power outside the data.',
 ['inputs','configurations'],'every power sweep, gap voltage, intercept, offset and shot-noise ranges given by the user, within the sample bound',
 'one data file',
 [IF],[('calibration','if_data._find_if_noise'),('loading','if_data._load_if')],['qmix.exp.if_data.dcif_data','qmix.exp.if_data.if_data'])
prop('C23','IF response noise temperature is the bounded Y-factor value',
 'if_response returns for each IF frequency the frequency, the noise temperature (T_hot - T_cold*Y)/(Y-1) with Y the dB power ratio, and the two powers, in the input order; the noise temperature always lies between 0 and the maximum, which also replaces unphysical values. The result is the same for row- and column-oriented input, and the input is not modified.',
 ['inputs','configurations'],'every frequency and hot/cold dB pair incl. Y <= 1, load temperatures and maximum, for up to a few points',
 'one array with three physical points',
 [IR],[('Y factor and clamps','if_response.if_response')],['qmix.exp.if_response.if_response'])
prop('C24','Impedance recovery scores the true least-squares residual',
 'In impedance recovery, the pumped dc current predicted for a drive level is sum_n J_n(alpha)^2 * idc(v+n*vph) and the ac current is the matching Tucker sum of idc and ikk over |n| <= num_b. The source voltage assigned to an embedding impedance Z is the least-squares best fit of V_T*|z_i/(Z+z_i)| to the junction voltage amplitudes |v_i| (z_i being the junction impedances), and the error reported for Z is the mean squared residual of that fit, hence never negative. The recovered impedance is the grid point of smallest error within the requested resistance and reactance ranges (or the forced value); the bias points used are those from 1-vph+vph*low to 1-vph*(1-high) of the gap, (low, high) being the fit range (0.25 to 0.8 by default). The drive level search, for levels within alpha_max/2 of its first guess, converges to the drive level that reproduces a monotonic pumped current.',
 ['inputs','configurations'],'every junction voltage/impedance vector, embedding impedance, drive level and response value within the sample and num_b bounds',
 'one end-to-end data file with a loose plausibility check',
 [EX],[('error function','exp_data._error_function'),('source voltage','exp_data._find_source_voltage'),('currents','exp_data._find_ac_current/_find_pumped_iv_curve'),('drive level','exp_data._find_alpha')],['qmix.exp.exp_data.PumpedData'])
prop('C25','Imported-data objects carry consistent derived quantities',
 'A DCData object publishes exactly the values of the dc analysis and derived quantities obeying rna = rn*area (area in um^2), jc = vgap/rna, q = rsg/rn, with ileak the current at the leakage voltage. A PumpedData object publishes the LO frequency, vph = f/fgap, the gap values of its dc curve, the pumped curve returned by the I-V import, and IF results (tn, gain, tn_best, gain_best, g_db = 10*log10(gain_best), v_best) that all refer to the same best bias point; options given by the caller are used and not modified.',
 ['inputs','configurations'],'every dc analysis, I-V and IF import result, junction area, leakage voltage and LO frequency within the sample bound',
 'plausibility ranges on one file',
 [EX],[('constructors','exp_data.DCData.__init__/PumpedData.__init__')],['qmix.exp.exp_data.DCData','qmix.exp.exp_data.PumpedData'])
prop('C26','A circuit holds exactly what was set, and locking freezes it',
 'A new embedding circuit of any allowed size has zero frequencies, voltages and impedances in every slot, empty names, and an evenly spaced bias sweep of vb_npts points from vb_min to vb_max; sizes outside the allowed range and reversed sweeps are rejected, and circuits share no state. initialize_vj gives a fresh array of zeros of shape (num_f+1, num_p+1, vb_npts); set_name changes only that name. After lock(), every in-place change (item or slice assignment to freq, vt, zt or vb, set_freq, set_alpha, set_available_power) raises an error and leaves the circuit as it was, while reading, powers, current calculations and saving give the same as for an unlocked circuit; other circuits stay writable; unlock() keeps all values and makes the circuit writable again.',
 ['inputs','configurations','histories'],'every size, bias limits, frequency, voltage and impedance; every slot attacked through every setter; lock/unlock sequences; several circuits alive at once',
 'the tests assign to one locked slot; partial effects before an error, setters, shared state between circuits and later lock/unlock steps are not reached',
 [CC],[('constructor','circuit.EmbeddingCircuit.__init__'),('locking','EmbeddingCircuit.lock/unlock')],['qmix.circuit.EmbeddingCircuit'])
prop('C27','Exported result tables list every data set in the stated units',
 'plot_overall_results writes, for any list of analysed data sets, one row per data set in the given order: results.txt (as many columns as its header) with the LO frequency, file names, best noise temperature, gain in dB, drive level, embedding impedance in ohms (zt*rn), embedding voltage in mV (vt*vgap*1e3), the fit flag, the IF noise and its flag; recovered-emb.txt with frequency, voltage in mV, impedance in ohms and fit flag; dciv-info.txt with gap voltage in mV, normal resistance in ohms and gap frequency in GHz; dciv-data.txt with the normalised dc curve. Printed numbers are within half a unit of the last printed digit. The summary figures show the same quantities against LO frequency (the figures of recovered impedance and voltage only the good fits, the IF-noise figure only the good noise fits), and the data are not modified.',
 ['inputs','configurations'],'every content of the data objects, up to five data sets in any frequency order with any mix of good and bad fits',
 'there is no test of the exports; a wrong unit, a column out of step with its header or rows of mixed data sets look plausible',
 [EX],[('tables and summary figures','exp_data.plot_overall_results')],['qmix.exp.exp_data.plot_overall_results'])
prop('C28','Figures show the data in physical units',
 'The plotting methods draw the data they name: dc and pumped I-V curves in mV (voltage*vgap*1e3) and uA (current*igap*1e6) without the samples beyond the measured range, IF powers, noise temperature and gain against bias in mV, the best-point markers at the best bias, the normal-state line through the intercept voltage, the leakage marker at the leakage voltage, the shot-noise line and IF noise at the intercept, the error surface against resistance and reactance in ohms with its minimum annotated at zt*rn, the simulated curve of the recovered circuit with the fit interval used by the recovery, and the response function as stored and as interpolated; numbers in legends agree with the data to the printed digits. With a file name the figure is saved under it and nothing is returned, otherwise the axes are returned; plot_all gives every figure its own file in the given folder.',
 ['inputs','configurations'],'every content of the data objects (gap voltage, resistance, curves, powers, temperatures, gains, impedances, leakage voltage, fit ranges) within the sample bound',
 'plotting code is excluded from coverage and no test looks at what is drawn',
 [EX,RF],[('dc figures','exp_data.DCData.plot_*'),('pumped figures','exp_data.PumpedData.plot_*'),('response function','respfn.RespFn.plot/plot_interpolation')],['qmix.exp.exp_data.DCData','qmix.exp.exp_data.PumpedData','qmix.respfn.RespFn'])
prop('C29','Printed reports state the computed values, and verbosity never changes a result',
 'The text reports state the values they name, within half a unit of the last printed digit and in the unit printed beside them: print_info of a circuit (frequency, harmonic number, names, voltage in Vgap and in photon voltages, impedance in Rn, available power in W and dBm when the junction properties are known), str/repr/print_info of dc data (gap voltage, gap frequency, resistances, Q, current density in kA/cm2, leakage current, offsets, intercept, IF noise when measured), the impedance-recovery report (LO frequency, embedding voltage and impedance, available power, drive level, junction impedance, delivered power, verdict of the fit), the IF report (noise, best noise temperature, its gain in dB), the harmonic-balance progress report and error check (largest and median relative residual, share of finished points, per tone and harmonic), the response-function report, and the terminal helpers (pvalf, pvale, printc). Turning verbose on or off changes no returned value of any of these routines, nor the objects they were given.',
 ['inputs','configurations'],'every content of the circuits, data objects, junction voltages and residuals, with each combination of reporting options, within the size bounds',
 'the tests print with fixed inputs and never look at the text or compare the results with verbose off',
 [CC,EX,IF,HB,QT,RF],[('circuit report','circuit.EmbeddingCircuit.print_info'),('dc report','exp_data.DCData.__str__/__repr__/print_info'),('recovery report','exp_data.PumpedData'),('IF report','if_data.if_data'),('harmonic-balance report','harmonic_balance.harmonic_balance/check_hb_error')],['qmix.circuit.EmbeddingCircuit','qmix.exp.exp_data','qmix.exp.if_data.if_data','qmix.harmonic_balance','qmix.qtcurrent.qtcurrent','qmix.respfn'])
prop('C30','Folders of IF spectra are analysed completely, and result folders are laid out as documented',
 'plot_if_spectrum analyses every response file (*comb*.dat) of a data folder and no other file: for each it draws and saves, under the name of the file, the noise temperature of if_response against IF frequency and its smoothed version (Gaussian, one sample), and one summary figure holds the spectrum of every file labelled with the LO frequency given in the file name; without a figure folder nothing is saved. initialize_dir creates the figure folder with every documented sub-folder inside it, whether or not its name ends in a slash, keeps what is already there and creates nothing elsewhere.',
 ['inputs','configurations'],'every content of the response files and any number of files within the bound, file names and folder states',
 'excluded from coverage; no test runs it',
 [EX,IR],[('spectra','exp_data.plot_if_spectrum'),('folders','exp_data.initialize_dir')],['qmix.exp.exp_data.plot_if_spectrum','qmix.exp.exp_data.initialize_dir'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
