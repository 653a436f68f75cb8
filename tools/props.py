"""Single table of the properties; writes properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, level='proof', note='', over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, _level=level, _note=note))


prop('C01', 'Tunnelling current obeys the multi-tone spectral-domain formula',
     'For every circuit of one to four tones, every number of harmonics, every summation limit and every junction voltage, the current '
     'returned at a requested frequency is the sum, over all combinations of tone multiples (each within plus/minus the number of '
     'harmonics) whose total frequency equals the request to four decimals, of the spectral-domain coefficient built from the phase '
     'factor products and the response function. The zero-order combination contributes its imaginary part, every other one '
     '(Im S+ + Im S-) - j (Re S+ - Re S-).',
     'all circuits (1-4 tones, any harmonics, any bias sweep), junction voltages, response functions, summation limits, frequencies',
     'the nested convolution loops run over harmonics, orders and bias points; tests sample a few small configurations against stored numbers',
     ['qmix/qtcurrent.py'], [('tunnelling current', 'qmix/qtcurrent.py:qtcurrent'), ('coefficients per tone count', 'qmix/qtcurrent.py:_current_coeff_*_tone'),
                             ('phase factors', 'qmix/qtcurrent.py:calculate_phase_factor_coeff'), ('response matrix', 'qmix/qtcurrent.py:interpolate_respfn')],
     note='All obligations discharged for symbolic numbers of bias points, harmonics, limits and requested frequencies.')

prop('C02', 'Phase factor coefficients are convolved Bessel spectra',
     'For each tone the phase factor spectrum equals the repeated convolution, over all of its harmonics, of the Bessel spectra '
     'J_n(alpha_p) exp(-j n arg V_p) with alpha_p = |V_p| / (p f), where harmonic p only contributes to orders that are multiples of p '
     'and every spectrum is truncated at the summation limits. This holds for every way of giving the limits (one integer or one per tone).',
     'all junction voltages, frequencies, numbers of harmonics and summation limits, 1-4 tones',
     'truncation edges and high harmonics only show up for particular limit/harmonic combinations',
     ['qmix/qtcurrent.py'], [('phase factor spectrum', 'qmix/qtcurrent.py:calculate_phase_factor_coeff'), ('harmonic convolution', 'qmix/qtcurrent.py:_convolve_coefficients')])

prop('C03', 'Response matrix holds the response at every shifted bias voltage',
     'The pre-computed response matrix holds, for every combination of signed tone orders within the limits (negative orders counted from '
     'the end) and every bias point, the response function evaluated at the bias voltage shifted by the sum of order times tone frequency. '
     'Supplying this matrix to the current calculation gives the same current as letting it be computed internally, and circuits with an '
     'unsupported number of tones are refused.',
     'all circuits of 1-4 tones, response functions and limits', 'index wrap-around for negative orders differs per tone and is only sampled by tests',
     ['qmix/qtcurrent.py'], [('response matrix', 'qmix/qtcurrent.py:interpolate_respfn')])

prop('C04', 'Requested frequencies are independent and output shapes follow the request',
     'The current returned for one requested frequency does not depend on which other frequencies are requested with it or in which order; '
     'a list or array of frequencies gives one row per frequency and one column per bias point, and a single number gives one current per '
     'bias point. A single DC request returns the real-valued current.',
     'all lists, arrays and single values of frequencies; all circuits and voltages', 'cross-talk between rows needs particular frequency lists (duplicates, order, sums that collide)',
     ['qmix/qtcurrent.py'], [('dispatch and accumulation', 'qmix/qtcurrent.py:qtcurrent')])

prop('C05', 'Harmonic balance only reports success when the circuit equation is met',
     'Whenever harmonic balance stops without announcing that the target was missed, the returned junction voltage satisfies '
     '|V_T - Z_T I(V) - V| <= tolerance * |V| for every tone, harmonic and bias point, with the circuit voltages floored at the minimum '
     'source voltage; the returned mask marks exactly the points meeting a strict version of this, and unused DC rows of the result are zero. '
     'The independent result check accepts a voltage if and only if the strict inequality holds everywhere.',
     'all circuits with 1-4 tones and any harmonics, responses, initial guesses, tolerances, iteration limits, damping',
     'tests converge on one or two friendly circuits; the guarantee concerns every iteration history including non-convergence',
     ['qmix/harmonic_balance.py'], [('solver loop', 'qmix/harmonic_balance.py:harmonic_balance'), ('result check', 'qmix/harmonic_balance.py:check_hb_error'),
                                    ('current of all signals', 'qmix/harmonic_balance.py:_qt_current_for_hb')], over=('inputs', 'histories'))

prop('C06', 'Harmonic balance updates are damped Newton steps from the stated guess',
     'Each update subtracts the damping factor times the inverse Jacobian applied to the current error vector, where the Jacobian is the '
     'forward finite difference of the circuit error for a small real and a small imaginary change of each signal voltage. Without a guess the '
     'start is the voltage divider of the source impedance and the assumed junction impedance, and with all source impedances zero '
     'the source voltages themselves are returned at every bias point.',
     'all circuits, voltages, damping factors and numbers of signals', 'a wrong Jacobian block still converges on weakly non-linear test circuits',
     ['qmix/harmonic_balance.py'], [('Jacobian', 'qmix/harmonic_balance.py:_inv_jacobian'), ('update', 'qmix/harmonic_balance.py:harmonic_balance')])

prop('C07', 'Simulation entry points leave the caller\'s data untouched',
     'Computing tunnelling currents, response matrices or harmonic balance never modifies the circuit description, the junction voltage or '
     'initial guess, the frequency list, or the response function that the caller passed in, so repeating a call gives the same result. '
     'This includes circuits whose arrays have been made read-only.',
     'all calls of the simulation entry points with any circuit, voltages and response', 'tests rarely compare inputs after a call and aliasing only appears for some shapes',
     ['qmix/harmonic_balance.py', 'qmix/qtcurrent.py'], [('harmonic balance', 'qmix/harmonic_balance.py:harmonic_balance'), ('current', 'qmix/qtcurrent.py:qtcurrent')],
     over=('inputs', 'histories'))

prop('C08', 'Available power set for a signal is read back unchanged',
     'For every signal, power and unit (W, mW, uW, nW, pW, fW, dBm, dBW), setting the available power and reading it back in the same or any '
     'other unit gives the corresponding value, power = |V_T|^2 / (8 Re Z_T) in physical units, and no other signal is changed. '
     'A signal with zero source resistance has zero available power, and unknown units or missing junction constants are refused.',
     'all powers, source impedances with positive real part, junction constants, tones, harmonics and units', 'unit conversions form a pairwise table; tests read back few pairs',
     ['qmix/circuit.py'], [('set power', 'qmix/circuit.py:EmbeddingCircuit.set_available_power'), ('read power', 'qmix/circuit.py:EmbeddingCircuit.available_power')])

prop('C09', 'Circuit construction, junction constants, frequency and drive setters agree',
     'A new circuit has zeroed tone-by-harmonic arrays of the requested size, the requested bias sweep and mutually consistent gap voltage, '
     'gap frequency (f = e V / h), normal resistance and gap current (I = V / R) from whichever of them were given. Setting a '
     'frequency in any unit stores value / gap frequency (or value / gap voltage) for that tone only, setting a drive level stores the source voltage '
     'that produces it across the assumed junction impedance at that harmonic, and locking or unlocking makes every array read-only or writeable.',
     'all sizes, bias ranges, junction constants, units, tones and harmonics', 'combinations of optional constants and units are not enumerated by tests',
     ['qmix/circuit.py'], [('construction', 'qmix/circuit.py:EmbeddingCircuit.__init__'), ('frequency', 'qmix/circuit.py:EmbeddingCircuit.set_freq'),
                           ('drive level', 'qmix/circuit.py:EmbeddingCircuit.set_alpha'), ('lock', 'qmix/circuit.py:EmbeddingCircuit.lock')])

prop('C10', 'A saved circuit file reads back as the same circuit',
     'Saving a circuit to a file and reading it back gives a circuit with the same numbers of tones and harmonics, whose frequencies and '
     'Thevenin voltages agree to four decimals and whose Thevenin impedances agree to two decimals for every tone and harmonic.',
     'all circuits with any frequencies and complex voltages and impedances (any sign)', 'text formatting of complex values, many tones and harmonics is only sampled',
     ['qmix/circuit.py'], [('writer', 'qmix/circuit.py:EmbeddingCircuit.save_info'), ('reader', 'qmix/circuit.py:read_circuit')])

prop('C11', 'Response function value is the KK current plus j times the DC current',
     'For every bias voltage the response function equals its Kramers-Kronig current plus j times its DC current, its conjugate and swapped forms are the '
     'conjugate and the DC current plus j times the KK current, and the derivatives it returns are those of its DC and KK curves. The stored I-V curve is '
     'the odd extension of the given data or model (smeared with the requested width when asked), its KK curve is the Kramers-Kronig transform of that curve, and '
     'for measured data the curve follows the data from zero to the limit voltage and continues with unit slope through the last point used.',
     'all I-V data, response classes, parameters and bias voltages', 'tests check few voltages of a few stored curves',
     ['qmix/respfn.py'], [('evaluation', 'qmix/respfn.py:RespFn.resp'), ('construction', 'qmix/respfn.py:RespFn.__init__'), ('measured data', 'qmix/respfn.py:RespFnFromIVData.__init__')])

prop('C12', 'Kramers-Kronig transform is the negated Hilbert transform of the excess current',
     'For evenly spaced voltages the transform returns, for every sample, minus the Hilbert transform of current minus voltage, padded to the '
     'requested multiple of the length and cut back to the original length; unevenly spaced data is refused by both variants. The trapezoidal variant '
     'returns 1/pi times the trapezoidal integral of (I - V)/(V - V_a) over all other samples.',
     'all evenly spaced I-V data and paddings', 'tests compare one curve with an analytic result at coarse tolerance',
     ['qmix/mathfn/kktrans.py'], [('transform', 'qmix/mathfn/kktrans.py:kk_trans'), ('trapezoidal', 'qmix/mathfn/kktrans.py:kk_trans_trapz')])

prop('C13', 'I-V curve models follow their formulas and are odd',
     'Each I-V model returns its published formula at every voltage: the perfect model is 0 below the gap, half the gap current at the gap and '
     'ohmic above it (for arrays and numbers, floats and integers alike), its KK transform is the analytic logarithm with the stated cap at the '
     'gap, and the polynomial and exponential models are their closed forms. The perfect, polynomial and exponential-fixed models are odd functions of voltage '
     'and the KK transform is even.',
     'all voltages (arrays and numbers), orders and junction parameters', 'special points (the gap, negative voltages, integer arrays) are measure-zero for sampled tests',
     ['qmix/mathfn/ivcurve_models.py'], [('perfect', 'qmix/mathfn/ivcurve_models.py:perfect'), ('analytic KK', 'qmix/mathfn/ivcurve_models.py:perfect_kk'),
                                         ('polynomial', 'qmix/mathfn/ivcurve_models.py:polynomial'), ('exponential', 'qmix/mathfn/ivcurve_models.py:exponential')])

prop('C14', 'Gaussian smoothing and numerical derivatives are exact where they must be',
     'Gaussian smoothing returns, for every sample, the weighted average of the data mirrored at both ends with normalised Gaussian '
     'weights, so the length and constant data are preserved; too large windows are refused. The numerical derivative is the central difference '
     'inside and one-sided at the ends, so it is exact for straight lines, and the wide-span derivative never returns zero when zeros are forbidden.',
     'all data, widths and spans', 'edge samples and window/length combinations are not covered by sampled tests',
     ['qmix/mathfn/filters.py', 'qmix/mathfn/misc.py'], [('smoothing', 'qmix/mathfn/filters.py:gauss_conv'), ('derivative', 'qmix/mathfn/misc.py:slope'), ('wide-span derivative', 'qmix/mathfn/misc.py:slope_span_n')])

prop('C15', 'Data cleaning returns sorted unique NaN-free rows of the input',
     'Cleaning x/y data or a two-column matrix returns rows that all occur in the input, without NaN, strictly increasing in the key column, '
     'and with every key of a NaN-free input row represented; x/y pairing is never broken and the input is not modified. Sorting and '
     'duplicate removal honour the requested column, and empty or single-row data is handled.',
     'all arrays including duplicates, NaN, empty and single-row data', 'particular patterns of duplicates/NaN/short data are needed to expose errors',
     ['qmix/exp/clean_data.py'], [('x/y', 'qmix/exp/clean_data.py:clean_xy'), ('matrix', 'qmix/exp/clean_data.py:clean_matrix')])

prop('C16', 'I-V import applies units, gains, offsets, smoothing and series resistance consistently',
     'Imported I-V data is converted to volts and amperes, cleaned of NaNs, reduced to the sweep away from the first sample, sorted and freed of repeated voltages; then multiplied by '
     'the given gains, shifted by the given offset (or the recovered one, which minimises the mismatch of the curve and its reflection near the origin; zero for unipolar data), '
     'smoothed if asked (rotate, Savitzky-Golay, rotate back) and corrected for series resistance as V - I R, samples of negative static resistance counting as zero volts and '
     'samples without current staying where they are. It is normalised by gap voltage and gap current and resampled on the symmetric grid of the requested range. '
     'Pumped data reuses the offset and normalisation of the DC data unless both offsets are given, and is zero beyond the measured range.',
     'all two-column data, units, gains, offsets and resistances', 'each correction is a separate code path selected by options and data shape',
     ['qmix/exp/iv_data.py'], [('DC import', 'qmix/exp/iv_data.py:dciv_curve'), ('pumped import', 'qmix/exp/iv_data.py:iv_curve'), ('series resistance', 'qmix/exp/iv_data.py:_correct_series_resistance')])

prop('C17', 'Junction parameters are recovered from the fitted I-V lines',
     'The normal resistance is the inverse slope, and the intercept voltage the zero crossing, of the least-squares line through the '
     'data strictly inside the requested range; the subgap resistance is the inverse slope within 0.1 mV of the requested voltage. '
     'The gap voltage is where the line fitted around the steepest point (above 2 mV, smoothed over 0.2 mV) reaches half the current at which it meets the normal-state line.',
     'all I-V data and ranges', 'the fits select data-dependent ranges; tests use one measured curve',
     ['qmix/exp/iv_data.py'], [('normal resistance', 'qmix/exp/iv_data.py:_find_normal_resistance'), ('gap voltage', 'qmix/exp/iv_data.py:_find_gap_voltage'), ('subgap', 'qmix/exp/iv_data.py:_find_subgap_resistance')])

prop('C18', 'Noise temperature and gain follow the Y-factor equations',
     'For every bias point the noise temperature is (T_hot - Y T_cold)/(Y - 1) and the gain is (P_hot - P_cold)/(T_hot - T_cold), with Y the hot/cold '
     'power ratio floored just above one and the load temperatures Callen-Welton corrected at the given frequency. The selected best point is the one nearest the requested bias, '
     'or the maximum gain or minimum noise temperature as asked, and mismatched voltages or unknown criteria are refused.',
     'all hot/cold IF data, temperatures, frequencies and selection rules', 'ratios at or below one, NaN entries and option combinations are not sampled',
     ['qmix/exp/if_data.py'], [('noise temperature', 'qmix/exp/if_data.py:_find_tn_gain'), ('Callen-Welton', 'qmix/exp/if_data.py:_temp_cw')])

prop('C19', 'IF response spectrum gives the Y-factor noise temperature per frequency',
     'For every IF frequency the reported noise temperature is (T_hot - Y T_cold)/(Y - 1) with Y from the dB powers, negative or excessive values '
     'are replaced by the stated maximum, and frequency and powers are returned unchanged. Row and column oriented input give the same '
     'result, and the input is not modified.',
     'all spectra, orientations, temperatures and maxima', 'clipping and orientation depend on data values and shape',
     ['qmix/exp/if_response.py'], [('IF response', 'qmix/exp/if_response.py:if_response')])

prop('C20', 'IF power calibration fixes the shot noise slope and scales all data alike',
     'The calibration factor makes the shot noise line, fitted by least squares over exactly the requested voltage range(s) (everything above twice the gap when fewer than five points '
     'remain), rise by 5.8 K per mV, the IF noise is that calibrated line at the intercept voltage of the junction, and it is flagged good exactly between 0 and 50 K. The same factor '
     'scales the DC, hot and cold IF powers, and an existing calibration is reused when supplied. Imported voltages are converted to volts, multiplied by the gain, corrected for the DC '
     'offset and series resistance and normalised to the gap; powers are resampled on the requested grid, with zero outside the data.',
     'all IF data, voltage ranges and junction data', 'range selection and reuse of a calibration depend on options',
     ['qmix/exp/if_data.py'], [('calibration', 'qmix/exp/if_data.py:_find_if_noise'), ('import', 'qmix/exp/if_data.py:_load_if'), ('DC IF', 'qmix/exp/if_data.py:dcif_data'), ('hot/cold IF', 'qmix/exp/if_data.py:if_data')])

prop('C21', 'Impedance recovery follows Tucker theory and the least-squares fit formulas',
     'The single-tone pumped DC current and AC current used for impedance recovery equal the Tucker sums over Bessel orders, and the fit error and source voltage for a candidate '
     'embedding impedance equal the closed least-squares expressions. Recovered drive levels are never negative and close in on the level at which the pumped current crosses the measured '
     'current. Only samples inside the fit interval of the first photon step are used, the chosen impedance minimises the error over the search grid unless one is forced, the source voltage belongs '
     'to the impedance used, and drive level and junction impedance are reported for the sample nearest the middle of the step.',
     'all junction data, photon voltages, drive levels and candidate impedances', 'recovered values are compared with loose tolerances on one data set',
     ['qmix/exp/exp_data.py'], [('Tucker sums', 'qmix/exp/exp_data.py:_find_pumped_iv_curve'), ('AC current', 'qmix/exp/exp_data.py:_find_ac_current'),
                                ('fit', 'qmix/exp/exp_data.py:_error_function'), ('search', 'qmix/exp/exp_data.py:PumpedData._recover_zemb')])

prop('C22', 'Interpolation samples are valid and the error check is enforced both ways',
     'The sample points chosen for interpolating a response function are strictly increasing valid positions including the first and last data point. '
     'When error checking is requested, construction succeeds only if the absolute interpolation error of both the DC and KK curves '
     'over the checked range is below the maximum.',
     'all I-V data, sampling sizes and error limits', 'sampling depends on the curvature of the whole data set',
     ['qmix/respfn.py'], [('sampling', 'qmix/respfn.py:_sample_curve'), ('interpolation', 'qmix/respfn.py:_setup_interpolation')])

prop('C23', 'Experimental data objects expose one consistent set of junction, IF and mixer parameters',
     'A DC data object exposes the curve, gap voltage, current and frequency, normal and subgap resistance, intercept voltage and offset found by its own import, the quality factor Rsg/Rn, the RnA product for '
     'the given area, the current density and the leakage current of its own curve at the requested voltage, response functions made from that curve without and with the requested smear, and the IF noise and calibration of its IF data. '
     'A pumped data object takes gap, resistance, offset and intercept of the DC data given, normalises the LO frequency to its gap frequency, reports hot and cold power, noise temperature and gain of the IF analysis '
     '(with the DC calibration, if there is one) and, at the best bias, noise temperature, gain, gain in dB and the dynamic resistance. Impedance recovery and IF analysis run only when asked for and, for IF, when both loads are given. Keyword '
     'arguments override the defaults without changing them, no data is modified, and data that is not an array or a missing LO frequency is refused.',
     'all I-V and IF data and parameters', 'which value is stored where, and which options reach which step, depends on combinations of data and keyword arguments',
     ['qmix/exp/exp_data.py'], [('DC data', 'qmix/exp/exp_data.py:DCData.__init__'), ('pumped data', 'qmix/exp/exp_data.py:PumpedData.__init__')])


TECH = 'contract-based deductive verification of the real Python source (symbolic verification conditions, normaliser + z3)'


def main():
    import importlib
    import sys
    sys.path.insert(0, V)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, 'contracts', p['id'].lower() + '.py')):
            m = importlib.import_module('contracts.' + p['id'].lower())
            checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                               technique=TECH, level=m.LEVEL, level_note=getattr(m, 'NOTE', p['_note'] or m.EXPLAIN)))
        else:
            na.append(dict(property=p['id'], reason='no check registered yet'))
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sympy"', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'n/a')


main()
