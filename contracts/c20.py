from . import ifcal
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of _find_if_noise, _load_if, dcif_data and if_data for any data, ranges, junction metadata and options: the fitted points are exactly the requested ones, '
           'the calibration, noise, flag, imported columns and scaled powers equal the stated formulas at every sample, and no input array is written')
NOTE = ('The least-squares line is an uninterpreted function of the two columns it is fitted to (linregress assumed). With automatic range selection only the consequences '
        'of the chosen points are proved, not the choice. Assumed: np.interp, savgol_filter, gauss_conv by contract, the qv verifier, z3.')
