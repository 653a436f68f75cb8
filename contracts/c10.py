from . import saved
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of save_info followed by read_circuit on the text it wrote, for any number of tones and harmonics and any values: the file is a sequence of texts with '
           'symbolic numbers (lines written once per iteration of the writing loops); the reading loop is executed over the same domain and every entry of the circuit '
           'read is the saved value rounded to the digits of its format')
NOTE = ('Assumed: format(x, ".Nf") gives text without white space that parses to x rounded to N decimals (NaN and infinities included by the bounded replays only), '
        'file contents are what was written, split and regular expressions for digits by contract; the qv verifier, z3.')
