TECHNIQUE = ('contract-based deductive verification: contracts on the real functions, verification conditions generated by '
             'symbolic execution of the real source, discharged by z3/cvc5; counterexamples replayed on the real code')
HOOKS = None
NOTES = ''
CLAIMED = {
 'C01': ('proof', 'instants are mathematical integers of picoseconds below 2^53; the numpy timedelta model is trusted'),
 'C02': ('proof', 'arrays of one to four axes, each of any length, every pattern of index components up to the stated length; custom slices by the contract of their dimension; the numpy indexing model is trusted'),
 'C03': ('proof', 'arrays of up to four axes, each of any length; up to three arrays concatenated; the numpy array model is trusted'),
 'C04': ('proof', 'rates 1..999999; durations are mathematical integers; the numpy timedelta model is trusted'),
 'C05': ('proof', 'windows of at least two samples; whole-sample rates; the numpy array model is trusted'),
 'C18': ('proof', 'onset detection itself is arbitrary (any increasing positions); instants are mathematical integers; the numpy model is trusted'),
 'C22': ('proof', 'headers of printable ASCII; decimal numerals as exact reals; Python regular expressions as formal ones'),
 'C09': ('proof', 'starts and durations are whole picoseconds below 2^53; sorted, itertools.chain and numpy records are modelled'),
 'C19': ('proof', 'rows of any widths; the numpy array model is trusted; two and three sources'),
 'C20': ('proof', 'samples are reals; the transforms before overlap-add are not modelled'),
 'C13': ('proof', 'fewer than 2^31 rows and words; __builtin_popcount is trusted; Cython buffers as the numpy array model'),
 'C07': ('proof', 'frequencies are real numbers; bisect is modelled by its defining property; band edges increase'),
 'C08': ('proof', 'frequencies are real numbers; every block has at least one coefficient; band edges increase'),
 'C06': ('proof', 'arrays of one to four axes, each of any length; numpy as_strided and reshape are modelled'),
 'C14': ('proof', 'the numpy array model is trusted; element values are opaque'),
 'C21': ('proof', 'the models of bytes and io.BytesIO are trusted; libsndfile itself is not modelled'),
 'C23': ('proof', 'samples are reals; the numpy array model is trusted; libsndfile is not modelled'),
 'C17': ('proof', 'floats as real numbers; exp and log by their defining properties; finite sums as uninterpreted, congruent, sign-preserving functionals'),
 'C25': ('proof', 'arrays of up to four axes, each of any length; numbers are reals; the slices of an explicit frequency axis follow each other from zero; log10 is any function; the numpy array model is trusted'),
 'C26': ('proof', 'a network is an arbitrary function of one sample; torch tensors are modelled as arrays on a device'),
 'C27': ('proof', 'frequencies and numbers are reals; band edges increase; bands that only touch are left to C07; finite sums as congruent functionals; bisect by its defining property'),
 'C24': ('proof', 'cdist by contract (any distance per row), packed Hamming distance by the contract of C13; every document has at least one segment'),
 'C15': ('proof', 'slots drawn are arbitrary slot numbers; an integer-array assignment keeps the last write; sets of slots by their members; multiplexed reservoirs of 1 to 3 keys (the code treats all keys alike)'),
 'C16': ('proof', 'numbers are reals; sums, norms, means and deviations by their defining properties; learners that only learn parameters are arbitrary functions of the data'),
 'C11': ('proof', 'json, base64, struct and featureflow metadata are modelled as invertible encodings; digests are opaque; array bytes by the numpy model; rows of at least one element'),
 'C12': ('proof', 'lmdb, thread pools and random keys are modelled; distances by the contract of C13, tables in memory by that of C14; a finite set injected into one of its size is all of it'),
 'C10': ('proof', 'instants are mathematical integers of picoseconds; the numpy timedelta model is trusted'),
}
NOT_APPLICABLE = {
 'C30': 'perfect reconstruction is an identity over floating-point sums of cosines of every window size (scipy FFT kernels): neither the transcendental sums nor the C FFT are within reach of contracts decided by an SMT-backed verifier; only the index bookkeeping is, and that is claimed as C05/C20',
 'C31': 'the behaviour is that of libsamplerate (C, called through ctypes) on floating-point signals; the Python code only forwards buffers, so no contract on code in /repo expresses or decides it',
 'C32': 'a property of thread interleavings; sequential contracts cannot express it and there is no permission-based verifier for Python here',
}
