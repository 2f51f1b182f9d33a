"""The single table from which properties.jsonl (and, together with the list of
claimed checks, MANIFEST.json) is generated by tools/gen_meta.py."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'A time slice selects exactly the samples that overlap it',
     'For a time axis with sampling frequency f, sample duration d >= f and n samples, where sample i occupies [i*f, i*f+d) (all instants below 2^53 picoseconds), '
     'indexing with a time slice [s, s+dur) (s >= 0, dur > 0, or no duration, meaning "to the end") returns exactly the contiguous run of '
     'samples i whose interval overlaps the slice, except that an overlap of at most 0.5% of f at the very end of the slice may be ignored as rounding. '
     'A python slice whose bounds are durations (either may be missing, or negative meaning measured from the end of the axis) behaves as the time slice between those two instants. '
     'The result keeps the frequency and sample duration, and its length is recorded so that its own span and end are right.',
     ['inputs'], 'every frequency, sample duration, axis length and slice start/duration',
     'the tests index a few hand-picked series with whole-second slices; off-by-one and overlap errors at other ratios of slice, frequency and duration are not reached',
     ['zounds/timeseries/timeseries.py', 'zounds/core/axis.py'],
     [('translation of time spans to integer indices', 'zounds/timeseries/timeseries.py: TimeDimension.integer_based_slice'),
      ('span/end of a time axis', 'zounds/timeseries/timeseries.py: TimeDimension.span, end')],
     ['shape, data and dimensions of arr[TimeSlice(...)]'])

prop('C02', 'Indexing keeps each axis and its dimension together',
     'Indexing an array with units by any mix of integers, integer slices, new axes, an ellipsis, lists of positions and custom slices (time slices, frequency bands) '
     'yields exactly the elements plain numpy indexing yields once each custom slice is translated by the dimension of the axis it addresses (lists of positions are flat; frequency axes are indexed by non-empty selections), and every axis of the result carries '
     'the dimension of the source axis it came from (an identity dimension for new axes and list-selected axes). Assignment through the same index changes exactly those elements and no others.',
     ['inputs'], 'every array rank and shape, every assignment of dimensions to axes, every mix and order of index components',
     'the tests use a few index shapes on 1-3 dimensional arrays; the number of mixes (position of ellipsis/new axes relative to custom slices) is unbounded',
     ['zounds/core/axis.py', 'zounds/core/dimensions.py'],
     [('index translation', 'zounds/core/axis.py: ArrayWithUnits._compute_indices'),
      ('dimension propagation', 'zounds/core/axis.py: ArrayWithUnits._new_dims')],
     ['data and .dimensions of arr[index]', 'contents after arr[index] = value'])

prop('C03', 'Structural operations keep data, axes and dimensions consistent',
     'Constructing, transposing, squeezing, adding or removing singleton axes by reshape, reducing (sum, max, with or without kept axes, negative or several axes) and concatenating arrays with units '
     'never changes the underlying numbers relative to plain numpy, and every surviving axis keeps the dimension it had (reduced-but-kept and newly made axes get an identity dimension). '
     'Construction is rejected when the number of dimensions differs from the number of axes, or a frequency axis does not match its scale; concatenation is rejected when dimensions differ. Each time axis records its own length.',
     ['inputs'], 'every rank, shape, axis choice and assignment of dimensions',
     'tests try a handful of shapes; which dimension ends on which axis depends on rank, axis sign and which sizes are one',
     ['zounds/core/axis.py'],
     [('constructor', 'zounds/core/axis.py: ArrayWithUnits.__new__'), ('reductions', 'zounds/core/axis.py: _apply_reduction_to_dimensions, sum, max'),
      ('reshape/squeeze/transposition', 'zounds/core/axis.py: reshape, squeeze, T'), ('concatenation', 'zounds/core/axis.py: concatenate, concat')],
     ['values, shape and dimensions of the result'])

prop('C04', 'Sample-rate arithmetic is exact and self-consistent',
     'Every audio sample rate of n samples per second (1 <= n <= 999999) reports exactly n samples per second and a nyquist frequency of n // 2, and looking a supported rate up by number returns it while an unsupported number is rejected and the nearest lookup returns a supported rate at minimal distance. '
     'A windowing scheme of w samples every h samples, applied to audio at that rate, resolves back to exactly h and w discrete samples; scaling a rate multiplies its hop and extends its window by the existing overlap; resampling by a ratio scales frequency and duration by it; overlap is duration minus frequency and its ratio is relative to duration. Non-positive frequencies and durations are rejected.',
     ['inputs'], 'every sampling rate, window, hop and ratio',
     'tests check the six predefined rates and a few windows',
     ['zounds/timeseries/samplerate.py', 'zounds/timeseries/duration.py'],
     [('sample rates', 'zounds/timeseries/samplerate.py')], ['samples_per_second, discrete_samples, windowing_scheme, half_lapped, *, resample'])

prop('C05', 'Windowing covers every sample in order, whole or streamed',
     'Cutting a signal into windows of w samples every h samples (1 <= h <= w) makes window k hold exactly samples k*h .. k*h+w-1 of the signal; without padding the leftover starts exactly at the sample where the next window would start and every sample is in a window or in the leftover; with padding every sample is in some window and only zeros, only after the end, are added. '
     'Feeding the same signal to the streaming sliding-window node in chunks of any sizes yields the same windows in the same order as feeding it at once.',
     ['inputs', 'histories'], 'every signal length, window, hop, and every partition of the signal into chunks',
     'tests use a few lengths where the hop divides the window; partial trailing windows, odd ratios and chunk boundaries are not sampled',
     ['zounds/nputil/npx.py', 'zounds/core/axis.py', 'zounds/spectral/sliding_window.py'],
     [('windowing', 'zounds/nputil/npx.py: windowed, _wpad, _wcut, pad'), ('dimension-aware windowing', 'zounds/core/axis.py: sliding_window_with_leftovers'),
      ('streaming', 'zounds/spectral/sliding_window.py: SlidingWindow._enqueue/_dequeue')], ['windows and leftovers'])

prop('C06', 'N-dimensional sliding windows are exact, in-bounds views of the input',
     'For an array of any rank, window sizes w and steps s per axis (1 <= w <= shape), the sliding window has floor((n-w)/s)+1 positions per axis, and the element at window position p and offset o is exactly input element p*s+o on every axis, whatever the memory layout of the input; the flattened form lists the same windows in row-major order of position. No element outside the input is ever read; a window larger than the array or of mismatched rank is rejected. For arrays with units, windows given as time spans mean the same as their sample counts.',
     ['inputs'], 'every rank, shape, window, step and memory layout (strides)',
     'tests use small one and two dimensional contiguous arrays',
     ['zounds/nputil/npx.py', 'zounds/core/axis.py'], [('strided view', 'zounds/nputil/npx.py: sliding_window'), ('with units', 'zounds/core/axis.py: ArrayWithUnits.sliding_window')],
     ['shape, values and dimensions of the windows'])

prop('C07', 'Frequency bands select exactly the overlapping bands of a scale',
     'For every frequency scale of at least one band whose band edges never decrease (at least one of the two increases from band to band) and whose upper edges are positive, slicing by a frequency band (or by a python slice of hertz bounds, missing meaning the scale\'s own limit and negative meaning measured from the top) selects exactly the contiguous run of bands that end at or above its start and begin below its stop; an always-even scale appends at most one further band (where there is one) to make the count even. A selection of at least one band, contiguous or with a step, gives a scale of exactly the selected bands. '
     'A linear scale of n bands tiles its frequency range with n equal, adjacent bands. Band intersection, bandwidth, centre, and construction from a start or a centre agree with interval arithmetic; empty bands are rejected; a frequency axis must have as many entries as its scale has bands, and slicing it keeps the scale of the selected bands.',
     ['inputs'], 'every scale (kind, band count, range) and every frequency band',
     'tests slice a few fixed scales; boundary coincidences and other band counts are not covered',
     ['zounds/spectral/frequencyscale.py', 'zounds/spectral/tfrepresentation.py'],
     [('slice computation', 'zounds/spectral/frequencyscale.py: FrequencyScale.get_slice'), ('linear tiling', 'zounds/spectral/frequencyscale.py: LinearScale._compute_bands'),
      ('validation', 'zounds/spectral/tfrepresentation.py: FrequencyDimension')], ['get_slice, bands, scale[...]'])

prop('C08', 'Frequency-adaptive arrays return each band\'s own coefficients',
     'Building a frequency-adaptive array from per-band coefficient blocks of any widths stores every block intact, in scale order, without gaps or overlap; indexing it by any band of its scale returns exactly the block that was stored for it, indexing by a wider band returns exactly the contiguous coefficients of all bands it overlaps, and iterating yields one block per band in order; what such an index returns can itself be indexed by the bands it holds. Every block has at least one coefficient, and from band to band of the scale neither edge decreases and at least one increases. '
     'An explicit frequency dimension is rejected when the number of slices and bands differ, and its per-band weights are expanded to exactly the coefficients of each band.',
     ['inputs'], 'every number of bands, block widths, and query band',
     'tests use a handful of bands and widths',
     ['zounds/spectral/frequencyadaptive.py', 'zounds/spectral/tfrepresentation.py'],
     [('layout', 'zounds/spectral/frequencyadaptive.py: FrequencyAdaptive.__new__'), ('lookup', 'zounds/spectral/tfrepresentation.py: ExplicitFrequencyDimension')],
     ['fa[:, band], iter_bands'])

prop('C09', 'A variable-rate time series stays sorted and slices by overlap',
     'A variable-rate time series built from (time slice, data) pairs in any order holds exactly those pairs ordered by start time; its span runs from the first start to the end of the last entry; concatenation holds exactly the pairs of both. '
     'Indexing by a time slice keeps exactly the entries whose interval overlaps it (an unbounded slice keeps everything ending after its start), each still paired with its own data. Saving and restoring a series returns the same slices and data.',
     ['inputs'], 'every collection of time slices (overlapping, nested, unsorted, in any units) and every query slice',
     'tests use a few sorted, adjacent slices',
     ['zounds/timeseries/variablerate.py'],
     [('construction', 'zounds/timeseries/variablerate.py: VariableRateTimeSeries.__init__'), ('selection', 'zounds/timeseries/variablerate.py: __getitem__')],
     ['slices, slicedata, span, end'])

prop('C10', 'Time slices behave as half-open intervals',
     'For time slices in any mix of units: the end is start plus duration; shifting moves the start and keeps the duration; the overlap of two slices has the length of their intersection (zero when disjoint) and is symmetric; containment is strict interval containment; '
     'ordering agrees with start times; equality means equal start and duration, is independent of the unit used, and equal slices hash equally. Cutting at a set of timestamps yields consecutive slices that tile the range from the earliest to the latest. Non-durations are rejected.',
     ['inputs'], 'every start, duration and unit', 'tests compare a few slices in the same unit',
     ['zounds/timeseries/timeseries.py'], [('time slices', 'zounds/timeseries/timeseries.py: TimeSlice')], ['operators on TimeSlice'])

prop('C11', 'Persisted arrays and dimensions are restored identically',
     'Encoding and then decoding an array with units, any of its dimensions (identity, time, frequency over any supported scale, explicit frequency) or a time slice yields equal values, element type, shape, dimensions, scale type and parameters, for durations in any unit; data written in several chunks decodes to their concatenation. '
     'The packed encoding of a binary array decodes to the bits packed along the last axis.',
     ['inputs', 'histories'], 'every dimension, scale, unit, value, shape and chunking',
     'tests round-trip a few examples', ['zounds/persistence/util.py', 'zounds/persistence/arraywithunits.py', 'zounds/persistence/frequencydimension.py', 'zounds/persistence/timedimension.py', 'zounds/persistence/timeslice.py', 'zounds/persistence/dimension.py'],
     [('durations', 'zounds/persistence/util.py: encode_timedelta/decode_timedelta'), ('scales', 'zounds/persistence/frequencydimension.py'), ('arrays', 'zounds/persistence/arraywithunits.py')],
     ['decode(encode(x)) == x'])

prop('C12', 'Hamming database search returns the nearest stored codes with their own data',
     'After any history of appends (through this handle or another handle on the same path, interleaved with searches), a search for the n nearest codes returns n data items (all of them, if fewer are stored), each the data of a distinct stored entry, such that no entry left out is strictly closer in Hamming distance than one returned; a sorted search returns them in non-decreasing distance; multi-threaded search agrees with single-threaded search. '
     'The number of entries counts all appends; codes of the wrong size are rejected; a reopened database keeps its code size and entries and rejects a different code size; a write-only handle refuses to search.',
     ['histories', 'inputs'], 'every history of appends, searches and re-opens, every code size, set of codes, query and n',
     'tests use a few codes and never check which entries are returned for other n, code sizes or interleavings',
     ['zounds/index/hammingdb.py', 'zounds/nputil/npx.py'],
     [('append', 'zounds/index/hammingdb.py: append/_add_code'), ('search', 'zounds/index/hammingdb.py: search'), ('synchronisation', 'zounds/index/hammingdb.py: _catch_up_on_in_memory_store')],
     ['data returned by search'])

prop('C13', 'Bit counting and packed Hamming distances are exact',
     'The bit count of every 64-bit word equals the number of ones in its binary form, the count of a packed code is the sum over its words, and the (packed) Hamming distance between a code and each row of an array is the number of differing bits, for any number of rows and words.',
     ['inputs'], 'all 2^64 words and every code length and row count',
     'the existing tests do not check any count',
     ['zounds/nputil/countbits.pyx', 'zounds/nputil/npx.py'], [('bit counting', 'zounds/nputil/countbits.pyx'), ('distances', 'zounds/nputil/npx.py: hamming_distance, packed_hamming_distance')],
     ['count_bits, count_packed_bits'])

prop('C14', 'A growable array is a faithful append-only sequence',
     'After any sequence of single and bulk appends to a growable array, its logical content is exactly the initial logical content followed by everything appended, in order; its logical size counts them; the physical size never shrinks and is never below the logical size; items of another shape are refused and change nothing; non-positive growth rates are rejected.',
     ['histories'], 'every initial size, position, growth rate and sequence of append/extend sizes',
     'tests append a few items', ['zounds/nputil/npx.py'], [('growth', 'zounds/nputil/npx.py: Growable')], ['logical_data, logical_size'])

prop('C15', 'Reservoirs hold only samples they were given, aligned across keys',
     'After any sequence of additions, a reservoir of size n returns only rows that were added (never uninitialised or zero rows, and never more than n), exactly one row per occupied slot, each slot holding the last row written to it (rows of another shape are refused, and take no slot); batches are drawn from occupied slots only. '
     'In a multiplexed reservoir the i-th row under every key comes from the same added sample. The streaming reservoir sampler returns min(n, samples seen) rows, all from the stream, and the whole stream (in some order) when it is no longer than n.',
     ['histories', 'inputs'], 'every reservoir size, sequence of chunk sizes and random choice of slots',
     'tests add one or two chunks with fixed sizes', ['zounds/learn/random_samples.py'],
     [('reservoirs', 'zounds/learn/random_samples.py: Reservoir, MultiplexedReservoir, ReservoirSampler, ShuffledSamples')], ['get, get_batch, _dequeue'])

prop('C16', 'A preprocessing pipeline applies its steps in order and inverts them in reverse',
     'A pipeline transforms data by applying each step to the output of the one before, recording what each step needs for its inversion, and inverting the result applies the steps\' inverses in reverse order; so for invertible steps (unit norm, log, mu-law, reshape, mean/std, instance scaling, multiplication, weighting) any pipeline of them restores the original data up to rounding, '
     'including examples whose norm, maximum or deviation is zero (which are mapped to zero, or restored to the mean), and a slicing step restores the sliced part and fills the rest. An inverted array keeps the type and units it had. Sub-pipelines by slice or list contain exactly the chosen steps.',
     ['inputs', 'programs'], 'every composition of steps and every data set',
     'tests try one or two steps on random data without zero rows', ['zounds/learn/preprocess.py', 'zounds/learn/functional.py'],
     [('composition', 'zounds/learn/preprocess.py: Pipeline.transform, PipelineResult.inverse_transform'), ('steps', 'zounds/learn/preprocess.py: *_forward_func/_backward_func')],
     ['pipeline.transform(x).inverse_transform()'])

prop('C17', 'Companding functions are exact inverses and keep sign, order and range',
     'For all real inputs: the mu-law and log-modulus functions are odd, strictly increasing, map zero to zero, and are undone exactly by their inverses; mu-law maps [-1, 1] onto [-1, 1] for every mu > 0. '
     'Instance scaling never exceeds one in magnitude and keeps sign; unit scaling maps data onto [0, 1] preserving order, constant data included. Safe log rejects negative input and is finite at zero; safe unit norm gives every nonzero vector unit length and leaves zero vectors zero. None of the functions modifies its input.',
     ['inputs'], 'all real inputs and every mu > 0', 'tests check a round trip on a few random values',
     ['zounds/loudness/loudness.py', 'zounds/nputil/npx.py', 'zounds/learn/functional.py'],
     [('companding', 'zounds/loudness/loudness.py'), ('safe functions', 'zounds/nputil/npx.py: safe_log, safe_unit_norm')], ['function values'])

prop('C18', 'Onset segmentation tiles the whole signal',
     'However the detection signal is split into chunks, the time slices produced by a peak picker are consecutive, start at zero, never overlap or leave a gap, end at the total duration processed, and have exactly one boundary at each detected onset position (relative to the whole stream).',
     ['histories', 'inputs'], 'every partition of the stream into chunks and every set of detected positions',
     'tests push one chunk or two', ['zounds/segment/onset.py', 'zounds/timeseries/timeseries.py'],
     [('segmentation', 'zounds/segment/onset.py: BasePeakPicker._process/_last_chunk'), ('slices', 'zounds/timeseries/timeseries.py: TimeSlice.slices')], ['emitted time slices'])

prop('C19', 'Merging aligned streams pairs samples by position regardless of chunking',
     'A merge node fed by two or more time series in chunks of any sizes and in any interleaving outputs, in order, rows that are exactly the concatenation of row i of every source in dependency order, never duplicating, dropping or misaligning a row, and emits every row as soon as all sources have supplied it.',
     ['schedules', 'histories'], 'every number of sources, chunking and interleaving',
     'tests merge equally chunked sources', ['zounds/basic/basic.py'], [('merge', 'zounds/basic/basic.py: Merge._enqueue/_dequeue/_process')], ['emitted rows'])

prop('C20', 'Overlap-add places every frame at its own time',
     'Synthesising audio from windowed frames adds frame k, exactly once and unscaled, starting at sample k times the hop, so that every output sample is the sum of the frame samples that cover it; the output covers all frames and has the audio sample rate of the frames; frames cut from a signal with non-overlapping windows reproduce it exactly.',
     ['inputs'], 'every number of frames, window and hop', 'tests check shapes and one or two signals',
     ['zounds/synthesize/synthesize.py'], [('overlap-add', 'zounds/synthesize/synthesize.py: ShortTimeTransformSynthesizer._overlap_add')], ['output samples'])

prop('C21', 'The streaming byte buffer delivers every byte once, in order',
     'For any interleaving of writes and reads (of any sizes, by count, to the end, or into a supplied buffer), the bytes read from the streaming memory buffer are exactly a prefix of the bytes written, in order; discarding consumed bytes when the buffer grows past its limit never loses an unread byte; asking for the position after seeking to the end reports the declared total length once and the true position afterwards; positions reported and sought are positions in the whole stream, also after discarding, so that audio decoded from a stream cut into any chunks is the audio decoded at once.',
     ['histories'], 'every sequence of writes, reads and end-seeks, and every size limit', 'the buffer has no direct tests',
     ['zounds/soundfile/audiostream.py'], [('buffer', 'zounds/soundfile/audiostream.py: MemoryBuffer')], ['bytes returned by read/readinto'])

prop('C22', 'HTTP range requests and content ranges agree',
     'A byte range "bytes=a-b" parses to the slice a..b (open ended when b is missing), a range in seconds to the time slice from a with duration b-a (open ended when missing) to picosecond resolution, a missing header, or one that is not of the form unit=start-stop, to the whole resource, and an unknown unit is rejected; '
     'the content range reported for a requested slice of a resource names the unit, the same start and stop, and the total, using the total as stop when the request was open ended, and exactly those bytes are served.',
     ['inputs'], 'every start, stop, unit and total', 'tests check a few headers',
     ['zounds/ui/contentrange.py'], [('parsing', 'zounds/ui/contentrange.py: RangeRequest'), ('reporting', 'zounds/ui/contentrange.py: ContentRange')], ['RangeRequest.range(), str(ContentRange)'])

prop('C23', 'Audio sample containers keep rate, length and channels right',
     'Audio samples keep their sampling rate under slicing, summing to mono and stacking to stereo; the mono version of two-channel audio is the average of its channels and mono (one-dimensional) audio is returned unchanged; stereo of mono duplicates the channel; silence of a given duration is all zeros, with the right number of samples and channels; padding appends exactly the requested silence after the unchanged samples, for any channel count. '
     'Invalid ranks and non-audio sample rates are rejected, and adding audio of different rates is refused.',
     ['inputs'], 'every sampling rate, length, channel count and duration', 'tests check shapes for one or two rates',
     ['zounds/timeseries/audiosamples.py'], [('audio samples', 'zounds/timeseries/audiosamples.py: AudioSamples')], ['values, shape, samplerate'])

prop('C24', 'Brute-force search ranks all indexed segments and names them correctly',
     'A brute-force index built from any number of documents returns, for every query, the k segments with the smallest distances over all indexed segments in non-decreasing order, and the identifier and time slice reported with each are those of exactly that segment in its own document.',
     ['inputs'], 'every set of documents, lengths, query and k', 'tests index one or two documents and do not check the ranking',
     ['zounds/index/brute_force.py', 'zounds/timeseries/constantrate.py'], [('index', 'zounds/index/brute_force.py'), ('segment times', 'zounds/timeseries/constantrate.py: iter_slices')], ['SearchResults'])

prop('C25', 'Frequency weightings apply per band and division undoes multiplication',
     'Multiplying or dividing an array having a frequency axis by a frequency weighting scales every coefficient by (or by the inverse of) the weight of the band its frequency axis assigns it, on whichever axis that is, in either operand order for multiplication, and leaves every other axis alone; dividing undoes multiplying. Arrays without a frequency axis and other operations are rejected. A windowing function multiplies every window along the last axis by the same window, whatever the operand order.',
     ['inputs'], 'every rank, frequency-axis position, scale and data', 'tests weight one or two shapes',
     ['zounds/spectral/weighting.py', 'zounds/spectral/tfrepresentation.py', 'zounds/spectral/sliding_window.py'], [('weighting', 'zounds/spectral/weighting.py'), ('windowing functions', 'zounds/spectral/sliding_window.py: WindowingFunc')], ['arr * weighting, arr / weighting'])

prop('C26', 'Chunked processing equals whole processing',
     'Applying a sample-wise network to one or more samples in chunks of any size gives the same rows in the same order as applying it at once, and a byte chunk size for a duration of audio is the number of whole samples times channels times bytes per sample.',
     ['inputs'], 'every chunk size and data length', 'tests use one chunk size',
     ['zounds/learn/util.py', 'zounds/soundfile/chunksize.py'], [('chunking', 'zounds/learn/util.py: apply_network'), ('chunk sizes', 'zounds/soundfile/chunksize.py')], ['outputs'])

prop('C27', 'Frequency-scale transforms weight exactly the bands they overlap',
     'Applying a frequency scale to a time-frequency representation on a linear scale yields, for every frame and every target band, the window-weighted sum of exactly the source bands that overlap the target band, and zero for source bands outside it; the result has one row per frame and one column per band.',
     ['inputs'], 'every pair of scales, window and data', 'tests check shapes for a few scales',
     ['zounds/spectral/frequencyscale.py'], [('basis', 'zounds/spectral/frequencyscale.py: FrequencyScale._basis, apply')], ['scale.apply(...)'])

prop('C30', 'Forward and inverse short-time transforms reconstruct the signal',
     'Analysing a signal with a lapped MDCT, DCT or FFT and synthesising it again reproduces the signal up to rounding (in the interior, for lapped transforms).',
     ['inputs'], 'every signal and window size', 'tests try a few signals',
     ['zounds/spectral/spectral.py', 'zounds/synthesize/synthesize.py', 'zounds/spectral/functional.py'], [('transforms', 'zounds/spectral/functional.py')], ['reconstruction error'])

prop('C31', 'Resampling audio keeps duration and pitch',
     'Resampling audio between two rates keeps its duration to within one block and preserves the spectrum below the lower nyquist frequency, however the stream is chunked.',
     ['inputs'], 'every pair of rates and every signal', 'tests resample a few signals',
     ['zounds/soundfile/resample.py'], [('resampling', 'zounds/soundfile/resample.py')], ['resampled audio'])

prop('C32', 'Concurrent index updates and searches are linearizable',
     'When a listener thread adds newly stored documents to a Hamming index while other threads search it, each search returns results consistent with some moment between its start and its end.',
     ['schedules'], 'every interleaving of the listener and searching threads', 'tests wait for one event',
     ['zounds/index/index.py', 'zounds/index/hammingdb.py'], [('listener', 'zounds/index/index.py: HammingIndex._listen')], ['search results'])
