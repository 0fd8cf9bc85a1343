"""source of properties.jsonl (tools/mkfiles.py writes it)"""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(d)


ND = 'bland/bland/ndarray.cpp'
OPS = 'bland/bland/ops/'
CPU = 'bland/bland/ops/cpu/'

prop('P01', 'A new array has the requested shape, type, layout and fill value',
     'Creating an array of any shape, optionally with an initial scalar value, yields an array that reports exactly that shape, element type and device, a number of elements equal to the product of the extents, row-major contiguous strides and zero offsets. If an initial value was given, every element equals that value converted to the element type. No two separately created arrays share storage.',
     ['inputs'], 'every shape (rank and extents), element type and fill value',
     'the tests create a handful of 1-d and 2-d shapes and never check strides, offsets or fill of higher ranks',
     [ND, 'bland/bland/include/bland/ndarray.hpp', 'bland/bland/internal/include/internal/dispatcher.hpp'],
     [('compute_contiguous_strides / DLManagedTensor construction', ND), ('initialize_memory / fill', CPU)], ['shape()', 'strides()', 'offsets()', 'numel()', 'data'])

prop('P02', 'Slicing selects exactly the requested elements, as a view',
     'Slicing an array along a dimension from a start to an end index with a positive step yields an array whose elements, in order, are the source elements at start, start+step, ... below end on that dimension with the other dimensions untouched; negative start or end count from the end of the dimension. The result is a view of the same storage, so writing through it changes exactly those elements of the source and no others. A start outside the dimension is rejected. Slices of slices compose accordingly, and reading a one-element array as a scalar (scalarize) reads the element the view denotes.',
     ['inputs', 'histories'], 'every array rank and shape, every in-range start/end/step, every chain of slices',
     'the tests slice one dimension of one shape with positive bounds and unit or even step', [ND],
     [('slice', ND + ' ndarray::slice / bland::slice')], ['slice().shape()', 'slice() elements'])

prop('P03', 'Reshape, squeeze and unsqueeze keep every element in its order',
     'Reshaping an array of any layout to any shape with the same number of elements, or inserting an extent-one dimension into any array or removing one from an array of at least two dimensions, yields an array whose elements read in row-major order are the source elements read in row-major order. A reshape to a shape with a different number of elements is rejected. The result reports the requested shape.',
     ['inputs'], 'every source shape and layout and every target shape; every extent-one axis of any view',
     'the tests reshape two one-dimensional arrays', [ND],
     [('reshape/squeeze/unsqueeze', ND)], ['reshape()', 'squeeze()', 'unsqueeze()'])

prop('P04', 'Array-array arithmetic is elementwise with broadcasting',
     'Adding, subtracting, multiplying or dividing two arrays whose shapes are equal or differ only by extents of one (aligned from the last dimension) yields an array of the broadcast shape whose element at each index is the operation applied, in operand order, to the corresponding elements of the operands with C++ arithmetic of their types, converted to the element type of the left operand. Shapes that do not broadcast are rejected. This holds for every operand layout (contiguous, sliced, strided) and leaves the operands unchanged. No element outside the operands or the result is accessed.',
     ['inputs'], 'all shapes, broadcast patterns, element types and view layouts of the two operands',
     'the tests check one operation on a single small contiguous shape', [OPS + 'arithmetic.cpp', CPU + 'arithmetic_cpu.cpp', CPU + 'elementwise_binary_op.hpp', CPU + 'arithmetic_cpu_impl.hpp'],
     [('elementwise binary odometer', CPU), ('broadcast shape/strides', 'bland/bland/internal/include/internal/shape_helpers.hpp')], ['result of a+b, a-b, a*b, a/b'])

prop('P05', 'Array-scalar arithmetic applies the scalar on the written side',
     'Combining an array and a scalar with +, -, * or / yields an array of the same shape whose element at each index is the operation applied to the array element and the scalar in the order they were written, in C++ arithmetic of their types converted to the array\'s element type, so scalar - array and scalar / array are not array - scalar or array * scalar. This holds for every view layout, and the source array is unchanged.',
     ['inputs'], 'every array shape and layout, element type, scalar and operand order',
     'the tests only use array-on-the-left scalar addition and division on contiguous arrays', [ND, CPU + 'arithmetic_cpu.cpp'],
     [('scalar operator overloads', ND), ('elementwise scalar odometer', CPU)], ['a-s', 's-a', 'a/s', 's/a'])

prop('P06', 'Comparisons give the truth of the written comparison per element',
     'Comparing two arrays, an array with a scalar, or a scalar with an array using any of the comparison or bitwise-and operators yields an unsigned 8-bit array of the broadcast shape whose element at each index is 1 exactly when the comparison as written holds (in C++ arithmetic of the operand types) for the corresponding operands, else 0, and for bitwise and of integers the conjunction of their bits (its low 8 bits). It holds for every view layout.',
     ['inputs'], 'every shape, layout, element type, operand order and comparison operator',
     'one test compares a contiguous array with a scalar on the right', [OPS + 'comparison.cpp', CPU + 'comparison_cpu.cpp'],
     [('comparison dispatch', CPU + 'comparison_cpu.cpp')], ['a>b, a>s, s>a, ...'])

prop('P07', 'Copy, cast, fill and unary functions act on exactly the viewed elements',
     'Copying an array (optionally converting the element type) or applying square, square root or absolute value yields the function of each source element at the same index; a source copied into a destination may have extents of one that are repeated, any other difference in shape is rejected; filling or copying into a view changes exactly the elements the view denotes and no other element of the underlying storage.',
     ['inputs'], 'every source and destination shape, layout and supported element type',
     'the tests copy contiguous one-dimensional arrays and fill one slice', [OPS + 'ops.cpp', CPU + 'ops_cpu.cpp', CPU + 'elementwise_unary_op.hpp'],
     [('elementwise unary odometer', CPU)], ['copy()', 'fill()', 'square()', 'sqrt()', 'abs()'])

prop('P08', 'Reductions combine exactly the elements of each reduced group',
     'Reducing an array by sum, mean, standard deviation, variance or maximum over any non-empty set of axes (or all of them) yields the shape with those axes removed, and each output element is that reduction over exactly the elements that share its remaining indices, each counted once, in the element type of the source (the standard deviation and variance, of floating-point arrays, are those of the population). A result array given by the caller, whatever its layout, receives those same values and nothing around it changes. The number of true elements of an array counts exactly its elements different from zero. Reducing over all axes gives one element. This holds for every view layout.',
     ['inputs'], 'every shape, layout, choice of axes and element values',
     'the tests reduce a few small contiguous arrays over one axis choice', [OPS + 'statistical.cpp', CPU + 'statistical_cpu.cpp'],
     [('reduction odometer', CPU + 'statistical_cpu.cpp')], ['sum()', 'mean()', 'stddev()', 'max()'])

prop('P09', 'Masked statistics ignore exactly the masked elements',
     'The masked mean, standard deviation and variance of an array equal those of exactly those elements whose mask entry at the same index is zero, whatever values the masked elements have and whatever the memory layouts of data and mask are. A mask of another shape or of a type other than unsigned 8-bit is rejected.',
     ['inputs'], 'every shape, data and mask layouts, mask pattern with at least one unmasked element',
     'no test uses a masked statistic', [OPS + 'statistical.cpp', CPU + 'statistical_cpu.cpp'],
     [('masked statistics', CPU + 'statistical_cpu.cpp')], ['masked_mean()', 'masked_stddev()'])

prop('P10', 'Ranges are evenly spaced and have the right length',
     'A range from start to end with a given step yields the values start, start + step, start + 2 step, ... and has as many of them as whole steps fit before end; a linear space from start to end with a given count yields exactly that many values spaced by (end - start)/count beginning at start (a truncated quotient for integer element types). Every element is set.',
     ['inputs'], 'every start, end, step, count and element type', 'two tests check one parameter set each', [OPS + 'creators.cpp'],
     [('arange / linspace loops', OPS)], ['arange()', 'linspace()'])

prop('P11', 'Arrays written to a file read back identically',
     'Writing a 32-bit floating-point array of any layout to a raw file and reading the file back with that element type yields a one-dimensional array of the same elements in row-major order. Reading never touches memory outside the array it creates, whatever the file length.',
     ['inputs'], 'every array shape and layout; every file length and element type to read',
     'one test round trips one contiguous array', ['bland/bland/ops/creators.cpp', 'bland/bland/ndarray.cpp'],
     [('write_to_file / read_from_file', 'bland/bland')], ['write_to_file()', 'read_from_file()'])

prop('P12', 'Device and element-type names are parsed exactly',
     'Every documented device name maps to its own device kind with the device number after the colon (zero if absent), names that merely share a prefix with another name are not confused with it, and every documented element-type name maps to its type code and width; an unknown name is rejected.',
     ['inputs'], 'every device or element-type string', 'no test parses a device or type name', ['bland/bland/ndarray.cpp'],
     [('dev(std::string_view), datatype(std::string_view)', 'bland/bland/ndarray.cpp')], ['dev(name)', 'datatype(name)'])

prop('P13', 'The shifted power spectrum has every bin in its place',
     'The shifted magnitude-square transform of N real samples (contiguous or a view) yields exactly N powers, the squared magnitude of bin k of their discrete Fourier transform appearing at position (k + N/2) modulo N. No element outside the source and the result is accessed.',
     ['inputs'], 'every length, layout and content', 'no test calls it', [OPS + 'frequency.cpp', CPU + 'frequency_cpu_impl.cpp'],
     [('fft_shift_mag_square', OPS)], ['fft_shift_mag_square()'])

prop('P14', 'A deferred array is computed when, and as often as, its policy says',
     'An array given as a computation with the memoizing policy is not computed before its first use, is computed exactly once however often it is used afterwards, and every use observes the same result; with the lazy policy (the default for a computation) it is computed at each use and not before; with the eager policy it is computed once, when given. An array given as a value is returned as given.',
     ['histories'], 'every sequence of uses, copies and assignments', 'no test counts evaluations', ['bland/bland/ndarray_deferred.cpp'],
     [('ndarray_deferred conversion', 'bland/bland/ndarray_deferred.cpp')], ['conversion to ndarray'])

DS = 'bliss/drift_search/'
prop('P20', 'The drift-rate table lists every requested rate with its true slope',
     'A drift search over drift rates from low (inclusive) to high (exclusive) with a positive step reports exactly (high - low) / step rates, whole steps only, in increasing order of their span low + i * step. Each rate carries its index, its slope (span divided by one less than the number of time steps), its physical rate in Hz/s (slope times channel width in Hz divided by the sampling time), and its smear width: the slope magnitude rounded to nearest but at least 1 when desmearing is on, and 1 when it is off.',
     ['inputs', 'configurations'], 'every low/high/step, number of time steps >= 2, channel width, sampling time and desmear setting',
     'no test runs the drift search', [DS + 'integrate_drifts.cpp'], [('compute_drifts', DS + 'integrate_drifts.cpp')],
     ['integrated_drift_plane().drift_rate_info()'])

prop('P21', 'Each drift-plane cell is the mean power along its own track',
     'For every rate and channel, the drift plane holds the sum over all time steps of the spectrum along the track starting at that channel (offset by the slope times the time, rounded to nearest, averaged over the smear width towards the direction of drift), divided by the number of time steps, omitting the parts of a track outside the band. For rates of negative span, the channels whose track would leave the low edge of the band (index below the magnitude of the span) hold zero. No memory outside the spectrum, mask and result is accessed, and inputs are unchanged.',
     ['inputs', 'configurations'], 'every spectrum, shape, layout, rate set and desmear setting',
     'no test runs the drift search', [DS + 'kernels/drift_integration_cpu.cpp'], [('integrate_linear_rounded_bins_cpu', DS + 'kernels/drift_integration_cpu.cpp')],
     ['integrated_drift_plane()'])

prop('P22', 'RFI counts count exactly the flagged bins a track passed through',
     'For every rate and channel and each of the rolloff, low-kurtosis and high-kurtosis flags, the reported count is the number of spectrum bins contributing to that drift-plane cell whose mask carries that flag (as long as it fits the 8-bit counter), independent of other flags on the same bins.',
     ['inputs'], 'every mask, shape and rate set', 'no test runs the drift search', [DS + 'kernels/drift_integration_cpu.cpp'],
     [('rfi counters of integrate_linear_rounded_bins_cpu', DS + 'kernels/drift_integration_cpu.cpp')], ['integrated_rfi()'])

prop('P23', 'Each region above threshold yields exactly one hit at its peak',
     'The connected-components search groups the drift-plane cells whose signal-to-noise exceeds half the threshold into maximal regions, two cells being connected when their distance in rows plus channels is at most the configured neighbourhood distance (inclusive). It returns exactly one proto-hit per region that contains a cell above the full threshold: every cell above threshold belongs to exactly one returned region, the listed locations are exactly the cells of that region, each once, and regions do not overlap. The proto-hit reports the row and channel of the strongest cell of its region with that cell\'s power, signal-to-noise, noise and flag counts; its bin width is the distance between the lowest and highest channel the region has in the peak\'s row, and its centre channel is the truncated mean of those two.',
     ['inputs', 'configurations'], 'every drift plane, noise table, threshold and neighbourhood distance', 'no test runs the hit search', [DS + 'kernels/connected_components_cpu.cpp', DS + 'connected_components.cpp'],
     [('find_components_above_threshold_cpu', DS + 'kernels/connected_components_cpu.cpp')], ['find_components_above_threshold()', 'protohit_search()'])

prop('P24', 'Local-maximum search returns exactly the above-threshold local maxima',
     'The local-maximum search returns exactly the drift-plane cells whose signal-to-noise exceeds the threshold, whose neighbourhood (all other cells within the configured distance in rows plus channels, inclusive) lies entirely inside the plane, and whose signal-to-noise exceeds that of every cell of that neighbourhood; each once, in row-major order, with its own row, channel, power, signal-to-noise, noise and flag counts. Its bin width is the distance between the first channels below and above the peak, in its row, that do not continue the strictly falling run of cells above threshold, and its centre channel is the truncated mean of those two.',
     ['inputs', 'configurations'], 'every drift plane, noise table, threshold and neighbourhood distance of at least one', 'no test runs the hit search', [DS + 'kernels/local_maxima_cpu.cpp', DS + 'local_maxima.cpp'],
     [('find_local_maxima_above_threshold_cpu', DS + 'kernels/local_maxima_cpu.cpp')], ['find_local_maxima_above_threshold()', 'protohit_search()'])

prop('P25', 'Per-rate noise and threshold follow the integration length',
     'The noise used for each drift rate in the hit search is the channel noise power estimate divided by the square root of the number of bins integrated at that rate (time steps times smear width), and a cell\'s signal-to-noise is its excess over the channel noise floor divided by that noise; cells are compared with the configured signal-to-noise threshold, with the configured neighbourhood distance and by the configured search method.',
     ['inputs', 'configurations'], 'every noise estimate, rate table, threshold, distance and method', 'no test runs the hit search', [DS + 'protohit_search.cpp', DS + 'kernels/connected_components_cpu.cpp', DS + 'kernels/local_maxima_cpu.cpp'],
     [('protohit_search', DS + 'protohit_search.cpp')], ['protohit_search()', 'hit_search()'])

prop('P26', 'A hit reports the physical parameters of its peak',
     'A hit search of a coarse channel returns one hit per proto-hit found in the channel\'s drift plane, in the same order. Each hit states its peak\'s rate index and channel; as frequency the channel\'s first-channel frequency plus the region\'s centre channel times the channel width; as drift rate that of the peak\'s row of the rate table; as power and signal-to-noise the excess of the peak over the noise floor and that excess over the rate\'s noise; as bandwidth the bin width in Hz (positive whatever the sign of the channel width); as start time the channel\'s start converted from days to seconds; as duration the integration length times the sampling time; and the integration length, coarse channel number and flag counts of its peak. Searching a scan, target or cadence searches every coarse channel with the same options.',
     ['inputs'], 'every channel metadata, rate table, noise estimate and drift plane', 'no test runs the hit search', [DS + 'hit_search.cpp'],
     [('hit_search(coarse_channel)', DS + 'hit_search.cpp')], ['hit_search()', 'coarse_channel.hits()'])

prop('P27', 'Hit filtering removes exactly the hits the criteria exclude',
     'Filtering a list of hits returns, in the original order and with every reported field unchanged, exactly the hits that are not excluded: a hit is excluded if its filter-rolloff count or its low-spectral-kurtosis count is above zero, or if zero-drift filtering is on and its drift rate is smaller than 1e-6 Hz/s in magnitude. An absent flag count means zero; no other flag excludes a hit. Filtering a coarse channel replaces its hits by the filtered ones, and a channel whose hits were never searched is rejected.',
     ['inputs', 'configurations'], 'every list of hits and every option setting', 'no test filters hits', [DS + 'filter_hits.cpp'],
     [('filter_hits', DS + 'filter_hits.cpp')], ['filter_hits()'])

prop('P39', 'Filterbank files are read as they are, or rejected',
     'Opening a filterbank file gives a scan whose first frequency, channel width, sampling time, start time, number of channels, source name, coordinates and telescope are those the file states; machine, azimuth and zenith start are present exactly when the file states them; data type, bits and feeds are those stated or else 1, 32 and the feeds of the data; its time steps are those of the data and its duration their number times the sampling time. A file lacking a required attribute is rejected. A numeric attribute reads as its value whatever integer or floating point type it is stored in, a text as its characters up to its terminator whether of fixed or variable length; an attribute of another kind is rejected. The shape of the data is taken from the labels of the dimensions (exchanging time and frequency when only the time extent equals nchans); data with other dimensions than time, a single feed and frequency is rejected unless they are of size one. Reading a region gives exactly its samples, in single precision, as time by frequency, from the offset (default zero) over the count (default all the rest), whatever further dimensions of size one there are; its mask is as large and all zero.',
     ['inputs', 'configurations'], 'every attribute type, value and presence, shape, labelling and region', 'no test opens a file', ['bliss/file_types/h5_filterbank_file.cpp', 'bliss/core/scan.cpp'],
     [('read_data_attr, get_data_shape, read_data, read_mask', 'bliss/file_types/h5_filterbank_file.cpp'), ('scan(h5_filterbank_file)', 'bliss/core/scan.cpp')], ['h5_filterbank_file', 'scan::scan()'])

prop('P28', 'Events are built from on-target hits absent from off-target scans',
     'An event search reports events of the cadence\'s first target only. Each event holds at least two hits of that target, at most one per scan, in the order of the scans; no hit is in two events. It starts from a hit and takes, from each later scan in turn, the hit not yet taken that is nearest to any hit already in the event (the first of equally near ones), if their distance is below 50. No event is reported whose average distance to some hit of another target\'s scans is below 50. Its average power, signal-to-noise, drift rate and bandwidth are the means over its hits; its start frequency, start and end times are those of its first hit and that hit\'s scan. The distance of two hits does not depend on their order: 0.01 per Hz between their frequencies extrapolated along their drift rates to the middle of the time both span, plus 10 times the square of the difference of their drift rates relative to the sum of their squares.',
     ['inputs', 'histories'], 'every cadence and set of hits', 'no test runs the event search', [DS + 'event_search.cpp', 'bliss/core/event.cpp'],
     [('event_search', DS + 'event_search.cpp')], ['event_search()'])

prop('P29', 'Hit order is a strict total order consistent with equality',
     'Comparing hits for sorting is irreflexive, asymmetric and transitive, orders hits by their channel index first, and leaves two hits unordered exactly when they are equal, so sorting any list of hits has a single well-defined result. Two hits are equal exactly when all their fields except the coarse channel number are equal, including their flag counts.',
     ['inputs'], 'every pair and triple of hits', 'no test compares hits', ['bliss/core/include/core/hit.hpp'], [('hit::operator<, operator==', 'bliss/core/include/core/hit.hpp')], ['hit comparison'])

prop('P30', 'A coarse channel is exactly its own slice of the scan',
     'Coarse channel i of a scan covers the fine channels i*n to (i+1)*n-1 (n fine channels per coarse channel): it has n channels, its first-channel frequency is the scan\'s plus i*n channel widths, all other metadata equals the scan\'s, and its data and mask are read from exactly that region of the file, whichever channels were read before. Every queued transform is applied to it once, in order. A slice of a scan numbers its channels from its own start and covers exactly the channels asked for. Reading a channel index outside the scan\'s channels is rejected.',
     ['inputs', 'configurations', 'histories'], 'every channelization, coarse channel index, slice and history of reads', 'no test opens a scan', ['bliss/core/scan.cpp', 'bliss/core/coarse_channel.cpp'],
     [('read_coarse_channel, peak_coarse_channel, slice_scan_channels, get_coarse_channel_with_frequency', 'bliss/core/scan.cpp')], ['scan::read_coarse_channel()', 'scan::slice_scan_channels()', 'scan::get_coarse_channel_with_frequency()'])

prop('P31', 'Coarse-channel count inference divides the scan evenly',
     'When a scan does not state its channelization, the inferred number of coarse channels is positive and, times the fine channels per coarse channel, equals the number of fine channels. A known telescope channelization (channel width and sampling time) gives its documented fine channels per coarse channel; otherwise coarse channels of about 2^18, then about 10^6, fine channels are used if the remainder spreads evenly over them, and a single coarse channel if not.',
     ['inputs'], 'every number of fine channels (below 2^31), non-zero channel width and sampling time', 'no test infers a channelization', ['bliss/core/scan.cpp'],
     [('infer_number_coarse_channels', 'bliss/core/scan.cpp')], ['scan construction'])

prop('P32', 'Inconsistent scans are rejected, consistent ones accepted',
     'The scans of an observation target, and all scans of a cadence, count as consistent exactly when each agrees with the first on first-channel frequency and channel width (to within 1e-6 MHz) and on the number of fine channels; a disagreement in any one of them is detected whichever scan it is in, and targets without scans neither matter nor crash. The number of coarse channels and the channel holding a frequency are given for consistent scans and refused (by an exception) for inconsistent or absent ones.',
     ['inputs'], 'every sequence of targets and scans', 'no test builds a cadence', ['bliss/core/cadence.cpp'], [('validate_scan_consistency', 'bliss/core/cadence.cpp')],
     ['observation_target', 'cadence'])

prop('P33', 'Flaggers set exactly their own flag on exactly the qualifying samples',
     'Each flagger sets its own flag bit on exactly the samples meeting its criterion and leaves every other bit of every mask sample as it was, the channel\'s data and metadata unchanged, and the mask held by other users of the channel untouched; flagging twice gives the mask of flagging once, and using the flagged mask repeatedly gives the same mask each time. Rolloff: the round(width * channels) fine channels at each edge. Magnitude: samples above the threshold, by default above mean plus ten standard deviations of the channel. Spectral kurtosis: every sample of a fine channel whose spectral kurtosis is below the lower (low flag) or above the upper threshold (high flag). Sigma clip: samples outside mean - low*stddev to mean + high*stddev of the samples not flagged by the previous iteration, starting from all samples, until mean and deviation change by less than 1e-6 or max_iter iterations are done. Flagging a scan, target or cadence does this to every coarse channel read from every one of its scans.',
     ['inputs', 'histories'], 'every spectrum, prior mask and option value (rolloff within the channel, low + high not negative, at least two time steps for kurtosis), every number of uses of the mask', 'no test runs a flagger', ['bliss/flaggers/filter_rolloff.cpp', 'bliss/flaggers/spectral_kurtosis.cpp', 'bliss/flaggers/magnitude.cpp', 'bliss/flaggers/sigmaclip.cpp'],
     [('flag_filter_rolloff, flag_magnitude, flag_spectral_kurtosis, flag_sigmaclip', 'bliss/flaggers')], ['coarse_channel.mask()', 'flag_*()'])

prop('P34', 'Noise estimates use exactly the unmasked samples',
     'The noise floor and noise power estimated for a channel with the STDDEV method are the mean and the population standard deviation of its spectrum over exactly the samples whose mask is 0 when masking is requested, and over all samples otherwise or when estimating a bare array. A masked estimate of a channel without unmasked samples is rejected with an exception, and nothing else is. Data and mask of the channel are unchanged. The noise amplitude reported is the square root of the noise power. Estimating a scan, target or cadence gives every coarse channel read from it the estimate of that channel.',
     ['inputs', 'configurations'], 'every spectrum, mask and option of the STDDEV method', 'no test estimates noise', ['bliss/estimators/noise_estimate.cpp', 'bliss/core/noise_power.cpp'],
     [('estimate_noise_power', 'bliss/estimators/noise_estimate.cpp'), ('noise_stats', 'bliss/core/noise_power.cpp')], ['estimate_noise_power()', 'noise_stats'])

prop('P35', 'Spectral kurtosis follows its estimator formula per fine channel',
     'The spectral kurtosis reported for each fine channel is ((M N d + 1)/(M - 1)) (M S2 / S1^2 - 1) over the M time steps of that fine channel alone, where S1 and S2 are the sums of its powers and squared powers; for a coarse channel M is its number of time steps and N is the sampling time times the channel width in Hz, rounded to the nearest integer. The spectrum is unchanged.',
     ['inputs'], 'every spectrum of at least two time steps and every N, M, d with M*N below 2^31', 'no test computes spectral kurtosis', ['bliss/estimators/spectral_kurtosis.cpp'],
     [('estimate_spectral_kurtosis', 'bliss/estimators/spectral_kurtosis.cpp')], ['estimate_spectral_kurtosis()'])

prop('P38', 'Preprocessing scales every sample by exactly the stated divisor',
     'Normalising a channel divides every sample by the largest sample of that channel; equalising a channel with a response (given as an array or as a file) divides every sample by the response value of its own fine channel. Mask and metadata stay, repeated uses of the data give the same values, and the arrays given (data held by others, response) are unchanged. Preprocessing a scan, target or cadence does this to every coarse channel read from every one of its scans.',
     ['inputs', 'histories'], 'every spectrum and every response with one value per fine channel', 'no test normalises or equalises a channel', ['bliss/preprocess/normalize.cpp', 'bliss/preprocess/passband_static_equalize.cpp'],
     [('normalize', 'bliss/preprocess/normalize.cpp'), ('equalize_passband_filter', 'bliss/preprocess/passband_static_equalize.cpp')], ['normalize()', 'equalize_passband_filter()'])

prop('P36', 'Hits survive a round trip through the binary hit file',
     'Writing a list of hits, or a coarse channel, scan, target or cadence whose channels carry hits, to a binary hit file and reading that file back yields the same hits in the same order, hit by hit, channel by channel, scan by scan and target by target: every stored field has the value it had (frequency, index, start time, drift rate and its index, time span, signal-to-noise, bandwidth, bin width, coarse channel number and channel metadata exactly; power and duration to single precision). A scan assembled from channels has the metadata of its first one. Files of any size the format can express are read back, not only small ones. Nothing previously in the file survives. A path ending in .dat, or the format name dat, selects the text format when writing a scan, everything else the binary one; reading with an unknown format name is rejected as an invalid argument.',
     ['inputs'], 'every list of hits of any length and every metadata value (integers within 32 bits)', 'one test round trips one fixed hit list and one channel', ['bliss/file_types/cpnp_files.cpp', 'bliss/file_types/hits_file.cpp', 'bliss/file_types/detail'],
     [('write_*_to_capnp_file, read_*_from_capnp_file', 'bliss/file_types/cpnp_files.cpp'), ('conversions to and from messages', 'bliss/file_types/detail'), ('write_scan_hits_to_file', 'bliss/file_types/hits_file.cpp')], ['write_hits_to_file()', 'write_scan_hits_to_file()', 'read_*_from_file()', 'write_*_to_capnp_file()', 'read_*_from_capnp_file()'])

prop('P37', 'Text hit files list every hit with correctly formatted values',
     'A text hit file of a scan holds a header and one row per hit of the scan (the hits of its coarse channels in channel order). The header states the file, source, start, coordinates, sampling time, channel width in Hz, observation length (time steps times sampling time) and names the twelve columns. Row k states in twelve tab-separated columns: k counted from 1; drift rate; signal-to-noise; the frequency half way along the drift over the hit duration, stated twice (uncorrected and corrected); channel index; frequency at the start and at the end of the drift; two zero SEFD columns; coarse channel number and bin width; frequencies, rates and ratios with six decimals. Sky coordinates print as sexagesimal values with minutes and seconds below 60, a sign for declinations, and equal the given angle to half a unit of the last printed place.',
     ['inputs'], 'every list of hits, metadata and coordinate (right ascension not negative)', 'no test writes a text hit file', ['bliss/file_types/dat_file.cpp', 'bliss/core/scan.cpp'],
     [('write_scan_hits_to_dat_file, format_hits_to_dat_list, format_archours_to_sexagesimal, format_degrees_to_sexagesimal', 'bliss/file_types/dat_file.cpp'), ('scan::hits', 'bliss/core/scan.cpp')], ['write_scan_hits_to_dat_file()', 'write_scan_hits_to_file()'])

prop('P40', 'The hit finding program runs its stages as asked and writes every scan',
     'For every command line it accepts, bliss_find_hits opens the files given, selects the coarse channels and the device asked for, then normalises, equalises by the response when one is given and flags the filter roll-off otherwise, flags by spectral kurtosis, flags by sigma clipping, estimates the noise with the STDDEV method on unflagged samples, integrates drifts, searches hits and drops zero-drift hits, each stage applied to the outcome of the one before. Each option changes exactly the parameter it names and every parameter whose option is absent keeps its documented default (first coarse channel, one channel, channel width detected, cuda:0, desmearing, rates -500 to 500 in steps of 1, roll-off 0.25, kurtosis 0.25, 50 and 2, clipping 5 times at 3 and 4, connected components at a ratio of 10 and distance 7). The hits of every scan are then written exactly once, in the order of the files: to the named output in the named format; without one to a binary file named after the scan\'s own input; or are printed when the output is - or stdout, without writing any file. Asking for help or giving a command line that is not accepted shows the usage and processes nothing.',
     ['inputs', 'configurations'], 'every number of files, every combination of options and every value of each (contradicting switches excluded, output option last)', 'no test runs the program', ['bliss/bliss_find_hits.cpp'],
     [('main', 'bliss/bliss_find_hits.cpp')], ['bliss_find_hits'])

prop('P41', 'Coarse channels and scans report what they were given and compute on demand',
     'A coarse channel reports exactly the header values it was constructed with (asking for one that was not stated raises std::bad_optional_access), its latest samples and mask on the device it is on, and the noise estimate last set (std::logic_error before there is one). Hits and integrated plane given as functions are computed when asked for, hits at most once for a channel together with its copies; before either is given, asking raises an exception. Setting something on one channel does not change copies taken before. Selecting a CUDA device that is not usable is refused and leaves the channel as it was. A scan reports the header values of its file, or, when assembled from channels, those of channel 0 with the number of fine channels of all channels together; setters of source name, coordinates, telescope and start time change exactly that value.',
     ['inputs', 'histories'], 'every header value stated or not, every device, any number of setters and of uses', 'no test builds a channel without header values, copies one or asks twice', ['bliss/core/coarse_channel.cpp', 'bliss/core/scan.cpp'],
     [('coarse_channel', 'bliss/core/coarse_channel.cpp'), ('scan', 'bliss/core/scan.cpp')], ['coarse_channel', 'scan'])

prop('P42', 'Targets and cadences keep their members, names and devices through slices',
     'An observation target holds the scans, or the scans of the files, it is given, in order; a cadence holds its targets in order. The name of a target assembled from scans that all state the same source name is that name; the target of no scan, or of scans none of which states one, is named unknown. Slicing the channels of a target or a cadence yields every scan (every target) in order sliced to the same channels, with the same name and device, and leaves the original unchanged. Selecting a device selects it for every member; a CUDA device that is not usable is refused.',
     ['inputs', 'histories'], 'any number of scans and targets, every name, device and range of channels', 'no test slices a target or cadence', ['bliss/core/cadence.cpp', 'bliss/core/scan.cpp'],
     [('observation_target', 'bliss/core/cadence.cpp'), ('cadence', 'bliss/core/cadence.cpp')], ['observation_target', 'cadence'])

prop('P43', 'The saved state of a hit restores the whole hit',
     'Setting the state of any hit to the state obtained from another makes the two equal in every field: channel index, frequency, start time, duration, rate index, drift rate, power, time span, signal-to-noise, bandwidth, bin width, coarse channel number and the count of every combination of flags; nothing of what the hit held before remains, and the hit the state was obtained from is unchanged.',
     ['inputs'], 'every value of every field and every map of flag counts', 'no test saves or restores a hit', ['bliss/core/hit.cpp'],
     [('hit::get_state, hit::set_state', 'bliss/core/hit.cpp')], ['hit::get_state()', 'hit::set_state()'])

prop('P44', 'The conversion program writes the table of the scan in the hit file',
     'For a binary hit file holding a scan, bliss_hits_to_dat writes the text table of exactly that scan, once, to the path named by the output option, or without one to the name of the input file with its extension replaced by dat in the working directory. With the output - or stdout the hits are printed and no file is written. Asked for help, given no input or given a command line it does not accept, it shows its usage and writes nothing. An input that cannot be read writes nothing and is an error.',
     ['inputs', 'configurations'], 'every command line and every scan', 'no test runs the program', ['bliss/bliss_hits_to_dat.cpp'],
     [('main', 'bliss/bliss_hits_to_dat.cpp')], ['bliss_hits_to_dat'])

prop('P45', 'Event files hold every event with all of its hits',
     'Writing a list of events to a file and reading that file back yields as many events in the same order, each with exactly its hits in the same order, every stored field of a hit as binary hit files store it (P36), whatever the number of events and of hits in one. A file that existed before is replaced. A file that cannot be opened is rejected with std::runtime_error.',
     ['inputs'], 'every list of events with any numbers of hits', 'no test writes events', ['bliss/file_types/events_file.cpp', 'bliss/file_types/detail'],
     [('write_events_to_file, read_events_from_file', 'bliss/file_types/events_file.cpp')], ['write_events_to_file()', 'read_events_from_file()'])

prop('P46', 'The channelizer response is the folded, normalised power of its filter',
     'The taps of the channelizer filter with cutoff c are sinc(c t) times a Hamming window, t counted from the middle tap. The response of a coarse channel has one value per fine channel: the centred power spectrum of those taps (as many per coarse channel as asked for, cutoff one over the number of coarse channels) zero padded to all fine channels, without the half coarse channel at either end, summed over coarse channels at the same fine channel, divided by its largest value. bliss_generate_channelizer_response computes it for the counts its options give, 1048576 fine and 256 coarse channels and 12 taps where they are absent, and writes it once as 32-bit floats to the file named (channelizer_response.f32 by default); asked for help, or given a command line it does not accept, it writes nothing.',
     ['inputs', 'configurations'], 'every even number of fine channels, two or more coarse channels, at most as many taps per channel as fine channels, fewer than 2^31 fine channels in all; every command line', 'no test generates a response', ['bliss/preprocess/passband_static_equalize.cpp', 'bliss/bliss_generate_channelizer_response.cpp'],
     [('firdes, gen_coarse_channel_response', 'bliss/preprocess/passband_static_equalize.cpp'), ('main', 'bliss/bliss_generate_channelizer_response.cpp')], ['firdes()', 'gen_coarse_channel_response()', 'bliss_generate_channelizer_response'])

prop('P47', 'A binary mask splits into its connected groups, each listed once',
     'find_components_in_binary_mask lists every set cell (mask not zero) of a mask of rates x channels in exactly one group, once, and no other cell. Cells are neighbours when one lies at one of the given offsets from the other and both are in the mask. With offsets that go both ways the groups are exactly the connected components of the set cells, in row-major order of their first cells, each list starting with its first cell; with other offsets a group holds the set cells reached from its first cell which no earlier group holds. The mask itself, which may be a view with any strides and offsets, is left as it is.',
     ['inputs'], 'every mask of at least one rate and channel, every content, every list of offsets', 'no test calls it', ['bliss/drift_search/kernels/connected_components_cpu.cpp', 'bliss/drift_search/connected_components.cpp'],
     [('find_components_in_binary_mask_cpu', 'bliss/drift_search/kernels/connected_components_cpu.cpp'), ('find_components_in_binary_mask', 'bliss/drift_search/connected_components.cpp')], ['find_components_in_binary_mask()'])
