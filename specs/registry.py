"""which contracts (specs.*) and which bounded harness decide each property"""

CHECKS = {
    'P20': dict(specs=['drift_table'], harness='drift_table.cpp', groups=['bland', 'core', 'drift'],
                note='compute_drifts proved for all inputs against its contract (loop invariant over the table). Machine floats treated as reals; integer ranges and conversions are obligations.'),
}
NOT_CLAIMED = {}
FLOATS = 'Machine floats treated as reals; integer ranges and conversions are obligations, 64-bit integers mathematical. '
CHECKS['P21'] = dict(specs=['drift_integration', 'lv_integrate'], harness='drift_integration.cpp', groups=['bland', 'core', 'drift'],
    obl_skip=r'cells\.(filter|low|high)|count\.', keys=r'mean|shape|steps|inputs|integration',
    note='integrate_linear_rounded_bins_cpu proved for all shapes, strides, offsets, rate tables and contents against a recursive specification of the track sum (nested loop invariants, in-bounds obligations). '
         + FLOATS + 'Which samples, mask, rate table and options the channel overload passes, that the channel (and copies taken before) carries the right plane, and the scan, target and cadence overloads are proved too. Relies on the contracts of array construction, fill and array/scalar division (checked under P01, P05, P07) and requires the slope table facts proved under P20.')
CHECKS['P22'] = dict(specs=['drift_integration'], harness='drift_integration.cpp', groups=['bland', 'core', 'drift'],
    obl_skip=r'cells\.P\b|mean-along-path', keys=r'count',
    note='Same function as P21, counter part: the three counters equal a recursive count of flagged contributing bins; counter overflow is excluded by the precondition time steps * smear width <= 255. ' + FLOATS)
CHECKS['P29'] = dict(specs=['hit_order'], harness='hit_order.cpp', groups=['bliss/core/hit.cpp'],
    note='operator< and operator== reduced over all paths to formulas; irreflexivity, asymmetry, transitivity and agreement with equality proved for all hits. NaN fields excluded (floats as reals); std::map comparison assumed a total order.')
CHECKS['P27'] = dict(specs=['filter_hits', 'lv_filter'], harness='filter_hits.cpp', groups=['bland', 'core', 'drift'],
    note='filter_hits(list) proved for every list and option value against a recursive filter specification (loop invariant over the erase loop); the channel overload (rejection without hits, the caller\'s hits unchanged), the hits a channel and its copies carry, and the scan, target and cadence overloads proved as well. ' + FLOATS)

HS = dict(harness='hit_search.cpp', groups=['bland', 'core', 'drift'])
PLANE = 'Preconditions: one positive noise per rate, plane not sliced, threshold at least 1e-30, distance at least 1. Relies on the contracts of array construction (P01) and scalarize. '
CHECKS['P23'] = dict(HS, specs=['connected_components'], keys=r'cc|search', parts='cc', solve_s=400,
    note='find_components_above_threshold_cpu proved for every plane, layout, noise table, threshold and distance: ghost ownership per cell, closure and connectedness of regions, peak, width; in-bounds obligations. Termination of the flood loop not proved (harness would report a hang). ' + PLANE + FLOATS)
CHECKS['P24'] = dict(HS, specs=['local_maxima'], keys=r'lm|search', parts='lm',
    note='find_local_maxima_above_threshold_cpu proved for every plane, layout, noise table, threshold and distance against the definition of a strict L1 local maximum (soundness, completeness, order, width). ' + PLANE + FLOATS)
CHECKS['P25'] = dict(HS, specs=['hit_search'], keys=r'noise|search', parts='noise', obl_skip=r'^hit_search/',
    note='protohit_search proved: noise per rate, floor, threshold, distance, method and plane passed to the kernel (whose own signal-to-noise definition is part of the contracts of P23/P24). ' + FLOATS)
CHECKS['P26'] = dict(HS, specs=['hit_search', 'lv_hits'], keys=r'hit|search', obl_skip=r'^protohit_search/', parts='hits,whole',
    note='hit_search(coarse_channel) proved against the field-by-field definition; scan, target and cadence overloads proved against it (and checked end to end on files by the bounded harness). ' + FLOATS)
CHECKS['P26']['harness'] = ['hit_search.cpp', 'scan.cpp']
SC = dict(harness='scan.cpp', groups=['bland', 'core', 'drift'])
CHECKS['P30'] = dict(SC, specs=['scan_channels'], keys=r'chan|slice|freq|mem|transform|file', parts='channels',
    note='read_coarse_channel, peak_coarse_channel, slice_scan_channels and the frequency lookup proved for every scan, channel, queue of transforms and cache state (loop invariant over the transform queue); reading a slab is the HDF5 library\'s contract, validated against real files by the bounded harness. ' + FLOATS)
CHECKS['P31'] = dict(SC, specs=['channelization'], keys=r'infer', parts='infer',
    note='infer_number_coarse_channels proved for every number of fine channels, width and sampling time. ' + FLOATS)
CHECKS['P32'] = dict(SC, specs=['cadence'], keys=r'consistency', parts='consistency',
    note='validate_scan_consistency of targets and cadences proved for every sequence of scans (nested loop invariants) together with the lookups that depend on it. ' + FLOATS)

# ------------------------------------------------------------------ bland
BL = dict(harness='bland_ops.cpp', groups=['bland'])
ND = 'Preconditions: rank 1 to 64, fewer than 2^31 elements, element types float32, int32, uint8, uint32. '
PARTS = {'P01': 'create', 'P02': 'slice', 'P03': 'reshape', 'P04': 'binop', 'P05': 'scalar', 'P06': 'compare', 'P07': 'unary', 'P08': 'reduce',
         'P09': 'masked', 'P10': 'range', 'P11': 'file', 'P12': 'parse', 'P13': 'fft', 'P14': 'deferred'}
KERN = {'P04': (['el_binary', 'shapes', 'arith_arrays', 'op_arith'], 'elementwise_binary_op'), 'P05': (['el_scalar', 'arith_scalars', 'op_arith'], 'elementwise_scalar_op'),
        'P06': (['el_compare', 'shapes', 'cmp_dispatch', 'op_cmp'], 'both kernels'),
        'P07': (['el_unary', 'unary_dispatch', 'op_unary'], 'elementwise_unary_op and assignment_op')}
for _p, (_s, _n) in KERN.items():
    CHECKS[_p] = dict(BL, specs=_s, parts=PARTS[_p],
        note='%s proved for arrays of any rank, shape, strides, offsets and content (odometer invariants, address lemmas by induction); the public functions and operators reach exactly the right kernel instance for every combination of run-time element types (the dispatch is explored with symbolic types); every instance of the element operation equals the C++ operation in the common type converted to the result type. ' % _n + ND + FLOATS)
TENSOR = {'P01': (['nd_create', 'fill'], 'array construction (with and without initial value, zeros, ones), copies and everything an array reports proved for every shape, element type and value: contiguous strides, zero offsets, storage of its own and of the right size, fill called on this very array with this very value, fill and its kernel proved to store the value in every element and nowhere else. '),
          'P02': (['nd_slice'], 'slice proved for every array and every start, end and step (offset, extent, stride, rejection, shared storage, source unchanged), the overloads with one to ten specifications by composition, scalarize for every element type; address lemmas by induction show that element x of the slice is the right source element. '),
          'P03': (['nd_reshape'], 'reshape, squeeze and unsqueeze proved for every array and every new shape or axis (strides, offsets, storage, rejection), lemmas by induction show that every element keeps its place in row-major order. ')}
for _p, (_s, _n) in TENSOR.items():
    CHECKS[_p] = dict(BL, specs=_s, parts=PARTS[_p], note=_n + 'Relies on the contracts of fill / copy (P07) and posix_memalign. ' + ND)
CHECKS['P10'] = dict(BL, specs=['ranges'], parts='range',
    note='arange and linspace proved for every instantiated parameter type and every element type: number of elements, every element (loop invariant), rejection of other types; the overloads that infer the element type delegate with the right type. Preconditions: the arithmetic is defined in C++ and values fit the element type, fewer than 2^31-1 elements, at least one for linspace. Relies on array construction (P01). ' + FLOATS)
CHECKS['P11'] = dict(BL, specs=['file_io'], parts='file',
    note='write_to_file proved for arrays of any rank, shape, strides, offsets and content (odometer invariants; the file is ghost state: exactly the elements in row-major order), read_from_file for every file length and element width (whole elements only, bytes unchanged, read stays inside the array), the public functions delegate. Stream operations by contract (validated against real files by the bounded harness); the element type written is float32 (precondition). ' + FLOATS)
CHECKS['P12'] = dict(BL, specs=['names'], parts='parse',
    note='both name constructors proved for every string over the theory of strings (kind, number, rejection; out-of-range positions raise as in the library). std::stoi by contract: which number a string denotes is not specified. ')
CHECKS['P13'] = dict(BL, specs=['spectrum'], parts='fft',
    note='fft_shift_mag_square proved for every length up to 2^24, stride, offset and content: in-bounds, every bin in its place (loop invariant), source unchanged, only float32 on the CPU accepted. FFTW by contract (estimate-planned transform of N real samples into N/2+1 bins; conjugate symmetry of real transforms), validated against a direct transform by the bounded harness. ' + FLOATS)
CHECKS['P14'] = dict(BL, specs=['deferred'], parts='deferred',
    note='constructors, copies, conversion and moves proved for every policy, device and shared state with the number of runs as ghost state; histories of uses of any length by induction from the contract of one use. Moving between devices by contract. ')
RED = 'arrays of any rank, shape, strides and offsets and any set of reduced axes: every result element is the recursive reduction over exactly the elements that share its remaining indices (both odometers by invariants; lemmas by induction: coordinates of result and source agree, every combination of reduced indices occurs exactly once); the public functions build the result with the kept extents, pass axes unchanged and reach the kernel of the run-time element types. '
REDPRE = 'Preconditions: rank 1 to 64, distinct axes in range, fewer than 2^31 elements, partial sums of integers fit the element type, elements at least the lowest value, result of the element type of the source. '
CHECKS['P08'] = dict(BL, specs=['red_mean', 'red_sum', 'red_max', 'red_stddev', 'red_mean_stddev', 'red_count', 'red_dispatch'], parts='reduce', obl_skip=r'^masked',
    note='sum, mean, max, stddev, mean_stddev, var and count_true proved for ' + RED + REDPRE + FLOATS)
CHECKS['P09'] = dict(BL, specs=['red_masked_mean', 'red_masked_stddev', 'red_masked_mean_stddev', 'red_dispatch'], parts='masked', obl_skip=r'^(max|mean|sum|stddev|mean_stddev|var|count_true)\b|^cpu::(max|mean|sum|stddev|count_true)\b',
    note='masked_mean, masked_stddev, masked_mean_stddev and masked_var proved for ' + RED + 'Mask of another type or shape and groups without unmasked elements are rejected and nothing else is. ' + REDPRE + FLOATS)

# ------------------------------------------------------------------ flaggers, estimators, preprocessing
FL = dict(harness='flaggers.cpp', groups=['bland', 'core', 'drift', 'est', 'flag', 'pre'])
VAL = 'Arrays by value (extents and the mapping from coordinates to elements, views sharing storage) through the contracts of P01-P09; reductions uninterpreted except that equal operands give equal results. Scan, target and cadence overloads proved against the channel operation as an uninterpreted function of channel and every parameter. '
CHECKS['P33'] = dict(FL, specs=['flags', 'flag_sigma'], parts='flag', keys=r'flag\.', obl_skip=r'^kurtosis\.estimate',
    note='All four flaggers proved for every spectrum, prior mask and parameter: mask sample by sample, each of two successive uses of a deferred mask, frame of data and of the original mask; sigma clipping against the recursive definition of its stages (loop invariant, number of stages as ghost state); setting a flag is proved to be bitwise or. ' + VAL + FLOATS)
CHECKS['P34'] = dict(FL, specs=['noise'], parts='noise', keys=r'noise\.',
    note='estimate_noise_power proved for every array, channel, mask and option of the STDDEV method, with the rejection of fully flagged channels, noise_stats readers and set_noise_estimate. ' + VAL + FLOATS)
CHECKS['P35'] = dict(FL, specs=['flags'], parts='sk', keys=r'sk\.', obl_skip=r'^(?!kurtosis\.|lemma/kurtosis)',
    note='estimate_spectral_kurtosis proved for every array and channel (the formula over uninterpreted column sums of exactly the powers and the squared powers). ' + VAL + FLOATS)
CHECKS['P38'] = dict(FL, specs=['prep'], parts='prep', keys=r'prep\.',
    note='normalize and equalize_passband_filter proved for every channel and response, including the overloads that read the response from a file; the design of responses (firdes, gen_coarse_channel_response) is not covered. ' + VAL + FLOATS)

# ------------------------------------------------------------------ hit files
HF = dict(harness='hits_file.cpp', groups=['bland', 'core', 'drift', 'files'])
CHECKS['P36'] = dict(HF, specs=['capnp', 'capnp_files'], parts='capnp',
    note='Conversion of a hit, channel, scan, target and cadence to and from a message proved field by field for every value and every number of hits, channels, scans and targets (loop invariants over ghost messages); writers and readers of files proved over the sequence of messages in the file, opening over the flags of open(2), the choice of the format over the theory of strings. The generated message accessors and the message streams are contracts (validated against real files by the bounded harness). Preconditions: integer fields fit 32 bits, bin width at most 2^24, metadata present, channels of a scan read and evenly divided, fewer than 2^29 elements. Not stored by the format and not claimed: flag counts, machine id, nifs, azimuth and zenith, target names, events. ' + FLOATS)
CHECKS['P45'] = dict(HF, specs=['events_file'], parts='events',
    note='Writing and reading of events proved for every number of events and of hits in each (loop invariants over ghost messages and the iterators of message lists); conversion of a hit and opening of files by the contracts proved for P36. Message streams by contract, including the limit on the size of a message (validated against real files by the bounded harness). The summary of an event is not stored by the format and not claimed. Preconditions: fewer than 2^29 events, and hits in one.')
CHECKS['P37'] = dict(HF, specs=['dat'], parts='dat',
    note='Sexagesimal texts proved for every coordinate (integer arithmetic after rounding to the printed precision), the table for any number of hits (loop invariant over a recursive definition of the rows), header and file for every scan, scan::hits for any number of channels with and without hits. Texts are sequences of characters and printed fields; fmt::format and write(2) by contract (validated by the bounded harness). Reading text files is not covered. ' + FLOATS)

# ------------------------------------------------------------------ the program
CHECKS['P40'] = dict(specs=['driver'], harness='driver.cpp', groups=['bland', 'core'],
    note='main proved for every number of files and every combination and value of options: the parser by contract (a variable bound to an option holds what was given for it), the stages as uninterpreted functions of the object and all their parameters, so that the scan written is a term naming every stage, its order and its parameters; loop invariant on what was written so far (scan, name, format). The bounded harness runs the real main with the real parser on real files, stages replaced by recording stand-ins. Preconditions: no contradicting switches; number of scans below 2^31; one scan per file (P02). Observed, not demanded: the parser accepts the output option only as the last one, and one named output for several scans is overwritten by each.')
CHECKS['P44'] = dict(specs=['convert'], harness='convert.cpp', groups=['bland', 'core', 'drift', 'files'],
    note='main proved for every command line and every scan: the parser by contract (a variable bound to an option holds what was given for it), the reader of binary files (P36) and the writer of tables (P37) by contract, paths over the theory of strings with filename and replace_extension uninterpreted. The bounded harness runs the real main with the real parser on real files. Observed, not demanded: a file that holds no scan message is printed or converted as whatever the reader makes of it.')
CHECKS['P46'] = dict(specs=['channelizer'], harness='channelizer.cpp', groups=['bland', 'core', 'pre'],
    note='Window, sinc, prototype and taps proved element by element for every number of taps and cutoff (trigonometric functions uninterpreted but for elementary bounds; the window within 1e-6, sinc exact from 0.02/pi on and within 0.002 of one below), the response over the array contracts (spectrum, sum and maximum as functions of their operands: values proved under P13 and P08), the program for every command line by the contract of the parser. The bounded harness compares taps and responses with their definition in double precision and runs the real program. Observed: an odd number of fine channels is rejected by reshape; window and device are ignored. ' + FLOATS)
CHECKS['P47'] = dict(HS, specs=['mask_components'], keys=r'mask', parts='mask',
    note='find_components_in_binary_mask(_cpu) proved for every mask of any shape and content and every list of offsets: ghost ownership per cell, groups closed under the offsets but for cells of earlier groups (one and the same group where the offsets go both ways), connected, disjoint, starting at their first cell; in-bounds obligations. copy by contract (P02, P05). Termination of the flood loop not proved (the harness would report a hang). Preconditions: rates x channels, at least one of each, of uint8; two numbers per offset. ' + FLOATS)
# ------------------------------------------------------------------ channels, scans, targets
ST = dict(harness='store.cpp', groups=['bland', 'core'])
CHECKS['P41'] = dict(ST, specs=['channel_store', 'lv_filter', 'lv_integrate'], parts='channel', obl_skip=r'^(bliss::)?(filter_hits|integrate_drifts)|^lv|^(filter|integrate)\b',
    note='Every constructor, accessor and setter of coarse_channel and scan proved over channels whose header values are optionals, samples and masks deferred arrays (P14) and hits and plane shared between copies; computing hits at most once over a channel and its copies is part of the contract of hits() proved here. Devices: the test for a usable device by contract (throws or not). Precondition: fewer than 2^31 coarse and fine channels. ' + FLOATS)
CHECKS['P42'] = dict(ST, specs=['target_store'], parts='target',
    note='Constructors, name, channel slices and set_device of observation_target and cadence proved for any number of scans and targets (loop invariants); scans by the contracts of P30 and P41. Preconditions: fewer than 2^31 scans and targets; the name is demanded only when all names stated agree.')
CHECKS['P43'] = dict(ST, specs=['hit_state'], parts='state',
    note='get_state and set_state composed and proved to restore every field of any hit into any hit, flag counts through the contract of std::map (any number of entries). Precondition: keys are combinations of flags (below 64). ' + FLOATS)
# ------------------------------------------------------------------ events
CHECKS['P39'] = dict(specs=['h5'], harness='h5.cpp', groups=['bland', 'core'],
    note='All thirteen instances of read_data_attr, get_data_shape, read_data, read_mask, the opening of a file and the scan constructor proved for every stored type, value, presence of attributes, number of dimensions, labelling and region (loop invariants over labels, characters and offsets). The HDF5 library by contract (stored types and values, hyperslab selection, conversion on reading); bland arrays by the contracts of P05. The bounded harness writes and reads real files. Preconditions: values representable in the type asked for, one string per text attribute, data of time x feed x frequency with further unit dimensions last, regions within the data. ' + FLOATS)
CHECKS['P28'] = dict(specs=['events'], harness='events.cpp', parts='search', groups=['bland', 'core', 'drift'],
    note='The distance of two hits proved symmetric and equal to its definition, the order of the cache of distances a strict weak order that identifies exactly the unordered pairs, the cached distance right whatever was asked before; event_search proved for any number of targets, scans and hits (invariants of twelve loops over the lists still to be matched, the candidate and the events found): members, order, disjointness, nearness, absence from the other targets, averages, start. That no possible event is omitted is decided by the bounded harness (reference implementation) only. Relies on the contracts of scan::hits (P37), hit comparison (P29) and std::map. ' + FLOATS)
