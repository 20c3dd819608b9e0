#!/usr/bin/env python3
"""Source of properties.jsonl (one P(...) call per property)."""
import json
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
ROWS = []


def P(pid, title, statement, over, text, why, files, mech, observe=(),
      state=()):
    assert len(title) <= 80, (pid, len(title))
    ROWS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None}})


WF = 'src/seismic/trace_data/waveform.py'
DB = 'src/seismic/db/corr_hdf5.py'
CO = 'src/seismic/correlate/correlate.py'
ST = 'src/seismic/correlate/stream.py'
SS = 'src/seismic/correlate/stats.py'
TD = 'src/seismic/correlate/preprocessing_td.py'
FD = 'src/seismic/correlate/preprocessing_fd.py'
PS = 'src/seismic/correlate/preprocessing_stream.py'
PC = 'src/seismic/monitor/post_corr_process.py'
SM = 'src/seismic/monitor/stretch_mod.py'
TR = 'src/seismic/monitor/trim.py'
MO = 'src/seismic/monitor/monitor.py'
DV = 'src/seismic/monitor/dv.py'
WC = 'src/seismic/monitor/wfc.py'
SP = 'src/seismic/monitor/spatial.py'
MU = 'src/seismic/utils/miic_utils.py'
IO = 'src/seismic/utils/io.py'
RA = 'src/seismic/utils/raw_analysis.py'
PL = 'src/seismic/plot'

P('C01', 'The waveform archive returns exactly what was downloaded',
  'Whatever sequence of overlapping, repeated, out-of-order or multi-day '
  'downloads filled the local waveform archive, a later request for any '
  'window returns exactly the archived samples inside it, each once, with '
  'the values, sample times and channel codes that the data centre delivered; '
  'gaps stay gaps and nothing archived earlier is lost or altered. '
  'The list of available stations and the reported first and last data times '
  'agree with the content. '
  'A read-only client never creates or changes a file, and data that is '
  'already archived is served without asking the data centre again.',
  ['histories', 'inputs'],
  'all histories of get/read/list requests over stations, channels, windows, '
  'gaps and read-only or writable clients',
  'The tests replace the archive, the remote client and obspy reads by mocks '
  'and look at single calls; none writes and reads back a history of '
  'downloads.',
  [WF],
  [('local-first lookup, then download and archive',
    WF + ': Store_Client.get_waveforms, _load_local, _load_remote'),
   ('day splitting and merging into the archive',
    WF + ': _write_local_data, _sds_write'),
   ('availability', WF + ': get_available_stations, _get_times')],
  ['Store_Client.get_waveforms', 'files below the archive root'])

P('C02', 'File-system waveform reader returns exactly the requested window',
  'For every supported file-naming pattern, reading a window from a directory '
  'of per-interval files returns exactly the samples those files hold inside '
  'the window, for the requested channel only, trimmed to the window and '
  'merged across file boundaries, including windows that cross hour, day, '
  'month or year boundaries. '
  'Asking for a window without files is answered with an empty stream, '
  'never with data '
  'of another time or station.',
  ['inputs', 'configurations'],
  'all naming patterns, file lengths, windows and calendar boundaries',
  'Tests check fixed dates for the pattern helper and one mocked read.',
  [WF],
  [('pattern expansion', WF + ': read_from_filesystem, get_day_in_folder'),
   ('neighbouring files', WF + ': _adjacent_filepattern')],
  ['read_from_filesystem', 'FS_Client.get_waveforms'])

P('C03', 'Stored correlations come back identical and are never overwritten',
  'Every correlation written to a correlation database is returned by a later '
  'read, in this or a later session and for every compression setting, with '
  'identical samples and header (codes, window times, lag axis, station '
  'coordinates and geometry, and processing history). '
  'Writing a correlation for a combination, window and tag that already '
  'exists leaves the stored one unchanged, never disturbs others, and never '
  'loses the other correlations of the same call.',
  ['histories', 'inputs', 'configurations'],
  'all write/reopen/read histories over codes, times, tags, lengths, header '
  'content and compression settings',
  'Tests write a handful of objects through mocked h5py groups.',
  [DB, SS],
  [('write path', DB + ': DBHandler.add_correlation'),
   ('header conversion', DB + ': convert_header_to_hdf5, read_hdf5_header'),
   ('read path', DB + ': DBHandler.get_data, all_traces_recursive')],
  ['DBHandler.get_data'])

P('C04', 'Database queries select and delete exactly what they name',
  'A query by network, station and channel combination, time and tag, with or '
  'without wildcards, returns exactly the stored correlations whose path '
  'matches, and the listings of channels and start times name everything '
  'stored for the combination and nothing that was never stored. '
  'Deleting by exact or wildcard start time removes exactly the matching '
  'correlations and nothing else, and asking for a combination in the other '
  'station order finds the same data.',
  ['histories', 'inputs'],
  'all database contents, queries with wildcards and histories of '
  'add/delete/query',
  'Tests check single calls against mocks with one or two entries.',
  [DB],
  [('path layout and wildcard lookup',
    DB + ': DBHandler.get_data, all_traces_recursive'),
   ('removal', DB + ': DBHandler.remove_data'),
   ('listings', DB + ': get_available_starttimes, get_available_channels')],
  ['DBHandler.get_data', 'DBHandler.remove_data',
   'DBHandler.get_available_starttimes'])

P('C05', 'A correlation database holds data of one set of parameters only',
  'Correlations computed with processing parameters that differ from those a '
  'database was created with are refused before anything is written, unless '
  'the user forces it, while parameters that only concern storage, time range '
  'or station selection may differ. '
  'Stored parameters are returned equal to those written, and opening '
  'without parameters gives access that cannot write.',
  ['configurations', 'histories'],
  'all pairs of parameter sets and all open/write/reopen histories',
  'Tests compare two hand-made dictionaries.',
  [DB],
  [('guard', DB + ': CorrelationDataBase.__init__/__enter__, '
    'DBHandler.add_corr_options'),
   ('normalisation', DB + ': co_to_hdf5')],
  ['CorrelationDataBase', 'DBHandler.get_corr_options'])

P('C06', 'Exactly the requested station and component pairs are correlated',
  'For each combination method, the pairs correlated are exactly those that '
  'the method defines over the traces available (between stations, between '
  'components, auto-components, all simple, all), each unordered pair at most '
  'once (all combinations: once per order) and, where requested, only the listed combinations, whatever the '
  'order of the input. '
  'Station selection by name or wildcard and the combinations computed from '
  'the station lists obey the same rule: no requested pair is silently '
  'dropped and no other pair appears.',
  ['inputs', 'configurations'],
  'all sets of traces, methods and lists of requested combinations',
  'Tests enumerate a few fixed streams of two or three traces.',
  [CO],
  [('pair enumeration', CO + ': calc_cross_combis, is_in_xcombis'),
   ('station pairs', CO + ': compute_network_station_combinations, '
    'sort_comb_name_alphabetically, Correlator._filter_by_rcombis')],
  ['calc_cross_combis'])

P('C07', 'Correlation values equal the defined cross-correlation',
  'The correlation computed for a pair of windows equals the time-domain '
  'cross-correlation of the two (pre-processed, zero-padded) records at every '
  'stored lag, with the documented sign, lag zero and length, whatever the '
  'record lengths, number of traces and sub-sample start offset. '
  'With normalisation the result is scaled by the two record energies so that '
  'it never exceeds one and an autocorrelation is one at zero lag, scaling '
  'or adding other records does not change it, and swapping the records '
  'reverses the lag axis.',
  ['inputs', 'configurations'],
  'all data matrices, combinations, lag lengths, options and time offsets',
  'Tests feed a few symmetric signals and mock the processing functions.',
  [CO],
  [('frequency-domain correlation', CO + ': Correlator._pxcorr_matrix'),
   ('matrix from stream', CO + ': st_to_np_array'),
   ('zero padding', TD + ': zeroPadding')],
  ['Correlator._pxcorr_matrix'])

P('C08', 'Combining two records keeps codes, geometry and lag direction paired',
  'A correlation header pairs first codes with first coordinates and second '
  'codes with second coordinates, carries the distance and azimuths computed '
  'from them and the common time window. '
  'When a pair is brought to alphabetical order, codes, coordinates and '
  'azimuths are exchanged together and the lag axis is reversed with the '
  'data, so that each sample keeps its physical lag; pairs already in order '
  'are untouched, and doing it twice changes nothing.',
  ['inputs'],
  'all pairs of headers, code orders, coordinates and lag axes',
  'Tests use one or two headers and compare only selected fields.',
  [ST, CO, SS],
  [('header combination', ST + ': combine_stats'),
   ('ordering', ST + ': alphabetical_correlation, CorrTrace.__init__; ' + CO
    + ': sort_comb_name_alphabetically')],
  ['CorrTrace.stats', 'CorrTrace.data'])

P('C09', 'Continuous data is cut into exactly the requested windows',
  'For every read length, read increment, correlation length and increment, '
  'each produced window has exactly the requested start, length and sampling, '
  'contains the recorded samples of that time and nothing else, and every '
  'requested window for which enough data exists is produced once. '
  'A window without any data of a record does not contain this record, gaps '
  'are never filled with other samples, and windows of one trace are independent of '
  'which other traces are present.',
  ['inputs', 'configurations'],
  'all window parameters, gaps, trace offsets and sampling rates',
  'Tests check the number of windows for gap-free synthetic streams.',
  [CO, MU],
  [('windowing', CO + ': generate_corr_inc, Correlator._generate_data'),
   ('pre-processing of streams', CO + ': preprocess_stream'),
   ('gap and short-trace rules',
    MU + ': gap_handler, discard_short_traces, get_valid_traces, '
    'trim_stream_delta')],
  ['generate_corr_inc', 'preprocess_stream'])

P('C10', 'The correlation database equals an independent recomputation',
  'Running the correlation workflow on an archive gives, for each requested '
  'pair and window, the correlation obtained by cutting, pre-processing and '
  'correlating the two records independently, and nothing else, for every '
  'combination of method, window, subdivision, stacking and storage options. '
  'The result does not depend on the number of parallel processes or on the '
  'other stations present.',
  ['configurations', 'schedules', 'inputs'],
  'all workflow configurations, process counts and archives',
  'Tests mock the store, the database and the process communicator; no test '
  'runs the whole workflow, and none with more than one process.',
  [CO, ST, DB],
  [('workflow', CO + ': Correlator.pxcorr, _pxcorr_inner, _generate_data'),
   ('writing and stacking', CO + ': Correlator._write; ' + ST
    + ': CorrStream.stack'),
   ('work split over processes', CO + ': _pxcorr_matrix, _generate_data')],
  ['HDF5 files written by Correlator.pxcorr'])

P('C11', 'Interrupted or repeated correlation runs converge to one result',
  'Running the correlation workflow again over the same time range adds, '
  'changes and recomputes nothing; extending the range or resuming after the '
  'process was killed at any point between writes gives the same database as '
  'one uninterrupted run over the whole range. '
  'Existing correlations of one pair or channel never cause missing ones of '
  'another pair, channel or window to be skipped.',
  ['crash_points', 'histories', 'configurations'],
  'all kill points, all splits of the time range and all orders of station or '
  'range extension',
  'No test runs the workflow twice; the comparison of existing data is '
  'tested on a hand-made dictionary.',
  [CO, DB],
  [('existing-time lookup', CO + ': Correlator.find_existing_times, '
    '_compare_existing_data, _generate_data'),
   ('no overwrite', DB + ': DBHandler.add_correlation')],
  ['HDF5 files after kill, resume and rerun'])

P('C12', 'Time-domain preprocessing treats every trace on its own, as defined',
  'Each time-domain preprocessing step applied to a matrix gives each column '
  'the same result as applying it to that trace alone and equals its '
  'definition (mean or linear trend removed, values limited at the stated '
  'multiple of the standard deviation, sign taken, unit variance, muted '
  'outside threshold with taper, window taper, filter response, running '
  'amplitude normalisation, zero padding to the stated length). '
  'Shape, sampling and sample positions are preserved, repeated application '
  'of idempotent steps changes nothing, and finite input gives finite output.',
  ['inputs', 'configurations'],
  'all finite matrices, shapes, options and pathological columns (zero, '
  'constant, spikes)',
  'Tests use single small matrices per function and fixed options.',
  [TD],
  [('TD steps', TD + ': clip, detrend, demean, mute, '
    'normalizeStandardDeviation, signBitNormalization, taper, '
    'TDnormalization, TDfilter, zeroPadding')],
  ['functions of the module'])

P('C13', 'Spectral preprocessing changes only what it is defined to change',
  'Spectral whitening sets the amplitude of every non-zero frequency bin to '
  'one (or to the stated joint or smoothed normalisation) and keeps its '
  'phase, one-bit spectra keep only signs, and the spectral filter multiplies '
  'by one inside its pass band, by zero outside its limits and by a monotone '
  'ramp in between. '
  'Each trace is treated on its own, zero spectra stay zero, and no output '
  'is ever undefined.',
  ['inputs', 'configurations'],
  'all spectra, band limits and options, including empty and zero spectra',
  'Tests check one spectrum per option.',
  [FD],
  [('FD steps', FD + ': FDfilter, FDsignBitNormalization, '
    'spectralWhitening')],
  ['functions of the module'])

P('C14', 'Masking, gap handling and tapering touch only the stated samples',
  'Masking given time intervals makes exactly the samples inside them (plus '
  'the stated taper) unavailable, for every position of the interval relative '
  'to the trace, and its reverse exactly the others. '
  'Filling gaps replaces only samples inside gaps no longer than the limit '
  'and leaves all recorded samples and longer gaps as they were; tapering, '
  'filtering and detrending treat every gap-free segment on its own and keep '
  'the gaps.',
  ['inputs', 'configurations'],
  'all traces, gap patterns, mask intervals and taper or limit settings',
  'Tests use one gap or interval in the middle of the trace.',
  [PS, MU],
  [('masking', PS + ': stream_mask_at_utc, trace_mask_at_utc'),
   ('taper/filter/detrend on streams',
    PS + ': cos_taper_st, stream_filter, detrend_st'),
   ('gaps', MU + ': gap_handler, interpolate_gaps, interpolate_gaps_st')],
  ['functions of the modules'])

P('C15', 'Header times, lags and lengths of correlations never disagree',
  'After any sequence of assignments and operations on a correlation or '
  'correlation-bulk header, sampling interval and sampling rate are '
  'reciprocal, the last lag equals the first plus (samples - 1) intervals, '
  'and the start and end times equal those of the correlated window. '
  'Derived fields cannot be set to contradicting values, and copying or '
  'serialising a header keeps all fields. Printed summaries state these '
  'values.',
  ['histories', 'inputs'],
  'all sequences of header assignments, copies and conversions',
  'Tests set each field once.',
  [SS, ST],
  [('linked fields', SS + ': CorrStats.__setitem__'),
   ('bulk headers', ST + ': convert_statlist_to_bulk_stats')],
  ['CorrStats'],
  [('CorrStats fields', 'linked header entries', SS)])

P('C16', 'Stacks and time averages use each correlation exactly once',
  'Stacking by group or over windows of given length averages exactly the '
  'correlations of the same combination whose window ends in the window of '
  'the stack, weighted by length or equally, and resampling a matrix into '
  'bins averages exactly those that start in the bin, ignoring undefined '
  'samples; bins without data are marked as undefined, not filled from '
  'neighbours. '
  'Result headers span the time that went in, different combinations are '
  'never mixed, the input order does not matter and the inputs are not '
  'changed.',
  ['inputs', 'configurations'],
  'all sets of correlations in any order, window lengths, bins and gaps',
  'Tests stack two or three constant traces.',
  [ST, PC],
  [('stacking', ST + ': CorrStream.stack, stack_st_by_group, stack_st'),
   ('resampling to bins', PC + ': corr_mat_resample; ' + ST
    + ': CorrBulk.resample'),
   ('reference traces', PC + ': corr_mat_extract_trace; ' + ST
    + ': CorrBulk.extract_trace, extract_multi_trace')],
  ['CorrStream.stack', 'CorrBulk.resample', 'CorrBulk.extract_multi_trace'])

P('C17', 'Selecting correlations by time returns exactly the matching ones',
  'Selecting by date range, by time of day, by listed times or by sliding '
  'window returns exactly those correlations whose window satisfies the '
  'stated criterion, whatever the order of the stream, and excluding returns '
  'exactly the complement. '
  'Removing duplicates keeps exactly one of identical correlations, and no '
  'selection changes a correlation it keeps.',
  ['inputs'],
  'all streams, boundaries (equal, overlapping, across midnight), empty and '
  'complete selections',
  'Tests use regular hourly streams and interior limits.',
  [ST],
  [('selection', ST + ': CorrStream.select_corr_time, select_time, '
    'pop_at_utcs, remove_duplicates, slide, CorrBulk.select_corr_time, '
    'CorrBulk.slice')],
  ['CorrStream', 'CorrBulk'])

P('C18', 'Conversions between streams, matrices and files lose nothing',
  'Turning a stream of correlations into a matrix and back, saving a matrix '
  'object to a file and reading it, and converting headers to plain arrays '
  'and back returns the same samples, window times, lag axis, codes, '
  'coordinates and processing record, with each row still belonging to its '
  'time. '
  'Copies are independent: changing the copy never changes the original.',
  ['inputs', 'histories'],
  'all streams (any order, gaps, lengths, one or many traces) and conversion '
  'chains',
  'Tests compare selected fields of one small object.',
  [ST, MU, IO],
  [('bulk/stream', ST + ': CorrStream.create_corr_bulk, _to_matrix, '
    'CorrBulk.create_corr_stream, convert_statlist_to_bulk_stats'),
   ('files', ST + ': CorrBulk.save, read_corr_bulk; ' + MU
    + ': save_header_to_np_array, load_header_from_np_array'),
   ('mat files', IO + ': mat_to_corrtrace, corrmat_to_corrbulk')],
  ['CorrBulk', 'CorrStream', 'read_corr_bulk'])

P('C19', 'The lag axis always describes the data',
  'After trimming, mirroring, resampling, decimating, tapering or filtering '
  'the lag axis, every remaining sample keeps its physical lag: first lag, '
  'interval, last lag and number of samples agree with the matrix, trimming '
  'keeps exactly the lags inside the limits with unchanged values, and '
  'mirroring averages exactly the samples at opposite lags around zero lag. '
  'Resampling preserves band-limited signals at the new lags.',
  ['inputs', 'histories'],
  'all lag axes (symmetric, one-sided, asymmetric, odd and even lengths), '
  'limits on and between samples, and sequences of operations',
  'Tests trim and mirror one symmetric axis.',
  [PC, TR, ST],
  [('trim', TR + ': corr_mat_trim'),
   ('mirror', PC + ': corr_mat_mirror'),
   ('lag resampling', PC + ': corr_mat_resample_time, corr_mat_decimate'),
   ('bulk methods', ST + ': CorrBulk.trim, mirror, resample_time_axis')],
  ['CorrBulk.stats', 'CorrBulk.data'])

P('C20', 'Matrix operations act on each correlation as defined',
  'Normalising, clipping, enveloping, filtering, tapering and smoothing of a '
  'correlation matrix give each row (or, for smoothing over time, each lag) '
  'its defined result, independent of the other rows, and, except for '
  'smoothing, leave undefined rows undefined without spreading them; decay '
  'correction removes one exponential decay in absolute lag from all rows. '
  'The object and the function forms agree, the operation is recorded in the '
  'processing history, and rows keep their times.',
  ['inputs', 'configurations'],
  'all matrices incl. undefined, zero and constant rows, and all options',
  'Tests check one small matrix per function.',
  [PC, ST],
  [('functions', PC + ': corr_mat_normalize, corr_mat_clip, '
    'corr_mat_envelope, corr_mat_filter, corr_mat_taper, '
    'corr_mat_taper_center, corr_mat_smooth, corr_mat_correct_decay'),
   ('methods', ST + ': CorrBulk')],
  ['CorrBulk methods'])

P('C21', 'A velocity change applied to the data is the one measured',
  'If correlations are a reference stretched in time by given factors, the '
  'measured velocity change equals the applied one within one grid step, with '
  'the documented sign, for both, left, right and single-sided windows, and '
  'does not depend on the amplitude of the correlations or on other rows; '
  'correcting the correlations by the measured change restores the reference. '
  'Each measurement is consistent: the reported value is the grid point with '
  'the highest similarity, the reported similarity is that value, it is at '
  'most one, and undefined rows give undefined values.',
  ['inputs', 'configurations'],
  'all references, stretch factors in range, grids, lapse windows, sides, '
  'amplitudes and undefined rows',
  'Tests stretch one sinusoid with one set of parameters.',
  [SM, PC, ST],
  [('stretching', SM + ': time_stretch_estimate, velocity_change_estimate, '
    'create_shifted_ref_mat, time_windows_creation'),
   ('correction', SM + ': time_stretch_apply; ' + PC
    + ': corr_mat_stretch, apply_stretch; ' + ST
    + ': CorrBulk.stretch, correct_stretch')],
  ['CorrBulk.stretch', 'CorrBulk.correct_stretch', 'DV'])

P('C22', 'A time shift applied to the data is the one measured and removed',
  'If correlations are a reference delayed by given times, the measured shift '
  'equals the applied one within one grid step with the documented sign, '
  'for every lapse window and side, independent of amplitude and other rows, '
  'and correcting by it restores the reference; several windows are averaged, '
  'undefined rows give undefined values. '
  'Shifting by zero changes nothing, and shifting by t and then by -t '
  'restores all interior samples.',
  ['inputs', 'configurations'],
  'all references, shifts in range, grids, windows and undefined rows',
  'Tests shift one signal by an integer number of samples.',
  [SM, PC, ST],
  [('shift', SM + ': time_shift_estimate, time_shift_apply, '
    'create_shifted_ref_mat; ' + PC + ': corr_mat_shift, measure_shift, '
    'apply_shift'),
   ('bulk methods', ST + ': CorrBulk.measure_shift, find_clock_shift, '
    'correct_shift')],
  ['CorrBulk.measure_shift', 'CorrBulk.correct_shift'])

P('C23', 'Measurements against several references are combined consistently',
  'Measuring against several references gives, per reference, what measuring '
  'against it alone gives, and the combined similarity is the average '
  'after each reference has been brought to a common baseline by the offsets '
  'that fit the weighted differences between all pairs of measurements best, '
  'whatever the number of references (including ten and more) and their '
  'order; similarities of one end of the grid never appear at the other and '
  'undefined times stay undefined. '
  'One reference reproduces the single-reference result.',
  ['inputs', 'configurations'],
  'all numbers and sets of references, grids and data with overlapping times',
  'Tests use two or three references with trivial similarity matrices.',
  [SM],
  [('multi reference', SM + ': multi_ref_vchange, '
    'multi_ref_vchange_and_align, estimate_reftr_shifts_from_dt_corr, '
    'est_shift_from_dt_corr, wfc_multi_reftr')],
  ['multi_ref_vchange_and_align'])

P('C24', 'Velocity-change results survive saving, smoothing and selection',
  'A velocity-change result that is saved and read back has identical values, '
  'similarities, grid, times, metadata and availability, alone or through a '
  'wildcard, and its printed summary names its codes, kind and time span. '
  'After smoothing its similarity matrix over time the value is again the '
  'grid point of highest smoothed similarity and the similarity is that '
  'maximum; similarities below the stated threshold take no part, and a '
  'time is undefined exactly if no similarity in its window is left.',
  ['inputs', 'histories'],
  'all results with and without similarity matrix, undefined times, window '
  'lengths, thresholds and save/read/smooth histories',
  'Tests save one object and compare selected fields.',
  [DV],
  [('persistence', DV + ': DV.save, read_dv'),
   ('smoothing', DV + ': DV.smooth_sim_mat'),
   ('time list', MO + ': make_time_list')],
  ['DV', 'read_dv'])

P('C25', 'Averaging over components uses every defined measurement, fairly',
  'The average of velocity-change results over components or stations has, at '
  'each time, the mean similarity of all results defined at that time and the '
  'value at its maximum; undefined ones are ignored, the number of results '
  'used is reported, and the order in which results are given does not '
  'matter. '
  'Results on different grids, time axes or methods are not mixed silently, '
  'already averaged results are not averaged again, and grouping by location '
  'or station combination never mixes them. '
  'If a shift correction is requested, results of successive stations are '
  'first moved by whole grid steps to the level they have in common.',
  ['inputs'],
  'all lists of results incl. undefined times, differing grids and any order',
  'Tests average two identical results.',
  [MO],
  [('averaging', MO + ': average_components, average_components_mem_save, '
    'average_dvs_by_coords, average_components_wfc, correct_dv_shift, '
    'correct_time_shift_several')],
  ['average_components', 'average_components_mem_save'])

P('C26', 'The monitoring workflow measures every stored combination once',
  'Running the monitoring workflow on a correlation database writes one '
  'result per stored combination, equal to reading, selecting, averaging, '
  'filtering, trimming and stretching that combination independently, on the '
  'requested regular time axis, with times without data marked undefined. '
  'A combination that cannot be processed does not stop or change the others, '
  'and the result does not depend on the number of parallel processes.',
  ['configurations', 'schedules', 'fault_sequences'],
  'all databases, workflow options, process counts and defective '
  'combinations',
  'Tests mock the database and the processing; none runs the workflow.',
  [MO, ST, DB],
  [('workflow', MO + ': Monitor.compute_velocity_change, '
    'compute_velocity_change_bulk, compute_components_average'),
   ('discovery', MO + ': corr_find_filter, make_time_list'),
   ('time selection', ST + ': CorrBulk.resample, CorrStream')],
  ['files below the dv directory'])

P('C27', 'Waveform coherence is a bounded similarity to the reference',
  'The coherence of each correlation with a reference in a lapse window '
  'equals the normalised product of the two in this window, lies between -1 '
  'and 1, is 1 for a scaled copy and -1 for a reversed one, and does not '
  'depend on amplitudes, on samples outside the window or on other rows. '
  'Averages over time, references or components are means of the defined '
  'values, and saving and reading keeps all values and metadata.',
  ['inputs', 'configurations'],
  'all matrices, references, windows, sides and undefined rows',
  'Tests check identical traces only.',
  [SM, WC, MO, ST],
  [('coherence', SM + ': compute_wfc, wfc_multi_reftr'),
   ('objects', WC + ': WFC, WFCBulk, read_wfc'),
   ('workflow', MO + ': Monitor.compute_waveform_coherence, '
    'average_components_wfc')],
  ['CorrBulk.wfc', 'WFC'])

P('C28', 'Spatial sensitivity and forward model follow the physics stated',
  'The sensitivity kernel of a station pair is non-negative, symmetric under '
  'exchanging the stations and under reflecting the geometry, depends only on '
  'relative positions and is scaled as the diffusive model prescribes; the '
  'forward model of a velocity map is the kernel-weighted linear '
  'combination of it for each measurement, in the order of the measurements. '
  'Results do not depend on which kernels were computed before.',
  ['inputs', 'histories'],
  'all geometries, lapse times, velocities and histories of calls on one grid',
  'Tests evaluate single points and mock the kernels.',
  [SP],
  [('kernel', SP + ': probability, sensitivity_kernel'),
   ('forward', SP + ': DVGrid.forward_model, _compute_sensitivity_kernels, '
    'compute_cm, geo2cart, data_variance')],
  ['sensitivity_kernel', 'DVGrid.forward_model'])

P('C29', 'The spatial inversion is the least-squares solution of its data',
  'The inverted velocity map equals the regularised least-squares solution '
  'for the supplied measurements, kernels, data variances and model '
  'covariance, is linear in the measurements, independent of their order, of '
  'earlier inversions on the same grid object and of undefined measurements, '
  'and each measurement is used once with its own value. '
  'Resolution and posterior covariance agree with the same linear system, and '
  'aligning results or maps to a common zero changes them only by offsets.',
  ['inputs', 'histories'],
  'all geometries, measurements, undefined values, parameters and call '
  'histories',
  'Tests replace kernels and covariances by constants.',
  [SP],
  [('inversion', SP + ': DVGrid.compute_dv_grid, compute_resolution, '
    'compute_posteriori_covariance, tsvd'),
   ('data extraction', SP + ': DVGrid._extract_info_dvs, align_dv_curves, '
    'DVGrid.align_dvs_to_grid')],
  ['DVGrid'])

P('C30', "The caller's data, options and files are never modified",
  'Processing functions, workflow objects and conversions leave the option '
  'dictionaries, option files, arrays, streams and headers passed to them '
  'unchanged unless they are documented to work in place, so that reusing '
  'the same input gives the same result again. '
  'Results do not share memory with the inputs where a copy is promised.',
  ['inputs', 'histories'],
  'all public entry points that take mutable inputs',
  'Tests look at results, hardly ever at the inputs afterwards.',
  [CO, PC, SM, ST, MO, DV, MU, TD],
  [('copies', CO + ': Correlator.__init__; ' + MO + ': Monitor.__init__; '
    + PC + '; ' + SM + '; ' + ST + ': CorrBulk.copy')],
  ['public functions'])

P('C31', 'Spectrograms place the energy at the right time and frequency',
  'The time series of spectra computed from an archive has one column for '
  'every complete window between the requested start and end, labelled with '
  'the time of its first sample and equal to the power spectral density of '
  'the (detrended, high-passed) records in that window alone, on a frequency '
  'axis that ends at the requested maximum; windows with missing samples are '
  'left out and never filled with made-up values. '
  'The windows of continuous data do not depend on the length of the chunks '
  'read at a time or on the number of processes.',
  ['inputs', 'configurations'],
  'all records, window lengths, read increments, gaps and frequency limits',
  'Tests check the shape for one trace.',
  [RA, WF],
  [('spectra', RA + ': spct_series_welch'),
   ('reading', WF + ': Store_Client.compute_spectrogram, '
    '_generate_time_windows')],
  ['Store_Client.compute_spectrogram'])

P('C32', 'Sampling, geometry and time helpers are exact',
  'Resampling passes signals well below the new Nyquist frequency, removes '
  'what is above it and keeps start times; each trace is treated on its own. '
  'Trimming by a margin keeps exactly the samples inside. '
  'Distances and azimuths agree with the coordinates and are symmetric, '
  'inter-station distance filters keep exactly the pairs within the limit, '
  'moving averages use the defined values of their window only, polarity '
  'correction flips exactly the vertical channels that point down in the '
  'epoch of the trace, and header and time conversions are inverse to each '
  'other.',
  ['inputs'],
  'all sampling rates, offsets, coordinates and times',
  'Tests use single hand-picked values.',
  [MU],
  [('helpers', MU + ': resample_or_decimate, trim_stream_delta, '
    'trace_calc_az_baz_dist, inv_calc_az_baz_dist, filter_stat_dist, '
    'convert_utc_to_timestamp, convert_timestamp_to_utcdt, nan_moving_av, '
    'correct_polarity')],
  ['functions of the module'])

P('C33', 'Figures show the data they are given',
  'Figures of correlations, bulks, velocity changes, coherences, spectra and '
  'maps show every sample at its own time, lag, frequency, distance or '
  'coordinate with its own value (with the documented sign, normalisation '
  'and mirroring), for any order of the traces, undefined values and units. '
  'Requested limits, titles, marked times, normalisations and axes are used, only the '
  'given axes are drawn into, figures can be created on every machine, they '
  'are saved under the requested name and with the default name none is '
  'overwritten; unreadable files are skipped.',
  ['inputs', 'configurations'],
  'all data, options, limits and axes',
  'Tests replace matplotlib by mocks or do not plot at all.',
  [PL + f'/plot_{k}.py' for k in
   ('correlation', 'dv', 'multidv', 'spectrum', 'wfc', 'utils')] + [SP],
  [('figures', PL + '/plot_correlation.py: plot_ctr, plot_cst, '
    'plot_corr_bulk; plot_dv.py: plot_dv; plot_multidv.py: plot_multiple_dv; '
    'plot_spectrum.py: plot_spct_series; plot_wfc.py: plot_wfc_bulk; '
    + SP + ': DVGrid.plot')],
  ['CorrTrace.plot', 'CorrStream.plot', 'CorrBulk.plot', 'DV.plot',
   'WFCBulk.plot', 'DVGrid.plot', 'plot_multiple_dv', 'plot_spct_series'])

P('C34', 'Requests that cannot be answered are refused and change nothing',
  'Unknown methods, sides, window types, normalisations, plot types and '
  'styles, time windows, tapers and traces that do not fit each other or the '
  'data, empty selections, reversed or empty time spans, stations and grids '
  'that are not covered, missing required arguments, differing processing '
  'options and objects of the wrong type are refused with an error of the '
  'documented kind instead of being answered with something else (limits of '
  'trims and normalisations outside of the data leave it unchanged). '
  'The arguments, archives, databases and results are afterwards as they '
  'were before. Requests exactly at the border of what is allowed are '
  'served, and a station without any files in the archive counts as one '
  'without data.',
  ['inputs', 'configurations'],
  'all functions, options and data, on both sides of the border of what is '
  'allowed',
  'Tests try a few of these errors with one value each, often with mocks, '
  'and do not look at the arguments and files afterwards.',
  [PC, SM, MO, DV, SP, ST, SS, CO, PS, TD, FD, DB, WF, MU,
   'src/seismic/utils/fetch_func_from_str.py'] + [
      PL + f'/plot_{k}.py' for k in ('correlation', 'dv', 'spectrum')],
  [('matrices', PC + ': corr_mat_*, measure_shift; ' + SM
    + ': velocity_change_estimate, compute_wfc, time_shift_apply, '
    'time_stretch_apply, time_windows_creation'),
   ('traces', PS + ': cos_taper, stream_filter, stream_mask_at_utc; ' + TD
    + ': detrend, mute, zeroPadding; ' + FD + ': spectralWhitening; ' + MU),
   ('correlations', ST + ': CorrStream, combine_stats, '
    'convert_statlist_to_bulk_stats; ' + CO + ': Correlator; ' + DB
    + ': CorrelationDataBase'),
   ('velocity changes', MO + ': make_time_list, correct_dv_shift, '
    'average_components, Monitor; ' + SP + ': DVGrid, sensitivity_kernel'),
   ('archive', WF + ': Store_Client, get_day_in_folder')],
  ['errors raised', 'arguments and files after an error'])

P('C35', 'The whole workflow measures the change that happened in the ground',
  'From raw records in the archive and one parameter file, correlating and '
  'monitoring yield for every combination of stations and components that '
  'the file asks for a time series that states a change of the velocity in '
  'the ground with its sign, size and time, for the causal, the acausal and '
  'both sides and with any conditioning that keeps the phases; times without '
  'records are undefined, the waveform coherence falls when the medium '
  'changes, and the coordinates are those of the inventory. An error of the '
  'clock of one station appears with opposite signs in the combinations in '
  'which it is the first or the second station, in no other one, and is '
  'removed by the correction. The parameter files that come with the '
  'package can be used in this way as they are, apart from directory, codes '
  'and dates.',
  ['inputs', 'configurations'],
  'all wave fields, station sets, combination methods, changes, gaps and '
  'clock errors, and all conditioning that keeps the phases',
  'Tests look at single functions; none takes records with a known change '
  'through the whole chain, where conventions of several modules meet.',
  [CO, WF, ST, SS, DB, TD, FD, PS, MO, SM, PC, DV, WC],
  [('correlation', CO + ': Correlator.pxcorr'),
   ('monitoring', MO + ': Monitor.compute_velocity_change_bulk, '
    'compute_waveform_coherence_bulk'),
   ('clock shifts', PC + ': measure_shift, apply_shift')],
  ['result files of the workflow', 'DV', 'WFC'])

with open(OUT, 'w') as fh:
    for r in ROWS:
        fh.write(json.dumps(r) + '\n')
print(len(ROWS), 'properties')
