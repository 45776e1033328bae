"""Source of properties.jsonl and MANIFEST.json (see mkmanifest.py)"""
NOTES = ('All checks drive the real code of /repo/src in process; mpi4py is '
         'replaced by a controlled communicator where ranks matter. No hooks '
         'in /repo are needed. run.sh ID TIER --replay FILE re-executes one '
         'counterexample.')
PROPS = []
NA = []


def P(**k):
    PROPS.append(k)


P(id='C01',
  title='Correlations do not depend on the number or timing of processes',
  statement='A correlation run that is started on any number of processes '
  'terminates on all of them and leaves the same correlation databases (same '
  'entries, headers and values up to floating point noise) as the same run '
  'on one process. This holds for any availability of raw data (missing '
  'stations, late starts, gaps, unusable traces), for any interleaving of '
  'the processes, and also if the run extends an existing database.',
  over=['schedules', 'configurations', 'inputs'],
  quant='all interleavings of the processes, all numbers of processes, all '
  'patterns of raw data availability over channels, all combination methods '
  'and processing options',
  why='The unit tests mock MPI with a single process and one complete data '
  'set; a deadlock or a rank dependent window only shows for a particular '
  'assignment of incomplete channels to processes.',
  files=['src/seismic/correlate/correlate.py'],
  mech=[('per-rank reading and windowing, allgather of windows',
         'correlate.py:Correlator._generate_data'),
        ('distribution of traces/combinations and Allreduce',
         'correlate.py:Correlator._pxcorr_matrix'),
        ('one writer per file', 'correlate.py:Correlator._write')],
  technique='stateless model checking of the real program: controlled MPI '
  'scheduler, delay-bounded enumeration of schedules, exhaustive product of '
  'availability patterns and rank counts',
  level='model_checking',
  note='Exhaustive within the stated bounds (3-4 channels, 2-3 read windows, '
  '2-7 ranks, one preemption); trusts the eager-collective semantics of the '
  'communicator stand-in and the file system.')

EXH = ('exhaustive bounded exploration of the real code against an '
       'independent reference model')

P(id='C02',
  title='A database depends on the data, not on the history of runs',
  statement='Correlating a time range in any sequence of runs over parts of '
  'it, in any order, overlapping or repeated, with data of stations arriving '
  'between the runs, leaves exactly the union of what single fresh runs over '
  'the individual read windows store. A run never alters, duplicates, or '
  'loses results that exist already.',
  over=['histories', 'configurations'],
  quant='all sequences of runs and data arrivals up to a bounded length, for '
  'each combination method and storage option',
  why='Unit tests check single functions with mocked databases; no test runs '
  'the correlator twice on the same project.',
  files=['src/seismic/correlate/correlate.py', 'src/seismic/db/corr_hdf5.py'],
  mech=[('search of existing data', 'correlate.py:Correlator.find_existing_'
         'times, correlate.py:compute_network_station_combinations, '
         'corr_hdf5.py:DBHandler.get_available_starttimes'),
        ('skipping of existing windows', 'correlate.py:Correlator._generate_'
         'data'), ('adding to files', 'corr_hdf5.py:DBHandler.add_corr_stream')],
  technique='explicit enumeration of all operation histories up to a depth, '
  'each replayed on the real correlator and databases, against a union model',
  level='model_checking',
  note='Complete for 3 stations, 3 read windows, 14 configurations and '
  'histories of bounded length; the model is composed of single runs, whose '
  'correctness C06/C07 decide.')

P(id='C04',
  title='Exactly the configured pairs of channels are correlated',
  statement='For every choice of networks, stations, and components (names, '
  'lists, wildcards), combination method, explicitly requested combinations, '
  'and distance limit, a run stores results for exactly those unordered '
  'pairs of available channels that the configuration describes, each once. '
  'Codes that are prefixes of each other are never mixed up.',
  over=['configurations', 'inputs'],
  quant='all small sets and orders of channels, all combination methods, all '
  'forms of selection',
  why='Tests use one fixed stream of codes per method.',
  files=['src/seismic/correlate/correlate.py',
         'src/seismic/trace_data/waveform.py'],
  mech=[('pair generation', 'correlate.py:calc_cross_combis'),
        ('requested pairs', 'correlate.py:is_in_xcombis, '
         'Correlator._filter_by_rcombis'),
        ('station selection', 'correlate.py:Correlator.__init__, '
         'waveform.py:Store_Client.get_available_stations')],
  technique=EXH, level='model_checking',
  note='Exhaustive over sets of up to 4 of 7 codes and over the listed '
  'selection forms.')

P(id='C05',
  title='Each pair has one identity; lag sign and headers follow its order',
  statement='Whatever order two channels are read or given in, their '
  'correlation is stored under one canonical pair of codes, and every header '
  'entry (coordinates, codes, distance, azimuth) belongs to the side it is '
  'listed under. A signal that arrives later at the second station always '
  'appears at the corresponding positive lag, also with sub-sample time '
  'offsets.',
  over=['inputs'],
  quant='all pairs of codes incl. codes that are prefixes of each other, both '
  'orders, delays and offsets of both signs',
  why='Tests contain two or three hand-picked pairs that sort the same way by '
  'any rule.',
  files=['src/seismic/correlate/stream.py',
         'src/seismic/correlate/correlate.py',
         'src/seismic/correlate/stats.py'],
  mech=[('sorting and flipping', 'correlate.py:sort_comb_name_alphabetically, '
         'Correlator._pxcorr_inner'), ('header', 'stream.py:combine_stats, '
         'CorrTrace'), ('lag axis', 'correlate.py:Correlator._pxcorr_matrix')],
  technique=EXH, level='model_checking',
  note='Exhaustive over an alphabet of 36 channel codes at the API and over '
  '5 (thorough: 24) codes in complete runs.')

P(id='C06',
  title='Stored values are the cross-correlation of the windows',
  statement='Every stored correlation equals the time domain definition of '
  'the (normalised) cross-correlation of the two windows of data at every '
  'lag that is kept, on the lag axis the header states, for every window '
  'length, lag length, and sampling rate. Missing or constant data never '
  'produce a result other than the one of the samples that exist.',
  over=['inputs', 'configurations'],
  quant='all window lengths in a range (hence odd and even transform '
  'lengths), lag lengths, sampling rates, methods, patterns of availability',
  why='Tests compare one even length and mock the Fourier transform.',
  files=['src/seismic/correlate/correlate.py'],
  mech=[('transform, normalisation, lag window', 'correlate.py:Correlator.'
         '_pxcorr_matrix'), ('windows to matrix', 'correlate.py:st_to_np_array'
                             )],
  technique=EXH, level='model_checking',
  note='Exhaustive over the grid of lengths; values are bounded by a '
  'tolerance of 2e-4.')

P(id='C07',
  title='Windows tile the requested time; stacks hold exactly their windows',
  statement='For all start times, read lengths and increments, window lengths '
  'and increments, a run stores exactly the windows that the configuration '
  'defines and the data cover, with the right start and end times. Each '
  'stack is the mean of exactly the stored windows of one read increment and '
  'states their times.',
  over=['configurations', 'inputs'],
  quant='product of window geometries, start times (also across days) and '
  'availability',
  why='Tests use one geometry in which windows divide the read length.',
  files=['src/seismic/correlate/correlate.py',
         'src/seismic/correlate/stream.py'],
  mech=[('read windows', 'correlate.py:Correlator._generate_data'),
        ('sub-windows', 'correlate.py:generate_subdivision (slice)'),
        ('stacking', 'stream.py:CorrStream.stack, stack_st_by_group')],
  technique=EXH, level='model_checking',
  note='Exhaustive over the product of geometries listed in the evidence.')

P(id='C03',
  title='An interrupted run leaves nothing wrong and can simply be restarted',
  statement='Whenever a correlation run is interrupted - by an error while '
  'reading, processing, or writing, by the user, or by the death of the '
  'process - everything readable in the databases equals what an undisturbed '
  'run stores. Starting the run again succeeds and completes the databases '
  'to those of an undisturbed run; a file that was damaged beyond reading is '
  'reported rather than silently replaced or misread.',
  over=['crash_points', 'fault_sequences', 'histories'],
  quant='all single fault points (opening, dataset, header entry, read, '
  'processing step), kinds of fault, configurations, prior contents',
  why='No test injects a fault into a run.',
  files=['src/seismic/correlate/correlate.py', 'src/seismic/db/corr_hdf5.py'],
  mech=[('writing', 'correlate.py:Correlator._write, '
         'corr_hdf5.py:DBHandler.add_correlation'),
        ('detection of existing results', 'correlate.py:Correlator.'
         'find_existing_times')],
  technique='exhaustive fault injection (every call of the I/O libraries) '
  'into the real program, differential against an undisturbed run',
  level='fault_enumeration',
  note='All single faults of a small project; one known finding (stack of the '
  'read increment that was being written).')

P(id='C08',
  title='The correlation database behaves like a map',
  statement='After any history of additions and removals, a request with '
  'exact, reversed, or wildcard codes, tag, and times returns exactly the '
  'matching entries with their data, each once; lists of times and channels '
  'agree with it. Adding an entry that exists never alters it, and adding or '
  'removing entries never affects others.',
  over=['histories', 'inputs'],
  quant='all reachable contents over universes of similar codes, all '
  'requests of a product of patterns',
  why='Tests replace the file by dictionaries and use one entry.',
  files=['src/seismic/db/corr_hdf5.py'],
  mech=[('addressing', 'corr_hdf5.py:hierarchy, sort_request'),
        ('requests', 'corr_hdf5.py:DBHandler.get_data, all_traces_recursive, '
         'DBHandler.get_available_starttimes, get_available_channels'),
        ('removal', 'corr_hdf5.py:DBHandler.remove_data')],
  technique='explicit-state model checking: closure of the reachable states '
  'of real database files against a dictionary model',
  level='model_checking',
  note='Complete for universes of 4 entries; the state of a file is taken to '
  'be its logical content.')

P(id='C09',
  title='A database never mixes different processing parameters',
  statement='Opening a database for writing, or extending it by a run, with '
  'processing options that differ from those it was created with is refused '
  'and leaves all files untouched, unless explicitly allowed. Options that '
  'only select times, pairs, or what is stored never prevent it, the stored '
  'options are exactly those that were used, and nothing can be modified '
  'without providing options.',
  over=['configurations', 'histories'],
  quant='all single (thorough: pairs of) changes of a leaf of the options, '
  'histories create/change/revert',
  why='Tests change one option.',
  files=['src/seismic/db/corr_hdf5.py', 'src/seismic/correlate/correlate.py'],
  mech=[('comparison', 'corr_hdf5.py:DBHandler.__init__, co_to_hdf5'),
        ('read only by default', 'corr_hdf5.py:CorrelationDataBase.__init__')],
  technique=EXH, level='model_checking',
  note='Complete for changes of leaves of one realistic set of options.')

P(id='C10',
  title='What is stored in a database is read back unchanged',
  statement='Data (every bit) and header (times, lag axis, codes, '
  'coordinates, processing) of a correlation survive storing and reading for '
  'every day of every year, every lag axis and data type, every compression, '
  'and through every access path.',
  over=['inputs'],
  quant='all days of the years, times of day, lag axes, data types, '
  'compression levels, types of header entries',
  why='Tests use few dates and mock the file.',
  files=['src/seismic/db/corr_hdf5.py', 'src/seismic/correlate/stats.py'],
  mech=[('header conversion', 'corr_hdf5.py:convert_header_to_hdf5, '
         'read_hdf5_header'), ('dependent header entries',
                               'stats.py:CorrStats')],
  technique=EXH, level='model_checking',
  note='Times to 0.1 ms, which is the resolution of the file format.')

P(id='C13',
  title='Rows, lags and headers of correlation matrices stay in step',
  statement='After any sequence of operations on a correlation matrix '
  '(selecting rows or times, averaging in time, trimming, mirroring, '
  'resampling, tapering, normalising, filtering, correcting for velocity '
  'changes, saving and reading), every row still carries the times and '
  'codes of the correlation(s) that it was made of, every sample its lag, '
  'and the sizes in the header agree with the data. Row-wise operations give '
  'for each row what they give for that row alone; measurements and copies '
  'leave the matrix unchanged.',
  over=['histories', 'inputs'],
  quant='all sequences of operations from an alphabet with arguments up to a '
  'bounded length, over matrices of different shapes and lag axes',
  why='Tests apply one operation to regular symmetric matrices and often '
  'mock the functions that compute.',
  files=['src/seismic/correlate/stream.py', 'src/seismic/monitor/trim.py',
         'src/seismic/monitor/post_corr_process.py'],
  mech=[('operations on bulks', 'stream.py:CorrBulk'),
        ('row selection', 'stream.py:CorrBulk.__getitem__, slice, '
         'select_corr_time'), ('lag axis', 'trim.py:corr_mat_trim, '
         'post_corr_process.py:corr_mat_mirror, corr_mat_resample_or_'
         'decimate'), ('averages in time',
                       'post_corr_process.py:corr_mat_resample')],
  technique='explicit enumeration of all operation sequences up to a depth '
  'on the real objects, each step compared with a table model',
  level='model_checking',
  note='Sequences of length 2 (thorough 3). Values of filters are only '
  'compared between matrix and single rows.')

P(id='C11',
  title='Headers of correlations are always consistent',
  statement='After any history of assignments, copies, and changes of the '
  'data, the header of a correlation is consistent: number of samples, '
  'sampling interval, and first and last lag describe the data, start and '
  'end times are those of the correlation, derived entries cannot be set, '
  'and copies are independent. Coordinates, distance and azimuth are always '
  'those of the stations they are listed for, wherever they are taken from.',
  over=['histories', 'inputs'],
  quant='all reachable header states over an alphabet of entries and values; '
  'all combinations of sources of coordinates',
  why='Tests set single entries of one header.',
  files=['src/seismic/correlate/stats.py', 'src/seismic/correlate/stream.py'],
  mech=[('linked entries', 'stats.py:CorrStats.__setitem__'),
        ('combination of headers', 'stream.py:combine_stats, '
         'alphabetical_correlation'), ('traces', 'stream.py:CorrTrace')],
  technique='explicit-state model checking: closure of the reachable states '
  'of the real objects under all assignments and copies, against a model of '
  'independent entries', level='model_checking',
  note='Complete for the alphabet of keys and values.')

P(id='C12',
  title='Time selections and stacks contain exactly the right correlations',
  statement='Selecting correlations by time, time of day, or codes, removing '
  'those around given times or duplicates, sliding over a stream, and '
  'building matrices return exactly the correlations that satisfy the '
  'documented condition, unchanged and each once, in any order of the '
  'stream and across midnight. A stack is the weighted mean of exactly the '
  'correlations of one channel pair that end in its window and states their '
  'times.',
  over=['inputs', 'configurations'],
  quant='all small subsets of a universe of correlation windows (regular, '
  'overlapping, nested, across midnight), channel assignments, orders, '
  'products of arguments',
  why='Tests use one regular series of equal windows starting at a full '
  'hour.',
  files=['src/seismic/correlate/stream.py'],
  mech=[('selection', 'stream.py:CorrStream.select_corr_time, select_time, '
         'pop_at_utcs, remove_duplicates'),
        ('windows', 'stream.py:CorrStream.slide'),
        ('stacks', 'stream.py:CorrStream.stack, stack_st_by_group, stack_st'),
        ('matrices', 'stream.py:CorrStream.create_corr_bulk, '
         'convert_statlist_to_bulk_stats')],
  technique=EXH, level='model_checking',
  note='Subsets of up to 3 (thorough 5) of 13 windows.')

P(id='C14',
  title='What is written is what is read back',
  statement='Every result that is written to disk (velocity changes, '
  'coherence, correlation matrices) is read back with identical values, '
  'axes, missing values, times, codes, coordinates and processing '
  'information, for every combination of optional content; writing again '
  'what was read changes nothing, writing does not alter the object, and a '
  'stored result is never mixed with an older file of the same name. '
  'Correlations of the older version (matlab files) keep values, lags, '
  'codes and times.',
  over=['inputs', 'histories'],
  quant='all combinations of optional content x headers x formats, and '
  'write-read chains of them',
  why='Tests write one example per class.',
  files=['src/seismic/monitor/dv.py', 'src/seismic/monitor/wfc.py',
         'src/seismic/monitor/spatial.py', 'src/seismic/correlate/stream.py',
         'src/seismic/correlate/stats.py'],
  mech=[('velocity changes', 'dv.py:DV.save, read_dv'),
        ('coherence', 'wfc.py:WFC.save, read_wfc'),
        ('headers', 'stream.py:convert_statlist_to_bulk_stats, '
         'stats.py:CorrStats'),
        ('import', 'io.py:corrmat_to_corrbulk, mat_to_corrtrace')],
  technique='exhaustive enumeration of object contents and of chains of '
  'write and read operations on the real files',
  level='model_checking', note='Bounded alphabet of contents per field.')

P(id='C15',
  title='Monitoring gives each time step its own correlations',
  statement='A monitoring project computes, for every pair and every '
  'requested start date, the velocity change from exactly the stored '
  'correlations of the time step: for any database, window length, '
  'increment, and interval, the value is the one imposed on the '
  'correlations of that step; steps without correlations are marked as '
  'unavailable; preprocessing, lapse windows, removed times and references '
  'are applied as configured, and no result depends on other pairs or the '
  'options object.',
  over=['inputs', 'configurations'],
  quant='all patterns of available correlations x windows x increments x '
  'configurations within the bound, on real database files',
  why='Tests of the monitor mock the database and the computation.',
  files=['src/seismic/monitor/monitor.py', 'src/seismic/monitor/wfc.py',
         'src/seismic/correlate/stream.py', 'src/seismic/db/corr_hdf5.py'],
  mech=[('velocity change', 'monitor.py:Monitor.compute_velocity_change'),
        ('coherence', 'monitor.py:Monitor.compute_waveform_coherence'),
        ('time axis', 'monitor.py:make_time_list, '
         'post_corr_process.py:corr_mat_resample')],
  technique='exhaustive enumeration of databases and configurations run '
  'through the real Monitor class, compared with the imposed result',
  level='model_checking',
  note='Up to 6 windows; values on the grid of the velocity axis.')

P(id='C16',
  title='Measured changes are those that are in the data',
  statement='Stretching, shifting, and referencing functions find, for '
  'every lag window, side, and availability of correlations, exactly the '
  'change that was imposed on synthetic correlations that lies on their '
  'search axis; rows are independent of one another, unavailable rows stay '
  'unavailable and never influence others; references are the documented '
  'average; a correction for the measured change restores the reference.',
  over=['inputs', 'configurations'],
  quant='all patterns of imposed changes and missing rows x windows x sides '
  'x methods within the bound',
  why='Tests use one matrix with complete data.',
  files=['src/seismic/monitor/stretch_mod.py',
         'src/seismic/monitor/post_corr_process.py',
         'src/seismic/correlate/stream.py'],
  mech=[('stretching', 'stretch_mod.py:velocity_change_estimate, '
         'multi_ref_vchange_and_align, est_shift_from_dt_corr'),
        ('shift', 'stretch_mod.py:time_shift_estimate, '
         'post_corr_process.py:measure_shift'),
        ('reference', 'post_corr_process.py:corr_mat_extract_trace'),
        ('objects', 'stream.py:CorrBulk.stretch, CorrTrace.stretch')],
  technique=EXH, level='model_checking',
  note='Changes on the search grid; thorough 99000 cases.')

P(id='C17',
  title='Averages of results combine exactly the right results',
  statement='Averaging velocity changes or coherences uses exactly the '
  'results that belong together (same station pair and requested kind of '
  'component, inside the coordinates, same method and axes), each time step '
  'is averaged over the available ones only, both implementations agree, '
  'codes, counts and scatter describe what was averaged, inputs and '
  'existing files stay unchanged, and repeating changes nothing. Shift '
  'correction aligns results by their common times. The selection of '
  'correlations finds exactly the requested codes.',
  over=['inputs', 'configurations', 'histories'],
  quant='all lists of results from a pool, all availability patterns and '
  'offsets, all sets of files x methods run twice, all code patterns',
  why='Tests average two or three complete results in memory.',
  files=['src/seismic/monitor/monitor.py', 'src/seismic/monitor/dv.py'],
  mech=[('averages', 'monitor.py:average_components, '
         'average_components_mem_save, average_dvs_by_coords, '
         'average_components_wfc'),
        ('files', 'monitor.py:Monitor.compute_components_average, '
         'corr_find_filter'),
        ('shift correction', 'monitor.py:correct_dv_shift, '
         'correct_time_shift_several'),
        ('smoothing', 'dv.py:DV.smooth_sim_mat')],
  technique=EXH, level='model_checking',
  note='Lists of up to 3 (thorough 4) results. Known finding: wrap of the '
  'shifted similarity matrix.')

P(id='C18',
  title='Bulk monitoring treats every file once, on any number of processes',
  statement='Computing velocity changes or coherences of a whole project '
  'gives, for any set of databases (including empty, damaged, or unusable '
  'ones), any number of processes, and any interleaving, the same results as '
  'separate computations of each channel; every result is written exactly '
  'once, damaged databases affect nothing else, and every process '
  'terminates.',
  over=['schedules', 'inputs', 'configurations'],
  quant='all sequences of up to 3-4 databases x 1-7 processes x options; all '
  'schedules with up to one (thorough two) preemptions',
  why='Tests mock MPI and the computations.',
  files=['src/seismic/monitor/monitor.py'],
  mech=[('distribution of files',
         'monitor.py:Monitor.compute_velocity_change_bulk, '
         'compute_waveform_coherence_bulk'),
        ('averages of components', 'monitor.py:average_components_wfc')],
  technique='stateless model checking of the real program: controlled MPI '
  'scheduler, delay-bounded enumeration of schedules, exhaustive product of '
  'databases and numbers of processes',
  level='model_checking',
  note='Trusts the semantics of the communicator stand-in.')

P(id='C19',
  title='The local archive is a faithful cache of raw data',
  statement='After any history of requests for waveforms, each request '
  'returns exactly the samples of the remote service within the interval '
  '(or what is stored locally), stored files contain the data once, at '
  'their times and in the right daily file, a new client on the same '
  'folder returns the same, and list of stations, available times and '
  'inventory describe what is stored. Reading from other file structures '
  'returns all existing samples of the interval, across hours, days, '
  'months, and years, and none of other stations. Instrument responses, '
  'once stored, stay available for every channel and epoch, and a client '
  'for reading only writes nothing.',
  over=['histories', 'inputs'],
  quant='all histories of requests up to a length x patterns of remote data; '
  'all structures x subsets of files x intervals',
  why='Tests use mocked clients and single requests within one file.',
  files=['src/seismic/trace_data/waveform.py'],
  mech=[('cache', 'waveform.py:Store_Client.get_waveforms, _load_local, '
         '_load_remote, _write_local_data'),
        ('file structures', 'waveform.py:FS_Client, read_from_filesystem')],
  technique='explicit enumeration of all request histories up to a depth, '
  'each replayed on the real client and file system, against a map from '
  'time to value',
  level='model_checking',
  note='Three days around the turn of the year, up to 2 (thorough 3) '
  'requests.')

P(id='C20',
  title='Gaps and masks keep every sample at its time',
  statement='For any pattern of missing samples (mask, not a number, or '
  'separate traces) and any type of data the functions that handle gaps '
  '(interpolation, gap handling, detrending, tapering, filtering, masking, '
  'discarding) keep present samples at their times, fill exactly the gaps '
  'that are to be filled, never use the data underneath masks, and never '
  'let one trace influence another.',
  over=['inputs', 'configurations'],
  quant='all patterns of up to 6-8 blocks x form x data type x arguments',
  why='Tests use one gap in the middle of floating point data.',
  files=['src/seismic/utils/miic_utils.py',
         'src/seismic/correlate/preprocessing_stream.py'],
  mech=[('gaps', 'miic_utils.py:gap_handler, interpolate_gaps_st, '
         'discard_short_traces'),
        ('processing', 'preprocessing_stream.py:detrend_st, cos_taper_st, '
         'stream_filter, stream_mask_at_utc')],
  technique=EXH, level='model_checking',
  note='Up to 8 blocks of samples.')

P(id='C21',
  title='Preprocessing treats every trace on its own',
  statement='Every preprocessing function in time and frequency domain gives '
  'each trace the result it would get alone (joint whitening: its group of '
  'three), whatever the other traces contain (dead, constant, spikes, '
  'missing values), for any number of samples and data type, without '
  'changing its arguments and without turning finite into undefined '
  'values; results are the documented ones. The removal of responses and '
  'the polarity correction of a stream depend for each trace only on the '
  'trace and its own metadata, whether that is stored or has to be '
  'requested.',
  over=['inputs', 'configurations'],
  quant='all tuples of rows from an alphabet x functions x arguments x '
  'lengths; all sequences of traces x known metadata',
  why='Tests process one matrix of random numbers or a single station.',
  files=['src/seismic/correlate/preprocessing_td.py',
         'src/seismic/correlate/preprocessing_fd.py',
         'src/seismic/correlate/correlate.py',
         'src/seismic/utils/miic_utils.py'],
  mech=[('time domain', 'preprocessing_td.py'),
        ('frequency domain', 'preprocessing_fd.py'),
        ('streams', 'correlate.py:preprocess_stream, '
         'miic_utils.py:correct_polarity')],
  technique=EXH, level='model_checking',
  note='Tuples of up to 3 (thorough 4) rows of 40-45 samples.')

P(id='C22',
  title='Spectrograms contain exactly the available windows',
  statement='A spectrogram has one column for each window whose data are '
  'completely available within the requested period, at its time, equal to '
  'the spectrum of the separately processed data, in order of time; on any '
  'number of processes, whichever of them have data, for any read '
  'increment, and without any data it reports so. Only the first process '
  'gets the result.',
  over=['schedules', 'inputs', 'configurations'],
  quant='all availability patterns of up to 3-4 increments x sampling rates '
  'x 1-5 processes; schedules with one (thorough two) preemptions; read '
  'increments x ends of the period',
  why='Tests use one complete stream on one process.',
  files=['src/seismic/utils/raw_analysis.py',
         'src/seismic/trace_data/waveform.py'],
  mech=[('spectra', 'raw_analysis.py:spct_series_welch'),
        ('windows', 'waveform.py:Store_Client.compute_spectrogram, '
         '_generate_time_windows')],
  technique='stateless model checking of the real program: controlled MPI '
  'scheduler, delay-bounded enumeration of schedules, exhaustive product of '
  'availability patterns and rank counts',
  level='model_checking',
  note='Windows of 64 s, increments of 128 s; the influence of filter '
  'transients at the limits of increments is part of the model.')

P(id='C23',
  title='Velocity images follow from exactly the usable measurements',
  statement='The inversion of velocity changes onto a grid, its resolution, '
  'covariance, and forward model use exactly those objects that have a '
  'usable estimate at the requested time, with the sensitivity kernel of '
  'their own station pair, and equal the linear estimate independent of '
  'the history of the grid object and the form of the input; curves are '
  'aligned to the forward value of their own pair; kernels are finite, not '
  'negative and symmetric for any lapse time, sampling and grid spacing.',
  over=['inputs', 'histories', 'configurations'],
  quant='all sequences of up to 3 (thorough 4) objects of an alphabet x time '
  'x method; all histories of up to 2-3 operations; kernel parameters',
  why='Tests mock the kernel or the inversion, or use one pair.',
  files=['src/seismic/monitor/spatial.py'],
  mech=[('inversion', 'spatial.py:DVGrid.compute_dv_grid, compute_dv_tsvd, '
         'compute_resolution, compute_posterior_covariance'),
        ('forward and alignment', 'spatial.py:DVGrid.forward_model, '
         'align_dvs_to_grid'),
        ('kernel', 'spatial.py:sensitivity_kernel, probability')],
  technique=EXH, level='model_checking',
  note='Grid of 5 x 4 cells; all objects have the same lapse window.')

P(id='C24',
  title='A configuration has one meaning, however it is given and reused',
  statement='The correlator and the monitor give identical databases and '
  'results for the same configuration, whether it is given as a dictionary '
  'or a parameter file, with times as text or as time objects, with fresh or '
  'repeatedly used dictionaries, or as the parameters logged by an earlier '
  'run, and for all equivalent ways of requesting stations and components; '
  'options that were handed over are not altered.',
  over=['configurations', 'histories'],
  quant='all sequences of three operations (thorough: four) x form of the '
  'configuration at each of them x contents; all equivalent requests',
  why='Tests use one dictionary per object and mock the file system.',
  files=['src/seismic/correlate/correlate.py',
         'src/seismic/monitor/monitor.py',
         'src/seismic/trace_data/waveform.py'],
  mech=[('options', 'correlate.py:Correlator.__init__, '
         'monitor.py:Monitor.__init__'),
        ('stations', 'waveform.py:Store_Client._translate_wildcards, '
         'monitor.py:corr_find_filter'),
        ('times', 'preprocessing_stream.py:stream_mask_at_utc, '
         'stream.py:CorrStream.pop_at_utcs')],
  technique=EXH, level='model_checking',
  note='7 forms, 12 contents; one process; differential against fresh '
  'dictionaries.')

P(id='C25',
  title='Figures show exactly the data they are given',
  statement='Figures of correlations, correlation matrices, velocity changes '
  '(of one or several files), spectrograms, coherences, and velocity images '
  'show every selected value at its own place (lag, time, distance, '
  'frequency, position), and nothing else: no value repeated, dropped, '
  'shifted, or taken from other data, for all sortings, limits, gaps, and '
  'normalisations; they are drawn in the axes that were given, are written '
  'to files of their own, and leave the data unaltered.',
  over=['inputs', 'configurations', 'histories'],
  quant='all combinations and orders of correlations x kinds of figure x '
  'limits x axes; methods x gaps of velocity changes; subsets of files; '
  'sequences of saved figures',
  why='Tests of figures only compare calls of mocked plotting functions.',
  files=['src/seismic/plot/plot_correlation.py',
         'src/seismic/plot/plot_dv.py',
         'src/seismic/plot/plot_multidv.py',
         'src/seismic/plot/plot_spectrum.py',
         'src/seismic/plot/plot_wfc.py',
         'src/seismic/monitor/spatial.py'],
  mech=[('correlations', 'plot_correlation.py:plot_cst, plot_corr_bulk, '
         'heat_plot_corr_dist, sect_plot_dist'),
        ('velocity changes', 'plot_dv.py:plot_dv, '
         'plot_multidv.py:plot_multiple_dv'),
        ('spectra', 'plot_spectrum.py:plot_spct_series')],
  technique=EXH, level='model_checking',
  note='Artists of the figure are read back; rendering by matplotlib is '
  'assumed.')

P(id='C26',
  title='Resampled raw data keep their time and content',
  statement='Raw data recorded at any higher sampling rate, with any first '
  'sample, gaps, or combination of rates, enter the correlations with their '
  'true times: the maximum of a correlation lies at the delay between the '
  'recorded signals, to within one sample. Reducing the sampling rate keeps '
  'the signal below the new Nyquist frequency, removes what lies above it, '
  'does not move or drift in time, treats every trace of a stream as if it '
  'was alone, and never raises a rate; trimming keeps exactly the samples '
  'between the new ends.',
  over=['inputs', 'configurations'],
  quant='native rates x new rates x lengths x offsets x types x containers; '
  'streams of up to three rates; trims; runs with pairs of native rates x '
  'offsets x gaps x delays',
  why='Tests resample one trace and compare the rate; runs of the tests use '
  'mocked data.',
  files=['src/seismic/utils/miic_utils.py',
         'src/seismic/correlate/correlate.py'],
  mech=[('resampling', 'miic_utils.py:resample_or_decimate'),
        ('runs', 'correlate.py:Correlator._prepare_channel'),
        ('trimming', 'miic_utils.py:trim_stream_delta, trim_trace_delta')],
  technique=EXH, level='model_checking',
  note='Tolerance of one new sample for non-integer factors; the delay by '
  'the causal anti-alias filter is accepted if it is common to both '
  'stations, otherwise a known finding.')
