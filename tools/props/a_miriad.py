MF = ['aipy/miriad.py', 'aipy/_miriad/miriad_wrap.cpp', 'aipy/_miriad/mir/uvio.c']
PROPS = [
dict(id='M01', title='Visibility records come back from a dataset exactly as written',
 statement='Every visibility record written to a new UV dataset (coordinates, time, antenna pair, complex channel data and flags) is read '
  'back in the order written: exactly in floating-point storage, and to within one quantisation step of that record in 16-bit storage. '
  'This holds for any channel count, value range, flag pattern, array layout and number of records, and for every way of writing and reading a record; '
  'reading past the last record reports the end of the file.',
 quantifier=(['inputs', 'histories', 'configurations'], 'all sequences of records x channel counts 1..4096 x storage modes x value ranges x flag patterns x write/read entry points'),
 why_tests_cant='The tests write a handful of records of one size with one flag pattern in one storage mode; buffer boundaries (16 kB stream buffers, 4 kB mask '
  'buffers, 31-bit flag words), scaling extremes and unusual array layouts are reached only by particular inputs.',
 anchors=(MF + ['aipy/_miriad/mir/maskio.c', 'aipy/_miriad/mir/hio.c', 'aipy/_miriad/mir/pack.c'],
  [('record write and read', 'aipy/miriad.py UV.write/UV.read, aipy/_miriad/miriad_wrap.cpp UVObject_write/UVObject_read'),
   ('stream encoding and 16-bit scaling', 'aipy/_miriad/mir/uvio.c uvwrite_c/uvread_c'), ('flag run-lengths', 'aipy/_miriad/mir/maskio.c mkwrite_c/mkread_c'),
   ('byte order and packing', 'aipy/_miriad/mir/pack.c')], ['UV.write', 'UV.raw_write', 'UV.read', 'UV.all']),
 technique='runtime monitoring: generated write/read histories against an executable model of the dataset',
 note='Observed executions of the real code, compared record by record with a model; sampled histories, seeded; antennas 0..2046.'),
dict(id='M02', title='UV variables keep type and value, and are in force from the record they precede',
 statement='A variable of any supported type set while writing a dataset reads back (from the finished dataset, or from the one being written) with the value last set before each record, for scalars, arrays and text, '
  'and however many variables the dataset has. Reading a variable never disturbs the records, and a variable without a value or of an unknown name is reported as an error.',
 quantifier=(['inputs', 'histories'], 'all interleavings of variable updates (types a,i,j,r,d,c; scalar, array, text, any length and layout) with records'),
 why_tests_cant='The tests set a few scalar variables once; persistence across records, changing lengths, many variables and odd layouts are histories they do not reach.',
 anchors=(MF, [('typed access', 'aipy/_miriad/miriad_wrap.cpp uvputvr/uvgetvr wrappers'), ('variable table and hash', 'aipy/_miriad/mir/uvio.c uvputvr_c, uv_mkvar, uvscan_c'),
  ('vartable', 'aipy/miriad.py UV.__setitem__/__getitem__')], ['UV.__setitem__', 'UV.__getitem__', 'UV.vars']),
 technique='runtime monitoring: generated variable-update histories against a variable-in-force model',
 note='Exact comparison at every record of sampled histories; values are restricted to what each MIRIAD type can represent.'),
dict(id='M03', title='Header items and the history keep their values',
 statement='Header items of every type round-trip through closing and reopening a dataset, independently of one another and of the order of access, '
  'and items that were not touched stay as they were. Text appended to the history appears after what was there, in order, and nothing is lost.',
 quantifier=(['inputs', 'histories'], 'all sequences of item writes and history appends over sessions, item types, names and value lengths'),
 why_tests_cant='The tests write one or two items once; mixed types, sizes around the 64-byte header slot, overwriting, many sessions and non-ASCII text are not reached.',
 anchors=(['aipy/miriad.py', 'aipy/_miriad/mir/headio.c', 'aipy/_miriad/mir/hio.c'], [('item coding', 'aipy/miriad.py _wrhd/_rdhd'), ('small items in the header file', 'aipy/_miriad/mir/hio.c hdaccess_c/hclose_c'),
  ('item table', 'aipy/miriad.py itemtable')], ['UV.__setitem__', 'UV.__getitem__', 'UV.items']),
 technique='runtime monitoring: generated header/history sessions against a key-value model',
 note='Exact comparison after every session of sampled histories.'),
dict(id='M04', title='Cloning a dataset preserves everything that was not deliberately changed',
 statement='Copying a dataset by initialising from it and piping it (with or without a mapping function, overrides, exclusions, appended history or raw transfer) gives a '
  'dataset whose records, variables in force at each record and header items are those of the source, except for exactly what was overridden, excluded or returned by the mapping function; '
  'records mapped to nothing are dropped. The source is left untouched.',
 quantifier=(['inputs', 'histories', 'configurations'], 'all source datasets x cloning options x mapping functions, including selected or decimated sources and records of varying size'),
 why_tests_cant='The tests pipe one small dataset through one or two mapping functions; variables that appear late, change in skipped records or are edited are not reached.',
 anchors=(MF, [('cloning', 'aipy/miriad.py UV.init_from_uv/UV.pipe'), ('copying changed variables', 'aipy/_miriad/mir/uvio.c uvcopyvr_c'), ('marks', 'aipy/_miriad/mir/uvio.c uvtrack_c')],
  ['UV.init_from_uv', 'UV.pipe', 'UV.copyvr']),
 technique='runtime monitoring: generated clone pipelines against a dataset-to-dataset model',
 note='Exact comparison with the model applied to the source; sampled datasets, options and mapping functions.'),
dict(id='M05', title='Selection returns exactly the records it describes, in order',
 statement='After any sequence of selection calls (antennas, auto/cross, polarisation, time, uv range, decimation, visibility number, increments, pointing, sub-array, amplitude, inclusion and exclusion, alternatives), reading yields '
  'exactly the records of the dataset that satisfy it, in order and with the right variables. Clearing the selection restores all the records, and a selection that is refused changes nothing.',
 quantifier=(['inputs', 'programs'], 'all sequences of selection calls over all datasets'),
 why_tests_cant='The tests try single selections on one file; combinations, alternatives, exclusions and rewinding are programs of calls.',
 anchors=(MF, [('selection programs', 'aipy/_miriad/mir/uvio.c uvselect_c/uvread_select'), ('decimation', 'aipy/_miriad/miriad_wrap.cpp'), ('entry', 'aipy/miriad.py UV._select via UV.select')],
  ['UV.select', 'UV.read']),
 technique='runtime monitoring: generated selection programs against a reference filter',
 note='Exact comparison with an independent filter over the known record list; sampled programs.'),
dict(id='M06', title='Rewinding and parallel readers give the same records',
 statement='Rewinding a dataset at any point and reading it again yields the same records from the first one on, and several readers of the same dataset, interleaved in any order, each see the whole sequence. '
  'The different ways of iterating over a dataset agree.',
 quantifier=(['histories', 'schedules'], 'all interleavings of reads, rewinds and variable accesses of several readers of one dataset'),
 why_tests_cant='The tests read once, from one reader, and rewind at one point.',
 anchors=(MF, [('rewind', 'aipy/_miriad/mir/uvio.c uvrewind_c'), ('iteration', 'aipy/miriad.py UV.all')], ['UV.rewind', 'UV.read', 'UV.all']),
 technique='runtime monitoring: interleaved reader schedules, each trace checked against the record sequence',
 note='Sampled interleavings of up to several readers in one process.'),
dict(id='M07', title='Appending keeps what was there and adds the new records after it',
 statement='Opening a dataset for appending, any number of times, leaves all earlier records, variables in force and header items as they were and adds the newly written records after them. '
  'A session that writes nothing changes no record, and one that runs out of disk space raises an error and leaves a prefix of what was written, earlier records first.',
 quantifier=(['histories', 'inputs', 'fault_sequences'], 'all sequences of append sessions over datasets of any shape, a full disk at any byte, and flag words and buffers left part-filled by the session before'),
 why_tests_cant='The tests append once to one small file.',
 anchors=(MF + ['aipy/_miriad/mir/maskio.c', 'aipy/_miriad/mir/hio.c'], [('append', 'aipy/_miriad/mir/uvio.c uvopen_c (append)'), ('flag file tail', 'aipy/_miriad/mir/maskio.c mkopen_c')], ['UV(mode=append)', 'UV.write']),
 technique='runtime monitoring: conservation monitor over generated append histories',
 note='Exact comparison with the concatenation of the sessions; sampled histories; a full disk is a limit on file size (the part lost when the last buffer is written at closing cannot raise, and is judged as a prefix).'),
dict(id='M08', title='Open datasets do not affect each other, also when an operation fails',
 statement='Any number of datasets open at the same time for reading and writing give each the result it would have given alone. An operation that is refused (missing or existing path, wrong mode, unknown name, bad value, missing file in the dataset) '
  'raises an error, leaves every other open dataset usable and unchanged, and leaks no descriptor.',
 quantifier=(['schedules', 'histories', 'fault_sequences'], 'all interleavings of operations on several datasets, in one thread or in several, with failing operations at any point'),
 why_tests_cant='The tests open one dataset at a time and check one error; the native layer keeps global tables and error recovery, whose faults show only in interleavings.',
 anchors=(MF + ['aipy/_miriad/mir/hio.c', 'aipy/_miriad/mir/bug.c', 'aipy/_miriad/miriad_wrap.h'], [('error recovery', 'aipy/_miriad/miriad_wrap.h CHECK_IO/aipy/_miriad/mir/bug.c bugrecover_c'), ('global handle tables', 'aipy/_miriad/mir/hio.c, aipy/_miriad/mir/uvio.c')],
  ['UV', 'UV.read', 'UV.write']),
 technique='runtime monitoring: interleaved multi-dataset schedules (one thread, and several under forced switching) with injected failures, per-dataset oracle and descriptor accounting',
 note='Sampled schedules; failures injected at the API and file level; descriptors counted through /proc/self/fd.'),
dict(id='M09', title='Damaged datasets are reported or survived, truncated ones give a prefix',
 statement='Whatever the bytes of a dataset, opening and using it ends in data or a Python exception, within bounded time, never in a crash or a disturbance of other open datasets. '
  'A dataset cut short or with a missing file yields a prefix of its records, unaltered, or an error.',
 quantifier=(['inputs', 'fault_sequences'], 'all single-file damages (truncation at any byte, overwriting, bit flips, insertion, removal) of all datasets'),
 why_tests_cant='The tests read only intact files; damage has too many positions and forms to be sampled by hand.',
 anchors=(MF + ['aipy/_miriad/mir/hio.c', 'aipy/_miriad/mir/headio.c', 'aipy/_miriad/mir/dio.c', 'aipy/_miriad/mir/maskio.c'], [('stream scan', 'aipy/_miriad/mir/uvio.c uvscan_c/uv_scan'), ('header scan', 'aipy/_miriad/mir/hio.c hopen_c'), ('error recovery', 'aipy/_miriad/mir/bug.c')],
  ['UV', 'UV.read', 'UV.all']),
 technique='runtime monitoring: fault injection on dataset files, crash/hang/prefix oracles',
 note='Sampled damage; a dataset cut exactly between two records reads as ended there (MIRIAD semantics).'),
dict(id='M10', title='Baseline and polarisation codes are lossless',
 statement='The code of an antenna pair is the same for both orders, differs from that of every other pair, and decodes to the pair; pairs stored in a dataset come back as stored, with the same code. '
  'Polarisation names and codes correspond one to one and follow the AIPS convention.',
 quantifier=(['inputs'], 'all antenna pairs within 0..2046 and all polarisations'),
 why_tests_cant='The tests try a few pairs; the coding changes scheme at antenna 256, and pairs on both sides must not collide.',
 anchors=(['aipy/miriad.py', 'aipy/_miriad/miriad_wrap.h', 'aipy/_miriad/miriad_wrap.cpp'], [('python codes', 'aipy/miriad.py ij2bl/bl2ij'), ('native codes', 'aipy/_miriad/miriad_wrap.h GETI/GETJ/MKBL')], ['ij2bl', 'bl2ij', 'UV.write', 'UV.read']),
 technique='runtime monitoring: exhaustive sweep of antenna pairs plus stored-pair round trips',
 note='All 2.1 million pairs are observed each run; stored pairs are sampled.'),
dict(id='M11', title='Grouped reading conserves the selected visibilities',
 statement='Reading a list of datasets grouped by baseline and polarisation returns every record that matches the selection exactly once, under its own baseline and polarisation and in file and time order, with the times of the integrations, and nothing else. '
  'Flags and data are those stored, and asking for decimation or a verbose report does not change what matches.',
 quantifier=(['inputs', 'configurations'], 'all lists of datasets x antenna and polarisation selections x decimation'),
 why_tests_cant='The tests read one file with one or two selections.',
 anchors=(['aipy/miriad.py', 'aipy/scripting.py'], [('grouping', 'aipy/miriad.py read_files'), ('selection strings', 'aipy/scripting.py uv_selector')], ['miriad.read_files', 'scripting.uv_selector']),
 technique='runtime monitoring: conservation and ordering monitor over grouped reads',
 note='Exact comparison with the model grouping of the known records; sampled datasets and selections.'),
]
