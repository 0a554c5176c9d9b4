PROPS = [
dict(id='S01', title='Using Miriad datasets is memory-safe, whatever the calls and arguments',
 statement='No sequence of operations on Miriad datasets, valid or refused, on intact or damaged files, reads or writes outside live memory, uses uninitialised memory, or has undefined behaviour. '
  'Nothing uninitialised reaches a file, and memory taken by operations is given back.',
 quantifier=(['inputs', 'histories', 'fault_sequences'], 'all sequences of dataset operations with any arguments, on intact and damaged datasets'),
 why_tests_cant='A test sees values, not accesses: an overrun or a use of uninitialised memory mostly leaves the tested value right.',
 anchors=(['aipy/_miriad/miriad_wrap.cpp', 'aipy/_miriad/mir/uvio.c', 'aipy/_miriad/mir/hio.c', 'aipy/_miriad/mir/dio.c', 'aipy/_miriad/mir/maskio.c', 'aipy/_miriad/mir/headio.c'],
  [('python binding', 'aipy/_miriad/miriad_wrap.cpp'), ('streams, buffers and handles', 'aipy/_miriad/mir/uvio.c'), ('items', 'aipy/_miriad/mir/hio.c')], ['aipy.miriad.UV']),
 technique='runtime monitoring: AddressSanitizer+UBSan and valgrind memcheck over generated workloads and argument fuzzing, with leak accounting',
 note='Sampled executions; alignment and vptr checks of UBSan are off (type tags are read out of byte buffers by design).'),
dict(id='S02', title='The compiled numeric kernels are memory-safe and leak nothing',
 statement='No call of scatter-add, gridding, degridding or CLEAN, whatever its arguments, reads or writes outside the arrays it is given, uses uninitialised memory, has undefined behaviour, or fails to return. '
  'A call that ends, accepted or refused, keeps no memory and no reference.',
 quantifier=(['inputs'], 'all calls of the compiled numeric functions with any objects and arrays as arguments'),
 why_tests_cant='A test sees values, not accesses, and passes only well-formed arrays.',
 anchors=(['aipy/utils/utils.cpp', 'aipy/_dsp/dsp.c', 'aipy/_dsp/grid/grid.c', 'aipy/_deconv/deconv.cpp'], [('scatter-add', 'aipy/utils/utils.cpp'), ('gridding', 'aipy/_dsp/grid/grid.c'), ('CLEAN', 'aipy/_deconv/deconv.cpp')],
  ['aipy.utils.add2array', 'aipy.dsp.grid2D_c', 'aipy.deconv.clean']),
 technique='runtime monitoring: AddressSanitizer+UBSan and valgrind memcheck over generated workloads and argument fuzzing, with memory and reference accounting',
 note='Sampled calls; alignment and vptr checks of UBSan are off.'),
]
