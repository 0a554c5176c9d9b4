PROPS = [
dict(id='K01', title='Source catalogs give the published sources and exactly those asked for',
 statement='Every catalog returns the sources of its table at the published positions with the published fluxes and spectra; asked by name, by flux cutoff or whole, it returns exactly those that match, from any combination of catalogs, in any sequence of queries. '
  'A query never changes what later queries return, and catalogs whose data are unavailable or unknown are refused, every time.',
 quantifier=(['inputs', 'histories'], 'all bundled and generated catalog tables, names, cutoffs, frequencies and sequences of queries'),
 why_tests_cant='The tests look at single entries of two catalogs; cutoffs, shared state between queries and table parsing depend on the whole table and history.',
 anchors=(['aipy/src.py', 'aipy/_src/helm.py', 'aipy/_src/paper.py', 'aipy/_src/three_cr.py', 'aipy/_src/culgoora.py', 'aipy/phs.py'], [('dispatch', 'aipy/src.py get_catalog'), ('tables', 'aipy/_src/*.py'), ('catalogs', 'aipy/phs.py SrcCatalog')], ['aipy.src.get_catalog', 'aipy._src.*.get_srcs']),
 technique='runtime monitoring: independent reading of the tables as oracle, monitors over random query histories',
 note='Tables that are not bundled are generated in the published format. Sampled histories.'),
dict(id='X01', title='Command-line selections and calibration modules mean what is documented',
 statement='Selections of antennas, polarizations, channels, sources and fit parameters written on the command line select exactly what their documentation says, also when applied to a file, and malformed ones are refused. '
  'Calibration modules give the array, catalog and parameters they define, with documented fallbacks for what they omit.',
 quantifier=(['inputs', 'configurations'], 'all selection strings of the documented grammar, arrays and calibration modules'),
 why_tests_cant='The tests parse a fixed list of strings; the grammar composes (groups, signs, polarizations, ranges) without bound.',
 anchors=(['aipy/scripting.py', 'aipy/cal.py', 'aipy/miriad.py'], [('parsing', 'aipy/scripting.py parse_ants, parse_chans, parse_srcs, parse_prms'), ('data sets', 'aipy/scripting.py uv_selector'), ('calibration', 'aipy/cal.py')], ['aipy.scripting', 'aipy.cal']),
 technique='runtime monitoring: selections generated as trees whose meaning is the oracle; records seen after selection',
 note='Exclusions that name polarizations are not applied to data sets (Miriad cannot express them). Sampled inputs.'),
dict(id='R01', title='Numerical helpers keep their definitions',
 statement='Windows, oversampled filters, spike removal, interference thresholds and flags, 2D Gaussians, parallactic angles, baseline codes and unit constants equal their definitions for every argument, leave their arguments unchanged and refuse what they cannot do. '
  'Masked samples never influence a result, and flags depend on amplitudes alone.',
 quantifier=(['inputs'], 'all lengths, window types, data sizes, masks, outlier patterns, positions and codes'),
 why_tests_cant='The tests sample a handful of lengths and have no masked, short or degenerate data.',
 anchors=(['aipy/dsp.py', 'aipy/rfi.py', 'aipy/twodgauss.py', 'aipy/pol.py', 'aipy/const.py', 'aipy/interp.py'], [('windows', 'aipy/dsp.py gen_window'), ('interference', 'aipy/rfi.py'), ('Gaussians', 'aipy/twodgauss.py')], ['aipy.dsp', 'aipy.rfi', 'aipy.twodgauss', 'aipy.pol', 'aipy.const', 'aipy.interp']),
 technique='runtime monitoring: definitions (scipy windows, explicit sums, planted outliers, spherical geometry) as oracle',
 note='Statistical thresholds are judged with margins. The finding moment-widths is open. Sampled inputs.'),
]
