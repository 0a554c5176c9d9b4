PROPS = [
dict(id='T01', title='Calibration, selection, averaging and simulation scripts write their transform',
 statement='Each output record of the selection, averaging, addition, bandpass, calibration, phasing, flux calibration and simulation scripts holds exactly the documented transform of the input record of the same time, baseline and polarization, with all other variables, flags and items as they were. '
  'Inputs and outputs that exist already are left untouched, options change only what they name, and the history tells what was done.',
 quantifier=(['inputs', 'configurations'], 'all observations (antennas, channels, polarizations, flags, changing variables), calibration modules, sources and combinations of options'),
 why_tests_cant='No test runs any script; results depend on the options, the order of records and what the array and sky are at each record.',
 anchors=(['scripts/pull_ants.py', 'scripts/pull_pol.py', 'scripts/combine_freqs.py', 'scripts/uv_addsub.py', 'scripts/apply_bp.py', 'scripts/apply_cal.py', 'scripts/phs2src.py', 'scripts/flux_cal.py', 'scripts/mdlvis.py'],
  [('selection', 'scripts/pull_ants.py, scripts/pull_pol.py'), ('averaging', 'scripts/combine_freqs.py'), ('calibration', 'scripts/apply_bp.py, apply_cal.py, phs2src.py, flux_cal.py'), ('simulation', 'scripts/mdlvis.py')],
  ['output datasets of the scripts']),
 technique='runtime monitoring: the scripts run on generated observations; every output record is compared with the transform computed from the input record',
 note='Averaging ties may go either way. The transform of a record is computed with the library, which other properties judge. Sampled inputs.'),
dict(id='T02', title='Flagging, crosstalk and filter scripts remove what they say and nothing else',
 statement='Flagging scripts flag every sample their options and thresholds call interference and never unflag or alter a value; flags are shared among baselines and polarizations as asked. '
  'Crosstalk removal subtracts the time average (or the recorded model) of each baseline, its gains follow their normalization, and delay and fringe-rate filters split the data into a part removed and a part kept that add up to the input; outputs that exist are left alone.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all observations with interference, crosstalk and flags, combinations of options, and sequences of the steps of a recipe'),
 why_tests_cant='No test runs any script; flags depend on statistics over all baselines and times, and crosstalk removal spans several runs that communicate through files.',
 anchors=(['scripts/xrfi.py', 'scripts/xrfi_simple.py', 'scripts/xtalk3.py', 'scripts/filter_src.py', 'aipy/rfi.py'],
  [('flagging', 'scripts/xrfi.py, scripts/xrfi_simple.py'), ('crosstalk', 'scripts/xtalk3.py'), ('filters', 'scripts/filter_src.py')], ['output datasets and .npz files of the scripts']),
 technique='runtime monitoring: the scripts run on generated observations; flags and removed parts are recomputed from the input, conservation monitored across runs',
 note='Values near a threshold are not judged. xrfi_simple with a subset of baselines and filter_src with a subset of polarizations are left out. Sampled inputs.'),
dict(id='T03', title='Listing, archiving and map scripts do what their options describe',
 statement='Source listing prints exactly the sources that satisfy every selection with their parameters; keyword and time listings print the values the library gives for each file and time. '
  'Archiving never loses a byte: datasets are deleted only after being archived, failed or existing archives leave everything as it was, only the named files are touched whatever their names, and expanding restores them. '
  'Maps keep their values under scaling, averaging degradation, retyping and rotation between coordinate systems and epochs, and added sources put their scaled flux where the source is.',
 quantifier=(['inputs', 'configurations', 'fault_sequences'], 'all catalogs, selections, dataset names and contents, archive failures, maps, coordinate systems and epochs'),
 why_tests_cant='No test runs any script; selections compose, failures happen at any file, and names and positions are unbounded.',
 anchors=(['scripts/srclist.py', 'scripts/uvlist.py', 'scripts/lst', 'scripts/compress_uv.py', 'scripts/modmap.py'],
  [('listing', 'scripts/srclist.py, scripts/uvlist.py, scripts/lst'), ('archives', 'scripts/compress_uv.py'), ('maps', 'scripts/modmap.py')], ['standard output, files and maps the scripts leave']),
 technique='runtime monitoring: the scripts run on generated catalogs, files and maps with injected archive failures; selections, positions and averages are computed independently',
 note='Moving sources on maps, and archive names with a colon or backslash (which tar interprets) are left out. Sampled inputs.'),
dict(id='T04', title='Imaging, deconvolution, mapping and fitting scripts put the sky where it is',
 statement='Each image and beam made from data holds exactly the samples its selections, weights, phase center, snapshot and files ask for, no more and no fewer, however they are buffered, under coordinates at which a source in the data peaks. '
  'Deconvolved components convolved with the (reweighted) beam plus the residual give the image back, restoring does not displace them, and a map of images holds every pixel where its header puts it with its weight, on top of what the map held. '
  'Model fitting finds the parameters with which noiseless data were made, for one process or a master with daemons, for all data, each integration or shared parameters.',
 quantifier=(['inputs', 'configurations', 'histories'], 'all observations, arrays, sources, pointings and image sizes, combinations of options, sequences of files and snapshots, and sets of daemons'),
 why_tests_cant='No test runs any script; what an image holds depends on the order of files, integrations and pointings, and places in the sky on epochs, wrap and pixel conventions across three scripts.',
 anchors=(['scripts/mk_img.py', 'scripts/cl_img.py', 'scripts/mk_map.py', 'scripts/fitmdl.py', 'aipy/img.py', 'aipy/deconv.py', 'aipy/fit.py'],
  [('imaging', 'scripts/mk_img.py'), ('deconvolution', 'scripts/cl_img.py'), ('mapping', 'scripts/mk_map.py'), ('fitting', 'scripts/fitmdl.py')], ['FITS images, maps and printed parameters of the scripts']),
 technique='runtime monitoring: the scripts run alone and in a chain on generated observations, images and sky models; images, maps, places and parameters are recomputed from what was generated',
 note='Deconvolution by maximum entropy or annealing is left out here (N04 judges the routines). Sources between sidelobes as strong as half the beam are not looked for. Sampled inputs.'),
dict(id='T05', title='Plotting scripts draw the data that their options select',
 statement='A waterfall or curve of visibilities shows exactly the samples of the baselines, polarizations, channels and integrations selected, in order, transformed, differenced, phased and scaled as asked, with titles, axes and extents that say where each sample belongs. '
  'An image is drawn in the plane asked for with right ascension and declination in order; a map shows every direction of the sky at its place in the coordinates, epoch and center asked for, and source labels stand where the map shows the source. '
  'Figures are saved under the names asked for, and batch mode leaves figures that exist alone.',
 quantifier=(['inputs', 'configurations'], 'all observations, images, maps, catalogs and combinations of options'),
 why_tests_cant='No test runs any script, and what is drawn depends on combinations of selections, transforms, axes and coordinate systems.',
 anchors=(['scripts/plot_uv.py', 'scripts/plot_img.py', 'scripts/plot_map.py', 'aipy/scripting.py', 'aipy/dsp.py'],
  [('waterfalls', 'scripts/plot_uv.py'), ('images', 'scripts/plot_img.py'), ('maps', 'scripts/plot_map.py')], ['what the scripts hand to matplotlib when a figure is saved or shown']),
 technique='runtime monitoring: matplotlib is hooked so that figures are recorded when saved or shown; what is drawn is recomputed from the generated data, images and maps',
 note='Maps in the cylindrical projection only (basemap is not installed); deconvolved delays and interaction by mouse and keyboard are not judged. Sampled inputs.'),
]
