PROPS = [
dict(id='N01', title='Scatter-add adds every datum exactly once, in place and in bounds',
 statement='Adding data at a list of indices leaves each cell with its former value plus every datum indexed to it, repeated and negative indices included, for every numeric type, rank and memory layout. '
  'Index, data and all memory outside the array stay unchanged; misfit or read-only arguments and out-of-range indices raise an error.',
 quantifier=(['inputs'], 'all arrays (17 types, any rank and strides) x index lists x data, valid and invalid'),
 why_tests_cant='The tests add to small contiguous arrays; strides, types, repeated indices and bounds multiply beyond examples.',
 anchors=(['aipy/utils/utils.cpp'], [('loops', 'aipy/utils/utils.cpp AddStuff'), ('argument checks', 'aipy/utils/utils.cpp add2array')], ['aipy.utils.add2array']),
 technique='runtime monitoring: exact differential oracle (unbuffered numpy addition) with guard memory around strided views',
 note='Bit-exact comparison; sampled arrays. An invalid index may leave the data before it added.'),
dict(id='N02', title='Gridding and degridding apply the documented kernel on a periodic grid',
 statement='Gridding adds each datum, weighted by a unit Gaussian around its fractional position, to exactly the cells within the footprint of a periodic grid, square or not; degridding returns the mean of those cells under the same weights. '
  'Inputs and other memory stay unchanged; arrays or positions that cannot be gridded raise an error in bounded time.',
 quantifier=(['inputs'], 'all buffers (1-d, 2-d of any shape) x positions (inside, outside, fractional) x data x footprints'),
 why_tests_cant='The tests grid one point onto one square buffer.',
 anchors=(['aipy/_dsp/grid/grid.c', 'aipy/_dsp/dsp.c'], [('gridding loops', 'aipy/_dsp/grid/grid.c'), ('argument checks', 'aipy/_dsp/dsp.c')], ['aipy.dsp.grid1D_c', 'aipy.dsp.grid2D_c', 'aipy.dsp.degrid2D_c']),
 technique='runtime monitoring: differential oracle (direct double-precision sums) with guard memory, and symmetry relations',
 note='Tolerance is the rounding of single precision; sampled inputs.'),
dict(id='N03', title='CLEAN conserves the image and reports truthfully',
 statement='The returned model and residual satisfy residual = image - kernel (*) model; components are put only inside the area and, if asked, only positive; the residual never ends larger than it began unless divergence was allowed; '
  'score, iterations and termination describe what happened; the inputs are unchanged; arrays that do not fit together are refused. Each step removes the given fraction of the strongest residual, for 1-d and 2-d, real and complex data alike.',
 quantifier=(['inputs', 'configurations'], 'all images, kernels, starting models and areas x gain, tolerance, iteration limit, divergence and positivity options'),
 why_tests_cant='The tests clean one image with default options and check it did not fail; the four compiled variants and their options are never compared.',
 anchors=(['aipy/deconv.py', 'aipy/_deconv/deconv.cpp'], [('front end', 'aipy/deconv.py clean'), ('loops', 'aipy/_deconv/deconv.cpp Clean')], ['aipy.deconv.clean']),
 technique='runtime monitoring: conservation and rule monitors plus an independent implementation as differential oracle',
 note='Cases in which rounding could turn a decision are checked against the rules but not against the reference. Sampled inputs.'),
dict(id='N04', title='The other deconvolvers keep bounds and return the residual of their model',
 statement='Least-squares, maximum-entropy and annealing deconvolution return a model within the given bounds, the residual of that model, and a truthful score and termination; they change none of their inputs. '
  'They follow their documented steps, annealing never worsens the fit, the variance search returns a converged fit, and re-centring is an invertible cyclic shift.',
 quantifier=(['inputs', 'configurations'], 'all images, kernels and starting models x options of each algorithm'),
 why_tests_cant='The tests run each algorithm once on one image without checking the numbers.',
 anchors=(['aipy/deconv.py', 'aipy/img.py'], [('algorithms', 'aipy/deconv.py lsq/maxent/maxent_findvar/anneal'), ('re-centring', 'aipy/deconv.py, aipy/img.py recenter')], ['aipy.deconv.lsq', 'aipy.deconv.maxent', 'aipy.deconv.maxent_findvar', 'aipy.deconv.anneal', 'aipy.img.recenter']),
 technique='runtime monitoring: invariant monitors plus independent implementations as differential oracles',
 note='Sampled inputs; runs in which rounding decides are checked against the invariants only.'),
]
