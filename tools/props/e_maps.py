PROPS = [
dict(id='H01', title='HEALPix maps hold per direction what was written, in either ordering',
 statement='Pixel numbers and directions convert by the published HEALPix pixelisation in both orderings, and interpolation is its weighted mean of neighbours. '
  'After any sequence of writes (pixel, angles or vectors, repeated cells included), reads, reorderings, resolution changes and map-to-map copies, every direction holds what that history put there and the total is as documented.',
 quantifier=(['inputs', 'histories'], 'all resolutions, orderings, dtypes and directions x histories of operations on maps'),
 why_tests_cant='The tests convert a dozen fixed pixels of one resolution; reordering, conversion and repeated writes follow histories they do not have.',
 anchors=(['aipy/healpix.py'], [('pixelisation', 'aipy/healpix.py HealpixBase.px2crd, crd2px'), ('maps', 'aipy/healpix.py HealpixMap')], ['aipy.healpix.HealpixBase', 'aipy.healpix.HealpixMap']),
 technique='runtime monitoring: independent HEALPix pixelisation as oracle, and a model map indexed by direction through random histories',
 note='Resolutions to 64 per side (2048 for conversions where cheap). Degrading adds pixels up, as implemented. Directions on pixel edges are skipped.'),
dict(id='H02', title='Spherical-harmonic coefficients, maps and beams made of them agree',
 statement='Coefficients are stored and read by (l,m), and refused outside their range; a map made from them is the direct sum of spherical harmonics at pixel centers (smoothed by the asked beam), and analysing a band-limited map gives its coefficients back. '
  'A beam built of such coefficients and frequency polynomials responds accordingly in every direction and channel.',
 quantifier=(['inputs'], 'all degrees, orders (mmax < lmax included), dtypes, resolutions, coefficients and beams'),
 why_tests_cant='The tests synthesise one coefficient and compare a few pixels; index arithmetic and smoothing depend on every (l,m).',
 anchors=(['aipy/healpix.py', 'aipy/amp.py'], [('coefficients', 'aipy/healpix.py Alm'), ('beam', 'aipy/amp.py BeamAlm')], ['aipy.healpix.Alm', 'aipy.amp.BeamAlm', 'aipy.healpix.HealpixMap.to_alm/from_alm']),
 technique='runtime monitoring: direct sums of spherical harmonics (scipy) as oracle, round-trip monitors',
 note='Analysis is compared to the quadrature error of the iterations. Degrees to 20. Sampled inputs.'),
dict(id='H03', title='Weighted sky maps accumulate and average correctly',
 statement='After any sequence of adds, puts, reads, reorderings, weight resets, added indices and copies, a weighted map returns for every direction the weighted mean of what was added (flux and spectral indices) and the total weight, whatever addresses were used and whether cells repeat. '
  'Facet centers are unit vectors spread evenly over the sphere.',
 quantifier=(['inputs', 'histories'], 'all resolutions, orderings, numbers of indices and directions x histories of operations'),
 why_tests_cant='No test covers weighted maps beyond construction; flux and weights drift apart only after histories.',
 anchors=(['aipy/map.py'], [('weighted map', 'aipy/map.py Map'), ('facets', 'aipy/map.py facet_centers, pack_sphere')], ['aipy.map.Map', 'aipy.map.pack_sphere', 'aipy.map.facet_centers']),
 technique='runtime monitoring: a model of weights and weighted sums by direction through random histories',
 note='Sampled histories; resolutions to 16.'),
dict(id='H04', title='Maps and images written to FITS are read back the same',
 statement='A sky map, weighted map or image written to a FITS file and read back through aipy keeps every pixel, weight, index, ordering, dtype and axis description; the file says in its header what FITS and HEALPix conventions require. '
  'Existing files are refused unless overwriting is asked for, and columns of other programs read as what they are.',
 quantifier=(['inputs', 'configurations'], 'all resolutions, orderings, dtypes, shapes, axis descriptions, histories and special values; foreign files'),
 why_tests_cant='The tests write no FITS file.',
 anchors=(['aipy/healpix.py', 'aipy/map.py', 'aipy/img.py'], [('maps', 'aipy/healpix.py from_fits/to_fits'), ('weighted maps', 'aipy/map.py from_fits/to_fits'), ('images', 'aipy/img.py to_fits/from_fits')], ['aipy.healpix.HealpixMap', 'aipy.map.Map', 'aipy.img.to_fits', 'aipy.img.from_fits']),
 technique='runtime monitoring: write-read round trips, files inspected and made independently with astropy',
 note='Sampled inputs.'),
dict(id='I01', title='Gridding puts every visibility, with its weight, in the right cells',
 statement='Gridding adds to each plane (data and each beam order) exactly the kernel-weighted sum of data at the cells around each (u,v), wrapping at the edges, whether data come in one call or many, and never changes its arguments; data completed by symmetry are the Hermitian conjugates. '
  'Sampling a plane gives the kernel-weighted mean of its cells.',
 quantifier=(['inputs', 'histories'], 'all image sizes, resolutions, beam orders, positions (repeated, on edges, wrapping), data and weights x calls'),
 why_tests_cant='The tests grid a few integer positions; weights, repeats, edges, beam orders and arguments are not covered.',
 anchors=(['aipy/img.py', 'aipy/utils/utils.cpp'], [('gridding', 'aipy/img.py Img.put'), ('symmetry', 'Img.append_hermitian'), ('sampling', 'Img.get')], ['aipy.img.Img.put', 'aipy.img.Img.append_hermitian', 'aipy.img.Img.get']),
 technique='runtime monitoring: a double-precision sum over data with the published kernel as oracle',
 note='The finding get-transposed is open: reading at (u,v) uses another cell than gridding at (u,v). Sampled inputs.'),
dict(id='I02', title='Images are the Fourier transforms of their planes, at the coordinates they claim',
 statement='Each pixel of an image holds the Fourier sum of the gridded plane for the direction cosines that the same image reports for that pixel, for any center; beam images likewise, and equatorial directions are the rotated ones. '
  'With W projection, gridding and reading follow the measurement equation including w, and never use stale planes.',
 quantifier=(['inputs', 'histories'], 'all image sizes, resolutions, centers, w ranges, sources and calls'),
 why_tests_cant='The tests check the image of a plane of ones and some coordinates; sign, offset and w-dependence need every pixel.',
 anchors=(['aipy/img.py'], [('geometry', 'Img.get_LM, get_top, get_eq'), ('images', 'Img.image, bm_image'), ('W projection', 'ImgW.put, get')], ['aipy.img.Img', 'aipy.img.ImgW']),
 technique='runtime monitoring: direct Fourier sums and the measurement equation as oracles',
 note='Sizes to 40 cells. Sampled inputs.'),
]
