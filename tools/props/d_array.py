PROPS = [
dict(id='C01', title='Coordinate conversions are exact rotations, mutually inverse and mask-keeping',
 statement='Conversions between unit vectors and angles (theta/phi, ra/dec, az/alt, lat/long) follow their definitions, give angles in range, are mutually inverse, and act on arrays element by element; masked entries stay masked and valid ones stay valid. '
  'Rotation, horizon and sky-system conversions (with precession) are proper rotations with the documented handedness, agree with their matrix form and invert exactly.',
 quantifier=(['inputs'], 'all directions (poles and axes included), angles, array shapes and masks; all pairs of sky systems and epochs'),
 why_tests_cant='The tests convert a few axis-aligned vectors, plain arrays only; handedness, branches, degenerate directions and masks need every direction.',
 anchors=(['aipy/coord.py'], [('angle conversions', 'aipy/coord.py xyz2thphi..azalt2top'), ('rotations', 'aipy/coord.py rot_m, eq2top_m'), ('systems', 'aipy/coord.py convert, convert_m')], ['aipy.coord functions']),
 technique='runtime monitoring: oracles from first-principle geometry (definitions, Rodrigues rotation, IAU precession), inverse and mask monitors',
 note='Sky systems are compared with an independent model to 2e-5 rad, all else to rounding. Sampled directions.'),
dict(id='P01', title='An array turns with the Earth: times, baselines and uvw stay consistent',
 statement='After any history of setting times, selecting channels, moving antennas and changing the place, the time reads back, sidereal time is right, and baselines and uvw in every projection (unrotated, current equatorial, zenith, source, directions) are those of the present geometry, reversing, closing and keeping length. '
  'Sources move with the sky; projection towards one below the horizon raises an error; baseline lists cover each pair once.',
 quantifier=(['inputs', 'histories'], 'all places, antenna layouts, times, sources and directions x histories of changes'),
 why_tests_cant='The tests check a unit array on the equator at one sidereal time; stale state shows only after particular sequences.',
 anchors=(['aipy/phs.py'], [('times', 'aipy/phs.py ArrayLocation'), ('projections', 'aipy/phs.py AntennaArray.get_baseline/gen_uvw'), ('sources', 'aipy/phs.py RadioBody')], ['aipy.phs.AntennaArray', 'aipy.phs.RadioFixedBody', 'aipy.phs.RadioSpecial']),
 technique='runtime monitoring: a model of the state through random histories, with geometry recomputed from first principles as oracle',
 note='Fixed sources are compared with J2000 precession to 4e-4 rad (no aberration or nutation in the reference). Sampled histories.'),
dict(id='P02', title='Phasing multiplies data by the exact fringe and can be undone',
 statement='Phasing to the zenith, a source or many directions multiplies data by exp(-2 pi i (w + offset + refraction)), times the disc response if resolution is asked for: unit modulus otherwise, conjugate for the reversed baseline, closing around triangles, and the same for a direction alone or among many. '
  'Unphasing restores the data, masks are kept, and no argument is changed.',
 quantifier=(['inputs', 'configurations'], 'all arrays, antenna offsets, channel subsets, targets, refraction and source shapes x data, masked or not'),
 why_tests_cant='The tests phase one source with integer baselines; array arguments, single channels, refraction, resolution and offsets are not covered.',
 anchors=(['aipy/phs.py'], [('fringe', 'aipy/phs.py AntennaArray.gen_phs'), ('refraction', 'aipy/phs.py refract'), ('resolution', 'aipy/phs.py resolve_src')], ['aipy.phs.AntennaArray.gen_phs', 'phs2src', 'unphs2src']),
 technique='runtime monitoring: independent fringe as oracle (quadrature for discs), inverse, conjugation and closure monitors',
 note='Sampled inputs; discs resolved to at most x = 20.'),
dict(id='P03', title='Simulated visibilities equal the direct sum over the visible sky',
 statement='A simulated visibility is the sum over sources above the horizon of gains, beams of the two polarizations in the pointed frames, power-law flux and fringe, for the current time, channels and polarization; it is additive over sources and conjugate for the reversed baseline. '
  'Simulating without caching the sky of the present time raises an error rather than using an earlier one.',
 quantifier=(['inputs', 'histories', 'configurations'], 'all arrays (beam models, pass-bands, pointings, polarizations) and skies x histories of times, selections and caching'),
 why_tests_cant='The tests check beams and pass-bands alone and never simulate; caching makes results depend on history.',
 anchors=(['aipy/amp.py', 'aipy/pol.py'], [('simulation', 'aipy/amp.py AntennaArray.sim/sim_cache'), ('beams', 'aipy/amp.py Beam*'), ('polarized arrays', 'aipy/pol.py')], ['aipy.amp.AntennaArray.sim', 'aipy.amp.Antenna.bm_response']),
 technique='runtime monitoring: independent direct sum as oracle through random histories of the simulator',
 note='Linear polarizations; the orientation of beams is specified as implemented. Sampled inputs.'),
dict(id='F01', title='Fit parameters read back as set, and act only on what they name',
 statement='After any sequence of setting parameters of antennas, beams and sources, reading gives exactly what was set last, selections give exactly what they name, and phases, gains, beams and fluxes derive from the present values. '
  'No other antenna or source changes, setting what was read changes nothing, and altering what was passed or returned has no effect.',
 quantifier=(['inputs', 'histories'], 'all arrays and catalogues (plain and polarized, every beam model) x histories of set, read and altered dictionaries'),
 why_tests_cant='No test sets or reads a parameter.',
 anchors=(['aipy/fit.py', 'aipy/pol.py', 'aipy/amp.py'], [('parameters', 'aipy/fit.py get_params/set_params'), ('polarized', 'aipy/pol.py Antenna')], ['aipy.fit.AntennaArray', 'aipy.fit.SrcCatalog', 'aipy.pol.AntennaArray']),
 technique='runtime monitoring: a model of every parameter through random histories, with tampering to expose links',
 note='Sampled histories. Delay and whole phase polynomial are not set in one call.'),
dict(id='F02', title='Flattening and reconstructing parameters are exact inverses',
 statement='Any hierarchy of parameters flattened for a fitter is reconstructed exactly, with numbers as numbers and lists as lists whatever their length; every number of the list is used once, and changing one changes one parameter. '
  'A read-flatten-change-reconstruct-set step sets every parameter of an array and catalogue.',
 quantifier=(['inputs'], 'all nested dictionaries of numbers and sequences (empty and single included) x vectors'),
 why_tests_cant='No test covers it.',
 anchors=(['aipy/fit.py'], [('conversions', 'aipy/fit.py flatten_prms/reconstruct_prms')], ['aipy.fit.flatten_prms', 'aipy.fit.reconstruct_prms']),
 technique='runtime monitoring: round-trip and exactly-once monitors over random hierarchies and fit steps',
 note='Sampled hierarchies.'),
]
