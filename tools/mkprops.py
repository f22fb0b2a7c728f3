"""Writes /verif/properties.jsonl (kept as a script because JSON lines are painful to edit)."""
import json, pathlib
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


ST, SP, FA, FL, GR, HE, CG, XO = (f'vspec_vsm/{n}.py' for n in (
    'star', 'spots', 'faculae', 'flares', 'granules', 'helpers', 'coordinate_grid', 'xoflares'))

prop('C01', 'Reported disk coverage is conserved',
     'For every star, viewpoint, granulation fraction in [0,1] and planet position, the disk fractions reported per temperature are finite, non-negative and add up to 1, and the occulted part of each lies between 0 and that fraction. '
     'A granulation fraction g moves exactly the share g of the quiet photosphere (in the total and in the occulted part alike) to the photosphere temperature minus the granulation contrast and changes no other temperature. '
     'The photosphere and the granulation temperature are always among the keys (two decimals and unit), and temperatures that print alike are added together.',
     ['inputs', 'configurations', 'histories'],
     'all stars (any temperature, radius, grid kind and size, limb darkening with non-negative intensity, any spots and faculae, possibly covering everything), all viewpoints, granulation fractions, planets',
     'the tests look at one spotless 3000 K star from (0,0) with no granulation',
     [ST], [('per-temperature sums normalised by the disk total', f'{ST}: Star.calc_coverage'), ('granulation split', f'{ST}: Star.calc_coverage')],
     ['Star.calc_coverage return values'])

prop('C02', 'Coverage is the limb-darkened, foreshortened share of the visible surface',
     'The fraction reported for a temperature equals the share of (surface area) x max(mu,0) x (1 - u1(1-mu) - u2(1-mu)^2) carried by the surface elements that the surface map (with faculae, for that viewpoint) gives that temperature, where mu is the cosine of the angle from disk center; the occulted fraction is the same sum weighted by the transit mask. '
     'Elements on the far side contribute nothing, and the two limb-darkening masks are exactly these polynomials (with u1+1 in place of u1 for the one that includes foreshortening) and zero behind the star. '
     'The average effective temperature is the fourth-power mean of the reported coverage.',
     ['inputs', 'configurations'],
     'all stars, grids, limb-darkening coefficients, spot and facula populations and viewpoints, including poles and longitudes outside [0,360)',
     'the tests only see a star of one temperature, for which every weighting gives 1.0',
     [ST, CG], [('mu', f'{CG}: CoordinateGrid.cos_angle_from_disk_center'), ('limb darkening', f'{ST}: Star.ld_mask_for_plotting, Star.ld_mask'), ('projection', f'{ST}: Star.area_projection_coefficient'), ('average', f'{ST}: Star.average_teff')],
     ['Star.calc_coverage', 'Star.ld_mask', 'Star.ld_mask_for_plotting', 'Star.get_mu', 'Star.average_teff'])

prop('C03', 'Spots paint spherical caps, and the coolest temperature wins',
     'On the surface map every element has the coolest of the quiet photosphere and the spots that cover it, whatever order the spots were added in: umbra temperature within the umbra radius of a spot center, penumbra temperature within the spot radius (umbra not hotter than penumbra), photosphere elsewhere. '
     'A spot of area A on a star of radius R is the cap with 1-cos(radius) = A/(2 pi R^2), its umbra radius is that divided by the square root of the total-to-umbra area ratio, and its linear radius is sqrt(A/pi). '
     'The spot coverage reported for a collection is the area share of the elements covered by any spot.',
     ['inputs', 'configurations'],
     'all spot populations (overlapping, polar, straddling longitude 0, hotter than the star, tiny, hemisphere-sized), all grids and stellar radii',
     'the tests use one spot at (0,0), or two concentric ones, and compare whole-map flags',
     [SP], [('distance to center', f'{SP}: StarSpot.set_gridmaker'), ('cap radius', f'{SP}: StarSpot.angular_radius'), ('coolest wins', f'{SP}: SpotCollection.map_pixels'), ('coverage', f'{SP}: SpotCollection.get_coverage')],
     ['Star.map', 'SpotCollection.map_pixels', 'SpotCollection.get_coverage', 'StarSpot.map_pixels', 'StarSpot.angular_radius', 'StarSpot.radius'],
     [('r', 'angular distance of every element from the spot center', f'{SP}: StarSpot')])

prop('C04', 'Faculae show a hot wall toward the limb and a cool floor toward the center',
     'For any viewpoint, an element within a facula\'s angular radius (radius/R) of its center shows that facula\'s wall or floor temperature (star temperature plus the contrast rounded to whole kelvin, limited to 2300-3900 K), the last-listed facula winning and all faculae drawn over spots; every other element keeps its spot-map temperature. '
     'Within one facula the wall elements are those closest to the limb (smallest mu), and their number is the wall\'s fractional effective area at the facula\'s viewing angle times the number of elements, to within one element and ties. '
     'The deprecated index map numbers facula i as i+1 on exactly the quiet-photosphere elements inside it, later ones on top.',
     ['inputs', 'configurations'],
     'all facula populations (overlapping each other and spots, at disk center, at the limb, behind the star, below the minimum radius), viewpoints and grids',
     'no test maps a facula onto a star',
     [ST, FA, HE], [('pixel selection', f'{FA}: Facula.map_pixels'), ('wall/floor split', f'{ST}: Star.add_faculae_to_map'), ('temperature rounding and limits', f'{HE}: round_teff, clip_teff')],
     ['Star.add_faculae_to_map', 'Facula.map_pixels', 'FaculaCollection.map_pixels'])

prop('C05', 'Facula wall and floor areas follow the hot-wall model and conserve area',
     'At every viewing angle below 90 degrees the effective areas of wall and floor are non-negative and add up to the projected disk area pi r^2 cos(angle); the fractional areas add up to 1, also when wall and floor round to the same temperature and are reported as one. '
     'Below the minimum radius all of it is wall; otherwise the visible floor share is the overlap of two equal circles whose centers are (depth/radius) tan(angle) radii apart, so it never increases with angle or depth, is 1 at disk center and 0 once the shift reaches two radii. '
     'Wall and floor contrasts are linear in the current radius with the configured slopes, offsets and minimum radius.',
     ['inputs'],
     'all radii, depths, minimum radii, slopes, intercepts and angles in [0,90) degrees',
     'the tests try five angles on a 100 km facula with zero slopes',
     [FA, HE], [('effective area', f'{FA}: Facula.effective_area, Facula.fractional_effective_area'), ('circle overlap', f'{HE}: calc_circ_fraction_inside_unit_circle'), ('contrasts', f'{FA}: Facula.floor_dteff, Facula.wall_dteff')],
     ['Facula.effective_area', 'Facula.fractional_effective_area', 'Facula.floor_dteff', 'Facula.wall_dteff'])

prop('C06', 'Spots grow exponentially to their maximum, then decay linearly to zero',
     'However the elapsed time is cut into steps, a growing spot\'s area is multiplied by (1 + growth rate x 1 day) per day until it reaches its maximum, from then on it loses decay rate x time, and it stays at zero once it gets there; it is never negative, never above its maximum, and never grows again. '
     'Ageing changes nothing else about the spot, ageing by zero time changes nothing, and a spot with zero growth and zero decay rate never changes.',
     ['inputs', 'histories'],
     'all initial areas in (0,max], growth and decay rates including zero, and all sequences of time steps (tiny, exactly at the turning point, spanning growth and decay, past the end of life)',
     'the tests step one spot by whole days and once by 20 days',
     [SP], [('ageing', f'{SP}: StarSpot.age')], ['StarSpot.area_current and is_growing after every StarSpot.age / SpotCollection.age / Star.age'],
     [('area_current', 'current area', f'{SP}: StarSpot'), ('is_growing', 'growth phase flag', f'{SP}: StarSpot')])

prop('C07', 'Faculae grow and shrink exponentially about their maximum radius',
     'However the elapsed time is cut into steps, a growing facula\'s radius follows exp(+2t/lifetime) until it reaches its maximum and exp(-2t/lifetime) from then on; it is always positive and never above the maximum, and growth never resumes. '
     'Ageing changes only radius and phase, and ageing by zero time changes nothing.',
     ['inputs', 'histories'],
     'all initial radii in (0,max], lifetimes, and sequences of time steps',
     'the tests age one facula by half a lifetime two or three times',
     [FA], [('ageing', f'{FA}: Facula.age')], ['Facula.radius and is_growing after every Facula.age / FaculaCollection.age / Star.age'])

prop('C08', 'Surface features are neither lost, duplicated nor kept after they decayed',
     'Over any history of adding, birthing, maturing and ageing, a collection holds exactly the features that were put in, once each and in order, minus those that an ageing step left fully decayed: spots that stopped growing and have no area left, faculae that stopped growing and are at or below max radius / e^2. '
     'Ageing a star ages every spot and every facula by exactly that time, and births and maturing on a star add exactly what its generator produces for that time (or coverage) and the star\'s radius. '
     'Every feature a star or collection holds is evaluated on that holder\'s own grid, whatever grid it was created with and whenever the holder\'s grid is replaced.',
     ['histories', 'configurations'],
     'all interleavings of add, birth, mature, age, clean and re-grid operations on stars and bare collections, mixed grid kinds',
     'the tests add and age a handful of features once, all created on compatible grids',
     [ST, SP, FA], [('membership', f'{SP}: SpotCollection.add_spot, clean_spotlist, age; {FA}: FaculaCollection.add_faculae, clean_faclist, age'), ('grid propagation', f'{SP}: set_gridmaker; {FA}: set_gridmaker; {ST}: Star.__init__'), ('delegation', f'{ST}: Star.age, birth_spots, birth_faculae, generate_mature_spots')],
     ['SpotCollection.spots', 'FaculaCollection.faculae', 'mapping any held feature'])

prop('C09', 'Queries are pure and always reflect the current state',
     'Asking a star for its map, coverage, transit mask, average temperature, granulation coverage, flare integrals or a plot changes nothing: the same question gives the same answer again, in any order and after the caller has overwritten the returned arrays and dictionaries. '
     'After any history, every answer equals that of a new star built from the current features and parameters, including changes made to temperature, radius and limb darkening after construction.',
     ['histories'],
     'all interleavings of queries with age, birth, add and parameter changes',
     'the tests ask one question per star',
     [ST, SP, FA, CG], [('map recomputed on access', f'{ST}: Star.map'), ('faculae drawn on a fresh map', f'{ST}: Star.add_faculae_to_map')],
     ['all public query results, before and after interleaved operations'])

prop('C10', 'Grids cover the sphere and their weights integrate over it',
     'Every grid has as many elements as requested, latitudes in [-90,90] and longitudes in [0,360) degrees, arrays of one common shape (longitude first on a rectangular grid), and non-negative area weights that add up to 1. '
     'Weighted sums over a grid converge to integrals over the unit sphere: from any direction half the area is visible, the projected area is a quarter, and smooth functions integrate correctly with an error that shrinks with resolution. '
     'The cosine from disk center is 1 toward the viewpoint, -1 opposite to it and the scalar product of directions everywhere; grids compare equal exactly when they have the same kind and size.',
     ['inputs', 'configurations'],
     'all spiral sizes and rectangular shapes (at least 3 latitudes), all directions',
     'the tests check shapes and ranges of two grid sizes and never the weights',
     [CG], [('points', f'{CG}: RectangularGrid._grid, SpiralGrid._grid'), ('weights', f'{CG}: RectangularGrid._area, SpiralGrid._area'), ('cosine', f'{CG}: CoordinateGrid.cos_angle_from_disk_center'), ('factory', f'{CG}: CoordinateGrid.new')],
     ['CoordinateGrid.grid/area/zeros/cos_angle_from_disk_center/oned/dlat/dlon/=='])

prop('C11', 'A transiting planet occults exactly the elements behind its disk',
     'When the planet is on the near side (phase within 90 degrees of 180), the transit mask is between 0 and 1, is 1 on elements well inside and 0 on elements well outside the planet\'s disk centered at x = (a/R) sin(phase-180), y = (a/R) cos(phase-180) cos(inclination) (x toward increasing longitude, y toward north, projected orthographically), and 0 on the far side; all of the planet is visible. '
     'The occulted share of the disk equals the overlap area of the two disks divided by pi, within the grid\'s resolution, from any viewpoint including over a pole; it is zero when the disks do not touch.',
     ['inputs', 'configurations'],
     'all planets not larger than the star, orbits, phases, inclinations, viewpoints and both grid kinds',
     'the tests put the planet at disk center seen from (0,0)',
     [ST, HE], [('mask', f'{ST}: Star.get_transit_mask'), ('projection', f'{HE}: proj_ortho')], ['Star.get_transit_mask', 'Star.calc_coverage occulted fractions'])

prop('C12', 'A planet behind the star is hidden by exactly the overlap',
     'When the planet is on the far side, nothing on the star is occulted and the visible fraction of the planet is one minus the share of its disk that lies inside the stellar disk: 1 when the disks do not touch, 0 when the planet is completely behind the star, continuous and monotonic in between. '
     'The fraction is never NaN and never outside [0,1], including at the contact points, and is 1 whenever the planet is on the near side.',
     ['inputs'],
     'all planets not larger than the star, orbits, phases and inclinations, including exact contacts',
     'no test computes an eclipse',
     [ST, HE], [('visible fraction', f'{ST}: Star.get_pl_frac, Star.get_transit_mask'), ('overlap', f'{HE}: calc_circ_fraction_inside_unit_circle')], ['Star.get_transit_mask', 'Star.get_pl_frac', 'Star.calc_coverage'])

prop('C13', 'Spherical geometry helpers are exact and never NaN where defined',
     'The angle between two points is the great-circle angle: finite, in [0,pi], symmetric, zero for identical and pi for antipodal points. '
     'The orthographic projection puts a point at x = cos(lat) sin(lon-lon0), y = cos(lat0) sin(lat) - sin(lat0) cos(lat) cos(lon-lon0) to within 0.01, for every center including the poles, and gives NaN exactly for points on the far side. '
     'The share of a circle of radius r <= 1 inside the unit circle is the lens area over pi r^2: in [0,1], 1 when contained, 0 when apart, and depends only on distance and radius.',
     ['inputs'],
     'all coordinates and units, coincident, antipodal, polar and wrapped points; all circles with radius at most 1, including tangent ones',
     'the tests check six angles to 1 degree, six projected points and six circles',
     [HE], [('angle', f'{HE}: get_angle_between'), ('projection', f'{HE}: proj_ortho'), ('overlap', f'{HE}: calc_circ_fraction_inside_unit_circle')], ['return values'])

prop('C14', 'Only relative longitudes and orientation matter',
     'Rotating all features and the viewpoint by the same longitude (a whole number of elements on a rectangular grid) leaves coverage, occultation, average temperature and flare visibility unchanged; so does adding any multiple of 360 degrees to any single longitude on any grid. '
     'Mirroring all latitudes, or all longitudes, of features and viewpoint (and of the planet\'s position) leaves them unchanged on a rectangular grid.',
     ['inputs', 'configurations'],
     'all stars, viewpoints, planets, rotations and mirrorings',
     'a relation between two runs, which no test makes',
     [ST, SP, FA, FL, HE, CG], [('differences of longitudes', f'{CG}: cos_angle_from_disk_center; {SP}: StarSpot.set_gridmaker; {FA}: Facula._r; {FL}: get_visible_flares_in_timeperiod')], ['Star.calc_coverage', 'FlareCollection.get_visible_flares_in_timeperiod'])

prop('C15', 'Results do not depend on the units inputs are given in',
     'Giving any length, area, time, rate, angle or energy in any other unit of the same kind gives the same maps, coverage, transit, ageing, births, flares and granulation. '
     'One micro-solar-hemisphere is 1e-6 of half the solar surface.',
     ['inputs', 'configurations'],
     'all quantities the public interface takes and all compatible units',
     'the tests use one unit per quantity',
     [ST, SP, FA, FL, GR, HE, 'vspec_vsm/config.py'], [('quantity arithmetic and explicit conversions', 'all modules')], ['public results under pairs of unit systems'])

prop('C16', 'Runs are reproducible and all randomness comes from the caller\'s generators',
     'Two simulations built with the same parameters and equally seeded generators (or granulation seeds) give identical births, mature spots, flares, granulation and coverage, whatever else runs in between and whatever the state of the global random generators, which are neither read nor advanced. '
     'Different seeds give different populations, and a star that is given no generators of its own draws from the generator passed to the star.',
     ['histories', 'configurations', 'schedules'],
     'all simulation histories, seeds and interleavings of independent simulations, in one process or in several with different hash seeds',
     'the tests never compare two seeded runs; most use unseeded defaults',
     [SP, FA, FL, GR, ST], [('rng attribute', f'{SP}: SpotGenerator; {FA}: FaculaGenerator; {FL}: FlareGenerator; {GR}: Granulation.seed')], ['populations produced by seeded generators', 'numpy global state before and after'])

prop('C17', 'A flare radiates its energy, no more and no less',
     'A flare\'s area over time is the template (polynomial rise over one FWHM, double-exponential decay over 20) scaled to its FWHM, peaking at its peak time at the peak area, non-negative and zero outside that support; integrated over the whole flare, area x sigma T^4 equals the flare energy. '
     'The time-area reported for a window is the integral of that curve over the window (at 10 minute sampling, at both ends however short the window), so adjacent windows add up; light curves of several flares add up, and an exposure time averages the curve over the exposure.',
     ['inputs'],
     'all flares (FWHM, energy, temperature, peak time), sampling times and windows',
     'no test evaluates an area curve or an integral',
     [FL, XO], [('peak area', f'{FL}: StellarFlare.calc_peak_area; {XO}: _flareintegralnp'), ('curve', f'{XO}: _flaremodelnp, multiflaremodelnp, get_light_curvenp'), ('window integral', f'{FL}: StellarFlare.get_timearea, FlareCollection.get_flare_integral_in_timeperiod')],
     ['StellarFlare.areacurve/calc_peak_area/get_timearea', 'FlareCollection.get_flare_integral_in_timeperiod', 'get_light_curvenp'])

prop('C18', 'Every flare that contributes to a window is found, and only visible ones count',
     'The flares selected for a time window are a sub-list of the collection in its order that includes every flare with non-zero area anywhere in the window and excludes flares whose peak is more than 20 FWHM before its start or 10 FWHM after its end. '
     'Of these, exactly the ones less than 90 degrees from the sub-observer point (default 0,0) are reported as visible, and the integral lists one entry per visible flare with that flare\'s temperature and time-area; the star-level call reports the same. '
     'Generating a new observation replaces the previous flares.',
     ['inputs', 'histories'],
     'all collections (empty, single, many), windows and viewpoints',
     'the tests only check the type of the selected items',
     [FL, ST], [('mask', f'{FL}: FlareCollection.mask, index'), ('visibility', f'{FL}: FlareCollection.get_visible_flares_in_timeperiod'), ('delegation', f'{ST}: Star.get_flares_over_observation, get_flare_int_over_timeperiod')],
     ['FlareCollection selection methods', 'Star.get_flare_int_over_timeperiod'])

prop('C19', 'Generated flares follow the configured frequency distribution',
     'The rate of flares above energy E is 10^beta E^alpha per day (E in erg), the number generated is Poisson with that rate at the minimum energy times the duration, and energies follow the power law above the minimum energy: none is below it, quantile and cumulative functions are inverses, and the density is the derivative of the cumulative function and zero below the minimum. '
     'Exactly as many peak times as flares are produced, positive and non-decreasing in time, at the mean density the duration implies and bunched in clusters of about the configured size; FWHMs are log-normal about the configured mean with the configured spread in dex, temperatures normal, and positions uniform over the sphere, each drawn independently of the others.',
     ['inputs', 'configurations'],
     'all distribution parameters, durations and random streams',
     'the tests check list lengths and types for one configuration',
     [FL], [('distribution functions', f'{FL}: FlareGenerator.frequency_greater_than, pdf, cdf, quantile_func'), ('sampling', f'{FL}: FlareGenerator.generate_flare_series, get_peaks, gen_fwhm, gen_teffs, gen_coords')],
     ['FlareGenerator results over many seeds'])

prop('C20', 'Granulation coverage is a finite, bounded, seeded Gaussian process',
     'For every mean, amplitude, period and set of times the granulation coverage is one finite value in [0,1] per time, the same for the same seed and constant at the mean for zero amplitude. '
     'Over seeds it has the configured mean and, before clipping to [0,1], covariance (amplitude/period) exp(-t/(sqrt(2) period)) cos(t/(sqrt(2) period) - pi/4) at lag t, with amplitude and period in hours. '
     'A star reports exactly its granulation model\'s coverage, and zero when granulation is off or has no contrast.',
     ['inputs', 'configurations'],
     'all parameters, seeds and time axes, including sampling much finer than the period',
     'the tests sample 51 widely spaced points once and accept NaN',
     [GR, ST], [('kernel', f'{GR}: GranulationKernel.evaluate'), ('sampling and clipping', f'{GR}: build_gp, Granulation.get_coverage, save_cast_coverage'), ('star level', f'{ST}: Star.get_granulation_coverage')],
     ['Granulation.get_coverage', 'GranulationKernel.evaluate', 'Star.get_granulation_coverage'])

prop('C21', 'Generated spots have the configured properties and distribution',
     'Every generated spot is growing from the configured initial area with the configured temperatures and growth and decay rates, has a positive total-to-umbra ratio distributed as N(5,1), and a log-normal maximum area whose median is the configured mean and whose spread is the configured one in dex. '
     'Longitudes are uniform over 0-360 degrees; latitudes are uniform over the sphere for the isotropic distribution and N(15,5) degrees in a random hemisphere for the solar one; the number born is Poisson with the stated expectation, and none is born if spots never decay (zero decay rate, or zero growth rate). '
     'Mature spots have areas between the initial and maximum area (static) or are at a uniformly random age up to the mean lifetime (evolving), and are added until their summed solid angle first reaches the requested fraction of the sphere.',
     ['inputs', 'configurations'],
     'all generator parameters, coverages, star radii and random streams',
     'the tests check counts and one attribute for three spots',
     [SP], [('sampling', f'{SP}: SpotGenerator.generate_spots, get_coordinates, birth_spots, generate_mature_spots')], ['SpotGenerator results over many seeds'])

prop('C22', 'Generated faculae have the configured properties and distribution',
     'Every generated facula starts growing at max radius / e^2 with the configured depth and temperature parameters; maximum radius and lifetime are log-normal about the configured peaks with the configured spreads in dex and lie the same number of standard deviations from their peaks (a larger facula lives longer). '
     'Positions are uniform over the sphere, and the number born is Poisson with the stated expectation.',
     ['inputs', 'configurations'],
     'all generator parameters, star radii and random streams',
     'no test generates and inspects faculae',
     [FA], [('sampling', f'{FA}: FaculaGenerator.generate_faculae, get_coords, birth_faculae')], ['FaculaGenerator results over many seeds'])

prop('C23', 'Birth rates balance decay at the configured coverage',
     'The expected number of births in a time, multiplied by the area integrated over the life of a typical feature that is aged from birth to removal, equals coverage x stellar surface x time, for spots and for faculae. '
     'The expectation is proportional to time, coverage and stellar surface, zero for features that never decay, and the reported mean lifetime and mean area are those of the typical feature.',
     ['inputs', 'configurations', 'histories'],
     'all generator parameters, durations and star radii',
     'the tests check the expectation only for zero coverage',
     [SP, FA], [('expectation', f'{SP}: SpotGenerator.get_n_spots_to_birth, mean_lifetime, mean_area; {FA}: FaculaGenerator.get_n_faculae_expected, mean_area')], ['expected births vs. area-time of aged features'])

prop('C24', 'Resampling and plotting show the data that was given',
     'Resampling to a rectangular display grid keeps the unit, returns radians and an array with longitude first, is linear in the data, reproduces constants, stays within the range of the data and puts features at the right latitude and longitude. '
     'Data on a rectangular grid is passed through unchanged. '
     'Plotting a star draws the current surface map with faculae for that viewpoint within the color limits asked for, the limb darkening of that viewpoint relative to its brightest point as shading, and the pixels more than half covered by the planet, for both grid kinds.',
     ['inputs', 'configurations'],
     'all grids, display sizes and data arrays; all viewpoints and planets for plots',
     'the tests check shapes and units; nothing tests plotting',
     [CG, ST], [('resampling', f'{CG}: CoordinateGrid.display_grid, SpiralGrid._display_grid, RectangularGrid._display_grid'), ('plotting', f'{ST}: Star.plot_surface')], ['display_grid', 'arguments of the drawing calls'])

prop('C25', 'Disabled components stay off',
     'A star without generators or granulation, or with disabled ones, never acquires spots, faculae or flares through any sequence of birth, ageing and observation calls, and its granulation coverage is zero at all times, so its disk stays at the photosphere temperature. '
     'Zero coverage likewise births nothing and an infinite minimum flare energy produces no flares, over any duration; static spots (zero decay rate) are never born and never age away.',
     ['histories', 'configurations'],
     'all operation sequences and durations on stars with any subset of components disabled',
     'the tests construct such stars but do not run them',
     [SP, FA, FL, GR, ST], [('off constructors', 'SpotGenerator.off, FaculaGenerator.off, FlareGenerator.off, Granulation.off'), ('defaults', f'{ST}: Star.__init__')], ['collections, flares, granulation and coverage after every step'])

prop('C26', 'Invalid requests are refused and leave no trace',
     'A request outside the model\'s domain raises instead of returning a number: grid parameters of the wrong type, comparing a grid with something that is not one, quantiles outside [0,1), unknown or unsupported distributions, non-numeric facula coverage, mature coverage outside [0,1], circles or eclipsing planets larger than the star, bare numbers for projected coordinates, display data of the wrong shape, faculae whose wall and floor are equal, adding numbers or other things that are no features (alone or in a list with features), and quantities of the wrong physical kind. '
     'After a refused request the star and its features are as they were.',
     ['inputs'],
     'all such requests, alone and in the middle of a history',
     'the tests try a few of them once, and never look at the state afterwards',
     [CG, FL, SP, FA, HE, ST], [('explicit checks', 'CoordinateGrid.new, RectangularGrid.__init__/__eq__/_display_grid, SpiralGrid.__eq__/_display_grid, FlareGenerator.quantile_func, SpotGenerator.get_coordinates/generate_mature_spots, FaculaGenerator.__init__, calc_circ_fraction_inside_unit_circle, proj_ortho, Facula.effective_area'), ('unit checking', 'astropy quantities')], ['exceptions and state snapshots'])

prop('C27', 'A single spot\'s disk fraction follows its foreshortened area',
     'A small spot\'s surface fraction is its area over the area of a hemisphere times the cosine of its angle from disk center; it is finite everywhere including exactly at disk center, symmetric in the relative position, scales with area, decreases toward the limb and vanishes once the whole spot is behind the star. ',
     ['inputs'],
     'all spot positions, sizes up to about 20 degrees, viewpoints and stellar radii',
     'the tests check disk center and antipode of one spot at (0,0)',
     [SP], [('integral', f'{SP}: StarSpot.surface_fraction')], ['StarSpot.surface_fraction'])

prop('C28', 'Omitted arguments mean their documented defaults',
     'Leaving out an optional argument gives the same results in every later call as passing its default: spots grow, at 0.52 per day, decay at 10.89 MSH per day and have a total-to-umbra ratio of 5; faculae start growing; spot generators start spots at 10 MSH, on the solar distribution, for a coverage of 0.2; facula generators are isotropic; flare generators use slope -0.829, intercept 26.87, minimum energy 1e33 erg and cluster size 2. '
     'A star has a 1000-point spiral grid, no limb darkening, no granulation and no generators; rectangular grids, and spots, faculae, collections and generators on their own, have 500 x 1000 points. '
     'A coverage or plot request without these arguments has no granulation and an Earth at 1 AU, phase 90 degrees and inclination 0 (no transit), flare queries without a viewpoint look at (0,0), and light curves without an exposure time are not averaged.',
     ['inputs', 'configurations', 'histories'],
     'all values of the required arguments, all subsets of omitted ones, all later operations',
     'the tests construct objects with defaults but compare them with nothing',
     [ST, SP, FA, FL, CG, XO], [('signatures', 'constructors and query methods'), ('defaults of a star', f'{ST}: Star.__init__')], ['states, maps, births, flares, coverage and drawing calls of twins'])

prop('C29', 'Simulations and features do not influence each other',
     'What one star, collection, feature or generator does never depends on others that exist or run next to it: several simulations interleaved in any schedule, run in concurrent threads, or run one after another in one process each give exactly the results they give alone. '
     'Features, generators and stars built from the same quantity objects stay independent: ageing, adding to or reconfiguring one changes neither the others nor the quantities the caller passed in, and new features still start from the configured values.',
     ['schedules', 'histories', 'configurations'],
     'all sets of simulations, all interleavings of their steps, all thread schedules, all sequences of operations on siblings',
     'every test drives one object alone',
     [ST, SP, FA, FL, GR, CG], [('per-object state', 'instance attributes; no module-level caches'), ('out-of-place updates', f'{SP}: StarSpot.age, {FA}: Facula.age'), ('immutable collections of features', f'{SP}: SpotCollection.add_spot, {FA}: FaculaCollection.add_faculae')], ['step-by-step logs of interleaved, threaded and isolated runs', 'states of siblings and of the caller\'s quantities'])

prop('C30', 'Answers that are too coarse or were limited are announced',
     'A coverage or transit-mask request warns that the grid is too coarse exactly when the planet is in front of the star, closer to disk center than 1 + 2 planet radii, and the elements it may touch (on the near side, within its radius plus two of their projected radii of its center) have a mean projected radius above half the planet radius; the warning names the factor by which their mean projected area exceeds a quarter of the planet disk. '
     'A facula map or coverage report warns when a wall or floor temperature of a facula that covers some element had to be limited to 2300 or 3900 K, naming the limit, and does not otherwise; the same holds for limiting a single temperature. '
     'Comparing grids of different kinds is announced by a warning or refused, and asking the same question again is announced again.',
     ['inputs', 'configurations'],
     'all grids, viewpoints and planets, all facula populations and star temperatures, all temperatures',
     'no test looks at a warning',
     [ST, HE, CG], [('resolution warning', f'{ST}: Star.get_transit_mask'), ('limits', f'{HE}: clip_teff'), ('unlike grids', f'{CG}: SpiralGrid.__eq__')], ['warnings issued by Star.get_transit_mask, Star.calc_coverage, Star.add_faculae_to_map, helpers.clip_teff and grid comparisons'],
     )

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
for p in P:
    p['statement'] = p['statement'].strip()
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
