#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'py_gnome/gnome/'
P = []        # (id, title, statement, over, text, why, files, mechanisms, level, note)


def prop(id, title, statement, over, text, why, files, mech, level='proof', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note))


prop('C01', 'The model clock visits exactly the configured times',
     'A run visits start, start+step, start+2*step, ... and stops at the last time that does not pass the configured duration, forward or '
     'backward and however the times were (re)configured. Each step covers its whole interval exactly once for releases, movement and '
     'weathering sub-steps, and rewinding returns the clock to the start.',
     ['inputs', 'configurations', 'histories'], 'every start time, step, duration, direction, step number and order of reconfiguration',
     'tests run a handful of fixed step/duration pairs; an off-by-one needs particular remainders or directions',
     [G + 'model.py'], ['Model.step / current_time_step / _reset_num_time_steps / run_backwards / _split_into_substeps'],
     note='all step numbers proved inductively; weathering sub-step split and whole runs are bounded')
prop('C05', 'Weathering conserves mass',
     'Whatever mass a weathering or cleanup process takes out of the floating oil appears, to the last kilogram, in that process\'s entry of '
     'the mass balance, and nothing else changes the balance. Elements a process does not apply to keep their mass, and an element\'s '
     'mass is always the sum of its components.',
     ['inputs', 'configurations'], 'every number of elements and components, every masses/fates/environment/step',
     'tests compare a few scenarios with a few elements; a leak hides in particular fates, zero masses, clipped fractions',
     [G + 'weatherers/evaporation.py', G + 'weatherers/cleanup.py', G + 'weatherers/natural_dispersion.py', G + 'weatherers/dissolution.py',
      G + 'weatherers/bio_degradation.py', G + 'spill_container.py'],
     ['*.weather_elements', 'FateDataView, SpillContainer.substancefatedata / update_from_fatedataview'],
     note='evaporation, skimming, burning, chemical dispersion proved for any number of elements; coupled natural dispersion balance bounded')
prop('C10', 'Processes act exactly inside their active time range',
     'A mover or weatherer acts in a step if and only if it is on and the step\'s midpoint lies in its active range; a cleanup operation acts '
     'if and only if the step overlaps its range and is credited with exactly the overlap. Outside its range a process changes nothing.',
     ['inputs', 'configurations'], 'every model time, step of either sign, finite or open-ended range and previous state',
     'tests sample a few ranges; the edges and ranges shorter than a step are not reached',
     [G + 'movers/movers.py', G + 'weatherers/cleanup.py', G + 'weatherers/core.py'],
     ['Process.prepare_for_model_step', 'RemoveMass.prepare_for_model_step / _set__timestep', 'active guards of get_move and weather_elements'],
     note='proved; inactivity of the compiled movers is bounded')
prop('C13', 'Map projections are invertible and leave their input alone',
     'Converting positions to pixels and back, pixels to positions and back, and metres to degrees and back returns the original value; '
     'integer pixels are the floor of the exact ones and a pixel\'s centre lies in that pixel. The configured box fits the image, centred and north-up, '
     'and no conversion alters the caller\'s data.',
     ['inputs', 'configurations'], 'every box, image size, number of points and coordinates (latitudes where the cosine is positive)',
     'tests use a few boxes and points; aspect-ratio branches, negative pixels and aliasing are not covered',
     [G + 'utilities/projections.py'], ['set_scale, to_pixel, to_lonlat, meters_to_lonlat, lonlat_to_meters'],
     note='proved; the irregular rectangular grid (scipy interpolation) is bounded')
prop('C17', 'Speed/direction and velocity components convert both ways',
     'Converting a speed and direction to velocity components and back returns them (direction modulo a full turn, in [0, 360)); the components '
     'follow the from-direction convention for wind and the towards-direction convention for currents. Invalid directions or negative speeds are refused.',
     ['inputs'], 'every speed, direction and component pair, any number of rows', 'tests check cardinal directions only',
     [G + 'utilities/transforms.py'], ['r_theta_to_uv_wind/current, uv_to_r_theta_wind/current'],
     note='proved over the reals with trigonometric axioms; float round trips bounded')
prop('C18', 'Random draws stay in their range, persist and repeat with the seed',
     'Values drawn between bounds lie between them, bounds that cross are refused, and values with a persistence are only re-drawn within their '
     'persistence-scaled range and otherwise kept unchanged. Seeding makes every random stream of a run repeat.',
     ['inputs', 'configurations'], 'every bounds, persistence, time step and number of elements',
     'tests check statistics of a few samples with fixed bounds',
     [G + 'utilities/rand.py', G + 'movers/py_wind_movers.py', G + 'movers/wind_movers.py'], ['random_with_persistance', 'rand.seed'],
     note='proved for the draws; windage through compiled movers and reseeding bounded')

prop('C02', 'Element data stay aligned, ids stay unique, nothing else is touched',
     'At every moment all element data arrays have the same length and describe the same elements in the same order. Releasing appends exactly the '
     'missing elements, with fresh consecutive ids and their initial state, and leaves existing elements unchanged; finishing a step '
     'drops exactly the elements marked for removal from every array and ages the others by the step. The forecast and uncertainty containers hold matching spills whatever is added, '
     'replaced or removed.',
     ['inputs', 'histories'], 'every number of existing elements, content, number already released and number due',
     'tests release a few fixed spills; an index slip shows only with several spills or an uneven number of elements',
     [G + 'spill_container.py', G + 'spills/spill.py', G + 'array_types.py'],
     ['SpillContainer.release_elements / _append_data_arrays / model_step_is_done', 'Spill.release_elements', 'ArrayType.initialize'],
     note='proved for one release and one removal of any size; initialisers enter as contracts; whole runs, pairs of containers, assignment and splitting are bounded')
prop('C15', 'Ordered collections behave like an ordered list keyed by identity',
     'After any sequence of additions, insertions, replacements, removals and index lookups an ordered collection holds exactly the objects that '
     'were put in and not taken out, in order, each reachable both by position and by its id. Registered callbacks fire once per change with the object concerned.',
     ['histories'], 'every sequence of operations', 'tests run short fixed sequences; stale indices need a removal followed by a lookup',
     [G + 'utilities/orderedcollection.py'], ['OrderedCollection.add/insert/replace/remove/__getitem__/__iter__'],
     level='exploration', note='bounded: random histories against a list model (the class keeps its state in dicts/lists keyed by object id)')
prop('C19', 'Times are totally ordered and convert exactly',
     'Minus infinity precedes and infinity follows every date, and all six comparisons agree with that one order. Dates convert to seconds and '
     'back exactly in every time zone, rounding picks the nearest multiple, and time zone offsets keep their minutes.',
     ['inputs', 'configurations'], 'every pair of finite or infinite times, every date, zone, rounding interval and offset',
     'tests check a few dates in the machine\'s own time zone',
     [G + 'utilities/inf_datetime.py', G + 'utilities/time_utils.py'], ['InfTime, MinusInfTime', 'date_to_sec, sec_to_date, round_time, TZOffset'],
     note='the order is proved; conversions through the C library\'s calendar are bounded')

prop('C06', 'Masses never go negative and fractions stay fractions',
     'Along any run an element\'s mass and every component of it stays at or above zero and never grows, and cumulative entries of the mass balance '
     'never go down. Water, evaporated, lost and coverage fractions stay within zero and one (water within the oil\'s maximum), and '
     'density, viscosity and area of elements with mass stay positive and finite.',
     ['inputs', 'configurations', 'histories'], 'every number of elements and components, environment, step and combination of processes',
     'tests check a few benign scenarios; a removal that exceeds what is left needs long steps, strong wind or overlapping processes',
     [G + 'weatherers/evaporation.py', G + 'weatherers/cleanup.py', G + 'weatherers/natural_dispersion.py', G + 'weatherers/emulsification.py',
      G + 'weatherers/spreading.py', G + 'spill_container.py'],
     ['*.weather_elements', 'Emulsification, FayGravityViscous'],
     note='single processes, emulsification (C++) and density and viscosity updates proved for any number of elements; combined runs bounded')

prop('C03', 'Releases put out the right number of elements at the right time and place',
     'Nothing is released before a release begins and every element has been released once it ends; in between equally many are released per step, '
     'whatever the step and the release time. The elements of a step lie evenly between where the source is at its beginning and at its end, '
     'inside the release\'s polygons, on its grid or at its listed positions; elements released earlier are not touched, and a change of time zone moves the begin and the end of a release alike.',
     ['inputs', 'configurations', 'histories'], 'every release duration, step, number of elements, window and earlier history',
     'tests release a few round numbers; off-by-ones show when the duration is not a multiple of the step or a window spans the end',
     [G + 'spills/release.py', G + 'spills/spill.py', G + 'utilities/timeseries.py'],
     ['PointLineRelease.generate_release_timeseries / get_num_release_time_steps / initialize_LEs', 'Spill.release_elements', 'PolygonRelease.initialize_LEs', 'Release.num_elements_after_time'],
     note='schedule and line positions proved; polygons, custom positions and whole runs bounded')
prop('C04', 'The mass released is the stated amount, whatever its unit',
     'The elements released carry, all together, exactly the spill\'s stated amount converted to mass with the oil\'s density at the reference temperature, each the same share; '
     'components share an element\'s mass by the oil\'s component fractions. An amount read back in its own or any other supported unit is the amount '
     'that was set, and a changed amount scales all of them.',
     ['inputs', 'configurations'], 'every amount, unit, density, number of elements and components, and release history',
     'tests convert a few amounts in a few units',
     [G + 'spills/spill.py', G + 'spills/release.py', G + 'spills/substance.py', G + 'spills/gnome_oil.py'],
     ['BaseSpill.get_mass / amount / units', 'Release.initialize_LEs', 'GnomeOil.initialize_LEs'],
     note='proved with mathematical arithmetic (tolerance for rounding); whole runs bounded')
prop('C07', 'Moves never pass through land; land queries agree with the raster',
     'An element that is in the water never ends a step on land nor passes through a land cell: a move that meets land ends at the first land cell '
     'on its way, with the last water cell before it remembered, and a move that meets none is kept unchanged. Looking at coarser versions of the raster first never '
     'changes the outcome, and the queries whether a point is on land, in the water, on the map or may hold a spill say what the raster and the bounds say.',
     ['inputs', 'configurations', 'histories'], 'every raster, layering, projection and set of moves',
     'tests use a handful of islands and moves; a skipped cell needs a particular slope, corner or coarse cell',
     [G + 'maps/map.py', G + 'cy_gnome/cy_land_check.pyx'],
     ['RasterMap.beach_elements', 'check_land_layers, find_first_pixel, overlap_grid', 'RasterMap.on_land / in_water / on_map'],
     note='walk along the line, first land pixel and layer refinement of the Cython code proved for any raster and move; coarse layers, projection and land queries bounded')
prop('C08', 'Beached and off-map elements are marked and their mass is counted once',
     'After a move exactly the elements outside the map\'s bounds are marked as off the map and dropped at the end of the step, and their mass is added to the off-map total once. '
     'The beached total is always the mass of the elements on land at that time, stopped elements are put on the land cell that stopped them, and with '
     'an immediate refloat they are back in the water at their last water position; no other element vanishes or moves.',
     ['inputs', 'configurations', 'histories'], 'every number of elements, status, mass, map, move and history',
     'tests look at single beachings; double counting needs several steps or an element that leaves while others are beached',
     [G + 'maps/map.py', G + 'spill_container.py', G + 'model.py'],
     ['GnomeMap.beach_elements, RasterMap.beach_elements, ParamMap.beach_elements', '_set_off_map_status', 'SpillContainer.model_step_is_done'],
     note='proved for any number of elements; the land test and point-in-polygon enter as contracts; straight-shore map and whole runs bounded')

prop('C09', 'Stranded elements stay put until they refloat where they last floated',
     'Between two moves a stranded element either stays exactly as it is or returns to its last water position and is in the water again; a negative half-life '
     'refloats none, zero all of them, and otherwise each floats independently with probability 1 - 0.5^(step / half-life). Elements on a drying tide flat strand where '
     'they are and float when it is wet again; nothing else is touched, and an element released on land refloats where it was released.',
     ['inputs', 'configurations', 'histories'], 'every number of elements, status, position, half-life, step and draw',
     'tests refloat small all-or-nothing cases; a wrong exponent or a mixed-up index needs many elements in mixed states',
     [G + 'maps/map.py', G + 'maps/tideflat_map.py', G + 'model.py'],
     ['RasterMap.refloat_elements', 'TideflatMap.beach_elements / refloat_elements', 'Model.move_elements'],
     note='outcome per element proved for any number of elements; probability and whole runs bounded (6 sigma)')
prop('C11', 'A step moves elements by the sum of their active movers, and only in the water',
     'In a step every element in the water moves by the sum of the moves of all movers that are on and whose active range contains the middle of the step; every other element stays. '
     'Constant, current and wind movers move by velocity times step (by the chosen numerical method, windage and scale) converted to degrees at the element\'s own latitude; '
     'uncertain moves stay within their along, cross and speed bounds, each element keeps its own draw for its duration, and diffusion has no drift and variance 2 D t.',
     ['inputs', 'configurations', 'histories'], 'every number of elements, position, status, mover combination, velocity field, step and history',
     'tests move a few elements with one mover; wrong weights, aliasing and stale uncertainty records need particular fields or removals',
     [G + 'model.py', G + 'movers/movers.py', G + 'movers/simple_mover.py', G + 'movers/py_current_movers.py', G + 'movers/py_wind_movers.py', 'py_gnome/lib_gnome/Random_c.cpp',
      'py_gnome/lib_gnome/WindMover_c.cpp'],
     ['Model.move_elements', 'Process.prepare_for_model_step', 'SimpleMover/CurrentMover/WindMover.get_move', 'PyMover.get_delta_*'],
     note='Python movers and the model loop proved with velocity fields as contracts; compiled movers, histories and statistics bounded')
prop('C14', 'Boxes, polygons and point-in-polygon tests are exact',
     'A point is inside a polygon exactly when it is enclosed an odd number of times, whatever the polygon\'s starting vertex, direction or closing, and a point on a boundary shared by two '
     'polygons is in exactly one of them. Bounding boxes contain precisely their points; overlap, containment and merging of boxes, and the orientation of a polygon, follow '
     'the geometry. Polygon sets give back the polygons and metadata put in, thinning keeps what is drawn, shifting longitudes changes them by whole turns only, and no query alters its input.',
     ['inputs', 'configurations'], 'every box, polygon, point and longitude frame',
     'tests use a few convex shapes; ties with vertices and shared edges are not reached',
     [G + 'utilities/geometry/BBox.py', G + 'utilities/geometry/polygons.py', G + 'utilities/geometry/cy_point_in_polygon.pyx', G + 'utilities/geometry/poly_clockwise.py', G + 'maps/map.py'],
     ['BBox', 'Polygon, PolygonSet', 'c_point_in_poly1', 'is_clockwise', 'ShiftLon360, ShiftLon180'],
     note='boxes, longitude shifts, triangle orientation and the parity of the C point-in-polygon loop (any number of vertices) proved; polygon sets and thinning bounded')
prop('C20', 'The step cache gives every step back as it was saved',
     'Loading a step from the cache returns exactly what was saved last for that step, every array and the mass balance, for both the forecast and the uncertain elements, '
     'whatever the model did with its own data afterwards and in whatever order steps are read. A step that was not saved, or a disabled or rewound cache, is reported as missing, never answered with other data.',
     ['inputs', 'histories'], 'every number of elements and steps, content, order of saving and reading',
     'tests save a few fixed containers and read them once; aliasing needs a later change',
     [G + 'utilities/cache.py', G + 'model.py'], ['ElementCache.save_timestep / load_timestep / rewind', 'Model.output_step'],
     note='round trip proved with npz files as a contract; whole runs bounded')
prop('C21', 'Output is written exactly at the scheduled steps',
     'An outputter writes at the first step if asked to, at the last step if asked to, and in between once per output interval counted from its output start, forward or backward, '
     'and nothing before its output start. Writing after the run from the cache follows the same schedule, and an outputter that is off writes nothing.',
     ['inputs', 'configurations', 'histories'], 'every start, step, direction, output interval and output start, zero and last step options',
     'tests use intervals that are multiples of the step in forward runs',
     [G + 'outputters/outputter.py', G + 'model.py'], ['Outputter.prepare_for_model_run / prepare_for_model_step / write_output / write_output_post_run', 'Model.output_step'],
     note='the decision of each step proved from any earlier state; whole runs and the concrete outputters bounded')

prop('C16', 'Winds and time series give back their data at every time, in every unit',
     'At a data time a wind or time series returns the value given for it, in between the linear interpolation of the velocity components, and outside its data it refuses unless extrapolation is '
     'allowed, when the nearest end value holds; a single value holds for all times. The result is the same whatever units and coordinates (speed and direction or components) the data were given or are asked for in, survives changing the data, '
     'units or time zone and reading or writing wind files, and the caller\'s data stay untouched. Times that do not ascend are refused, and a running average is the mean speed of the past hours.',
     ['inputs', 'configurations', 'histories'], 'every series, unit, coordinate system, query time and sequence of changes',
     'tests use a few values in one or two units; conversions that touch one component or one path only are missed',
     [G + 'environment/wind.py', G + 'utilities/timeseries.py', G + 'environment/timeseries_objects_base.py', G + 'environment/running_average.py', G + 'utilities/convert.py', 'py_gnome/lib_gnome/OSSMTimeValue_c.cpp'],
     ['Wind, Timeseries, TimeseriesData.at', 'OSSMTimeValue_c::GetTimeValue', 'read_ossm_format', 'RunningAverage'],
     note='interpolation of the Python series and search, interpolation and clamping of the compiled series proved for any data; unit and coordinate conversions around them bounded')

prop('C22', 'What is saved loads back as it was and runs the same',
     'A model or single object saved to an archive, a folder, memory or a dictionary loads back with the same settings, order and links between its parts, whatever the objects are called, and the loaded '
     'model runs exactly as the original. Saving changes nothing in the object saved.',
     ['inputs', 'configurations', 'histories'], 'every kind of object and its settings, way of saving, before or after running',
     'tests round-trip a few default objects; a setting lost on one path needs a non-default value',
     [G + 'gnomeobject.py', G + 'persist/base_schema.py', G + 'persist/extend_colander.py', G + 'model.py'],
     ['GnomeId.save / load / serialize / deserialize', 'Model.load_savefile', 'schemas of every class'], level='exploration',
     note='the schema library works by reflection over every class, outside the verifier; bounded over generated objects and models')
prop('C28', 'A rewound or rebuilt model repeats its run exactly',
     'With the same random seed a model gives the same positions, masses, statuses and mass balance at every step when it is rewound and run again, rewound in the middle of a run, or built afresh from the same settings, '
     'whatever ran before in the same process. Looking at the model, its output or its data during a run changes nothing in it.',
     ['inputs', 'configurations', 'histories'], 'every model configuration, seed, number of steps before the rewind',
     'tests rewind a few models without weathering or uncertainty; state left over in one process needs that process',
     [G + 'model.py', G + 'spill_container.py', G + 'weatherers/', G + 'movers/', G + 'spills/'],
     ['Model.rewind / setup_model_run', 'SpillContainer.rewind', 'Process.rewind / prepare_for_model_run'], level='exploration',
     note='a property of whole histories of every process; bounded over generated models')

prop('C12', 'No element is ever above the surface and vertical movers do what they say',
     'After every step of any run no element lies above the water surface. Buoyant rise and vertical mixing move only elements in the water; rising '
     'never carries an element past the surface, and mixing never carries it above the surface nor further than the diffusion of its layer allows, and leaves '
     'floating elements alone where they may stay at the surface. Horizontal diffusion moves a floating element at most its diffusion distance and never vertically.',
     ['inputs', 'configurations'], 'every position, depth, status, droplet speed, diffusion coefficient, mixed layer depth, time step and random draw',
     'tests look at a few depths and at averages of random samples; reflection at the surface and at the mixed layer edge needs particular draws',
     ['py_gnome/lib_gnome/RandomVertical_c.cpp', 'py_gnome/lib_gnome/RiseVelocity_c.cpp', 'py_gnome/lib_gnome/Random_c.cpp',
      G + 'maps/map.py', G + 'model.py'],
     ['RandomVertical_c::get_move, RiseVelocity_c::get_move, Random_c::get_move', 'GnomeMap.resurface_airborne_elements', 'Model.move_elements'],
     note='the compiled movers are proved from clang\'s syntax tree of the current C++ for an arbitrary element; whole runs are bounded')
prop('C24', 'Fate, density and viscosity of each element follow from its own state',
     'After a move, stranded, departed and inert elements do not weather, floating ones weather as surface oil and submerged ones as subsurface oil, and '
     'those marked for cleanup keep their mark. Each weathering element\'s density is the mixture of its own remaining components and water, never above the '
     'water\'s; its viscosity is never below fresh oil\'s and only evaporation and water raise it. The floating, non-weathering, released and mean '
     'values of the mass balance are those of the elements, and an oil\'s properties at a temperature agree with its data.',
     ['inputs', 'histories'], 'every number of elements, statuses, depths, marks, masses, water fractions, water temperature and density',
     'tests run single oils with all elements in the same state; elements in mixed states expose masks that select the wrong ones',
     [G + 'model.py', G + 'ops/density.py', G + 'ops/viscosity.py', G + 'ops/aggregated_data.py', G + 'spills/gnome_oil.py'],
     ['Model._update_fate_status', 'recalc_density, init_density', 'recalc_viscosity, init_viscosity', 'aggregate', 'GnomeOil.density_at_temp, kvis_at_temp, vapor_pressure'],
     note='proved for any number of elements (three components in the density mixture); oil data interpolation and whole runs are bounded')
prop('C23', 'Uncertain elements scatter around the forecast and never change it',
     'Switching uncertainty on changes nothing in the forecast, and the uncertain container releases the same elements with the same mass. '
     'Uncertain moves are the forecast\'s before the uncertainty delay and with zero scales; beyond that they scatter around it on both sides without bias, '
     'constant velocities and currents within their scales, winds by the stated spread of speed and angle, and light winds by a bounded diffusion.',
     ['inputs', 'configurations', 'histories'], 'every wind, current, scale, delay, step, number of elements and random draw',
     'tests check that uncertain moves differ from the forecast; a one-sided or biased scatter, or one in light winds only, passes',
     [G + 'movers/py_wind_movers.py', G + 'movers/py_current_movers.py', G + 'movers/simple_mover.py', 'py_gnome/lib_gnome/WindMover_c.cpp', G + 'spill_container.py', G + 'model.py'],
     ['WindMover.add_uncertainty / update_uncertainty', 'CurrentMover._add_uncertainty / _update_uncertainty', 'WindMover_c::AddUncertainty, PrepareForModelStep', 'SpillContainerPair'],
     note='zero scales, delay, current sums and the compiled wind formula proved; the spread and whole runs are bounded statistical checks')
prop('C25', 'Cleanup operations take the amount they are set for, at a steady rate',
     'Over its range a skimmer takes its amount times its efficiency of oil and water mixture, a dispersant its sprayed share times its efficiency of the spilled oil, and a '
     'burn its area at the burn rate times its efficiency until two millimetres are left; each at a steady rate, counted for its time in each step, the same share from every '
     'element marked for it and never more than those hold. Whole surface elements are marked in order of release, as many as the amount needs and no more, and marking changes nothing else.',
     ['inputs', 'configurations'], 'every number of elements, masses, water fractions, marks, amounts, units, efficiencies and ranges (efficiency given as a number, one weathering substep)',
     'tests use ranges that fit the steps, more oil than is taken and one mark at a time; short ranges, several marks and nearly used up oil are not reached',
     [G + 'weatherers/cleanup.py'],
     ['Skimmer / Burn / ChemicalDispersion.weather_elements', 'CleanUpBase._update_LE_status_codes, _avg_frac_oil', 'RemoveMass._get_mass', 'Burn._init_rate_duration'],
     note='a step of each operation proved for any number of elements; the marking and whole runs are bounded')
prop('C27', 'Slicks only grow, and never thinner than their oil allows',
     'Spreading never shrinks the area of an element and never takes it past its volume over the thickness limit for its oil\'s viscosity; only floating weathering '
     'elements spread, by the volume, age and share of their own spill, and not before the first phase is over. Langmuir circulation leaves between a tenth and '
     'all of that area covered, less with more wind, and changes nothing else.',
     ['inputs', 'histories'], 'every number of elements, spills, fates, areas, limits, volumes, ages, shares, densities, winds and steps',
     'tests follow one blob of equal elements for a few steps; caps, several spills in different phases and elements not on the surface are not reached',
     [G + 'weatherers/spreading.py', G + 'spills/release.py'],
     ['FayGravityViscous.update_area, init_area, get_thickness_limit, weather_elements', 'Langmuir.weather_elements, _get_frac_coverage', 'Release.initialize_elements_post_substance'],
     note='area updates, limits and selection proved for any number of elements; the rates, the coverage law and whole runs are bounded')
prop('C29', 'Outputs hold what the model held',
     'Every record an outputter writes (NetCDF, GeoJSON, KMZ, shapefile, binary, memory, oil budget) holds the time, elements, values and mass balance of the model at that '
     'step, the forecast and the uncertain elements each in their place, none missing, doubled or overwritten. Records come for the steps asked for, including the first and '
     'last ones, again after a rewind, and reading a file back gives the record of the time or index asked for.',
     ['inputs', 'configurations', 'histories'], 'every number of elements and records, uncertainty, output interval, zero and last step option, direction of the run, zipping and rewinds',
     'tests write one configuration and look at a few values; forecasts and uncertain runs of different sizes, backward runs and unwritten last steps are not reached',
     [G + 'outputters/netcdf.py', G + 'outputters/geo_json.py', G + 'outputters/kmz.py', G + 'outputters/shape.py', G + 'outputters/binary.py', G + 'outputters/oil_budget.py',
      G + 'outputters/memory_outputter.py', G + 'outputters/outputter.py'],
     ['NetCDFOutput.write_output, read_data, prepare_for_model_run', 'TrajectoryGeoJsonOutput.write_output', 'KMZOutput.write_output', 'ShapeOutput', 'BinaryOutput', 'OilBudgetOutput'],
     note='where and what a NetCDF record is written is proved for any number of elements against the file\'s contract; files read back with the real libraries are bounded')
NA = []       # (id, reason)


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=x, where=', '.join(p['files'])) for x in p['mech']]))) + '\n')
    na = [n[0] for n in NA]
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier=thorough' % p['id'],
                          technique='contract-based deductive verification of the real functions (symbolic execution + z3/cvc5), counter-models replayed'
                          if p['level'] == 'proof' else 'contracts of the real functions checked as run-time assertions over bounded generated inputs (stand-in, not proof)',
                          level=p['level'], level_note=p['note']) for p in P if p['id'] not in na],
             not_applicable=[dict(property=a, reason=b) for a, b in NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    write()
