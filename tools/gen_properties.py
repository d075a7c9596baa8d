#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
B = 'cosmic_profiles/'
ALG, DALG, CH = B+'shape_profs/shape_profs_algos.pyx', B+'dens_profs/dens_profs_algos.pyx', B+'cython_helpers/helper_class.pyx'
SCL, DCL, CB = B+'shape_profs/shape_profs_classes.pyx', B+'dens_profs/dens_profs_classes.pyx', B+'common/cosmic_base_class.pyx'
CFG, CACHE, PR, CT = B+'common/config.py', B+'common/caching.py', B+'common/python_routines.py', B+'common/cosmo_tools.py'
DT, ST, MOCK = B+'dens_profs/dens_profs_tools.py', B+'shape_profs/shape_profs_tools.py', B+'mock_tools/mock_halo_gen.py'
FOF, RG, RS, GC = B+'gadget/read_fof.py', B+'gadget/readgadget.py', B+'gadget/readsnap.py', B+'gadget/gen_catalogues.pyx'

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'Quantities cross the unit boundary exactly once, with the right dimension',
 'Every length, mass and velocity handed to the library is converted exactly once from the configured input units to the fixed internal units, and every length, mass and density that a public call returns is converted exactly once from internal to the configured output units with the power its dimension demands (density: mass per length cubed). Dimensionless results (axis ratios, axis directions, concentrations, convergence flags, slopes) are never rescaled.',
 ['inputs', 'configurations'], 'all data sets and all input and output unit systems a user can configure, on every public entry point',
 'The tests run with one unit system and look at array shapes, so a missing, doubled or wrongly powered factor passes.',
 [CB, DCL, SCL, CFG, RG, FOF],
 [('conversion factors applied in constructors and getters', SCL+': DensShapeProfs.__init__, getShapeCat*'), ('density factor m*l**-3', CB+': _estDensProfsBase, _fitDensProfsBase'), ('reader unit factors', RG+': read_field')],
 observe=['getR200', 'getXYZMasses', 'getMassesCenters', 'estDensProfs', 'fitDensProfs', 'estConcentrations', 'getShapeCatLocal/Global', 'getShapeCatVelLocal/Global', 'catalogue files'])

prop('C02', 'Unit configuration is coherent and conversion helpers mean what they say',
 'Each unit setter stores each of its arguments as the scale of the quantity it names, the getters and labels report those same scales, and every conversion helper multiplies by the ratio of the source scale to the target scale of its own quantity and direction, for every unit setting that the setters accept. A rejected update leaves the whole configuration as it was.',
 ['configurations', 'histories'], 'all sequences of unit-system updates, accepted or rejected, and all calls of the conversion helpers',
 'Tests set one unit system and never call most helpers or a rejected update.',
 [CFG], [('module-level unit state, setters, converters, labels', CFG)],
 state=[('In*/Out* unit globals', 'current unit scales', CFG)])

prop('C03', 'Object selections are validated and applied consistently',
 'Every public call that takes a selection of objects rejects empty, non-integer, negative, repeated and out-of-range selections before it computes, plots or writes anything. It then applies that one selection, in the order given, to the particle index lists, the object sizes and the virial radii alike.',
 ['inputs'], 'all selections (lists or arrays) on every public call that accepts one',
 'Tests select a fixed couple of valid objects, mostly in ascending order starting at zero, so a skipped validation or an unselected radius array is not noticed.',
 [PR, SCL, DCL, CB], [('isValidSelection / getSubSetIdxCat', PR), ('call sites in the public methods', SCL+', '+DCL+', '+CB)])

prop('C04', 'Unconverged or under-resolved shapes are reported as NaN, never as numbers',
 'The iterative shape determination stops within the configured maximum number of iterations, gives up as soon as fewer than the configured minimum number of particles remain, and is accepted only when both axis ratios changed by no more than the configured tolerance. Every rejected shape (also an object with coincident particles, or a zero virial radius in a profile) comes out with axis length, ratios and all axis vectors as NaN, and the convergence flag a user sees is true exactly for the accepted ones.',
 ['inputs'], 'all particle distributions, radii, tolerances, iteration limits and minimum particle numbers, in all four shape algorithms',
 'The test halos converge at almost all radii and nothing compares the flag or NaN pattern with the iteration outcome.',
 [ALG, SCL], [('iteration loop with wall / minimum exits zeroing the result', ALG+': run*Algo'), ('zero to NaN conversion', ALG+': calcMorph*'), ('is_conv field', SCL)])

prop('C05', 'Parallel loops are race free',
 'In every loop that runs on several threads, each memory location written is owned by the current iteration or by the executing thread, and nothing shared is written while another thread may access it. Results therefore do not depend on thread count or scheduling.',
 ['schedules'], 'all thread counts and all dynamic schedules of every parallel loop',
 'Tests run with two threads and a few objects; a race corrupts results rarely and shapes of arrays never.',
 [ALG, DALG, CH, GC], [('per-thread scratch indexed by thread number', ALG+', '+DALG), ('result rows indexed by loop variable', ALG+', '+DALG)])

prop('C06', "An object's result depends only on that object's own data",
 'The centre, mass, shape and density profile computed for an object depend only on the particles, virial radius and options of that object, and all of its particles are used. They do not depend on which other objects are selected, on their order, or on what was processed earlier in the same buffers. (A shape query for which a saved catalogue exists returns the saved one, see C07.)',
 ['inputs', 'schedules', 'histories'], 'all catalogues, selections and processing orders',
 'Tests hold one or two objects and never compare a result with the one from a different selection or order.',
 [ALG, DALG, GC], [('object offsets from cumulative sizes', ALG+', '+DALG), ('gather of own particles into scratch before use', ALG+', '+DALG)])

prop('C07', 'Saved shape catalogues load back as what was computed',
 'For each kind of shape catalogue (local or overall, positions or velocities) the set of files written by a dump is exactly the set that a later query reads, field by field, at the same place. Values are converted to output units when written and back by the inverse factor when read, arrays are flattened and restored in the same layout, different kinds never share a file, and a query for which a stored catalogue exists returns that one.',
 ['histories', 'configurations'], 'all sequences of dump and query calls on one output folder, for all four kinds of catalogue',
 'Tests dump catalogues but never compare what a later query returns with what was computed.',
 [CB, SCL], [('_dumpShape*CatBase writes, _getShapeCat*Base reads', CB), ('kind suffixes', SCL)])

prop('C08', 'Principal axes stay matched to their lengths from solver to output',
 'The axis reported as major, intermediate and minor is the eigenvector of the largest, middle and smallest eigenvalue respectively, with components in x, y, z order, and the two reported ratios are intermediate/major and minor/major, in every shape algorithm. No later step (projection, per-object copy, stacking, return, catalogue field, density estimation in ellipsoids) permutes or mixes them.',
 ['inputs'], 'all inputs of all four shape algorithms and everything that consumes their results',
 'All axis arrays have the same shape, so a swap changes no shape that tests assert.',
 [ALG, CB, SCL, DCL, DALG, CH], [('12-slot shape record', ALG+': run*Algo'), ('per-slot unpacking and stacking', ALG+': calcMorph*'), ('8-tuple of results', CB)])

prop('C09', 'Profile models, their parameters and their fits agree everywhere',
 'For each supported density model (Einasto, alpha-beta-gamma, Hernquist, NFW) evaluation, mock generation, fitting and result tables use the same formula and the same parameters in the same order, and no other model name is silently accepted. A parameter that the user pins is held at that value, the remaining ones are fitted, and a concentration is the virial radius over the scale radius.',
 ['inputs', 'configurations'], 'all models, all subsets of pinned parameters and all profiles',
 'Tests fit each model once with one set of options and assert array lengths only.',
 [DT, DCL, CB, MOCK, PR], [('model evaluation and dispatch', DT), ('parameter packing and result fields', DCL+': fitDensProfs')])

prop('C10', 'Cached results equal recomputed ones',
 'A call served from a cache returns what the function would return for those arguments now: the key distinguishes all arguments by value and array shape, and a cached function reads no other changeable state of the process (the snapshot files are taken as fixed while it runs). Concurrent use cannot corrupt the cache, the user function never runs while the cache lock is held, and a limited cache never holds more entries than its limit.',
 ['schedules', 'histories', 'inputs'], 'all sequences and interleavings of calls through the caching decorators',
 'The tests never call a cached function twice with different arguments or from two threads.',
 [CACHE, FOF, RG, CT], [('lru_cache and np_cache_factory', CACHE), ('cached readers', FOF)])

prop('C11', 'Multi-process runs neither deadlock nor write twice',
 'Every collective communication call is reached by every process in the same order, no matter which rank it has or what its cache holds, and sender and receiver agree on the element type and the number of elements. A group catalogue read by several processes is on each of them the one that a single process reads. Files and folders are written by the root process only, and the results of a query are produced there while other processes receive empty results without failing.',
 ['schedules', 'configurations'], 'all numbers of processes and all ranks',
 'Tests run in a single process, where rank is zero and every collective is trivial.',
 [FOF, SCL, DCL, CB, GC], [('rank guards', CB+', '+DCL+', '+SCL), ('collectives in the group catalogue reader', FOF)])

prop('C12', 'Results are reproducible: no hidden randomness or clock enters a result',
 'Every random draw inside the library comes from a generator that was given a fixed seed in the same call, so that repeating a call in the same or another process gives the same result, whatever the caller does with the global random state. No result depends on time, process identity, hash order or the environment.',
 ['histories', 'inputs'], 'all repetitions of any public call, in any process',
 'The test harness seeds the global generators itself, so an unseeded draw looks reproducible under test.',
 [PR, SCL, MOCK, DT, ST], [('default_rng(seed=...) and np.random.seed(shell)', PR+', '+SCL)])

prop('C13', 'Periodic wrapping treats each axis alone and shifts by whole boxes only',
 'When a box length is given, each coordinate of each particle is moved by a whole box length, in the direction that brings it closer, exactly when its distance from the reference along that same axis exceeds half a box, and is left alone otherwise. With box length zero nothing moves; recentred object centres are wrapped back into the box in the same per-axis manner, and centres and particles are always treated in the same way.',
 ['inputs'], 'all particle positions and box lengths',
 'Test halos do not straddle the box boundary, so wrapping never triggers.',
 [PR, CH, ALG, DALG, CT], [('respectPBCNoRef (both implementations), recentreObject', PR+', '+CH)])

prop('C14', 'Native memory and file handles are released on every path',
 'Every block of native memory obtained inside the library is released exactly once on every path out of the routine, is never used afterwards, and is as large as the use made of it requires. Every file opened for reading or writing is closed on every normal path, including early returns.',
 ['inputs', 'histories'], 'all calls and all exits of the routines that allocate native memory or open files',
 'A leak or a too small work array shows only after many calls or as memory corruption, never as an assertion on array shape.',
 [CH, FOF, RG, RS], [('PyDataMem_NEW/FREE around the eigen solver', CH+': ZHEEVR'), ('file handles in readers', RS+', '+RG+', '+FOF)])

prop('C15', 'Output files go to existing folders under names that cannot collide',
 'Whatever a public call writes goes below the folder that the user gave for that kind of output (plots or catalogues), which has been created, at that same place, before the first write. Files of different plot kind, object type, object or snapshot have different names.',
 ['inputs', 'histories', 'configurations'], 'all output folders (absolute, relative, not yet existing) and all sequences of plot and dump calls',
 'Tests use one absolute pre-made folder and do not check what was overwritten.',
 [CB, SCL, ST, DT], [('mkdir before savefig / savetxt', CB+', '+ST+', '+DT)])

prop('C16', 'Queries leave inputs, stored data and shared defaults untouched',
 "No call modifies an array, list or dictionary that the caller passed in, the particle data and index lists that an object holds, or a shared default option. Repeating any query therefore gives the same answer, whatever other queries were made in between.",
 ['histories', 'inputs'], 'all sequences of public calls on one object',
 'Each test makes a single pass of calls and never looks at the inputs afterwards.',
 [DALG, ALG, PR, DT, MOCK, SCL, DCL, CB, CT], [('copies before in-place operations', PR+', '+ALG+', '+DALG)])

prop('C17', 'Bins are half-open and complementary, and densities divide mass by their volume',
 "A particle belongs to a spherical or ellipsoidal shell exactly when it lies at or beyond the inner and strictly inside the outer surface of that shell, so adjacent bins share an edge and no particle is counted twice or lost; it belongs to a solid ellipsoid exactly when strictly inside. A binned density is the total mass of exactly these particles over the volume between the same two surfaces, an enclosed mass is their mass sum, and the smoothed density is the sum over all particles of mass times the normalised kernel at that radius.",
 ['inputs'], 'all particle sets, bin edges, radii and axis ratios, in every membership test',
 'Off-by-one and boundary changes alter numbers by one particle, while tests check array shapes.',
 [CH, DALG, ALG], [('membership loops and density sums', CH), ('bin edges and interpolation of axes', DALG)])

prop('C18', 'Snapshot and group files are decoded field by field as laid out',
 'Each header field and data block of a snapshot is taken from the position, type and byte order that the file format gives it, the bytes stepped over equal the bytes the format puts there, and big-endian files give the same values as little-endian ones. Multi-file data are joined completely, in order, with offsets advanced by what was actually read, and each requested block and particle type maps to its own data set.',
 ['inputs', 'configurations'], 'all supported file formats, byte orders, particle types, blocks and numbers of files',
 'The tests include no snapshot reading at all.',
 [RS, RG, FOF], [('snapshot_header, read_block, find_block', RS), ('read_field, header', RG), ('getFoFSHData', FOF)])

prop('C19', 'Only sufficiently resolved objects enter, and all their tables stay aligned',
 'An object enters the inventory exactly when it has at least the configured minimum number of particles. The index lists, sizes and virial radii kept for the objects that enter are all reduced by that same criterion in the same order, so row k of each of them describes the same object.',
 ['inputs'], 'all catalogues, including objects at, just below and just above the limit in any position',
 'In the tests every object passes the limit, so a misaligned or off-by-one filter changes nothing.',
 [SCL, GC], [('filter loops in constructors', SCL+': DensShapeProfs.__init__'), ('calcObjCat', GC)])

prop('C20', 'Every public operation reaches code that exists and accepts its arguments',
 'Each public function and method, for every combination of its options, calls only functions, methods, attributes, table keys and variables that exist on the object or module at hand, with the number and names of arguments that they accept, and unpacks as many results as they return. No option combination can therefore fail with a name, attribute, key, arity or unpacking error.',
 ['inputs', 'configurations'], 'all public entry points with all option combinations',
 'Many entry points (velocity catalogues, local ellipticity histogram, several converters and readers) are called by no test.',
 [SCL, DCL, CB, PR, CFG, ST, DT, FOF, RG, RS, GC, MOCK, CT], [('call graph from every public entry point', 'all modules')])

prop('C21', 'Options reach the algorithm step they govern, unswapped',
 'The tolerance, iteration limit, minimum particle number, reduced flag, shell flag, centring rule, box length, radii and binning choice that a user configures arrive, from every public entry point, at the computation step of the same meaning and nowhere else. Shell-based runs use shells bounded by consecutive radii, others solid ellipsoids, overall shapes the virial radius plus the safety margin, and velocity catalogues the velocities.',
 ['configurations', 'inputs'], 'all option values and all public entry points',
 'Tests pass one option set; swapped integer options or a dropped flag change no array shape.',
 [SCL, DCL, CB, ALG, DALG, ST], [('argument lists from public methods through base methods to kernels', SCL+', '+CB+', '+ALG)])

prop('C22', 'Shape tensors and centres are mass-weighted moments of the right particles',
 "The tensor that is diagonalised is the symmetric mass-weighted second moment, about the object's centre, of exactly the particles selected by the latest ellipsoid (for velocity catalogues: of their velocities about the object's mean velocity), divided by the total selected mass and, in reduced mode, by each particle's squared ellipsoidal radius; each iteration reselects in the frame and with the axis ratios of its own solution. Centre of mass and mean velocity are the mass-weighted means over all particles of the object, and its total mass is the sum of their masses.",
 ['inputs'], 'all particle sets, masses, modes and iterations',
 'With equal masses and near-spherical test halos most wrong weights or frames leave results plausible, and only shapes are asserted.',
 [CH, ALG, PR], [('calcShapeTensor, calcCoM', CH), ('iteration loops', ALG), ('calcMode, calcCoM', PR)])

prop('C23', 'Mock halos distribute their mass over shells as the model says',
 'A mock halo draws, for every shell between consecutive radii, the number of particles that the model mass in that ellipsoidal shell amounts to, with the mass normalised to the requested total, and every particle drawn for a shell lies between its two surfaces. All shells are drawn and concatenated, once each.',
 ['inputs', 'configurations'], 'all models, axis profiles, radii and particle resolutions',
 'Tests use mock halos as input data and do not examine them.',
 [MOCK, PR], [('genHalo', MOCK), ('drawUniformFromShell', PR)])

prop('C24', 'Plotted and tabulated shape and profile statistics are the defined ones',
 'For every catalogue: triaxiality is (1-q^2)/(1-s^2) of the same object; the local shape that enters a histogram is the one at the radius closest to the requested fraction of R200, and the projected ellipticities are those of the mass-weighted second moments about the object centre of the particles within that fraction. Unconverged (NaN) shapes never enter a histogram or a shape profile, and every converged value enters at the closest of the requested radii. A profile is the median over its objects with the quartiles over sqrt(number) as errors. The mass bins hold the objects in order of mass, equally many in each but the last, each object in exactly one bin, with the smallest mass of each bin and the largest of all as edges; a plot of a bin is made from exactly the objects of that bin, under the name of its edge. A density plot shows the median over its objects and the profile model evaluated with the parameters fitted to that median, both converted from internal to output units.',
 ['inputs'], 'all catalogues, particle sets, mass bins and radii',
 'Tests only check that plotting runs.',
 [ST, DT, CT], [('getLocalTHist, getGlobalTHist, get*EpsHist, getShapeProfs', ST), ('drawDensProfs', DT), ('M_split, getMeanOrMedianAndError, getCatWithinFracR200', CT)])

prop('C25', 'Recovered shapes and profiles are numerically accurate',
 'For a mock halo with known axis ratios and density profile the estimated shapes, densities and fit parameters agree with the truth within the statistical error of the sample.',
 ['inputs'], 'all mock halos of sufficient resolution', 'Tests check array shapes and loose bounds for a few halos.',
 [ALG, DALG, DT], [('shape iteration, density estimators, fits', ALG+', '+DALG+', '+DT)])

prop('C26', 'Fits reach the best parameters within their bounds',
 'A converged density fit minimises the residual over the admissible parameter range, independent of the starting point.',
 ['inputs'], 'all profiles, models and minimisation methods', 'The optimiser result is not compared with anything.',
 [DT], [('fitDensProf', DT)])

prop('C27', 'An interrupted dump is never taken for a complete catalogue',
 'If the process dies while a catalogue is being written, a later query either recomputes or fails, and never returns a mixture of complete and truncated files.',
 ['crash_points'], 'all points at which a dump can be interrupted', 'No test interrupts a dump.',
 [CB], [('sequence of savetxt calls', CB)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
