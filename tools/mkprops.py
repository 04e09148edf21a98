"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=['flowtracks/'+f if '/' not in f else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
            mechanism=[dict(name=n, where=w) for n,w in mech],
            observe_at=list(observe), hook_needed=None)))

I=['inputs']; H=['inputs','histories']; C=['inputs','configurations']

p('C01','Particle sets store and slice properties faithfully',
 'Every property of a particle set, trajectory or snapshot reads back exactly as it was stored, in whole or for any selection of rows. Writing a property, in whole or for a selection, changes exactly those rows of that property of that object and nothing else. The reported length, property names, shapes and types and the dictionary view always agree with the stored data.',
 H,'all property values, all selections (masks, indices, slices), all sequences of create/set/get',
 'Tests only use sets as carriers and compare a few fixed arrays; no test writes through a setter, uses a selector or checks schema against data.',
 ['trajectory.py'],[('property getter/setter factory','ParticleSet.create_property'),('views','ParticleSet.schema / ext_schema / as_dict / __len__')],
 ['ParticleSet accessors'],[('_<prop> arrays','one array per property','ParticleSet.__dict__')])

p('C02','Row tables of trajectories and per-frame particle collection',
 'Indexing a trajectory yields, for each selected time point, one row of position, velocity, time and trajectory number. Collecting the particles of a frame from a list of trajectories yields exactly the rows of the trajectories that have that frame (in segment mode: that frame and the next one, paired with the same trajectory\'s next row), keeping only the first of several that occupy the same position.',
 I,'all trajectories (positions, velocities, start times, ids), all frames, both modes',
 'No test indexes a trajectory or calls the collectors.',
 ['trajectory.py','io.py'],[('row table','Trajectory.__getitem__'),('collection','collect_particles_generic')])

p('C03','Duplicate-position filtering keeps each position exactly once',
 'Filtering a table of particle rows by position returns the indices of the first occurrence of every distinct position and no others, in increasing order. Columns other than the three position columns never influence the result.',
 I,'all tables of n>=1 rows with finite positions',
 'The function is never called by a test that has two particles in one place.',
 ['trajectory.py'],[('lexsort + diff','mark_unique_rows')])

p('C04','Selecting the trajectories active in a frame is exact',
 'Asking which trajectories take part in a frame returns, in list order, exactly those whose time span contains the frame (and, when segments are asked for, also the following frame), with particles that share a position in that frame represented by only the first. Supplying precomputed start and end times gives the same answer as leaving them out.',
 I,'all lists of trajectories without holes, all frames, segments on and off, with and without precomputed times',
 'No test calls it directly; nothing samples overlapping particles, one-frame trajectories or frames at span boundaries.',
 ['trajectory.py'],[('candidate mask and overlap filter','trajectories_in_frame')])

p('C05','A snapshot holds each trajectory\'s own data for the frame',
 'A snapshot taken at a frame from trajectories active in it has one row per trajectory in the given order, and every property of that row (extra properties included) and its trajectory number are those of that trajectory at that frame; the snapshot\'s time is the frame. From an empty list it is an empty snapshot with every property of the given schema present with the right item shape.',
 I,'all lists of trajectories, frames inside their spans, property sets',
 'The only tests that reach it fail on this platform; none varies start times, order or extra properties.',
 ['trajectory.py'],[('row copy','take_snapshot')])

p('C06','Linked frame files become exactly the linked trajectories',
 'Reading a sequence of per-frame particle files (or the equivalent single concatenated file) yields each chain of previous/next links that ends within the frames read exactly once: its positions in metres, in frame order, with its frame numbers, under a number no other trajectory has. Chains shorter than the requested minimum length are left out, and no row appears in two trajectories.',
 ['inputs','histories'],'all consistent link structures over the frames, all positions, any minimum length, any directory order, empty frames included',
 'One fixture with 3 parallel 4-frame trajectories that all start in the first and end in the last frame: no birth, death, crossing, gap or short chain is ever exercised.',
 ['io.py'],[('link following with frame buffer','iter_trajectories_ptvis'),('frame file iteration','FramesIterator, SingleFileIterator')],
 ['trajectories_ptvis'],[('frame buffer','frames still needed by live trajectories','iter_trajectories_ptvis: frames, frame_buffer_start'),('traj_starts','first frame index of each live trajectory','iter_trajectories_ptvis')])

p('C07','Velocity and acceleration derived from linked frames',
 'For trajectories read from position-only frame files, the velocity at every point but the last is the displacement to that trajectory\'s next point times the frame rate, and zero at the last point. The acceleration (also for files that carry velocities) is the forward difference of the velocities times the frame rate, zero at the last two points.',
 I,'all link structures, positions, velocities and frame rates within the bounds',
 'The one test uses frame rate 1 and the same straight-line motion in each trajectory.',
 ['io.py'],[('velocity back-fill and acceleration','iter_trajectories_ptvis')])

p('C08','XUAP files: velocities come from the file, links are one-based',
 'Reading a sequence of xuap files yields the chains given by their one-based links (0 in the previous-link column starts a chain), each with the positions and velocities stored in the files in unchanged units, with its frame numbers, once each, under distinct numbers and not below the minimum length.',
 I,'all consistent link structures, positions and velocities over the frames',
 'The single xuap test fails on this platform and only counts trajectories.',
 ['io.py'],[('xuap branch','iter_trajectories_ptvis')])

p('C09','Frame limits select exactly the frames asked for, in every format',
 'Whatever the format, restricting a read to first..last (both included, either may be missing) gives exactly what the data of the frames within those limits alone would give, whatever order the file system lists the files in. An HDF scene\'s range is half-open (first included, last excluded), consistently for all of its iterators.',
 ['inputs','configurations'],'all limits (including None), all frame numbers and directory orders; formats ptv_is, xuap, trajAcc, npz, table and hdf via the common entry point',
 'Tests read either everything or one fixed sub-range, in one format; the sub-range test compares an empty list.',
 ['io.py','scene.py'],[('range filters','FramesIterator, trajectories_acc, load_trajectories, trajectories_table, trajectories'),('query limit','Scene.set_frame_range')])

p('C10','Trajectory directory (npz) round trip',
 'Saving trajectories with per-trajectory additions to a directory and loading it back returns the same trajectories: same numbers, every property unchanged, and every addition attached to its own trajectory. Loading with frame limits keeps exactly the rows within them and drops trajectories that have none.',
 I,'all trajectory contents, ids, additions and limits within the bounds',
 'The npz format has no test at all.',
 ['io.py'],[('writer/reader pair','save_trajectories, load_trajectories')])

p('C11','Particle-table (HDF5) round trip, with trimming',
 'Writing trajectories to a particle table and reading it back, as a list or through a scene, returns every trajectory longer than twice the trim with its own number and all its properties at exactly its untrimmed time points. The recorded bounds of each written trajectory are its first and last written times.',
 I,'all trajectory contents, numbers, lengths and trims within the bounds',
 'The two HDF writing tests fail on this platform; neither varies lengths, ids or trims.',
 ['io.py','scene.py'],[('writer','save_particles_table'),('readers','trajectories_table, Scene')],
 ['trajectories_table','Scene.trajectory_tags'])

p('C12','Frame-by-frame (HDF5) writing round trip',
 'Writing a sequence of snapshots and reading the file as a scene returns for every written frame the same particles with the same properties. The recorded first and last frame of each trajectory are the earliest and latest frames it was written in (holes allowed), and the bounding box is the minimum and maximum position over all particles.',
 ['inputs','histories'],'all sequences of snapshots in increasing time, with appearing, disappearing and reappearing trajectories and empty frames',
 'No test calls this writer.',
 ['io.py','scene.py'],[('writer','save_frames_hdf'),('reader','Scene.iter_frames, frame_by_time, bounding_box, trajectory_tags')])

p('C13','Scene iteration by trajectory partitions the data',
 'Iterating a scene\'s trajectories yields one trajectory for every trajectory number in the file, holding exactly the rows with that number whose time is in the frame range, with all properties unchanged and in file order; fetching a trajectory by number gives the same one. Changing the frame range affects all later reads and nothing else.',
 H,'all tables of particles within the bounds, all frame ranges, any order of range changes and reads',
 'One 12-row file with three identical spans, one range.',
 ['scene.py'],[('range query','Scene.set_frame_range, iter_trajectories, trajectory_by_id')])

p('C14','Scene iteration by frame partitions the data',
 'Iterating a scene by frames yields one snapshot for every frame number of the range, in increasing order, empty frames included; each holds exactly the rows of that frame with all properties and trajectory numbers unchanged. Asking for a single frame gives the same snapshot.',
 I,'all tables within the bounds, all ranges',
 'The frame iteration tests fail on this platform, and have no empty frame or partial trajectory.',
 ['scene.py'],[('frame query','Scene._iter_frame_arrays, iter_frames, frame_by_time')])

p('C15','Segment iteration pairs exactly the continuing particles',
 'Iterating a scene by segments yields, for every pair of consecutive frames in the range, the particles of the first frame that also exist in the second and the same particles in the second: both hold the same set of trajectory numbers, each with its own unchanged data, and the second\'s time is one more than the first\'s.',
 I,'all tables within the bounds, all ranges; appearing, ending and re-appearing trajectories, empty frames',
 'No test iterates segments.',
 ['scene.py'],[('pairwise intersection','Scene.iter_segments')])

p('C16','Collecting columns honours every range condition exactly',
 'Collecting columns with conditions returns, in file order, the values of exactly the rows that lie in the scene\'s frame range and satisfy every condition: min <= value < max, or value < min or value >= max when inverted. All requested columns come from the same rows in the requested order, whether or not a frame range is set.',
 C,'all tables within the bounds, all numeric limits (any magnitude), inverted or not, any number of conditions, with and without a frame range',
 'The test collects one column with no condition; the query-string test uses the limits -1 and 1.',
 ['scene.py'],[('condition text','gen_query_string'),('query assembly','Scene.collect')])

p('C17','A dual scene keeps tracers and particles in step',
 'Every frame or segment of a dual scene pairs tracers and particles of the same time point, over exactly the requested frame range, each with the data of its own file. A range given to one iteration applies to that iteration only: once it finishes the scene\'s own range is in force again.',
 H,'all pairs of tables within the bounds, all ranges, sequences of iterations',
 'No test touches the dual scene.',
 ['scene.py'],[('paired iteration and range restore','DualScene.iter_frames, iter_segments'),('configuration','read_dual_scene')])

p('C18','An analysis file has one correct row per particle segment',
 'Running an analysis writes exactly one row for every particle of every segment in the range, carrying the particle\'s trajectory number, the time of the segment\'s first frame, and for each analyser output the value that analyser returned for that particle. The file names the configuration and particle source it came from.',
 I,'all dual scenes within the bounds, all analyser results (scalar and vector), several analysers, any range',
 'The analysis driver has no test.',
 ['analysis.py'],[('row assembly','analysis')])

p('C19','Fluid velocity at particles: relative velocity and companions',
 'The fluid-velocity analysis gives each particle the interpolation of the tracer velocities of its own frame at its own position, and its relative velocity is exactly its velocity minus that. A particle\'s companion tracer, identified by trajectory number, never contributes when present in the frame, and a companion that is absent excludes nothing.',
 I,'all tracer and particle sets within the bounds, companions present or absent',
 'Two fixed symmetric configurations with both companions present.',
 ['analysis.py','interpolation.py'],[('companion lookup','companion_indices'),('analysis','FluidVelocitiesAnalyser.analyse')])

p('C20','An analysed scene joins analysis and particle data correctly',
 'Collecting columns from an analysed scene returns rows that match across sources: the i-th entry of every column belongs to the same trajectory and time, and the rows are exactly the analysed particle points meeting all conditions on either source. A trajectory fetched or iterated has all particle points but the last, each with the analysis of that same point.',
 I,'all consistent scene/analysis pairs within the bounds, conditions on either side',
 'No test opens an analysed scene.',
 ['an_scene.py'],[('row matching','AnalysedScene.collect'),('merge','AnalysedScene.trajectory_by_id, iter_trajectories')])

p('C21','Neighbour selection by distance matrix is exact',
 'Neighbour selection reports true distances and marks, for every interpolation point, exactly the nearest tracers up to the requested number, or exactly those closer than the radius when one is given. A tracer at the very same position and the designated companion are never marked as neighbours. The neighbour distances an interpolant lists for each point are those of its nearest such tracers up to its number of neighbours, and zero for missing ones.',
 I,'all tracer and point sets within the bounds, any neighbour count, radius and companions; ties may go either way',
 'One symmetric configuration with a companion; no coincident tracer, no shortage of tracers, no radius.',
 ['interpolation.py'],[('distance matrix and ranking','select_neighbs')])

p('C22','A recorded interpolation scene has the right neighbours',
 'After recording a scene, each interpolation point\'s current neighbours are exactly its nearest eligible tracers (not coincident with it, not its companion, within the radius when one is set) up to the configured number, listed with their true distances and relative positions; missing ones are marked as missing. The points never influence each other\'s neighbours.',
 I,'all tracer and point sets within the bounds, with and without radius, companions and coincident tracers',
 'Fixed radially symmetric scenes with a single point.',
 ['interpolation.py'],[('tree query and exclusion','GeneralInterpolant._select_neighbs, _forego_laziness')])

p('C23','Inverse-distance interpolation is the weighted mean of the neighbours',
 'Inverse-distance interpolation gives at each point the mean of its neighbours\' data weighted by distance to the power of minus the parameter; it therefore lies within the range of the neighbours\' data and reproduces a constant field. Missing neighbours, unset memory and other points contribute nothing, and an explicit neighbour selection uses exactly the selected ones, for that call only.',
 I,'all neighbour distances, data of any dimension, powers and subsets within the bounds',
 'Only equidistant neighbours are tested, so that the weights and their power do not matter.',
 ['interpolation.py'],[('weights','InverseDistanceWeighter.weights, _apply_weights, _meth_interp')])

p('C24','Radial-basis and correlation interpolation follow their definitions',
 'Radial-basis interpolation of a point uses coefficients that reproduce the data at its neighbours under the Gaussian kernel and evaluates that expansion at the point. Correlation interpolation gives the mean of the neighbours\' data weighted by the histogram value of the bin containing each neighbour\'s distance; in both, only the point\'s own neighbours contribute.',
 I,'all distances, neighbour sets, data and histograms within the bounds',
 'The radial-basis test only checks that the call returns; the correlation method is untested.',
 ['interpolation.py'],[('rbf_interp, corrfun_interp','interpolation.py'),('method dispatch','GeneralInterpolant.__call__, _meth_interp')])

p('C25','A reused interpolant answers like a fresh one',
 'After any sequence of recording scenes, moving the points, moving the tracers, replacing the data, trimming points and interpolating, an interpolant\'s next interpolation, neighbours, distances and derivatives equal those of a new interpolant given the final tracers, points and data. One-off calls leave the recorded scene unchanged.',
 ['histories','inputs'],'all sequences of up to 3 state-changing operations from a recorded scene, all data',
 'Tests make at most one change after recording a scene, and compare shapes only.',
 ['interpolation.py'],[('caches of neighbours, weights and matched data','GeneralInterpolant, InverseDistanceWeighter')],
 [],[('neighbour/weight/matched-data caches','derived from tracers, points and data','GeneralInterpolant')])

p('C26','Inverse-distance velocity gradients are the true derivatives',
 'The Jacobian returned for inverse-distance interpolation is the analytic derivative of the interpolated field with respect to the position of the point: entry [i,j] is the derivative of component i along axis j. It is zero for constant data and linear in the data, and missing neighbours contribute nothing.',
 I,'all relative positions, data and integer powers within the bounds',
 'The Jacobian test is commented out.',
 ['interpolation.py'],[('analytic derivative','InverseDistanceWeighter.eulerian_jacobian')])

p('C27','Interpolant settings survive a configuration round trip',
 'Saving an interpolant\'s settings to a configuration and reading it back yields an interpolant with the same method, number of neighbours, radius and parameter, for any interpolant that can be built, whether or not the optional settings were given. Missing optional settings take the documented defaults of the method.',
 ['configurations'],'all methods, neighbour counts, radii and parameters, each given or not',
 'The round-trip test re-reads the original file, not the one it wrote.',
 ['interpolation.py'],[('writer/reader','GeneralInterpolant.save_config, read_interpolant')])

p('C28','Sequence and dual-scene settings survive a configuration round trip',
 'Saving a sequence to a configuration and reading it back yields a sequence with the same frame range, frame rate, particle properties, file names, smoothing and minimum-length settings; explicit arguments override the file and documented defaults fill what is missing. The same configuration read as a dual scene gives the same range, rate and particle.',
 ['configurations'],'all ranges, rates, particles, minimum lengths, smoothing flags and file templates, each given or not',
 'One fixed file without the optional settings, comparing three of the fields.',
 ['sequence.py','scene.py'],[('writer/reader','Sequence.save_config, read_sequence'),('reader','read_dual_scene')])

p('C29','Sequence iteration yields every segment of the range once',
 'Iterating a sequence yields, for every frame from the first up to but not including the last of its range, the tracers and particles whose trajectories cover that frame and the next, with their data in both frames row for row; trajectories below the minimum length or outside a given selection are left out. A sub-range applies to that iteration only, and iterating again gives the same frames whatever was done with the sequence before.',
 H,'all sets of trajectories within the bounds, ranges, sub-ranges and sequences of iterations',
 'No test iterates a sequence.',
 ['sequence.py'],[('iteration state','Sequence.__iter__, iter_subrange, next')],
 [],[('_frame/_act_rng','iteration position and active range','Sequence')])

p('C30','Mapping over a sequence builds each trajectory\'s own time series',
 'Mapping a function over a sequence gives, for each particle trajectory with segments in the range, the results the function returned for that trajectory in frame order, one per segment, and nothing for other trajectories. The function sees every segment once, with the results so far when history is requested and the extra arguments it was given. The time span reported for a selection of trajectories is theirs, within the range.',
 H,'all sets of trajectories within the bounds, sub-ranges, per-frame results',
 'No test maps over a sequence.',
 ['sequence.py'],[('per-trajectory counters','Sequence.map_trajectories'),('time span of selection','Sequence.subrange')])

p('C31','Particle pairing returns the closest tracer of the same frame',
 'For every requested point, pairing returns the trajectory and time index of the closest particle among the secondary trajectories that cover the point\'s frame and the next, whatever the order in which points are requested. Where no secondary trajectory does, the time index is -1.',
 I,'all primary and secondary trajectories within the bounds, all lists of requested points in any order',
 'No test.',
 ['pairs.py'],[('per-frame nearest search','particle_pairs')])

p('C32','Savitzky-Golay smoothing is exact on polynomials',
 'Away from the ends, smoothing leaves polynomial motion up to the filter order unchanged and returns its exact first and second time derivatives for the frame rate as velocity and acceleration. Trajectories shorter than the window are dropped, the others keep their number, times, length and all properties that smoothing does not define, and the predicted velocity and acceleration agree with motion up to the third degree. Unusable window/order combinations are rejected.',
 I,'all polynomial coefficients, frame rates, window/order pairs and extra properties within the bounds',
 'The smoothing module is imported by no test.',
 ['smoothing.py'],[('filter coefficients','savitzky_golay')])

p('C33','Matlab and trajAcc imports convert and split data correctly',
 'Reading a Matlab trajectory file gives one trajectory per record with position, velocity and acceleration converted from millimetres to metres and its own times and number. Reading trajAcc files gives one trajectory per run of path ages starting at zero, with its own rows and the frame numbers they belong to, under distinct numbers.',
 I,'all record contents and path-age layouts within the bounds',
 'No test reads either format.',
 ['io.py'],[('unit conversion','trajectories_mat'),('run splitting','trajectories_acc')])

p('C34','Collecting a frame\'s particles from trajAcc files',
 'Collecting the particles of a frame from trajAcc files returns exactly the rows of every trajectory, starting in this or an earlier frame, that reaches the frame (in segment mode: and continues, paired with its next row), each position once. Collecting them from a list of trajectories or a Matlab file does the same.',
 I,'all path-age layouts within the bounds, both modes',
 'No test.',
 ['io.py'],[('backward walk','collect_particles')])

p('C35','Reading a configured frame pair',
 'Reading a frame through a configuration returns the particle properties and frame rate of the file and the tracers and particles present in both the configured frame and the next, with matching rows in the two frames and their data unchanged.',
 C,'all trajectories within the bounds, all configured frames',
 'No test.',
 ['io.py'],[('assembly','read_frame_data')])

p('C36','Particle volume and mass are those of a sphere',
 'A particle\'s volume is that of a sphere of its diameter and its mass is that volume times its density, for any diameter and density, also after either is changed.',
 I,'all diameters and densities','No test evaluates them.',
 ['particle.py'],[('volume, mass','Particle')])

p('C37','File format inference follows the documented names',
 'The format inferred from a file name depends on the name only and follows the documented order: mat ending, trailing slash (npz), ptv_is in the name or .txt ending, xuap in the name, h5 or hdf ending, and otherwise trajAcc; the common reader then reads the file as that format unless told otherwise.',
 I,'all file names','One name per format appears in tests, most formats not at all.',
 ['io.py'],[('name rules','infer_format'),('dispatch','trajectories')])

p('C38','Probability densities integrate to one over the data',
 'The histogram generated for a data set with at least two different values counts every sample (every positive one for logarithmic bins) exactly once, its edges span the data from minimum to maximum in equal (logarithmic) steps, and the densities integrate to one.',
 I,'all data sets','No test.',
 ['graphics.py'],[('binning','pdf_bins')])

p('C39','Spline smoothing keeps the error bound and returns the spline\'s derivatives',
 'Spline smoothing fits one spline of the requested order through all positions with a total squared deviation of at most (length times bound) squared, and returns a trajectory with the same number, times and length whose positions, velocities and accelerations are the values, first and second derivatives of that spline. Velocities do not depend on how long the same motion is followed. Trajectories too short for the order are returned unchanged.',
 I,'all trajectories, bounds and orders','No test.',
 ['trajectory.py'],[('FITPACK spline','Trajectory.smoothed')])

p('C40','Graphs draw the values they are given',
 'A histogram graph draws one point per bin, the density over the start of the bin, on logarithmic axes exactly where asked. A vector graph has three graphs one below another, with each component over the independent variable, its arrows at its points, in the given figure if one is given, with the common scale centred on the mean and the number of ticks asked for; the data are unchanged.',
 I,'all data within the bounds, all combinations of options','No test imports the module.',
 ['graphics.py'],[('histogram graph','pdf_graph, generalized_histogram_disp'),('vector graph','plot_vectors')])

p('C41','The analysis script analyses the configured scene as its options ask',
 'Run with a configuration and an output name, the analysis script writes one row for each particle and segment of the configured range, with the fluid velocity interpolated from the tracers of that frame by the method, number of neighbours and parameter given as options (inverse distance, 4 neighbours and power 1 if none are) and the velocity relative to it, and notes the configuration and particle file.',
 C,'all data within the bounds, the options listed','No test runs the script.',
 ['scripts/analyse_fhdf.py','analysis.py'],[('options','analyse_fhdf.py'),('table','analysis')])

p('C42','General velocity gradients are forward differences of the field',
 'The Jacobian that a radial-basis or correlation interpolant returns for its recorded scene is the forward difference of its own interpolated field: entry [i,j] is the change of component i over the given step along axis j (100 micrometres unless given), relative to the interpolation supplied or else the recorded scene\'s. The scene stays as recorded. A one-off call of any interpolant gives the same values as recording the same tracers, points, data and companions and interpolating.',
 H,'all tracers, points, data, companions, steps within the bounds; fresh and reused interpolants',
 'No test calls the general Jacobian, nor compares the two ways of interpolating.',
 ['interpolation.py'],[('finite differences','GeneralInterpolant.eulerian_jacobian'),('one-off calls','GeneralInterpolant.__call__, InverseDistanceWeighter.__call__')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
    for x in P: assert len(x['title'])<=80, x['title']
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    print(len(P))
