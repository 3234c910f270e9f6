"""Property metadata: the single source of properties.jsonl and MANIFEST.json."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, level_note, technique):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=[{'name': n, 'where': w} for n, w in mech],
                      level_note=level_note, technique=technique))


P('P01', 'Padding, cropping, binning and coordinate axes keep pixel registration',
  'Padding or cropping an array, centred or around any chosen pixel, keeps every retained sample at the same position relative to the array centre, fills the rest with the requested value and never changes sample values or the data type. Coordinate axes and grids put zero at that same centre pixel (or half a pixel beside it for inter-pixel centring) with uniform spacing for even and odd lengths, block downsampling returns exact block means and refuses sizes it cannot divide, and the even/odd/power-of-two rounding helpers return the smallest admissible integer.',
  ['inputs', 'histories'], 'every input shape, output shape, chain of two crops or pads, fill value, data type, crop centre (also outside the array), axis length and centring within the bounds',
  'The unit tests use a handful of fixed sizes; an off-by-one for one parity combination of input and output size passes them all but shifts every mask relative to the beam.',
  ['falco/util.py'], [('centred pad/crop', 'falco/util.py: pad_crop, offcenter_crop, pad_to_even_square'), ('axes', 'falco/util.py: create_axis, radial_grid, azimuthal_grid'), ('binning', 'falco/util.py: bin_downsample')],
  'complete enumeration of shapes/parities up to the bound; larger arrays only by the uniformity of the index arithmetic',
  'explicit-state enumeration of all shape/parity/operation histories on the real functions against a per-pixel reference model')

P('P02', 'Fourier propagation operators are the exact linear DFT operators they stand for',
  'Propagating a field between pupil and focal planes by the matrix Fourier transform, relaying it between pupils, or by angular-spectrum propagation is the linear operator given by the discrete Fourier sum over the stated coordinates, for every array size, parity, centring and pair of sample spacings. Paired operators compose as documented: the centred FFT pair inverts exactly, angular-spectrum propagation conserves energy and is undone by the opposite distance, relays rotate by 180 degrees per relay and keep the pixel registration, and pupil-to-focus followed by focus-to-pupil on a fully sampled focal plane returns the rotated pupil field.',
  ['inputs', 'configurations'], 'every complex input field (decided on a complete basis of each linear operator) for every size, parity, centring and sampling combination within the bounds',
  'Unit tests check a few square even arrays with equal spacings; a wrong axis pairing or parity error for other sizes is invisible to them.',
  ['falco/prop.py', 'falco/util.py'], [('matrix DFTs', 'falco/prop.py: mft_p2f, mft_f2p'), ('centred FFTs', 'falco/prop.py: fft2d, ifft2d'), ('relay', 'falco/prop.py: relay'), ('angular spectrum', 'falco/prop.py: ptp; falco/util.py: angular_spectrum_transfer_function')],
  'operators are linear and are decided on a full basis of unit impulses; linearity itself is checked on every basis pair of the smallest sizes',
  'exhaustive enumeration of sizes x centrings x spacings x complete input basis, executed on the real operators and compared with the explicit DFT sum')

P('P03', 'Constrained DM commands always satisfy every actuator constraint',
  'After constraints are enforced on a deformable mirror, every actuator voltage plus its bias lies within the voltage limits, dead actuators are at zero, pinned actuators hold their pinned voltage, and the second actuator of every tied pair follows the first; an actuator that reaches a limit stays at that limit from then on. Commands that already satisfy all constraints are left exactly unchanged, enforcing twice equals enforcing once, and the record of pinned actuators stays consistent, for every sequence of command updates and enforcements.',
  ['inputs', 'histories'], 'all command vectors over a small voltage alphabet, all bias maps, all disjoint sets of dead, pinned and tied actuators and all sequences of updates up to the bound',
  'The tests look at single calls with one kind of constraint; interactions between clamping, ties and pinning across repeated calls are not reached.',
  ['falco/dm.py', 'falco/setup.py'], [('constraint enforcement', 'falco/dm.py: enforce_constraints')],
  'small actuator grids and a finite voltage alphabet; larger grids rely on the actuator-wise definition',
  'breadth-first exploration of the reachable DM-command states under all update/enforce sequences, invariant checked in every state')

P('P04', 'DM surface equals the linear superposition of its actuators',
  'The surface of a deformable mirror is the sum over actuators of command times gain times that actuator\'s influence function, so it is linear in the command, each actuator pokes the place its row, column, flip, tilt and clocking settings say, and the influence cube used for the Jacobian agrees with the full surface for each single actuator. Commands are quantised to the stated least-significant bit, bias voltages and the facesheet flat do not shift the surface, and generating a surface never changes the stored command.',
  ['inputs', 'configurations'], 'all single-actuator and pairwise commands for every small actuator-grid size and parity, influence-function sign, orientation, offset, tilt and sampling in the bounds',
  'Tests compare a few surfaces; per-actuator placement across parities, orientations and both code paths is not enumerated.',
  ['falco/dm.py'], [('surface', 'falco/dm.py: gen_surf_from_act, propcustom_dm'), ('poke cube', 'falco/dm.py: gen_poke_cube'), ('voltage quantisation', 'falco/dm.py: discretize_surf')],
  'bounded actuator grids and orientations',
  'exhaustive enumeration of actuators x orientations x offsets on the real DM code, differential comparison of the two code paths and of superposition for every pair')

P('P05', 'Fitting a surface to a DM and reading its gains are mutually consistent',
  'Fitting deformable-mirror commands to a desired surface reproduces any surface the mirror can make, and for each supported voltage-to-height relation the reported gain is the local slope of the commanded displacement at the present voltage. Gain map updates change nothing but the gain map, and unknown relation names are rejected.',
  ['inputs', 'configurations'], 'every supported fit type, every actuator, every command in a small voltage alphabet',
  'Only one fit type is exercised by the tests and only at one voltage.',
  ['falco/dm.py'], [('gain update', 'falco/dm.py: update_gain_map'), ('surface to command', 'falco/dm.py: fit_surf_to_act, build_prefilter, fit_surf_with_dm_lsq')],
  'finite voltage alphabet per actuator', 'exhaustive enumeration of fit types x voltages x actuators against the analytic derivative, and of unit commands for the round trip')

P('P06', 'The control Jacobian is the derivative of the compact model',
  'For every controlled deformable mirror, actuator, sub-band, Zernike mode and star, the Jacobian column equals the mirror\'s weight times the derivative, with respect to that actuator\'s voltage, of the normalised electric field the compact model predicts at the dark-hole pixels at the present commands. This holds for every supported coronagraph type and optical layout option, at zero and at non-zero commands.',
  ['configurations', 'inputs'], 'every actuator of both DMs for every combination of coronagraph type, wavelength mode, Zernike mode, star, relay/rotation, apodiser, stop and centring option in the bounds, at several base commands',
  'Tests compare Jacobians for a few fixed configurations at one operating point; option interactions (rotation, stops, stars, non-zero commands) are not enumerated.',
  ['falco/model/jacobians.py', 'falco/model/models.py', 'falco/dm.py'], [('analytic Jacobians', 'falco/model/jacobians.py'), ('driver', 'falco/model/models.py: jacobian'), ('reference model', 'falco/model/models.py: compact')],
  'tiny 4x4-actuator coronagraphs; finite differences with a second-order stencil decide each column',
  'exhaustive enumeration of configurations x DM x actuator x mode; each column compared with a central finite difference of the real compact model')

P('P07', 'Jacobian columns always belong to the actuators the controller thinks they do',
  'For any subset of kept actuators and any subset of controlled deformable mirrors, column k of each control Jacobian belongs to the k-th kept actuator, mirrors not under control contribute no columns, tied actuators carry the sum of the tied responses, and dead actuators contribute nothing. Serial construction, parallel construction and re-assembly from separately written columns give identical results.',
  ['configurations', 'inputs'], 'all subsets of kept actuators up to the bound (plus all single and co-single sets), all DM subsets, all tie pairs, serial and parallel construction',
  'Tests build Jacobians with all actuators kept and both DMs controlled, so index/position confusion cannot show.',
  ['falco/model/models.py', 'falco/model/jacobians.py', 'falco/ctrl.py'], [('assembly', 'falco/model/models.py: jacobian'), ('kept actuators', 'falco/ctrl.py: cull_weak_actuators')],
  'tiny DMs', 'exhaustive enumeration of kept-actuator subsets x DM subsets x tie pairs x build path, each compared with columns of the full Jacobian')

P('P08', 'Every control step is the regularised least-squares step over the kept actuators',
  'In every iteration of every control history, the command change is minus the gain factor times the Tikhonov-regularised weighted least-squares solution for the current field estimate, using the Jacobian of the last re-linearisation (a mirror that comes into use is re-linearised), each sub-band/mode/star weight and each spatial weight exactly once, restricted to the actuators kept by the latest culling. Actuators that were culled or belong to a mirror not in use at that iteration do not move, and strong actuators are exactly the ones whose relative Jacobian power reaches the configured threshold plus all tied ones.',
  ['histories', 'configurations'], 'all iteration histories over the alphabet of DM sets, re-linearisation flags and regularisation entries up to the length bound, with and without spatial weighting, culling and tied actuators',
  'The functional tests run one or two fixed schedules and compare a final contrast; repeated weighting or mis-indexed culling only appears in multi-step histories.',
  ['falco/ctrl.py', 'falco/wfsc.py'], [('normal equations', 'falco/ctrl.py: wrapper, _efc, init, wrapup'), ('culling', 'falco/ctrl.py: cull_weak_actuators'), ('spatial weights', 'falco/ctrl.py: apply_spatial_weighting_to_Jacobian'), ('loop', 'falco/wfsc.py: loop')],
  'histories up to the bound on tiny coronagraphs', 'exhaustive enumeration of control-schedule histories driven through the real loop, each step compared with an independent reference controller')

P('P09', 'The grid search applies the best candidate and leaves no side effects',
  'A control grid search evaluates every combination of regularisation and gain factor from the same starting commands and applies exactly the command change of the combination with the lowest dark-hole intensity, recording that regularisation. Evaluating candidates leaves the mirror commands untouched until the winner is applied, and the result does not depend on the order of the lists or on parallel evaluation.',
  ['configurations', 'inputs', 'schedules'], 'all lists of regularisations and gain factors over the alphabet up to the bound (all orders, duplicates), model-based and measured evaluation, serial and parallel',
  'Tests run one list with the optimum at a fixed position.',
  ['falco/ctrl.py', 'falco/imaging.py'], [('grid search', 'falco/ctrl.py: _grid_search_efc, _efc'), ('expected image', 'falco/imaging.py: get_expected_summed_image')],
  'bounded lists', 'exhaustive enumeration of candidate lists (ordered) through the real controller against a per-candidate reference evaluation')

P('P10', 'Control schedules decode to the iterations they describe',
  'A control-schedule matrix decodes to one entry per iteration, in row order: the number of iterations is the sum of the repeat counts, each iteration gets the regularisation and the set of mirrors of its row, and re-linearisation and grid searches happen exactly at the first iteration of the rows that request them (rows with zero repeats apply to the next iteration).',
  ['inputs'], 'all schedule matrices over the row alphabet up to the row bound',
  'Tests decode one example matrix.',
  ['falco/ctrl.py'], [('decoder', 'falco/ctrl.py: efc_schedule_generator')],
  'bounded number of rows over a row alphabet covering every flag combination', 'exhaustive enumeration of all schedule matrices against a straightforward interpreter')

P('P11', 'Planned control uses the scheduled regularisation at every iteration',
  'With a planned schedule, each iteration uses the scheduled real regularisation, or, where the schedule asks for the best one after a grid search has run, the most recent grid-search optimum plus the scheduled offset, together with the most recent best gain factor. A grid search is run exactly at the scheduled iterations, and the regularisation recorded for an iteration is the one its command was computed with.',
  ['histories'], 'all schedules over the entry alphabet {fixed, best, best+offset} x {grid search or not} up to the length bound',
  'The functional tests run one schedule; stale optimum, stale gain or off-by-one use only shows on other histories.',
  ['falco/ctrl.py'], [('planned controllers', 'falco/ctrl.py: _planned_efc, _planned_ad_efc')],
  'bounded schedule length', 'exhaustive enumeration of schedule histories with state carried across iterations against a reference automaton')

P('P12', 'Probing the field leaves the mirrors and settings as they were',
  'Estimating the field with pairwise probes restores every mirror command, the list of controlled mirrors, and every other setting (except the probe settings the user scheduled per iteration) to its value before the estimate, for every choice of probing mirror, controlled-mirror set, number of probe pairs and probe pattern. The unprobed image it reports is the image at the unprobed commands, and applied probes come in exact plus/minus pairs.',
  ['configurations', 'histories'], 'every combination of controlled mirrors, probing mirror, probe axis, number of pairs, estimator flavour, and sequences of consecutive estimates',
  'Tests only look at the returned estimate in one configuration where the probing mirror is controlled.',
  ['falco/est.py'], [('pairwise estimator', 'falco/est.py: pairwise_probing'), ('probe shapes', 'falco/est.py: gen_pairwise_probe, gen_pairwise_probe_square')],
  'bounded configurations on a tiny coronagraph', 'exhaustive enumeration of configurations and call sequences; full state snapshot compared before and after, command history recorded at the imaging seam')

P('P13', 'Pairwise probing recovers the true field',
  'With noiseless images from the same model it estimates with, pairwise probing returns the electric field at every dark-hole pixel and sub-band where the probes are informative, and the incoherent estimate is the measured intensity minus the estimated coherent intensity. Pixels whose probes carry no information, or whose estimate exceeds the configured brightness limit, are reported as zero field rather than as noise.',
  ['configurations', 'inputs'], 'every combination of probe pairs, probe axis, sub-bands, probing mirror and starting command in the bounds',
  'Tests check a single configuration with loose tolerance.',
  ['falco/est.py'], [('batch least squares', 'falco/est.py: pairwise_probing'), ('probe shapes', 'falco/est.py: gen_pairwise_probe')],
  'small aberrations so that the small-probe approximation is exact within tolerance', 'exhaustive enumeration of estimator configurations, estimate compared with the model field at each pixel')

P('P14', 'The perfect estimator returns the model field for every mode',
  'The perfect estimator returns, for each sub-band, mode and star in the order the controller uses, the field of the full model at the dark-hole pixels, zero incoherent intensity, and an image and image cube consistent with that field. Serial and parallel evaluation agree.',
  ['configurations', 'schedules'], 'every combination of sub-bands, wavelengths per sub-band, Zernike modes, stars, and serial or parallel evaluation',
  'Tests run one configuration.',
  ['falco/est.py'], [('perfect estimator', 'falco/est.py: perfect')],
  'tiny coronagraph', 'exhaustive enumeration of spectral/mode/star configurations and execution paths against direct model evaluation')

P('P15', 'Parallel and serial evaluation give identical results under every schedule',
  'Images, Jacobians, field estimates, normalisations and grid searches computed with parallel workers equal the serial results for every interleaving of the workers and every order in which they finish. Workers never observe another worker\'s wavelength, polarisation or mask settings, and shared settings are unchanged afterwards.',
  ['schedules', 'configurations'], 'all interleavings of the workers\' accesses to shared model state up to the preemption bound, all completion orders of up to four workers',
  'Tests run the parallel path at most once on the schedule the machine happens to produce; results are deterministic only if workers share no mutable state.',
  ['falco/imaging.py', 'falco/model/models.py', 'falco/est.py', 'falco/ctrl.py'], [('thread pools', 'falco/imaging.py: get_summed_image, get_sim_sbp_image, calc_psf_norm_factor; falco/model/models.py: jacobian; falco/est.py: perfect'), ('process pool', 'falco/ctrl.py: _grid_search_efc')],
  'preemption points are accesses to the shared configuration objects (and source lines of the worker code at bound 1); numpy calls are atomic',
  'stateless exploration of the real worker code under a controlled scheduler (preemption bounded), all completion orders enumerated, results compared with the serial run')

P('P16', 'Derived settings are evaluated consistently, lazily and thread-safely',
  'A derived setting in a configuration always evaluates to its expression over the current values of the settings it depends on, wherever it is nested and in whatever order settings are read or overwritten. Genuine circular definitions are reported as such, a cycle is never reported when there is none (also when several threads read settings at once), and an error in one evaluation does not poison later ones.',
  ['schedules', 'histories', 'configurations'], 'all dependency graphs over up to four derived settings, all read/overwrite histories up to the bound, all interleavings of two or three readers up to the preemption bound',
  'Tests read each derived setting once, from one thread.',
  ['falco/config/Eval.py', 'falco/config/Object.py', 'falco/config/ModelParameters.py'], [('lazy evaluation and cycle detection', 'falco/config/Eval.py; falco/config/Object.py')],
  'bounded graphs and preemptions', 'exhaustive enumeration of dependency graphs and read/write histories plus stateless exploration of reader threads under a controlled scheduler')

P('P17', 'Loading a configuration file has the documented meaning and no global effect',
  'A YAML configuration loads to the nested settings it writes down, with numeric, list, array and expression values as documented; loading twice gives independent, equal results, and loading one configuration never changes how other YAML text is parsed elsewhere in the program. Errors in a file are reported and leave no partial global state.',
  ['inputs', 'histories'], 'all small YAML documents over the tag/structure alphabet, and all sequences of loads up to the bound',
  'Tests load a few fixed files once.',
  ['falco/config/yaml_loader.py', 'falco/config/ModelParameters.py', 'falco/config/Eval.py'], [('loader', 'falco/config/yaml_loader.py; falco/config/ModelParameters.py: from_yaml_file')],
  'bounded documents', 'exhaustive enumeration of documents over an alphabet of node kinds and of load sequences against a reference interpretation')

P('P18', 'Configuration objects behave as faithful nested records',
  'Setting, reading, deleting, copying, merging and pickling a configuration object behave like the corresponding record of attributes: what was last written is what is read through either access syntax, a shallow copy is a record of its own, a deep copy shares nothing with the original, and a pickled and restored object is equal to the original, objects being equal exactly when they hold the same settings. Merging overwrites the named settings, merges nested plain dictionaries, appends to lists and keeps everything else. Settings of the full model reach a PROPER prescription however they were stored.',
  ['histories'], 'all operation sequences over a small set of names and nested values up to the depth bound',
  'Tests use a couple of fixed sequences.',
  ['falco/config/Object.py', 'falco/model/models.py'], [('record object', 'falco/config/Object.py'), ('settings passed on', 'falco/model/models.py: full')],
  'bounded sequence depth', 'breadth-first exploration of all operation sequences on the real object against a plain dictionary model')

P('P19', 'Spectral sampling and weights represent the requested band exactly',
  'For every bandwidth, number of sub-bands and number of wavelengths per sub-band, sub-band and wavelength weights are non-negative and sum to one, sample wavelengths are increasing, symmetric about the central wavelength and span the requested band, and every image/model uses each (sub-band, wavelength, polarisation) sample exactly once with its weight.',
  ['configurations'], 'all numbers of sub-bands and wavelengths per sub-band and bandwidths in the bounds',
  'Tests fix one or two spectral set-ups.',
  ['falco/setup.py', 'falco/imaging.py'], [('spectral set-up', 'falco/setup.py: falco_set_spectral_properties')],
  'bounded counts', 'exhaustive enumeration of spectral configurations against the definition')

P('P20', 'Jacobian mode weights and indices enumerate every controlled mode once',
  'The list of control modes contains each combination of sub-band, Zernike mode and star that is controlled exactly once, the piston mode in every sub-band and the other Zernike modes in the first, middle and last one. Weights are non-negative, normalised per Zernike mode and follow the configured sub-band, star and Zernike weighting, the two end sub-bands counting half for the perfect estimator.',
  ['configurations'], 'all combinations of sub-bands, Zernike lists and star lists in the bounds',
  'Tests fix one mode list.',
  ['falco/setup.py'], [('modal weights', 'falco/setup.py: falco_set_jacobian_modal_weights')],
  'bounded lists', 'exhaustive enumeration of mode configurations against an independent enumeration')

P('P21', 'Dark-hole regions contain exactly the pixels of the requested geometry',
  'The correction and scoring regions contain exactly the pixels inside the requested annular, rectangular or D-shaped sector on the requested sides with the requested offsets, and the index vectors, pixel counts and corr/score correspondence derived from them are consistent. Multiple zones combine as their union.',
  ['configurations'], 'all shapes, sides, radii, opening angles, offsets, resolutions and centrings in the bounds',
  'Tests compare the area of a few masks.',
  ['falco/setup.py', 'falco/mask.py'], [('region set-up', 'falco/setup.py: falco_configure_dark_hole_region'), ('software mask', 'falco/mask.py: gen_sw_mask')],
  'pixels within a rounding distance of the geometric edge are not judged', 'exhaustive enumeration of region configurations with every pixel decided by an independent geometric predicate')

P('P22', 'Spatial weights map one-to-one onto dark-hole pixels',
  'The spatial control weight of a dark-hole pixel is the square root of the configured intensity weight of every annulus that contains it (overlapping annuli multiply) and one elsewhere, times the weight of its star. The weight vector lists the weights in the same pixel order as the field vectors, for each star.',
  ['configurations'], 'all lists of up to three weight zones over the radius/value alphabet, for each region shape',
  'Tests use no spatial weighting.',
  ['falco/setup.py'], [('spatial weights', 'falco/setup.py: falco_set_spatial_weights')],
  'bounded zones', 'exhaustive enumeration of weight definitions with each pixel decided by a reference predicate')

P('P23', 'Broadband images are the weighted incoherent sum of all their samples',
  'A simulated image equals the sum over sub-bands, wavelengths, polarisation states and stars of the sample intensities with their weights, is non-negative, scales with the star weights, and the sub-band images add up to the broadband image. It does not depend on evaluation order or on earlier images.',
  ['configurations', 'histories'], 'all spectral, polarisation and star combinations, evaluation paths and image request orders in the bounds',
  'Tests compare one configuration with a stored value.',
  ['falco/imaging.py', 'falco/model/models.py'], [('image sums', 'falco/imaging.py: get_summed_image, get_sbp_image, get_sim_sbp_image, get_expected_summed_image')],
  'tiny coronagraph', 'exhaustive enumeration of sample sets and request sequences against the explicit weighted sum of single-sample fields')

P('P24', 'Normalisation makes the unocculted star peak one and models agree',
  'After normalisation, the unocculted on-axis image (for a vortex, the one without the vortex) of every sub-band and wavelength in both models has its peak at exactly one, normalising again changes nothing, and with equal sampling the full and compact models predict the same field for every wavelength, star, Zernike mode and command. Throughput is the energy of the off-axis image in the core relative to the entrance pupil, as documented.',
  ['configurations'], 'all coronagraph types and layout options in the bounds at several commands',
  'Tests compare a few numbers for a few fixed configurations.',
  ['falco/imaging.py', 'falco/model/models.py'], [('normalisation', 'falco/imaging.py: calc_psf_norm_factor'), ('models', 'falco/model/models.py: full, compact')],
  'tiny coronagraphs', 'exhaustive enumeration of configurations, both real models compared sample by sample')

P('P25', 'The loop history records exactly what happened at each iteration',
  'After a wavefront-control run of any length, entry k of the histories of commands, measured intensities and throughput describes the start of iteration k and their last entry the final command, while entry k of the regularisation, mirror statistics and sensitivities describes the command that iteration produced. Measured, modulated and unmodulated intensities are averages over the right regions of the right iteration, the histories have the shape of the modes they list, and recording does not change the estimate it records.',
  ['histories', 'configurations'], 'all loop lengths, controller types, estimator types and region definitions in the bounds',
  'Functional tests only check the final contrast of one run.',
  ['falco/wfsc.py', 'falco/setup.py'], [('bookkeeping', 'falco/wfsc.py: loop, store_intensities, store_dm_command_history, falco_compute_dm_stats'), ('history allocation', 'falco/setup.py: falco_init_storage_arrays')],
  'bounded number of iterations', 'exhaustive enumeration of run histories; every recorded entry compared with an independent recorder at the public seams')

P('P26', 'An interruption never loses or corrupts what a run has saved',
  "Once a WFSC iteration's results have been saved, an interruption at any later point of the run (the process dies between or inside file operations, or a write fails) leaves a result file that loads as a complete record of that or a later iteration of the same run; before that the file is absent or still the previous run's, unchanged, and files of other runs are never touched. A saved workspace and a stored thin-film table are likewise absent or complete, and a new run or look-up started on whatever an interruption left gives the right results.",
  ['crash_points', 'histories', 'fault_sequences'], 'every prefix of the file operations, and every torn length of every write, of runs of 1..3 iterations in every saving mode; every save boundary as a failing write',
  'No test interrupts a run or makes a write fail.',
  ['falco/wfsc.py', 'falco/thinfilm.py'], [('result and workspace saving', 'falco/wfsc.py: loop'), ('stored tables', 'falco/thinfilm.py: gen_complex_trans_table')],
  'crash model: process death, operations of one process in order (no power loss with reordered blocks)', 'exhaustive enumeration of the crash states of a file-system state machine driven by the recorded system calls of the real run (every prefix, every torn byte), each state judged by loading it and by starting a real new run on it; the machine is bound to the code by killing real runs at every operation and comparing the directory byte by byte, and failing writes are injected for real')

P('P27', 'The adjoint gradient equals the derivative of its cost',
  'For every coronagraph type it supports, the cost returned by the reverse-gradient model is the weighted residual dark-hole energy plus the command penalty, and the gradient it returns is the derivative of that cost with respect to every kept actuator of every controlled mirror, at zero and non-zero command changes. The optimiser built on it lowers that cost, stays within the voltage limits and leaves the stored commands alone.',
  ['configurations', 'inputs'], 'every actuator, DM subset, mode set and command in the bounds',
  'Tests compare a final contrast of one run.',
  ['falco/model/models.py', 'falco/diff_dm.py'], [('reverse gradient', 'falco/model/models.py: compact_reverse_gradient')],
  'finite differences decide each component', 'exhaustive enumeration of configurations x gradient components against finite differences of the real cost')

P('P28', 'The differentiable DM model is linear and its adjoint is exact',
  'The differentiable deformable-mirror model is linear in the command, reproduces the ordinary surface model, leaves its inputs unchanged, and its reverse pass is the adjoint of its forward pass, for every actuator, geometry, tilt and sampling. Neither depends on what the mirror was used for before.',
  ['inputs', 'configurations'], 'every actuator/pixel pair of the operator for every geometry in the bounds',
  'Tests compare one random command.',
  ['falco/diff_dm.py', 'falco/dm.py'], [('forward pass', 'falco/diff_dm.py: DM.render'), ('reverse pass', 'falco/diff_dm.py: DM.render_backprop'), ('rebuild', 'falco/dm.py: gen_surf_from_act')],
  'operator decided on its full basis', 'exhaustive evaluation of the forward and adjoint operators on complete bases')

P('P29', 'Thin-film coefficients conserve energy and match the exact recursion',
  'Reflection and transmission coefficients of a coating stack equal those of the exact electromagnetic recursion for every stack, wavelength, angle and polarisation, reduce to the Fresnel formulas for a single interface, are unchanged by zero-thickness layers, and conserve energy for lossless materials. Every pixel of a mask, and every entry of a stored or freshly made table of masks, has the transmission of its own layers at its own wavelength, whatever was computed and stored before.',
  ['inputs', 'configurations'], 'all stacks of up to three layers over the material/thickness alphabet, angles, polarisations and wavelengths; every order of making the tables of configurations that differ in one setting',
  'Tests check one or two stacks.',
  ['falco/thinfilm.py', 'falco/hlc.py'], [('transfer matrices', 'falco/thinfilm.py: solver'), ('stored tables', 'falco/thinfilm.py: gen_complex_trans_table'), ('look-up', 'falco/hlc.py: gen_fpm_from_LUT')],
  'bounded stacks', 'exhaustive enumeration of layer stacks against an independent recursion')

P('P30', 'Generated masks follow their specification and nothing else',
  'Every generated focal-plane, Lyot, pupil, DM-stop, vortex and software mask holds, in each pixel, the transmission of the specified outline there, on an array of the documented size and centring; shearing, clocking, magnifying, padding or rotating the specification does exactly that to the mask. Segmented pupils put every segment, strut, piston and tilt where it was specified. A mask depends on its own specification only, not on the masks made before it, and down-sampled masks keep the mean transmission of the finer ones.',
  ['configurations', 'histories'], 'all mask generators over centrings, samplings, radii, clockings, offsets, magnifications, struts and transmissions in the bounds; every ordered pair of generators',
  'Tests check the area or a few pixels of single masks at single settings.',
  ['falco/mask.py', 'falco/hexsegmirror.py', 'falco/proper/prop_ellipse.py', 'falco/proper/prop_polygon.py'], [('mask generators', 'falco/mask.py'), ('segments', 'falco/hexsegmirror.py')],
  'pixels cut by an outline are judged within a tolerance of their share (hard-edged pieces: by range); tabs of the WFIRST and Roman struts, and the array size of odd arrays, are not judged; bounds in the evidence', 'exhaustive enumeration of mask specifications on the real generators, every pixel decided by an independently computed coverage of the specified outline; all ordered pairs of generators for independence of history')

P('P31', 'Input checkers accept exactly the documented values',
  'Each input checker accepts a value and returns silently or hands it back exactly when the value satisfies the documented type, shape and range, and otherwise raises the exception type the caller asked for, naming the offending variable. A wrong exception type or variable name argument is itself rejected.',
  ['inputs'], 'every checker over the complete cross product of the value alphabet and argument alphabet',
  'Tests use selected good and bad values.',
  ['falco/check.py'], [('checkers', 'falco/check.py')],
  'finite value alphabet', 'exhaustive cross product of checkers x values against a decision table')

P('P32', 'Saved optical states restore exactly and are invisible to other runs',
  'When a propagation state is saved and later requested with the same wavelength, the restored run continues with exactly the saved wavefront; with no saved state for that wavelength the propagation proceeds normally and may save one. Ending the save/restore session removes every file it made and nothing else, and initialising a new session never sees states from an earlier one.',
  ['histories', 'fault_sequences'], 'all sequences of session start, save, restore and end over two wavelengths up to the depth bound, including calls out of order',
  'No test exercises saved states.',
  ['falco/proper/prop_state.py', 'falco/proper/prop_savestate.py', 'falco/proper/prop_init_savestate.py', 'falco/proper/prop_end_savestate.py'], [('state files', 'falco/proper: prop_init_savestate, prop_is_statesaved, prop_state, prop_savestate, prop_end_savestate')],
  'bounded depth', 'breadth-first exploration of all operation sequences on the real functions against a reference state machine')

P('P33', 'PROPER propagation keeps energy, distance and beam bookkeeping consistent',
  'Along every sequence of lenses and propagations, the total distance is the sum of the segments, splitting a propagation into parts gives the same beam parameters and field as doing it at once, propagation conserves energy, propagating back restores the field, and the Gaussian beam parameters follow the ideal beam equations.',
  ['histories'], 'all sequences of lens and propagation operations over a small distance/focal-length alphabet up to the depth bound',
  'Tests run fixed prescriptions end to end.',
  ['falco/proper/prop_propagate.py', 'falco/proper/prop_lens.py', 'falco/proper/prop_select_propagator.py', 'falco/proper/prop_ptp.py', 'falco/proper/prop_wts.py', 'falco/proper/prop_stw.py'], [('propagators', 'falco/proper')],
  'bounded depth on small grids', 'breadth-first exploration of operation sequences on the real wavefront object against the ideal Gaussian-beam automaton')

P('P34', 'Running prescriptions singly or in parallel gives the same fields',
  'Running a prescription for several wavelengths or several parameter sets returns one field and sampling per run, in the order requested, equal to running each alone; parameters reach exactly the run they were meant for, and every error is reported rather than yielding a partial result.',
  ['schedules', 'configurations', 'fault_sequences'], 'all lists of wavelengths/parameters up to the bound, every completion order of the worker pool and a failure in each worker',
  'Tests run single prescriptions.',
  ['falco/proper/prop_run.py', 'falco/proper/prop_run_multi.py', 'falco/proper/prop_execute_multi.py'], [('drivers', 'falco/proper: prop_run, prop_run_multi, prop_execute_multi')],
  'worker pool replaced by a controlled pool that enumerates completion orders', 'exhaustive enumeration of inputs x completion orders x failing worker on the real drivers')

P('P35', 'Maps written to files read back to the same map',
  'Writing a map, array or wavefront product to a file and reading it back returns the same values, sampling and type for every supported map kind and option; adding a map to a wavefront applies its documented effect exactly once, and resampling a map onto its own grid changes nothing.',
  ['histories', 'inputs'], 'all map kinds, shapes, scalings, shifts and write/read sequences in the bounds',
  'Tests do not cover the round trip.',
  ['falco/proper/prop_writemap.py', 'falco/proper/prop_readmap.py', 'falco/proper/prop_errormap.py', 'falco/proper/prop_fits_write.py', 'falco/proper/prop_fits_read.py'], [('file round trip', 'falco/proper')],
  'small maps', 'exhaustive enumeration of map kinds x options x sequences through real files in a scratch directory')

P('P36', 'Apertures and obscurations are drawn where and as large as asked',
  'Every aperture shape (ellipse, rectangle, regular and irregular convex polygon, rounded rectangle, segmented hexagonal aperture) has in every pixel of the grid the share of that pixel inside its outline, to the accuracy of the antialiasing, wherever it lies: inside, across, or beyond the edges of the grid, and for every size, offset, rotation and unit. Its obscuration is the exact complement, and applying either multiplies the wavefront by the shape drawn about the optical axis. Hexagonal Zernike modes are orthonormal over the hexagon and follow their segment, and the 8th-order occulter has its profile about the axis with the stated half-width and limits.',
  ['inputs', 'configurations'], 'all shapes x sizes from below a pixel to beyond the grid x positions inside, across and beyond every edge x rotations x units x darkness x antialiasing factors in the bounds, every pixel',
  'Tests use apertures only inside fixed masks well within the grid.',
  ['falco/proper'], [('shapes', 'falco/proper: prop_ellipse, prop_rectangle, prop_polygon, prop_irregular_polygon, prop_rounded_rectangle'), ('apertures and obscurations', 'falco/proper: prop_*_aperture, prop_*_obscuration, prop_8th_order_mask'), ('segmented', 'falco/proper/prop_hex_wavefront.py, prop_hex_zernikes.py')],
  'edge pixels judged to 1.1 subsamples; corner circles below two pixels and wavefronts with an odd number of pixels not judged; ellipses turn clockwise, as falco.mask relies on', 'exhaustive enumeration of shapes x parameters with every pixel compared with the area of the shape inside it computed by the check')

P('P37', 'Zernike modes and sensitivities are those of the definition',
  'Every Zernike map equals the Noll-ordered mode it is named by, of unit RMS over the stated beam (for an obscured aperture the corresponding orthogonal annular mode), alone or in a set, and is applied to a wavefront as phase or amplitude as asked. The reported sensitivity to a mode is the mean, over the stated annulus of the dark-hole region and over all distinct wavelengths and polarisations, of the squared change of the stellar field when that mode is added at the pupil, the same in serial and parallel, and computing it leaves every setting as it was.',
  ['inputs', 'configurations'], 'every mode, centring, obscuration and pixel, and every configuration, mode list, annulus set and dark-hole geometry in the bounds',
  'Tests compare two modes with stored maps and never compute a sensitivity independently.',
  ['falco/zern.py', 'falco/proper/prop_zernikes.py', 'falco/proper/prop_noll_zernikes.py'], [('Zernike maps', 'falco/zern.py: gen_norm_zern_maps, propcustom_zernikes'), ('sensitivities', 'falco/zern.py: calc_zern_sens')],
  'pixels exactly on an edge of the averaging region may count or not', 'exhaustive enumeration of modes x obscurations x pixels against an orthogonalisation done in the check, and of configurations against perturbed models evaluated one at a time by the check')
