S='src/'; I='src/include/smash/'
prop('C01','Lorentz boosts form a consistent transformation of four-vectors',
 'Boosting any four-vector with any velocity below the speed of light leaves its Minkowski square and its product with any other equally boosted vector unchanged, and boosting back with the opposite velocity returns the original vector. Boosting a massive momentum with its own velocity yields a vector at rest whose energy is the invariant mass.',
 ['inputs'],'all pairs of four-vectors and all velocities with |v|<1','tests try a handful of numeric vectors; the identity must hold for all real inputs',
 [S+'fourvector.cc',I+'fourvector.h',I+'threevector.h',S+'particledata.cc'],[('four-vector boost','FourVector::lorentz_boost'),('particle boost','ParticleData::boost')])
prop('C02','Three- and four-vector algebra obeys the vector-space and Minkowski identities',
 'Sums, differences, scalar multiples, quotients, dot, cross and Minkowski products of three- and four-vectors obey their component definitions for every input. Rotations by Euler angles or onto/about axes preserve every length and inner product and the orientation.',
 ['inputs'],'all component values and all angles','unit tests use fixed vectors',
 [I+'threevector.h',S+'threevector.cc',I+'fourvector.h'],[('operators','threevector.h / fourvector.h'),('rotations','threevector.cc')])
prop('C03','Direction angles always describe the unit vector they were set from',
 'For any requested polar and azimuthal angle, direction cosine or added polar angle, the stored direction is a unit vector with azimuth in [0, 2*pi) up to rounding, polar cosine in [-1, 1] and non-negative polar sine, and it equals the direction requested (crossing a pole flips the azimuth by pi).',
 ['inputs'],'all angles, cosines and increments in the documented ranges','tests sample random angles',
 [I+'angles.h'],[('set_phi/set_theta/set_costheta/add_to_theta','angles.h')])
prop('C04','Two-body kinematics formulas are mutually consistent',
 'The centre-of-mass momentum of two masses at a given energy puts both on their mass shell with total energy equal to that energy, and equals zero at threshold. The fixed-target, beam-energy, beam-momentum and centre-of-velocity conversions all reproduce the same invariant mass squared.',
 ['inputs'],'all masses and energies above threshold','tests check selected masses and energies',
 [I+'kinematics.h'],[('pCM, s_from_*, fixed_target_projectile_v, center_of_velocity_v','kinematics.h')])
prop('C05','PDG codes survive conversion between decimal, hexadecimal and text form',
 'Every valid particle code converts to its decimal number or text and back without changing, and every accepted code has the digits it was given. Malformed codes are rejected with an error instead of yielding some other particle.',
 ['inputs'],'all 32-bit decimal codes and all digit strings within the length bound','tests use a list of known particles; the code space has millions of members',
 [I+'pdgcode.h',S+'pdgcode.cc'],[('constructors, set_from_string, code, get_decimal, string','pdgcode.h')])
prop('C06','Charge conjugation flips every additive quantum number and is an involution',
 'The antiparticle of every valid particle code has the opposite charge, baryon number, strangeness, charmness, bottomness, isospin-3 and fraction-weighted flavour content, and taking the antiparticle twice returns the original code. Codes without a distinct antiparticle are those whose additive quantum numbers all vanish as dictated by their quark content.',
 ['inputs'],'all valid hadron, lepton and gauge-boson codes','tests check a few particles',
 [I+'pdgcode.h',S+'pdgcode.cc'],[('get_antiparticle, charge, net_quark_number','pdgcode.h/.cc')])
prop('C07','Quantum numbers of a hadron follow from its quark content',
 'For every valid hadron code the electric charge, baryon number and flavour numbers equal the sums over its valence quarks, the spin and spin degeneracy are consistent, and classification predicates (meson, baryon, nucleon, pion, ...) are mutually consistent. Nuclei carry charge and baryon number equal to their proton and nucleon counts.',
 ['inputs'],'all valid codes','tests check a few particles',
 [I+'pdgcode.h',S+'pdgcode.cc'],[('charge(), baryon_number(), strangeness(), quark_content()','pdgcode.h/.cc')])
prop('C08','Total quantum numbers are additive and any difference is detected',
 'The quantum numbers of a set of particles are the sum over its members, whatever the order, and two sets compare equal exactly when all totals agree. A deviation in any single conserved quantity is both detected by comparison and named in the report.',
 ['inputs'],'all momenta and particle selections up to a bounded number','tests exercise a few configurations',
 [I+'quantumnumbers.h',S+'quantumnumbers.cc'],[('operator==, add_values, report_deviations','quantumnumbers.h/.cc')])
prop('C09','The particle store stays coherent under any history of insertions and removals',
 'After any sequence of insert, create, remove, replace, update and reset, iteration visits exactly the live particles once each, the reported size and emptiness agree with it, and every particle keeps the data it was given under an id not handed out before (ids start over after a reset). A stale copy of a removed or replaced particle is never reported valid and lookups for live ones return them.',
 ['histories'],'all operation sequences up to a stated length from every reachable store','tests run a few fixed sequences (and that test is not in the stable set)',
 [I+'particles.h',S+'particles.cc'],[('insert/remove/replace/is_valid/iterators','particles.h/.cc')])
prop('C10','Pending actions are executed in time order',
 'Whatever order actions are found and inserted in, repeatedly taking the next one from the queue yields all of them exactly once with non-decreasing execution times.',
 ['inputs','histories'],'all execution times and insertion patterns up to a bounded number of actions','tests insert a few fixed times',
 [I+'actions.h',I+'action.h'],[('heap of actions','actions.h')])
prop('C11','An interaction is only performed when its participants are unchanged',
 'An action is valid exactly while every incoming particle is still present and has not interacted since the action was found (or, for a fixed set of actions, only moved). After performing it, incoming particles are gone, outgoing ones are present once with a common new history, and the particles not involved are untouched.',
 ['histories'],'all histories of interactions on small systems','tests do not run these scenarios',
 [S+'action.cc',I+'action.h',S+'particles.cc',S+'particledata.cc'],[('is_valid, perform','action.cc')])
prop('C12','Sampled final states conserve four-momentum on the mass shell',
 'For every random draw, the sampled two-body and many-body final states sum to the total incoming four-momentum, each outgoing particle is on its mass shell, and stable particles get their pole mass. The outgoing particles start at the interaction point.',
 ['inputs','schedules'],'all incoming momenta above threshold and all random draws','tests sample a few energies with random numbers',
 [S+'action.cc',S+'decayaction.cc'],[('sample_2body_phasespace, sample_manybody_phasespace','action.cc')])
prop('C13','Violations of conservation laws are always reported',
 'For every performed action that must conserve charges and momentum, a final state whose charge, baryon number, strangeness or four-momentum differs from the initial state is reported as an error, and a conserving one is accepted.',
 ['inputs'],'all final-state deviations for 2->2 like actions','tests do not cover',
 [S+'action.cc'],[('check_conservation','action.cc')])
prop('C14','Decays happen once, within the time step, and only for unstable particles',
 'A stable particle never receives a decay action; a decay found for an unstable particle is scheduled between the current time and the end of the step. The sampled lifetime is non-negative, dilates with the particle energy and starts no earlier than the particle is formed.',
 ['inputs','schedules'],'all random draws and particle momenta','tests do not cover',
 [S+'decayactionsfinder.cc'],[('find_actions_in_cell','decayactionsfinder.cc')])
prop('C15','Particles in a periodic box are wrapped at walls and only there',
 'In a periodic box each particle leaving within the step gets exactly a wall crossing at the wall and time it leaves, and crossing it moves the particle to the opposite wall, changing no other coordinate, momentum or identity. Wrapping a position that is at most one box length outside always yields a position inside the box and reports whether it moved.',
 ['inputs'],'all positions, momenta, box lengths','tests sample a few',
 [S+'wallcrossingaction.cc',I+'wallcrossingaction.h',I+'algorithms.h',S+'boxmodus.cc'],[('WallCrossActionsFinder','wallcrossingaction.cc'),('enforce_periodic_boundaries','algorithms.h')])
prop('C16','Free propagation moves every particle along its velocity to the requested time',
 'Propagating to a given time moves every particle by its velocity times the elapsed time to exactly that time and changes nothing else. In an expanding metric momenta change monotonically with expansion sign and energies stay on shell.',
 ['inputs'],'all positions, momenta, times','tests sample a few',
 [S+'propagation.cc'],[('propagate_straight_line, backpropagate_straight_line, expand_space_time','propagation.cc')])
prop('C17','Fluidization happens exactly when a particle crosses the hypersurface',
 'A particle is removed to the fluid in a step if and only if its trajectory crosses the constant-proper-time hypersurface within that step while satisfying the rapidity and transverse-momentum cuts. The crossing point lies on the hypersurface and on the straight trajectory.',
 ['inputs'],'all positions and momenta','tests sample a few',
 [S+'hypersurfacecrossingfinder.cc'],[('crosses_hypersurface, coordinates_on_hypersurface','hypersurfacecrossingfinder.cc')])
prop('C18','The cell grid offers every pair of nearby particles exactly once',
 'For every placement of particles, every unordered pair closer than the maximal interaction length is offered to the collision search exactly once, either in one cell or between one pair of neighbouring cells, and no pair is offered twice. In a periodic box this includes pairs close through the walls.',
 ['inputs','configurations'],'all positions of a bounded number of particles, all cell layouts in bounds','tests place particles at random',
 [S+'grid.cc',I+'grid.h'],[('Grid construction, iterate_cells','grid.cc')])
prop('C19','Lattice indices, coordinates and neighbourhoods are consistent',
 'Cell index, integer coordinates and cell centre convert into each other without loss for every lattice, positions inside map to the cell that contains them, and out-of-range accesses are handled as documented (wrapped when periodic, refused otherwise). Gradients of a linear field are exact and region iterators visit precisely the nodes in their region once.',
 ['inputs','configurations'],'all sizes within a bound, all positions','tests use few lattice sizes',
 [I+'lattice.h'],[('RectangularLattice','lattice.h')])
prop('C20','Simulation clocks advance monotonically and stop exactly at the end',
 'Every clock tick moves time strictly forward to the next expected instant, the time-step duration is the difference of consecutive instants, the last step ends exactly at the end time and never beyond, and time overflow or invalid settings raise errors. Clocks compare by time.',
 ['inputs','histories'],'all start times, steps and end times; up to a bounded number of ticks','tests use fixed grids',
 [I+'clock.h'],[('UniformClock, CustomClock','clock.h')])
prop('C21','Checked numeric conversion returns the same value or throws',
 'Converting a number between arithmetic types either returns exactly the same mathematical value in the target type or throws a domain error, for every input.',
 ['inputs'],'all values of each source type','tests check boundaries',
 [I+'numeric_cast.h'],[('numeric_cast','numeric_cast.h')])
prop('C22','The hash of a message is SHA-256 however the message is delivered',
 'The computed digest depends only on the concatenated bytes, not on how they are split into updates, equals the SHA-256 standard for every length and content including padding boundaries, and a reset object hashes as new.',
 ['inputs','histories'],'all contents of bounded length and all splits','tests check a few known vectors',
 [S+'sha256.cc',I+'sha256.h'],[('Context::update/finalize','sha256.cc')])
prop('C23','Binary output round-trips every particle exactly',
 'Each block written to the binary output has exactly the layout documented for its format, with values bit-identical to the particle data, whatever the values and chunk size. Reading the file back in order yields the same particles.',
 ['inputs'],'all particle values for bounded counts','tests write a few particles',
 [S+'binaryoutput.cc',I+'binaryoutput.h',I+'outputformatter.h'],[('write_in_chunk, ToBinary','binaryoutput.h/outputformatter.h')])
prop('C24','Output files appear under their final name only when complete',
 'An output file carries its unfinished suffix from opening until it is closed normally and gets its final name then; if the program is unwinding from an error, crashes, or could not write everything, the unfinished name stays. The final name never refers to a partial file, and every file is closed exactly once.',
 ['crash_points','fault_sequences'],'all crash points between open and close, with or without exception unwinding','tests check the normal path',
 [S+'file.cc',I+'file.h'],[('RenamingFilePtr','file.cc')])
prop('C25','Only one process at a time holds an output directory lock',
 'However several processes interleave, at most one acquires the lock file until it is released, the holder removes the file on release, and a failed attempt never removes a lock held by someone else.',
 ['schedules','fault_sequences'],'all interleavings of bounded acquire/release attempts with failing system calls','tests run one process',
 [S+'filelock.cc',I+'filelock.h'],[('FileLock::acquire, destructor','filelock.cc')])
prop('C26','Random samplers never leave their documented range',
 'For every random draw the uniform, exponential, power-law, angular and mass samplers return values in their documented interval, monotonically covering it.',
 ['inputs'],'all generator outputs and parameters','tests draw finitely many samples',
 [I+'random.h',S+'random.cc',S+'distributions.cc'],[('random::*','random.h/.cc')])
prop('C27','A channel is selected exactly in proportion to its weight',
 'For any non-negative weights, the selected reaction or decay channel is the one whose cumulative weight interval contains the draw, so a channel of zero weight is never chosen and one of the listed channels always is.',
 ['inputs'],'all weights and draws for bounded numbers of channels','tests sample',
 [S+'action.cc',I+'action.h',S+'processbranch.cc'],[('choose_channel, total_weight','action.cc / processbranch.h')])
prop('C28','Energy-momentum tensors add linearly and transform as tensors',
 'The energy-momentum tensor of a set of particles is the sum of p^mu p^nu/E over it, scaled, with every component stored once in symmetric order. Boosting the tensor equals building it from boosted momenta, and adding then subtracting restores it.',
 ['inputs'],'all momenta','tests check a few',
 [S+'energymomentumtensor.cc',I+'energymomentumtensor.h'],[('add_particle, boosted, operators','energymomentumtensor.*')])
prop('C29','Smeared densities are non-negative, additive and vanish outside the cut-off',
 'Each particle contributes to the density current a smearing factor that is non-negative, zero beyond the cut-off radius, and weighted with its charge of the selected type; the density of a set is the sum over members independent of order.',
 ['inputs'],'all positions and momenta','tests compare sampled totals',
 [S+'density.cc',I+'density.h'],[('unnormalized_smearing_factor, density_factor, current_eckart','density.*')])
prop('C30','Interpolation and tabulation reproduce their support points',
 'Interpolated values pass through every support point, lie between neighbouring points for linear interpolation, use the documented value outside the range, and never read outside the table for any argument.',
 ['inputs'],'all tables of bounded size and all arguments','tests check few arguments',
 [I+'interpolation.h',S+'interpolation.cc',I+'interpolation2D.h',S+'interpolation2D.cc',I+'tabulation.h',S+'tabulation.cc'],[('InterpolateDataLinear, Tabulation::get_value_*','interpolation.h, tabulation.cc')])
prop('C31','Text utilities split, join and trim without losing characters',
 'Splitting on a delimiter and joining with it returns the original text (for texts without empty pieces), trimming removes exactly the blanks at both ends, padding reaches the requested width in characters and leaves wider texts alone, and removing substrings or suffixes changes nothing else.',
 ['inputs'],'all strings up to a stated length','tests use few strings',
 [S+'stringfunctions.cc',I+'stringfunctions.h'],[('split, join, trim, ...','stringfunctions.cc')])
prop('C32','Nuclei are composed, centred, boosted and aligned consistently',
 'Filling a nucleus creates exactly the requested nucleons, centring moves their mean to the requested point without changing relative positions, and shifting and boosting contract only along the beam axis and give each nucleon the beam velocity on its mass shell.',
 ['inputs'],'all nucleon positions and velocities for bounded mass numbers','tests check few nuclei',
 [S+'nucleus.cc',I+'nucleus.h'],[('fill_from_list, align_center, boost, shift','nucleus.cc')])
prop('C33','Particle-list input accepts consistent particles and rejects the others',
 'A particle read from a list keeps its species, position and momentum when they are consistent, inconsistent charge or unknown species are rejected or removed as documented, off-shell momenta are put on the mass shell for stable species, and particles given at different times are free-streamed back to a common start time.',
 ['inputs'],'all numeric fields','tests read a few files',
 [S+'listmodus.cc',I+'listmodus.h'],[('try_create_particle, backpropagate_to_same_time','listmodus.cc')])
prop('C34','Cross-section scaling of unformed particles grows from initial to full value',
 'The cross-section scaling factor of a particle is zero-to-one, equals its initial value before formation begins, one after it is formed, and grows monotonically in between.',
 ['inputs'],'all formation times, powers, evaluation times','tests check few',
 [S+'particledata.cc',I+'particledata.h'],[('xsec_scaling_factor','particledata.cc')])
prop('C35','Pauli blocking factors are probabilities',
 'The phase-space occupation used for Pauli blocking is non-negative, counts only particles of the same species other than those being scattered, within its position and momentum radii, and adding a particle never lowers it.',
 ['inputs'],'all positions and momenta of bounded ensembles','tests do not settle',
 [S+'pauliblocking.cc'],[('phasespace_dens','pauliblocking.cc')])
prop('C36','Closest approach determines collisions independent of particle order and frame',
 'The squared transverse distance, collision time and covariant variants used to decide on a binary collision are symmetric under exchanging the particles, non-negative, and minimal along the straight trajectories. No collision is scheduled outside the current step or for the same pair that just interacted.',
 ['inputs'],'all positions and momenta of two particles','tests are not even built (external event generator missing)',
 [S+'scatteraction.cc',S+'scatteractionsfinder.cc'],[('transverse_distance_sqr, collision_time, check_collision','scatteraction.cc, scatteractionsfinder.cc')])
