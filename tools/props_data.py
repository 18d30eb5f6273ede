NOT_APPLICABLE = {}

p("P01", "Data tables behave as typed columns and rows under any operation history",
  """After any sequence of adding columns, header entries and rows and setting values, a table reports exactly the columns, types, header
  entries, row count and cell values a plain dictionary of typed columns would, by every getter, row and iterator and in its text dump.
  New rows and columns start zero or empty, a copied table is independent, and an operation on a missing column, header or row raises
  out_of_range, a wrong type raises WrongTypeException, a duplicate or non-numeric text raises invalid_argument, and each leaves the table unchanged.""",
  "histories inputs", "every sequence of table operations, valid and invalid, over any names, types and row indexes",
  "unit tests run one fixed script; the guarantee is over every interleaving of valid and failing operations",
  [("typed column stores with lookup", "DataTable.h:DataTable"), ("accessors and exceptions", "DataTable.cpp:DataTable::Set"), ("row iterators", "DataTable.cpp:DataTableRowIterator")])

p("P02", "Writing a table to TFS and reading it back returns the same table",
  """A table written in TFS format to a stream or a file and read back has the same header entries, columns, order, types and rows:
  integers and strings (including empty strings and strings with blanks) exactly, reals to ten significant digits including zero, infinities,
  NaN and subnormals. The writer leaves the formatting state of the caller's stream unchanged.""",
  "inputs", "every table shape, name, type and value the format can express (no quotes or newlines in strings)",
  "the tests read one sample file; they cannot cover all value and type combinations",
  [("writer", "DataTableTFS.cpp:DataTableWriterTFS::Write"), ("reader", "DataTableTFS.cpp:DataTableReaderTFS::Read"), ("text conversion", "DataTable.cpp:DataTable::SetWithStr")])

p("P03", "The TFS reader accepts exactly well-formed files and rejects all others",
  """Reading TFS text returns the table it describes, ignoring blank lines and tolerating any spacing and CR line ends, or throws: structural
  errors (missing '*' or '$' line, wrong '@' line, unknown type code, a row or type line of the wrong length) raise BadFormatException, and
  duplicate names or values that are not numbers of the declared type raise a standard exception. It never returns a table for a malformed file, crashes or hangs.""",
  "inputs", "every byte sequence offered as a TFS file, including truncations and corruptions of valid files",
  "tests contain a handful of bad files; the guarantee is over all of them",
  [("line state machine", "DataTableTFS.cpp:DataTableReaderTFS::Read"), ("tokenizer", "DataTableTFS.cpp:split_line")])

p("P04", "Name patterns match exactly the strings their wildcards and alternatives denote",
  """A pattern matches a string exactly when '*' can be replaced by character sequences (possibly empty) to give the whole string, every other
  character standing for itself (case sensitive), and a pattern with '|' matches when any of its alternatives does. Copies, the call
  operator and a pattern re-made from its printed form match the same strings; comparison orders patterns by their text.""",
  "inputs", "all patterns with non-empty alternatives and all strings", "no test addresses patterns; matching must be right for every pattern and string",
  [("pattern parsing", "StringPattern.cpp:StringPattern::StringPattern"), ("matching", "StringPattern.cpp:StringPattern::Match")])

p("P05", "Rotations, translations and transforms compose and invert as rigid motions",
  """Rotations, 3D transforms, 2D transforms and 3D affine transforms act on points and vectors as the rigid motions they are built from:
  products act as successive application, inverses undo, isIdentity is true exactly for the identity motion, and composition is
  associative. Point and vector arithmetic and dot and cross products agree with their definitions.""",
  "inputs histories", "every chain of compositions and inversions of rotations and translations of any angle, size and kind (including pure, tiny, half-turn and general rotations)",
  "each operation has special-cased types (pure x, y, z, identity, general); products of every pair of kinds must agree",
  [("rotation kinds", "Rot3Drep.cpp:Rot3Drep"), ("3D transforms", "Transform3D.cpp:Transform3D"), ("2D transforms", "Transform2D.h:Transform2D"),
   ("rotation front end", "Rotation3D.h:Rotation3D")])

p("P06", "Arc, drift and rectangular element geometries are the curves they describe",
  """For every accelerator geometry the transform between two positions is the rigid motion along its curve (straight line, arc of the
  given length and curvature with tilt, or arc chord with end rotations): transforms compose along intermediate positions, invert when the
  ends are exchanged, total and extent transforms match, the local origin is mid-curve, and positions outside the extent raise BeyondExtent.""",
  "inputs", "every length, curvature (of both signs and zero), tilt and pair of positions", "transforms depend continuously on several parameters with degenerate cases",
  [("arc", "ArcGeometry.cpp:ArcGeometry"), ("straight", "RectangularGeometry.cpp:RectangularGeometry"), ("contract", "AcceleratorGeometry.h:AcceleratorGeometry")])

p("P07", "Nested sequence frames give the geometry of their elements laid end to end",
  """A sequence of frames (of any nesting and origin) has the length, transforms, entrance and exit planes and total transform of its
  element geometries joined end to end, seen from the sequence's origin (entrance, centre or exit). This holds between any two positions in either
  direction, and for copies of component and sequence frames.""",
  "histories inputs", "every nesting of sequences of straight and bent elements, every origin and pair of positions", "no unit test constructs nested or centred bent sequences",
  [("sequence geometry", "SequenceFrame.cpp:SequenceGeometry::GetGeometryTransform"), ("frames", "SequenceFrame.cpp:SequenceFrame"), ("component frame", "ComponentFrame.cpp:ComponentFrame")])

p("P08", "Frames keep the displacements applied to them and pass them to their elements",
  """After any history of translations, rotations, transforms, mover settings and support offsets, every frame has as its local displacement the
  successive motions applied to it (movers and supports included); its physical transform in any enclosing frame combines displacements and
  design geometry; entrance and exit plane transforms are the same displacement seen there, including enclosing frames that share the boundary.
  Girder ends follow their supports. Copies keep displacements and are independent. AcceleratorErrors displaces exactly the matching frames.""",
  "histories inputs", "every nesting of frames, movers, mounts and girders and every history of displacements", "only simple single displacements are run by tests; the state of movers and girders depends on histories",
  [("frame transforms", "LatticeFrame.cpp:LatticeFrame::GetBoundaryPlaneTransform"), ("user displacements", "Transformable.cpp:Transformable::Translate"), ("movers", "MagnetMover.cpp:MagnetMover::GetLocalFrameTransform"),
   ("mounts and girders", "SupportStructure.cpp:SupportStructure::UpdateSupportTransform"), ("random errors", "AcceleratorErrors.cpp:Errors")])

p("P09", "A constructed model contains exactly the lattice it was built from, in order",
  """Whatever sequence of components, gaps, drifts, geometry patches and (nested or externally built) frames is appended, the model's beamline holds
  exactly those elements in order with consecutive beamline indexes, arc length and positions equal to the accumulated lengths, each
  frame owning its elements, its supports listed, and a repository of exactly the frames and components used; a constructor can build several models in turn.""",
  "histories", "every construction program", "tests build a few fixed lattices; order, indexes and ownership must hold for every program",
  [("constructor", "AcceleratorModelConstructor.cpp:AcceleratorModelConstructor::AppendComponentFrame"), ("external frames", "AcceleratorModelConstructor.cpp:MEExtractor"),
   ("model", "AcceleratorModel.cpp:AcceleratorModel"), ("frames", "SequenceFrame.cpp:SequenceFrame::ConsolidateConstruction")])

p("P10", "Beamline, component and element selection returns exactly what was asked for",
  """Beamlines selected by index or by n-th pattern occurrences start and end at exactly those elements or raise BadRange; iterating or
  tracking along them visits every element between in order (or reverse order); rings wrap in both directions; and extraction of components, typed components,
  elements and indexes by pattern returns exactly the matching ones in order, overwriting earlier results where documented.""",
  "inputs", "every lattice (with repeated names and geometry patches), range, pattern and occurrence number", "no test selects by pattern occurrence, reversed or out-of-range lines",
  [("ranges", "AcceleratorModel.cpp:AcceleratorModel::GetBeamline"), ("extraction", "AcceleratorModel.cpp:AcceleratorModel::ExtractComponents"),
   ("repository search", "ElementRepository.cpp:ElementRepository::Find"), ("ring", "ring_iterator.h:ring_iterator")])

p("P11", "Installing an element splits its drift and changes nothing else",
  """Installing a zero-length element at a position inside a drift replaces that drift by two drifts with the element between them at that position; all
  other elements, the total length and the order are unchanged, beamline indexes stay consecutive, and the new elements can be found in
  the model. Positions not in a drift and elements of finite length are refused. This holds for any sequence of installations.""",
  "histories inputs", "every lattice, position and sequence of installations", "no test installs elements",
  [("installation", "AcceleratorModel.cpp:AcceleratorModel::InstallModelElement")])

p("P14", "Processes on a component are scheduled in priority order with exact step sizes",
  """Whatever processes (priorities, step limits, activity) are added to or removed from a tracker, on every component all of them are told the component in
  order before the first step, active ones are called at each step in ascending priority (ties in order of adding; a negative priority is appended to the end when added), all with the same step,
  no step exceeds any active process's limit or the remaining length, the steps add up to the component length (one step of zero for zero-length components), and
  inactive processes are not called. Processes are deleted with the manager or on clearing, and belong to the caller on removal.""",
  "histories inputs", "every set of processes, priorities, step limits and add/remove history, and every component length", "scheduling depends on combinations of priorities, activity and step limits that tests do not form",
  [("scheduler", "ProcessStepManager.cpp:ProcessStepManager::Track"), ("histories", "ProcessStepManager.cpp:ProcessStepManager::RemoveProcess"),
   ("step division", "ComponentStepper.cpp:ComponentDivider")])

p("P15", "Tracking is the composition of its elements, however it is driven",
  """Tracking a bunch through a beamline or ring applies each element once, in order, inside its frame's entrance and exit transforms (and geometry patch), whether by
  Run, Continue, Track, stepping one component at a time or in parts; flat-lattice and on-axis options drop exactly their transforms. The source bunch is kept, copies are of its own sort,
  particles are tracked independently in order with their ids, integrator sets and registered integrators replace exactly those of their component types, extra processes
  do not disturb the tracking, and simulation outputs are called at exactly the elements they select.""",
  "histories inputs", "every lattice of elements, misaligned frames and patches, driving mode, starting element, integrator set and added process", "tests run whole fixed lattices in one mode",
  [("driver", "TrackingSimulation.cpp:TrackingSimulation::DoRun"), ("stepping", "TrackingSimulation.cpp:TrackingSimulation::StepComponent"), ("frame transforms", "TrackingSimulation.cpp:ComponentTracker"),
   ("outputs", "TrackingSimulation.cpp:SimulationOutput::DoRecord"), ("component dispatch", "ComponentTracker.cpp:ComponentTracker")])

p("P13", "A linear feedback steers its signals to their set points",
  """Each application changes the actuators by minus the gain times the pseudo-inverse response applied to signals less set points, writing every actuator once: with gain 1 the signals reach the set points as closely as the actuators allow, otherwise the reachable part
  shrinks by 1 - gain, and unreachable parts and unneeded actuators stay as they are. With a pulse delay of n each correction arrives n - 1 applications later, actuators staying as they were until the first. Stored actuators are restored exactly, set points, gain and response take effect when set,
  rms values are those of the present channels, and the feedback owns its channels, after any history and on tracked lines.""",
  "inputs and histories", "every response, history of applications and settings, and delay", "no test uses the feedback",
  [("feedback", "LinearFBSystem.cpp:LinearFBSystem::Apply"), ("delay", "LinearFBSystem.cpp:LinearFBSystem::SetPulseDelay"), ("inverse", "TLASimp.h:SVDMatrix"), ("channels", "Channels.cpp:RWChannelArray::WriteAll")])
p("P16", "Wakefields act on each particle as the charge ahead of it does",
  """Every passage of an element with wake potentials changes momentum and transverse angles of each particle by the wakes of the charge of the slices ahead of it (half of its own), times the length, interpolated between slices, once per passage at the impulses asked for whatever the steps,
  with the charge and the momentum of the bunch; reference momentum and mean agree. Particles outside the truncation are removed once; slices follow the bunch as it changes, filters are least squares fits; radiation, collimator modes and couplers obey their formulas. Macroparticles are kicked as particles,
  and elements without wakes, after any history, act on nothing.""",
  "inputs and histories", "every bunch, slicing, step pattern, mode and history of elements", "no test uses wakefields",
  [("bunch wakes", "WakeFieldProcess.cpp:WakeFieldProcess::ApplyWakefield"), ("slices", "ParticleBunchUtilities.cpp:ParticleBinList"), ("filters", "WakeFieldProcess.cpp:savgol"), ("macroparticles", "SMPWakeFieldProcess.cpp:WakeFieldProcess::ApplyWakefield"),
   ("collimator modes", "CollimatorWakeProcess.cpp:CollimatorWakeProcess::ApplyWakefield"), ("couplers", "CouplerWakeFieldProcess.cpp:CouplerWakeFieldProcess::ApplyWakefield")])
p("P17", "Magnets act on particles as their fields do, in every integrator set",
  """Tracking a particle of either charge through a dipole, multipole (normal, skew or mixed), bend (combined function, tilted, with any pole faces), corrector, solenoid, drift
  or marker of any length and in any number of steps gives, in each integrator set, the motion its field prescribes to the order that set treats: maps
  agree with the equations of motion, higher multipoles act as kicks, charge sign reverses the field, off-momentum particles see it
  scaled, zero length magnets kick by their integrated strength. Tracking leaves the magnet unchanged; copies act the same.""",
  "inputs", "every magnet field, geometry, charge, momentum, step division and particle", "tests track a few particles through a few magnets",
  [("default integrators", "TransportIntegrators.cpp:SectorBendCI"), ("thin lens", "StdIntegrators.cpp:THIN_LENS"), ("symplectic", "SymplecticIntegrators.cpp:SYMPLECTIC"),
   ("second order maps", "BasicTransportMaps.cpp:GenSectorBendTM"), ("applying maps", "RTMap.cpp:RTMap")])

p("P18", "RF cavities accelerate and kick by their voltage and phase; klystrons drive them",
  """A particle gains g L cos(phi - k ct) in a travelling or standing wave cavity, the reference momentum g L cos(phi) where the set accelerates it, and slopes damp accordingly; end fields
  and standing waves focus as their fields prescribe, transverse cavities kick along their orientation, and cavities without voltage are drifts, in every number of steps.
  Amplitude, voltage, phase, phasor, frequency, wavelength and wave number settings are consistent after any history of changes and copies. Klystron phasors are the sum of their cavities': set in equal
  shares (balanced) or in fixed proportion (vector sum).""",
  "inputs histories", "every cavity, phase (zero crossing included), particle and step division, and every history of settings", "tests do not track cavities at zero crossing or drive klystrons",
  [("travelling wave", "LCAVintegrator.cpp:LCAVIntegrator"), ("standing wave", "StdIntegrators.cpp:SWRFStructureCI"), ("symplectic", "SymplecticIntegrators.cpp:RSRFStructureMap"),
   ("transverse", "TransRFIntegrator.cpp:TRFMap"), ("settings", "RFStructure.cpp:RFStructure"), ("klystron", "Klystron.cpp:Klystron::AdjustCavities")])

p("P19", "Magnetic fields are exactly the multipoles that were set",
  """Whatever constructors, component, coefficient, scale and strength settings, windings and copies are applied, in any order, a magnet's field at every point, its normalised strengths Kn, components and
  coefficients at any radius, the force on a particle and the matched momentum of a bend are those of the multipole expansion so defined. Reading a field never changes it; setting one component
  (or one plane of a winding) keeps the others; copies are independent; two rotations by 180 degrees restore it.""",
  "inputs histories", "every multipole order, radius, point and history of settings", "tests read a few freshly constructed fields",
  [("field", "MultipoleField.cpp:MultipoleField"), ("magnets", "RectMultipole.cpp:RectMultipole"), ("bend", "SectorBend.cpp:SectorBend::GetMatchedMomentum"), ("windings", "CorrectorWinding.cpp:CorrectorWinding::SetBx"),
   ("solenoid", "Solenoid.cpp:Solenoid")])

p("P12", "Channels find, read and write exactly the parameters they name",
  """A channel pattern type.element.key returns one channel for every matching parameter of the model (or beamline range, in beamline order) and none else; read/write requests leave out read-only ones. Reading gives the
  element's current value, writing and incrementing change that parameter and no other unrelated one, for single channels, arrays and saved states (restored exactly), after any history. BPM channels read
  the last measurement of their own BPM plus the offset set for that plane, also when models are built and deleted in turn.""",
  "inputs histories", "every pattern, channel and history of writes, increments, saves and restores", "no test uses channels",
  [("lookup", "ChannelServer.cpp:ChannelServer::GetROChannels"), ("definitions", "StdChannelDefs.cpp:ConstructChannelServer"), ("access", "IndirectChannels.h:TIRWChannel"), ("arrays", "Channels.cpp:RWChannelArray"),
   ("saved state", "RWChannelState.cpp:RWChannelState"), ("BPM channels", "BPMDataBufferServer.cpp:BPMDataBufferServer::GetDataBuffer")])

p("P34", "Monitors measure the beam at their measurement point, once per passage",
  """A BPM records, in every buffer attached to it, the centroid of the bunch at its measurement point once per passage, whatever its length, measurement point and number of tracking steps, scaled and with response and resolution as set;
  an inactive one (or one without buffers) records nothing, and the beam is that of a drift. Profile monitors give the rms widths in x, y and the tilted plane. Monitor processes dump exactly
  the bunch at exactly the elements asked for.""",
  "inputs histories", "every monitor length, measurement point, step division, bunch and history of settings", "no test reads monitors",
  [("measurement", "StdIntegrators.cpp:MonitorCI"), ("BPM", "BPM.cpp:BPM::MakeMeasurement"), ("profile", "RMSProfileMonitor.cpp:RMSProfileMonitor::MakeMeasurement"), ("dumps", "MonitorProcess.cpp:MonitorProcess::DoProcess")])

p("P20", "Bunch statistics, reference adjustments and slicing are exact",
  """For every bunch of particles or macroparticles and after any history of operations, centroid, moments, projections and charge are those of its contents (whatever the result object held before); adjusting
  the reference momentum or time, transforming, sorting, moving or merging keeps every particle's physical momentum, time and id. Slicing puts every particle within the range in exactly the slice
  it lies in; histograms are normalised to the contents; converting between particles and macroparticles conserves charge, mean and reference.""",
  "inputs histories", "every bunch contents and history of operations, and every position relative to slice edges", "tests check one bunch of a few particles",
  [("statistics", "ParticleBunch.cpp:ParticleBunch::GetMoments"), ("references", "ParticleBunch.cpp:ParticleBunch::AdjustRefMomentum"), ("macroparticles", "SMPBunch.cpp:SMPBunch"),
   ("slicing", "ParticleBunchUtilities.cpp:ParticleBinList"), ("conversion", "BunchConverter.h:SMPBunchConverter")])

p("P21", "Bunches written out are read back the same",
  """Writing a bunch, a macroparticle bunch or a particle and reading it gives the same particles in the same order, to the precision written, with reference time and momentum as in its header; comments and empty lines are
  skipped wherever they are, the particles already in a bunch stay, and ids written with a particle are read back.""",
  "inputs", "every contents, number format and arrangement of comments", "the test reads one written bunch",
  [("writing", "ParticleBunch.cpp:ParticleBunch::Output"), ("reading", "ParticleBunch.cpp:ParticleBunch::Input"), ("particles", "PSTypes.h:PSvector"), ("macroparticles", "SliceMacroParticle.cpp:SliceMacroParticle::Read")])

p("P22", "Generated bunches are matched to the beam they are generated for",
  """A bunch generated for a beam has the number of particles and charge asked for, the beam centroid as first particle and ids in order; every other particle is the next generated one that the filter accepts, transformed to the
  beam's emittances, spreads, coupling, optics, dispersion and centroid exactly. Built-in distributions stay within their shape and cutoffs and have their moments; filters accept exactly what is beyond their limit.
  Macroparticle bunches divide the charge in Gaussian slices with the beam's dispersion and sigma matrix.""",
  "inputs", "every beam, particle sequence and filter answer sequence", "the test compares the moments of one large bunch within percents",
  [("generation", "ParticleBunch.cpp:ParticleBunch::ParticleBunch"), ("distributions", "ParticleDistributionGenerator.cpp:NormalParticleDistributionGenerator"), ("halos", "HaloParticleDistributionGenerator.cpp:HorizonalHalo1ParticleDistributionGenerator"),
   ("filters", "BunchFilter.cpp:HorizontalHaloParticleBunchFilter"), ("macroparticles", "SMPBunchConstructor.cpp:SMPBunchConstructor")])

p("P23", "Random numbers are reproducible from the seed",
  """Every draw is a function of the seed and the draws made since seeding only: seeding or resetting restarts the sequence of the main and of all local generators, draws from one generator do not affect the others, generators of different names or seeds
  differ, and an automatic seed can be read and reused. Normal, truncated, uniform, Poisson, Landau and multivariate normal draws follow their distributions, zero widths and cutoffs included.""",
  "histories inputs", "every interleaving of seeding, resets and draws", "the test draws from fresh generators",
  [("generators", "RandomNG.cpp:RandomNG"), ("Landau", "LandauDistribution.h:landau_quantile"), ("multivariate", "MultiNormal.h:MultiNormal")])

p("P24", "Beam parameters and sigma matrices describe the same beam",
  """The sigma matrix of a beam is that of its emittances, optics, coupling, dispersion, spreads and centroid, and gives back the same parameters; coupling, Courant-Snyder and dispersion matrices are symplectic (or unit) and inverse to their inverses.
  Decoupling diagonalises every sigma matrix, and normal mode emittances are invariant under every sequence of linear symplectic maps.""",
  "inputs histories", "every set of beam parameters and every sequence of linear maps", "no test converts sigma matrices",
  [("transformations", "NormalTransform.cpp:NormalTransform"), ("to sigma", "NormalTransform.cpp:BeamDataToSigmaMtrx"), ("from sigma", "NormalTransform.cpp:SigmaMatrixToBeamData"), ("decoupling", "NormalTransform.cpp:DecoupleSigma")])

p("P25", "Apertures contain exactly the points of their shape",
  """A point is inside of an aperture exactly when it is inside of the circle, rectangle, ellipse, rectellipse or octagon its parameters describe, made directly or from a table row, at any depth; points on the wall are lost. Collimators contain
  what is between their tilted, offset jaws, tapering linearly from entrance to exit for aligned collimators; one-sided ones stop on the side of their jaw only. Parameters, type and place are given back as set.""",
  "inputs", "every shape, orientation and point relative to the wall", "tests probe a few points of a few apertures",
  [("shapes", "Aperture.cpp:RectEllipseAperture::CheckWithinApertureBoundaries"), ("octagon", "Aperture.cpp:OctagonalAperture"), ("collimators", "CollimatorAperture.cpp:CollimatorAperture::CheckWithinApertureBoundaries"),
   ("factory", "Aperture.cpp:ApertureFactory")])

p("P26", "Elements get the aperture of the place they are at",
  """Configuring a model from an aperture table gives every element with a length and no aperture of its own the aperture the table has at its place: drifts the linear interpolation of the table along them, mixed types included, at entries,
  between them, at jumps and across the ends; other elements that of the first entry at or after their entrance. Markers get none, present apertures are kept, and interpolation does not depend on what was asked before.""",
  "inputs", "every aperture table and arrangement of elements relative to it", "the test configures one ring and compares a few elements",
  [("configuration", "ApertureConfiguration.cpp:ApertureConfiguration::ConfigureElementApertures"), ("interpolation", "InterpolatedApertures.cpp:InterpolatedRectEllipseAperture"), ("factory", "InterpolatedApertures.cpp:InterpolatorFactory")])

p("P27", "Collimators are set as their database says",
  """Configuring collimators from a database in sigmas opens every collimator it lists to that many sigmas of the beam in the (tilted) collimation plane and in the one orthogonal to it, around the closed orbit, at entrance and exit when matched to
  the envelope and otherwise with parallel jaws that clear the beam all along; one in metres gives the gaps and tilts of the file. Only listed collimators change, in any order of lines; the impact factor is that of the selected primary collimator,
  and configuring again depends on the current settings only.""",
  "inputs histories", "every database, optics, tilt, mode and history of settings", "no test checks the openings set",
  [("in sigmas", "CollimatorDatabase.cpp:CollimatorDatabase::ConfigureCollimators"), ("jaws", "CollimatorAperture.cpp:UnalignedCollimatorAperture"), ("optics", "LatticeFunctions.cpp:LatticeFunctionTable::Value")])

p("P28", "Collimation loses exactly the particles outside, once, at their place",
  """Tracking with collimation removes exactly the particles that are outside of an element's aperture where the mode checks it (entrance, centre, exit, all bins of collimators); survivors are unchanged and in order, and every removed particle is
  reported exactly once with element, turn and the place in it where it first was outside, whatever the bin size, other processes, element length and number of turns. In collimators particles move straight between interactions, lose energy for the path in
  the jaw only and survive or not as the interaction says. Index lists follow the survivors and the loss threshold stops tracking exactly when it is reached.""",
  "inputs histories", "every lattice, aperture mode, bin size, bunch and sequence of interaction outcomes", "the test loses particles in one aperture and one collimator",
  [("losses", "CollimateParticleProcess.cpp:CollimateParticleProcess::DoCollimation"), ("places", "CollimateParticleProcess.cpp:CollimateParticleProcess::SetNextS"), ("scattering", "CollimateProtonProcess.cpp:CollimateProtonProcess::DoScatter"),
   ("outcomes", "ScatteringModel.cpp:ScatteringModel::ParticleScatter")])

p("P29", "Loss maps count every loss once, in its row",
  """A loss map by elements, positions or 10 cm bins has one row per element, position or bin of an element with losses, in order along the ring, whose count is the number of losses there: the sum of the rows is the number of losses, whatever their order,
  elements of the same name or at the same place, and however often it is finalised. Rows name the element, its place and length, and whether it is a collimator or in a warm region. Detailed output lists exactly the losses in the
  elements asked for, in order. Written tables can be read back by their header for any name and precision.""",
  "histories", "every sequence of losses and finalisations", "no test covers loss maps by element or position",
  [("losses", "LossMapCollimationOutput.cpp:LossMapCollimationOutput::Dispose"), ("rows", "LossMapCollimationOutput.cpp:LossMapCollimationOutput::Finalise"), ("table", "LossMapCollimationOutput.cpp:LossMapCollimationOutput::Output"),
   ("detailed", "DetailedCollimationOutput.cpp:DetailedCollimationOutput::Output"), ("order", "CollimationOutput.h:Compare_LossData")])

p("P30", "A lattice file gives the model it describes",
  """Reading a MAD optics table gives one model element per row, of its type, name and length, in file order and at the accumulated position; magnets have the strength of the row times the rigidity (falling with synchrotron loss when scaling is asked for), bends their curvature,
  tilt and pole faces, correctors, cavities, solenoids and crab elements their settings. LINE rows become nested frames, or none, as set; SROT rows rotate the axes; types set to be drifts or ignored are. Appended files follow on at their own momentum. Missing optional
  columns do not matter; unusable files are reported and the interface can be used again.""",
  "inputs", "every sequence of rows and every setting", "tests read whole machine files and count elements",
  [("reading", "MADInterface.cpp:MADInterface::ConstructModel"), ("types", "MADInterface.cpp:MADInterface::TypeOverrides"), ("elements", "MADInterface.cpp:TypeFactory::GetInstance"), ("frames", "MADInterface.cpp:MADInterface::ConstructNewFrame"),
   ("appending", "MADInterface.cpp:MADInterface::AppendModel"), ("building", "AcceleratorModelConstructor.cpp:AcceleratorModelConstructor::GetModel")])
p("P31", "Linear algebra gives what its operations are named for",
  """Vector and matrix arithmetic, products, transposes and sub-ranges (also reversed and overlapping) give the mathematical result for every shape and refuse mismatched ones; printing shows every value in the format asked for. LU solves, inverts and gives the
  determinant; the singular value decomposition gives orthogonal factors, the singular values and the least-squares solution of least norm, weighted if asked, for any shape, rank and scale; symmetric eigensystems are orthogonal and complete; the
  eigensystem of a one-turn matrix gives its normalised modes in the order of the planes; Symplectify returns a symplectic matrix and keeps one that is.""",
  "inputs", "every shape, rank, scale and conditioning of matrix and every range", "no test calls the linear algebra directly",
  [("vectors and ranges", "TMatrixLib.h:class Vector"), ("LU and SVD", "TLASimp.h:SVDMatrix"), ("one-turn matrices", "LinearAlgebra.cpp:EigenSystem"), ("printing", "OPFormat.cpp:OPFormat"), ("symmetric", "LinearAlgebra.cpp:EigenSystemSymmetricMatrix")])

p("P32", "Tabulated, binned and special functions have the values of their data",
  """An interpolation goes through its points, is linear between them (or the polynomial of the order asked for), has no jumps, gives the same value whatever was asked before, carries on linearly beyond equally spaced points and refuses values outside others; the
  points may come in any order and need not outlive it. A histogram counts every value once, in the bin it is in, and returns how many are outside. A range includes its ends, whichever way round they are given. Gamma functions and normal bins have the
  mathematical values.""",
  "inputs", "every table, order of points and argument", "no test calls them directly",
  [("equal spacing", "Interpolation.cpp:EqualSpacedData"), ("any spacing", "Interpolation.cpp:ArbSpacedData"), ("histogram", "Histogram.cpp:Hist"), ("ranges", "Range.h:NumericalRange"), ("gamma", "Gamma.cpp:LogGamma"), ("normal bins", "erfcc.cpp:NormalBin")])
p("P33", "Closed orbit, optics functions and tunes are those of the tracking",
  """The closed orbit closes on itself after a turn from any element and at any momentum; transfer matrices of the ring or a part are the derivatives of tracking, with the radiation and the processes added. Lattice functions at every element boundary are the positions, orbit, phases, mode (beta)
  matrices and dispersion of the one-turn map, carried along the line, or of given initial values, with and without coupling and RF, whatever was calculated with the table before; means, rms, look-up and printing are of these. Dispersion, phase
  advances with all full turns, maps between elements and tunes by tracking agree with them.""",
  "inputs", "every stable lattice, starting element and momentum", "tests compare the functions of one ring to reference tables",
  [("closed orbit", "ClosedOrbit.cpp:ClosedOrbit::FindClosedOrbit"), ("matrices", "TransferMatrix.cpp:TransferMatrix::FindTM"), ("functions", "LatticeFunctions.cpp:LatticeFunctionTable::DoCalculate"), ("dispersion", "Dispersion.cpp:Dispersion::FindRMSDispersion"),
   ("phases", "PhaseAdvance.cpp:PhaseAdvance::CalcIntegerPart"), ("tunes", "BetatronTunes.cpp:BetatronTunes::FindTune")])
p("P35", "Spins precess with the particles that carry them",
  """In solenoids, quadrupoles, bends with pole faces, and thin or long kickers, straight, tilted, displaced or rolled, with any number of steps and either charge sign, the spin of each particle precesses as Thomas-BMT says for the turn its own momentum makes there,
  keeping its length; drifts and markers leave it. Whatever is done to the bunch (adding, sorting, collimating, culling, clearing, copying and reading back) each spin stays with its particle, and tracking with spins moves particles as tracking without.""",
  "inputs histories", "every element, displacement, step division, particle and history of operations on the bunch", "no test tracks spins",
  [("precession", "SpinParticleProcess.cpp:SpinParticleProcess::DoProcess"), ("rotation", "SpinParticleProcess.cpp:SpinParticleProcess::RotateSpin"), ("bunch", "SpinParticleProcess.cpp:SpinParticleBunch")])
p("P36", "Hollow electron lenses kick particles by the current inside them, once a passage",
  """A hollow electron lens kicks each particle radially from its own axis by the fraction of its current inside the particle's radius for the uniform or measured profile, with current, length, rigidity, velocities and direction as set, and not inside its hole; it acts
  once per passage, whatever its length and number of steps, in dc always, in ac by the swept tune of its own turn, in turnskip mode on each nth turn and in random mode for all particles of a turn alike. The profile it writes is that of the kicks, and finding tunes with it
  leaves it usable.""",
  "inputs histories", "every lens, profile, offset, particle and history of modes and turns", "tests compare four configurations to reference numbers",
  [("kicks", "HollowELensProcess.cpp:HollowELensProcess::CalcKickRadial"), ("passage", "HollowELensProcess.cpp:HollowELensProcess::DoProcess"), ("modes", "HollowElectronLens.cpp:HollowElectronLens::SetAC"), ("tunes", "BetatronTunes.cpp:BetatronTunes::FindTunes")])
p("P37", "The check for invalid coordinates finds and removes just the invalid ones",
  """With the check attached, each particle one of whose coordinates is not a finite number is reported once, at the first element and step where it is found, by its own index, number and coordinates, in detail with its coordinates of the element and step before. Set to halt,
  it stops the program then, with an error; set to cull, it removes every invalid particle and no other, leaving order, coordinates, numbers and charges of the rest, whichever numbers particles carry and how often it ran before.""",
  "histories", "every history of invalid coordinates, for every numbering of particles", "no test tracks an invalid particle",
  [("finding", "NANCheckProcess.cpp:NANCheckProcess::DoProcess"), ("reports", "NANCheckProcess.cpp:NANCheckProcess::Report"), ("removing", "NANCheckProcess.cpp:NANCheckProcess::DoCull")])
p("P38", "Slice macroparticles move as the particles they stand for",
  """In drifts, bends with pole faces, tilt and gradient, quadrupoles, skew and thin magnets, solenoids, cavities and monitors, the centroid of each macroparticle moves by the linear motion of a particle of its momentum and its covariances by the same matrix, whatever
  the charge sign, number of steps and reference momentum; misaligned and rotated frames move and turn it as they do tracked particles; cavities change its momentum with its own phase, and reference momentum and time follow. Monitors measure the charge weighted
  mean once per passage at their point, and a line is its elements in order.""",
  "inputs and histories", "every element, step count, displacement and macroparticle", "no test tracks macroparticles",
  [("integrators", "SMPStdIntegrators.cpp:ThickLens"), ("maps", "TransportRMaps.cpp:SBR"), ("covariances", "RMap.h:ApplyR2Map"), ("frames", "SMPTransform3D.cpp:RotateMoments"), ("bunch", "SMPBunch.cpp:SMPBunch::ApplyTransformation")])
p("P39", "Ground motion moves supports by the ATL law",
  """In each step of ATL motion supports move vertically, no other way, by zero-mean random amounts whose covariance is that of the law: any two supports in the plane, and any and the reference point, separate with variance A T L (L their direct distance, or that
  along the line), T being the step or, in absolute mode, the time reached; supports at the same place stay together. Vibration adds its variance independently and does not accumulate. Time, seeds, resets, modes and recorded offsets are as set; an eigensystem
  recorded to files and read back gives the same motion.""",
  "inputs and histories", "every layout of supports and history of steps and settings", "one test checks that motion is not zero in four steps",
  [("plane", "ATL2D.cpp:ATL2D::DoStep"), ("files", "ATL2D.cpp:ATL2D::RecordEigenSystem"), ("line", "SimpleATL.cpp:SimpleATL::DoStep"), ("eigensystem", "LinearAlgebra.cpp:EigenSystemSymmetricMatrix"), ("offsets", "AcceleratorSupport.h:class AcceleratorSupport")])
p("P40", "An XTFF file gives the beamline it lists, with magnets for its energy",
  """Reading a MAD XTFF tape gives one element per record, of its kind, name and length, in file order, with the file's aperture; magnets have the strength of the record for the energy the beam has there: the given or the file's momentum plus what the cavities before, also of
  appended files, have added less their loading by the bunch charge. Bends have their arc, curvature, pole faces and tilt, wires, correctors, collimators, solenoids and crab cavities their settings; named markers open and close girders and mounts. Initial beam data are
  the first file's. Unusable files are reported and interfaces can be used again, one beside another.""",
  "inputs and histories", "every record, setting and history of files", "no test reads an XTFF file",
  [("reading", "XTFFInterface.cpp:XTFFInterface::Parse1"), ("elements", "XTFFInterface.cpp:XTFFInterface::ConstructComponent"), ("girders", "XTFFInterface.cpp:XTFFInterface::ConstructNewFrame"), ("appending", "XTFFInterface.cpp:XTFFInterface::AppendModel")])
p("P41", "Materials slow, deflect and stop particles by their properties",
  """Mixtures have the averages of their elements, by number or by mass; copies are equal and independent; the standard materials have the densities and conductivities of physical tables; the interaction length follows from density and cross sections, and SixTrack values go to the elements they belong to. In a material the path to the next
  interaction is exponential in that length, energy is lost as set or by ionisation (most probable loss, density effect, Landau fluctuations), and angle and offset follow multiple scattering, of that material whatever came before. Each interaction happens
  with its share of the cross section, once set up for each material; its angle, energy loss and recoil agree, and particles of almost no energy stop. Impacts and steps are recorded for the collimators asked for, each once.""",
  "inputs and histories", "every material, sequence of materials, energy and interaction", "tests compare one histogram of one material and print a table",
  [("materials", "MaterialProperties.cpp:Mixture"), ("table", "MaterialData.cpp:StandardMaterialData"), ("loss and deflection", "ScatteringModel.cpp:ScatteringModel::EnergyLoss"), ("choice", "ScatteringModel.cpp:ScatteringModel::ParticleScatter"),
   ("models", "ScatteringModelsMerlin.cpp:ScatteringModelMerlin"), ("interactions", "ScatteringProcess.cpp:ScatterStuff")])
p("P42", "Particles radiate the energy their bending implies, and damp accordingly",
  """In bends, and in multipoles when asked, each particle loses at each of the equal radiation steps asked for, by number or greatest length, and at no other, the energy that its own momentum, mass and the field where it is imply: the mean, or the sum of a Poisson number
  of photons of the synchrotron spectrum (or of the generator set). Every step of every element counts whatever the steps of other processes, direction and position are kept in either kind of variables, the reference momentum follows the mean loss when asked and survives
  empty bunches. One-turn matrices with radiation damp the vertical oscillation by the energy lost per turn and all three together by four times that.""",
  "inputs histories", "every element, length, step division, momentum, sort of particle and ring", "no test radiates",
  [("radiation", "SynchRadParticleProcess.cpp:ApplySR"), ("steps", "SynchRadParticleProcess.cpp:SynchRadParticleProcess::DoProcess"), ("spectrum", "PhotonSpectrumGen.cpp:HBSpectrumGen"), ("one-turn matrices", "TransferMatrix.cpp:TransferMatrix::FindTM")])

p("P43", "The equilibrium of a ring is where radiation damping and excitation balance",
  """The damping constants and tunes of a ring are those of the eigenvalues of its one-turn matrix with radiation, in the mode of each plane; the damping times and the synchronous time follow. The emittance of each mode is that at which the damping of a turn
  balances the excitation by the photons radiated along every bend of it, with its field, gradient, pole faces and tilt, and the second moments at any place of the ring are those of the stationary distribution. Nothing uninitialised enters, and stable modes are found
  whatever their coupling makes the blocks of the matrix look like.""",
  "inputs", "every weakly coupled stable damped ring of bends, quadrupoles and cavities, and every place in it", "no test calculates an equilibrium",
  [("emittances", "EquilibriumDistribution.cpp:EquilibriumDistribution::CalculateEmittance"), ("integral", "EquilibriumDistribution.cpp:IntegrateEigenvector::Integral"), ("damping", "EquilibriumDistribution.cpp:EquilibriumDistribution::CalculateDampingConstants"), ("moments", "EquilibriumDistribution.cpp:EquilibriumDistribution::BeamMoment"), ("modes", "LinearAlgebra.cpp:EigenSystem")])
p("P44", "Transfer maps act alike on particles, moments and bunches, as their elements do",
  """A linear map, however it was put together, copied or assigned, acts on a particle, on first and second moments and on whole bunches as one and the same matrix, in any number of degrees of freedom: coordinates it does not cover stay as they are, and a
  map made for another momentum sees the momentum offset relative to that one. Chromatic and second order terms add what they say. The matrices and term maps of drifts, quadrupoles, bends, rotations, pole faces, solenoids and cavities are those of their
  equations of motion, whatever their size and earlier contents, and a map placed in a beamline is applied where it stands, with every set of integrators.""",
  "inputs", "every map, vector, set of moments and element", "no test applies a map to anything",
  [("terms", "RMap.h:RMap"), ("matrices", "MatrixMaps.cpp:RMtrx::Apply"), ("moments", "MatrixMaps.cpp:TransformMoments"), ("elements", "TransportMatrix.cpp:TransportMatrix::SectorBend"), ("term maps of elements", "TransportRMaps.cpp:TWRFCavity"), ("in a beamline", "ParticleMapPI.cpp:ParticleMapCI::TrackStep")])
p("P45", "Surveys report the apertures there are; stable orbits are those that survive",
  """An aperture survey has one row for each sampling point of its mode - so many per element, every step inside each element with both its ends, every step along the model - in order, with the name, type, end, length and position, and in each direction the
  limit of the aperture at that place of that element, or the largest limit where there is none; elements of no length are left out, and a file has what a stream has. The selection of stable orbits names exactly the particles, by their place in the bunch, that
  pass every aperture for the number of turns set, from the observation point set, and leaves the bunch it chose from as it was.""",
  "inputs", "every lattice, aperture, mode and step; every ring, bunch, number of turns and observation point", "no test surveys apertures or selects orbits",
  [("survey", "ApertureSurvey.cpp:ApertureSurvey::ApertureSurvey"), ("limits", "ApertureSurvey.cpp:CheckAperture"), ("stable orbits", "StableOrbits.cpp:StableOrbits::SelectStable"), ("index", "CollimateParticleProcess.cpp:CollimateParticleProcess::IndexParticles")])
