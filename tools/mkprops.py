#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the text lives here so that it stays readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Results do not depend on the number of MPI processes or threads",
 "For any number of particles, any grouping into bunches, any number of MPI processes (also more processes than particles) and any number of threads, every particle is tracked by exactly one process, and after every step each process's copy of the complete beam holds, for every particle in its original position, the coordinates computed by the process that tracks it. "
 "All watch-point, logger, trajectory and observer output (fields of the beam as well as fields of the lattice) is therefore the same as that of a single-process, single-thread run up to floating-point summation order. "
 "Every process takes exactly the requested number of steps and the program terminates normally.",
 ["configurations", "schedules", "inputs"],
 "all (number of particles, bunch grouping, number of processes, number of threads, number of steps) combinations with at least one particle; random-number-free input files",
 "The existing tests run the program once each, with one process, on two particle numbers; no test compares two decompositions, none has processes without particles and none looks at the gathered per-step state.",
 ["src/teufel_hybrid.cpp", "src/beam.cpp", "src/bunch.cpp", "src/particle.cpp"],
 [("broadcast of the start coordinates", "teufel_hybrid.cpp main() MPI_Bcast of masterBeam->bufferStep"),
  ("chunked distribution of particles", "teufel_hybrid.cpp main() TRACKING_NOP / current_node loop"),
  ("per-step gather", "teufel_hybrid.cpp main() MPI_Allgather + Beam::setStepFromBuffer"),
  ("sum of the observed fields", "teufel_hybrid.cpp main() MPI_Reduce + fromBuffer")],
 ["output files of the teufel program", "MPI calls (Bcast, Allgather, Reduce) and their buffers"])

prop("C02", "Watch points and loggers record exactly the requested steps",
 "A watch point for step k is written exactly once if 0 <= k <= number of steps and never otherwise, whatever the order in which watch points are listed and also if several name the same step; it contains the state of all particles after exactly k steps. "
 "A beam logger, trajectory logger or probe logger with interval s holds one record for step 0 and one for every multiple of s up to the number of steps, in order, each with the state at that step, and trajectories/probes hold min(requested, existing) particles. "
 "No output request changes the tracking or the content of any other output.",
 ["inputs", "histories", "configurations"],
 "all sets of output requests (watch steps, formats, logger intervals, particle counts) for all numbers of steps and particles",
 "The tests use at most four watch points at fixed steps, one logger with step=1, and compare only final physics figures within tolerances; they never check which step a record belongs to.",
 ["src/teufel_hybrid.cpp", "src/logger.cpp", "src/logger.h", "src/parser.cpp", "src/beam.cpp"],
 [("step-0 output", "teufel_hybrid.cpp main() before the step loop"),
  ("per-step output", "teufel_hybrid.cpp main() step loop: log_requested(step+1), w.step == step+1"),
  ("record storage", "ParameterLogger/TrajectoryLogger/ProbeLogger update() and WriteData()")],
 ["watch-point HDF5/SDDS files", "logger SDDS/HDF5 files"])

prop("C03", "A tracking step advances every particle by exactly one relativistic kick",
 "Every tracking step appends exactly one point to the stored trajectory of every particle, at exactly one time step after the previous point, whose position follows from the previous one by the velocity at mid-step, and whose stored momentum and acceleration belong to the fields sampled at that time and position; earlier points are never modified. "
 "An electric field changes the momentum by exactly charge/mass times field times time step per step (half of it for the first half step), a magnetic field rotates it without changing its magnitude, and particles are independent of each other. "
 "Tracking depends on the charge-to-mass ratio and fields only, and equals itself when split over bunches, beams or copies of particles made in mid-track before set-up.",
 ["inputs", "histories"],
 "all sequences of (possibly time- and position-dependent) electric and magnetic fields, all start momenta, charge/mass ratios, time steps and numbers of steps",
 "The tests track a handful of particles through constant fields or one undulator and compare the end point with tolerances of 1e-3..1e-6; the per-step kick sequence, half-step alignment and stored momenta/accelerations are not looked at.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("first half step", "ChargedParticle::InitVay"), ("full step", "ChargedParticle::StepVay"),
  ("trajectory growth", "ChargedParticle::storeTrajectoryPoint"), ("delegation", "Bunch::StepVay, Beam::doStep")],
 ["stored trajectory: TrajTime/TrajPoint/TrajMomentum/TrajAccel, getNP"])

prop("C04", "Recorded observation traces conserve the time integral of the field",
 "Depositing the field radiated during one trajectory step, with any arrival interval, into an observation trace adds to every sample exactly the average over that sample's time bucket of the linearly interpolated field, for arrival intervals inside one bucket, spanning several buckets, straddling either end of the window, covering it completely or missing it. "
 "Nothing is deposited outside the window, no portion of the arrival interval is lost or counted twice, and contributions of all steps, particles, bunches and of previous content of the trace simply add up.",
 ["inputs", "histories"],
 "all trace windows (start, spacing, at least two samples), all trajectories (at least two points) with increasing arrival times, all end-point fields, all particle/bunch groupings",
 "The existing test checks four hand-made alignments of one two-point trajectory with a scalar field; the case analysis depends on two interval ends relative to bucket and window edges.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("bucket deposit", "ChargedParticle::integrateFieldTrace"), ("superposition", "Bunch/Beam::integrateFieldTrace")],
 ["field trace samples after integration"])

prop("C05", "Field traces form a consistent sampled-signal algebra with guarded operations",
 "Adding, accumulating, subtracting, scaling, dividing, copying, assigning, buffering, rotating and differentiating field traces act sample by sample and component by component on exactly the operands named and leave all other traces and the timing of the result unchanged; operations on traces of different length, start time or spacing, and out-of-range indices, are refused with an exception and change nothing. "
 "Reading a trace at an arbitrary time interpolates linearly between neighbouring samples and yields zero from one sample spacing outside the covered range onwards. "
 "Retarding a trace yields, at every time of the target's unchanged time frame, the source field at the correspondingly earlier time, and is refused if nothing of the signal falls into the target.",
 ["histories", "inputs"],
 "all sequences of operations on traces with arbitrary lengths (at least two samples for derivatives), start times, spacings and contents",
 "The repository's tests use only set/add and integer-index reads of single traces; aliasing, mismatch guards, off-grid reads and retardation are not exercised at all.",
 ["src/fieldtrace.cpp", "src/fieldtrace.h", "src/fields.cpp", "src/vector.cpp"],
 [("algebra and guards", "FieldTrace::operator=,+,+=,-,*,/ and get/set"), ("off-grid read", "FieldTrace::get_field(double)"),
  ("retardation", "FieldTrace::retard"), ("derivative, frames", "FieldTrace::derivative/transform/cancel_long_fields")],
 ["all samples and timing of every live trace after every operation"])

prop("C06", "The 1D-FEL radiation field advances in lock-step with the beam",
 "In every tracking step the head of the one-dimensional radiation grid advances by exactly one cell at the speed of light and the field follows the discretised wave equation: without beam a seeded pulse (vanishing at the head of the grid) stays in its cells and nothing else appears; the beam drives the field by exactly the particles of the complete beam, each proportional to its charge and its transverse velocity change along the polarisation, inversely to the area of the optical mode at that place, spread over the neighbouring cells as a gaussian around its position. "
 "The field acting on particles is that of the nearest cell, along the configured polarisation (made orthogonal to the propagation direction), with the magnetic field of a wave running in the configured direction, independent of the transverse position. "
 "Particles or queries outside the grid, queries off the present time, a beam of another time step and a beam or particle not synchronous with the field are refused with an error instead of producing a wrong result; unusable grids and log intervals are refused at creation. "
 "The field log holds the initial field and the field and current of exactly the requested steps together with the grid parameters.",
 ["histories", "inputs", "configurations"],
 "all grid sizes, seeds, propagation/polarisation directions, beams (any number of bunches/particles, charges) inside the grid, numbers of steps and log intervals",
 "The tests run one modulation case with one bunch and look at the final energy spread; cell-exact propagation, multi-bunch coupling, the guards and the log schedule are not looked at.",
 ["src/fel1d.cpp", "src/fel1d.h", "src/teufel_hybrid.cpp", "src/parser.cpp"],
 [("field update", "FEL_1D::step"), ("initialisation", "FEL_1D::init and constructors"), ("force on particles", "FEL_1D::Field"), ("log", "FEL_1D::write_output")],
 ["field at probe points", "field log HDF5", "exceptions"])

prop("C07", "Particle state survives buffering, serialisation and copying unchanged",
 "Writing a particle, bunch or beam to a communication buffer and reading it back yields exactly the same coordinates (time, position, momentum, acceleration), and charge and mass where the buffer carries them, for every particle in the same order, whatever the number of bunches, particles and stored trajectory points; exactly the announced number of values is used. "
 "A complete trajectory restored from its buffer continues tracking exactly like the original. "
 "Copies are independent of the original: no later operation on one changes the other, and clearing, pre-allocating or re-initialising trajectories never changes coordinates it is not meant to change.",
 ["inputs", "histories"],
 "all beams (including empty bunches and beams), all trajectory lengths, all interleavings of buffering, restoring, copying, clearing and tracking",
 "No existing test calls the buffer functions; the MPI program uses them with one bunch per test.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("particle buffers", "ChargedParticle::serialize/serializeTraj/bufferStep/setStepFromBuffer/bufferProbe"), ("bunch and beam buffers", "Bunch/Beam::bufferStep/setStepFromBuffer/bufferProbe")],
 ["public getters of particles", "buffer contents"])

prop("C08", "Observers place every field value in its own cell, once, for any thread count",
 "Each observer evaluates every grid cell exactly once per integration, at the cell position defined by its centre/reference, pitch vectors and cell counts (odd or even) and, for time traces, at the sample times defined by start time, time step and per-cell delays; no cell is skipped, repeated or exchanged with another one for any cell counts and any number of threads. "
 "Reading the results by cell index, through the communication buffer and in the output file yields the same values in the same places; the buffer round trip is lossless, adds element-wise when summed over processes, and a buffer of wrong size is refused. "
 "This holds equally for fields of particle beams and of lattices.",
 ["configurations", "inputs", "schedules"],
 "all observer types, cell counts, sample counts, pitch vectors, delays, thread counts and sources",
 "The tests observe one or two points; two test drivers build a screen but only look at one physical figure. Index arithmetic for non-square, even-sized grids and multi-threaded runs is not tested.",
 ["src/screen.cpp", "src/snapshot.cpp", "src/point_observer.cpp", "src/mesh.cpp", "src/observer.h"],
 [("cell geometry", "ScreenObserver/SnapshotObserver::CellPosition, CellTimeZero"), ("integration loops", "integrate() of each observer"), ("buffers", "getBufferSize/getBuffer/fromBuffer"), ("files", "WriteTimeDomainFieldHDF5/WriteFieldHDF5/WriteTimeDomainFieldSDDS")],
 ["getField/getFieldTrace", "buffer", "output file"])

prop("C09", "Screen and mesh files reproduce the recorded fields when read back",
 "A recorded screen written to file and used as a radiation source reproduces, at the recorded positions and times, its geometry, timing and field samples exactly, for any cell counts and sample counts; a mesh file (points, triangles, start times, fields) read back and rewritten carries the same data in the same cell order, including files without fields. "
 "Derived quantities - cell centres, areas, unit normals, neighbour relations, local frames - are those of the stored triangles, and neighbour relations are symmetric. "
 "A file that is missing, incomplete or inconsistent is refused rather than partially used.",
 ["inputs", "histories", "fault_sequences"],
 "all grid sizes, triangle meshes, sample counts, field contents, and every missing or inconsistent dataset/attribute",
 "The tests never re-read what the program wrote, except one optical test driver using one fixed mesh file.",
 ["src/screen.cpp", "src/source_screen.cpp", "src/mesh.cpp"],
 [("screen file", "ScreenObserver::WriteTimeDomainFieldHDF5, SourceScreen constructor"), ("mesh file", "MeshedScreen constructor, init, writeFile")],
 ["HDF5 files", "fields reported by the source / mesh object"])

prop("C10", "Input files are interpreted with the documented scoping or rejected",
 "Every numeric attribute is evaluated as an expression over the predefined constants and the variables defined before it. Definitions directly under the root take effect before any section is read, definitions in a section from their position on, and definitions inside an element (lattice element, particle, bunch and its time/position/momentum/correlations entries, SDDS entry, interaction, observer) before that element's own values; a variable keeps the last value assigned, each definition is evaluated exactly once and its printout appears in evaluation order. "
 "The objects created (lattice elements, bunches, loggers, watch points, interactions, observers) correspond one to one, in order and with the given values, to the elements of the file. "
 "A file with a missing mandatory section, child or attribute, an unknown element or type in a section, or an illegal source is rejected with an error before tracking starts: the program then ends with a failure status, on any number of processes, and writes no output; an expression that cannot be evaluated is reported on the console (and counts as zero).",
 ["inputs", "programs"],
 "all input documents: any order and number of elements and calculator definitions, and every single omission, misspelling or foreign element",
 "The tests parse three well-formed files; no test feeds a malformed one, and variable redefinition order is not checked.",
 ["src/parser.cpp", "src/parser.h", "src/teufel_hybrid.cpp", "src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp", "src/fel1d.cpp"],
 [("calculator", "InputParser::parseValue/parseCalc/parseCalcChildren"), ("sections", "InputParser::parseLattice/parseBeam/parseTracking/parseObservers"), ("elements", "element constructors from XML")],
 ["objects returned by the parser", "exceptions", "console output"])

prop("C11", "The lattice field is the sum of its current elements, each in its own region",
 "At every time and position the field of a lattice is the sum of the fields of exactly the elements currently in it, regardless of the order of insertion and of removals in between; removing one element leaves all others in order, and out-of-range access is refused. "
 "Each element's field depends only on position and time relative to its own origin, is confined to its own region (dipole planes, undulator length), and reaches its nominal value inside. "
 "Fields generated by interactions act on the tracked particles but are never part of what observers of the lattice see, while all external elements stay visible.",
 ["histories", "inputs", "configurations"],
 "all sequences of adding/removing elements, all element kinds, parameters, positions and times",
 "The tests put one element into a lattice and never remove one; element edges are checked only through integrated trajectories.",
 ["src/fields.cpp", "src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp", "src/teufel_hybrid.cpp"],
 [("sum and removal", "Lattice::Field/addElement/at/remove"), ("local frame", "LocalizedField::Field"), ("regions", "LocalField of undulators, dipoles"), ("interaction removal", "teufel_hybrid.cpp main() before observers")],
 ["Lattice::Field values", "observer output"])

prop("C12", "Observed particle fields are causal, retarded and superpose",
 "The field of a particle seen at a place and time is that of the particle's state at the unique earlier time from which a light signal arrives then: it follows the stored trajectory, continues backwards along the initial straight line before the start of the trajectory for any start time, and is zero once signals from the trajectory's end have passed. "
 "For a uniformly moving charge it is the boosted Coulomb field, which has no jump where the extrapolated part meets the trajectory. This holds at distances large against the length of one trajectory step (the near-field refinement is documented as unfinished). "
 "Fields are proportional to charge, invariant under joint shifts in time and space, and add up over particles, bunches and the beam.",
 ["inputs", "histories"],
 "all trajectories (start times, start points, velocities, numbers of points), charges, observation points off the trajectory and observation times",
 "The tests evaluate a few observation points of single particles whose trajectory starts at time zero and compare time-integrated values.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
 [("light-cone search", "ChargedParticle::RetardedField(double,Vector)"), ("indexed form", "ChargedParticle::RetardedTime/RetardedField(int,Vector)"), ("superposition", "Bunch/Beam::RetardedField")],
 ["reported field vectors"])

prop("C13", "Bunches keep exact account of their particles and moments",
 "Adding, replacing, copying and clearing particles keeps the number, order, total charge and ownership of the particles of a bunch and of the beam exact. "
 "Reported averages, r.m.s. sizes, energy spread and bunching factor equal their definitions over all particles with equal weight; correlations change only the dependent coordinate, by the given factor times the independent coordinate's offset from its mean, and keep all means. "
 "Distributions deliver the stored coordinates for every in-range index, ignore or zero out-of-range access, and sub-ranging and buffering neither lose nor reorder points.",
 ["histories", "inputs"],
 "all sequences of bunch/distribution operations with arbitrary sizes, indices (in and out of range), charges and coordinates",
 "One test builds one Gaussian bunch and checks statistical moments within percent tolerances.",
 ["src/bunch.cpp", "src/beam.cpp"],
 [("container", "Bunch::Add/replaceParticle/getParticle, Beam::Add/clear/getBunch"), ("moments", "Bunch::avg*/rms*/delta/BunchingFactor"), ("distribution", "Distribution::*"), ("correlation", "Bunch::addCorrelation, Distribution::addCorrelation")],
 ["getters"])

prop("C14", "Image charges mirror the complete particle history",
 "Shifting a particle moves every point of its trajectory and its current position by the same vector and changes nothing else but the charge; mirroring at a plane maps every trajectory point and the current state to its mirror image (positions, momenta and accelerations), so that mirroring twice with charge factors of product one restores the particle. "
 "A charge together with its opposite mirror charge produces no tangential electric field on the mirror plane, at any time covered by the trajectory and distances large against one trajectory step.",
 ["inputs", "histories"],
 "all trajectories of any length (including a single point), planes, shift vectors and charge factors, and all sequences of shifts and mirrors",
 "No existing test calls either operation.",
 ["src/particle.cpp"],
 [("shift", "ChargedParticle::Shift"), ("mirror", "ChargedParticle::Mirror")],
 ["trajectory getters", "observed field"])

prop("C15", "Propagation and reflection tools map mesh files as documented",
 "The mesh propagation and reflection programs write, for every cell of the target, at every sample of the target's own time frame, the Kirchhoff integral over the fields of all cells of the source, each taken with the free-space delay between the two cells' observation points and weighted with the source cell's area and normal (the field, its time derivative and its normal derivative, the latter from Maxwell's equations with the in-plane derivatives of a quadratic fit over the neighbouring cells). "
 "They keep the target's geometry, timing and number of samples, ignore its fields, and are linear in the source fields; metallic reflection keeps the normal electric and tangential magnetic field and reverses the others before propagating. The result depends neither on the number of threads nor on where and how the two screens are placed together in space. "
 "Missing arguments, unreadable files and inconsistent meshes end the program with an error message and no output file.",
 ["inputs", "configurations", "fault_sequences"],
 "all source/target meshes, field contents, time windows, thread counts, argument lists",
 "No test runs either program.",
 ["src/propagate.cpp", "src/reflection.cpp", "src/mesh.cpp"],
 [("propagation", "propagate.cpp main()"), ("reflection", "reflection.cpp main()")],
 ["output HDF5 file", "exit status"])

prop("C16", "The beam follows a set-up/step life cycle and refuses misuse",
 "Setting up the tracking is refused with an error if no usable tracking method has been chosen or a particle has no start point; stepping is refused without a usable tracking method, and a refused step changes neither the particles nor the number of performed steps. "
 "After n steps the beam reports n steps, every particle has n+1 stored points at start time plus multiples of the time step, and its current state is the last stored point. "
 "Coordinates reported for an arbitrary time are the linear interpolation of the stored trajectory inside its time range and zero outside, and snapshot observers report these for every particle.",
 ["histories"],
 "all call sequences of adding bunches, setting method/time step, clearing, set-up, stepping, buffering and querying",
 "The tests call the functions in the one correct order.",
 ["src/beam.cpp", "src/bunch.cpp", "src/particle.cpp", "src/snapshot.cpp"],
 [("life cycle", "Beam::setupTracking/doStep/clearTrajectories/setNOTS"), ("interpolation", "ChargedParticle::CoordinatesAtTime"), ("snapshot", "SnapshotObserver::storeParticlePositions")],
 ["beam/particle getters", "exceptions"])

prop("C17", "Beam files carry all particles with correct coordinates and charge",
 "A watch-point file (HDF5 or SDDS) contains every particle of the beam exactly once, in order, with its current coordinates and the quantities derived from them; the SDDS file also states the number of particles and the total charge of the beam in C. "
 "Importing a bunch from a file creates one particle per file row, with the file's coordinates transformed into the requested propagation direction, arrival-time differences turned into displacements along the particle's motion at time zero, and the file's charge shared equally among negatively charged particles - whatever the name of the file, its mode and the order of its columns. "
 "An unreadable, incomplete or inconsistent file gives an empty bunch with a message, never a partial one; a file that cannot be written is reported by the return value.",
 ["inputs", "histories", "fault_sequences"],
 "all beams, directions, file names, and all missing parameters/columns",
 "One test file is imported by one test program, which checks the number of particles; no written file is read back.",
 ["src/beam.cpp", "src/bunch.cpp", "src/parser.cpp"],
 [("export", "Beam::WriteWatchPointHDF5/SDDS, Bunch::WriteWatchPointSDDS"), ("import", "Bunch(const char*, Vector), InputParser::parseBeam")],
 ["files", "imported bunch", "return values"])

prop("C18", "The analysis modules return what the files hold",
 "Reading a file with the analysis modules in scripts/ (TeufelScreen of teufel.py and screen.py, TeufelWatch and readTeufelBeamLog of teufel.py, MeshedField of MeshedFields.py) gives exactly the geometry, timing, fields, particles or log columns the file holds, for every supported format (screen files of the current and the older layout, watch points as HDF5 and as SDDS, meshes with and without fields). "
 "Writing an object gives a file from which the same object is read again and which the programs accept; replacing the trace of one cell changes that cell of that object and nothing else. "
 "The derived quantities follow from these data for every cell, size of the screen and number of samples: position and start time relative to the centre cell, in-plane components, incident energy per area (positive from the side the normal points to), spectral densities of both polarizations at the channels k/(N dt), areas, normals, bounding box and energy flow of meshes, the fields at a time (linear between the samples of each cell's own time frame, the last sample included, zero outside), and the beam parameters of a watch point (means, r.m.s. values, emittances); the totals printed by plot_Screen, plot_MeshedField and plot_Watch are those of these quantities, and plot_PointObservation, plot_Screen_TD, plot_SingleFrequency, plot_BeamParameters and plot_Snapshot draw the values of their files at the right times and places.",
 ["inputs", "histories"],
 "all screen, mesh and watch files of any size, geometry and content, and all sequences of reading, copying, modifying and writing",
 "The tests do not run any of the Python modules.",
 ["scripts/teufel.py", "scripts/screen.py", "scripts/MeshedFields.py", "scripts/plot_Screen.py", "scripts/plot_MeshedField.py", "scripts/plot_Watch.py"],
 [("screens", "TeufelScreen.read/write/getStartTime/screenPos/getFieldTrace/setFieldTrace/totalPowerDensity/getInPlaneFields/spectralDensityH/V"), ("watch points", "TeufelWatch.read/parameters"),
  ("beam log", "readTeufelBeamLog"), ("meshes", "MeshedField.*, InterpolateTrace")],
 ["attributes and return values", "written files", "printed totals"])

prop("C19", "Answers depend only on their arguments and what was done to the objects asked",
 "Every query of the library - coordinates at a time, stored trajectories, retarded fields and field traces of a particle, a bunch or a beam, charges, counts, moments and bunching factors, the field of an element or of the lattice at a time and place - is answered as a function of its arguments and of the preceding modifications which concern the objects asked: "
 "which queries were made before (with whatever arguments, in whatever order), which thread asks, how many threads ask at the same time, and what was done to other particles, bunches, elements or to elements no longer in the lattice makes no difference. "
 "Queries change nothing; every modification (adding, replacing, shifting, mirroring, correlating, clearing and tracking particles, adding, removing and newly setting up elements) shows in all answers given afterwards.",
 ["histories", "schedules", "inputs"],
 "all histories of modifications and queries, all sets of queries under way at the same time and all thread counts",
 "The tests make a handful of queries of fresh objects, one after another; stale or shared intermediate results only show in particular histories or interleavings.",
 ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp", "src/fields.cpp", "src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp", "src/source_screen.cpp"],
 [("particles", "ChargedParticle::CoordinatesAtTime/RetardedField/integrateFieldTrace"), ("bunches and beams", "Bunch::RetardedField/avg*/rms*/BunchingFactor, Beam::RetardedField"),
  ("elements", "Lattice::Field, LocalField of the elements")],
 ["return values"])

prop("C20", "Operations stay within live, initialised memory",
 "Every sequence of valid operations - building, copying, changing, clearing and destroying particles, bunches, beams, lattices, field traces, screens, meshes, snapshots, interaction grids, loggers and observers, reading and writing their files and buffers, parsing accepted and refused input, tracking, and whole runs of teufel (on any number of processes), propagate and reflection - reads and writes only inside objects that exist at that moment, releases every object at most once and in the way it was obtained, and performs no operation whose result the language leaves undefined (indices and conversions out of range). "
 "No result, file or decision depends on what memory contained before it was first written.",
 ["histories", "inputs", "configurations"],
 "all histories of valid operations on all objects, sizes and contents, and all runs of the programs",
 "The tests run uninstrumented, on fresh memory and on a few sizes: an access just outside an array, a stale pointer or a forgotten initialisation usually goes unnoticed.",
 ["src/beam.cpp", "src/bunch.cpp", "src/particle.cpp", "src/fieldtrace.cpp", "src/fel1d.cpp", "src/screen.cpp", "src/mesh.cpp", "src/snapshot.cpp", "src/source_screen.cpp", "src/logger.cpp", "src/fields.cpp", "src/teufel_hybrid.cpp", "src/propagate.cpp", "src/reflection.cpp"],
 [("ownership of particles and bunches", "Bunch/Beam destructors, clear(), replaceParticle(), Lattice::remove()"), ("buffers for communication and output", "MASTER_BUFSIZE/TRACKING_BUFSIZE in main(), getBuffer/fromBuffer, WriteData, WriteFieldHDF5"),
  ("index ranges", "FEL_1D::step, FieldTrace::get_field, ChargedParticle::integrateFieldTrace"), ("initialisation", "constructors")],
 ["every memory access of the instrumented library and programs", "answers under different contents of uninitialised memory"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
