#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Interaction weight is the MPS kernel",
 "For every distance r > 0 and effective radius re > 0 the interaction weight equals re/r - 1 when r < re and exactly 0 when r >= re. It is therefore never negative, never increases with distance, and vanishes continuously at the effective radius.",
 ["inputs"], "every pair (r, re) of positive reals, including r just below, at and above re",
 "The only weight test evaluates three points (r = 0.5, 1.0, 1.5 at re = 1); it cannot settle the formula, the cut-off side or monotonicity for the whole plane of inputs.",
 ["src/weight.cpp"], [("weight()", "src/weight.cpp")], observe=["return value of the weight function"])

prop("C02", "Reference values are the regular-lattice sums",
 "For dimension 2 or 3, particle spacing l0 > 0 and effective radius l0 < re <= 5*l0, the reference number density n0 equals the sum of the interaction weights over all sites of the regular square (2D, in the z=0 plane) or cubic (3D) lattice other than the origin, and lambda equals the weight-averaged squared distance over the same sites. Both are positive and lambda lies between l0^2 and re^2.",
 ["inputs", "configurations"], "every spacing, every radius in the stated range, both dimensions",
 "The two tests use one spacing and one radius ratio (1.5), where only the nearest and diagonal shells contribute; outer shells, the 3D outer layers and the scaling are never exercised.",
 ["src/refvalues.cpp", "src/weight.cpp"], [("RefValues::RefValues", "src/refvalues.cpp"), ("weight()", "src/weight.cpp")],
 state=[("n0, lambda", "reference number density and Laplacian coefficient", "src/refvalues.hpp")], observe=["n0 and lambda after construction"])

prop("C03", "Neighbour search is exact",
 "After a neighbour search the neighbour list of every active (non-ghost) particle contains exactly the other active particles whose distance is strictly less than the search radius, each exactly once and with its true distance, wherever the particles lie in the domain and however they are grouped, in 2D and 3D. The neighbour relation is therefore symmetric, and no list contains the particle itself or a ghost.",
 ["inputs", "configurations", "histories"], "every set of particles (any number, positions, types, stale lists left by earlier steps), every domain box and search radius",
 "The one test places 100 random fluid particles in one 2D domain once; it has no ghosts or walls, no 3D, no stale lists, no particles on cell or domain edges, and a missed pair needs a specific cell geometry.",
 ["src/neighbor_searcher.cpp", "src/bucket.cpp"],
 [("NeighborSearcher::setNeighbors: 27-cell scan and distance filter", "src/neighbor_searcher.cpp"), ("Bucket::storeParticles: per-cell linked lists", "src/bucket.cpp"), ("Bucket::Bucket: grid with one cell of margin", "src/bucket.cpp")],
 state=[("first/last/next", "linked lists of the particles of each grid cell", "src/bucket.hpp"), ("neighbors", "per-particle neighbour list", "src/particle.hpp")], observe=["neighbour lists after NeighborSearcher::setNeighbors"])

prop("C04", "Particles outside the domain are retired safely",
 "A neighbour search turns into a ghost exactly those active particles whose position is not inside the closed domain box (an undefined, not-a-number coordinate counts as not inside) and changes no other particle property except neighbour lists; a ghost never becomes active again. Whatever the positions are, it never reads or writes outside the search grid and the particle arrays.",
 ["inputs", "histories", "configurations"], "every particle position, including non-finite, exactly on and beyond each face of the box, and every domain size",
 "The test has all particles strictly inside the box; leaving the domain on any of the six faces, sitting exactly on a face, or having a NaN coordinate is never exercised, and an out-of-range grid index is silent in a release build.",
 ["src/bucket.cpp", "src/neighbor_searcher.cpp"],
 [("Bucket::storeParticles: domain test and ghosting", "src/bucket.cpp"), ("Bucket::Bucket: grid dimensions", "src/bucket.cpp"), ("NeighborSearcher::setNeighbors: cell index of the scan", "src/neighbor_searcher.cpp")],
 state=[("type", "particle type; Ghost means retired", "src/particle.hpp")], observe=["particle types and fields after NeighborSearcher::setNeighbors"])

prop("C05", "Only fluid particles ever move",
 "Over any time step, the position and velocity of every wall, dummy wall and ghost particle stay exactly as they were, and no particle's id, fluid type or density changes. A particle's type changes only when it is retired as a ghost.",
 ["inputs", "histories"], "every particle set and every time step, with either pressure method",
 "No test runs a time step at all.",
 ["src/mps.cpp", "src/particle.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("type guards of moveParticle, moveParticleUsingPressureGradient", "src/mps.cpp"), ("inverseDensity() is 0 for non-fluid particles", "src/particle.cpp"), ("MPS::collision", "src/mps.cpp")],
 observe=["particle fields before and after MPS::stepForward"])

prop("C06", "Time integration of prediction and correction",
 "In the prediction, each fluid particle's acceleration gains exactly the gravity vector (all other particles get zero), then velocity advances by acceleration*dt and position by the new velocity*dt; in the correction, velocity advances by acceleration*dt and position by acceleration*dt^2. Each of the two moves leaves every particle's acceleration at zero.",
 ["inputs", "configurations"], "every particle set, gravity vector, time step size and acceleration field",
 "No test touches the integrator.",
 ["src/mps.cpp"], [("MPS::calGravity", "src/mps.cpp"), ("MPS::moveParticle", "src/mps.cpp"), ("MPS::moveParticleUsingPressureGradient", "src/mps.cpp")],
 state=[("acceleration", "accumulated within a phase, reset by the move", "src/particle.hpp")], observe=["position, velocity, acceleration of each particle"])

prop("C07", "Viscosity term is the MPS Laplacian of velocity",
 "The viscosity phase adds to each fluid particle's acceleration exactly nu*2d/(n0*lambda) times the sum, over its neighbours closer than the Laplacian radius, of (neighbour velocity - own velocity)*weight, with n0 and lambda the reference values for that radius; it changes nothing else. Between two fluid particles the contributions are equal and opposite, and a uniform velocity field yields zero viscous acceleration.",
 ["inputs", "configurations"], "every particle set, neighbour list, viscosity, dimension and radius",
 "No test touches the viscosity phase.",
 ["src/mps.cpp", "src/weight.cpp"], [("MPS::calViscosity", "src/mps.cpp"), ("MPS::MPS: reference values per radius", "src/mps.cpp")],
 observe=["acceleration of each particle"])

prop("C08", "Collision handling is a momentum-conserving impulse",
 "Each colliding pair (closer than the collision distance, at least one of the two fluid) is handled once per step: if the particles approach each other, their relative velocity along the line of centres is reversed and scaled by the coefficient of restitution; otherwise velocities are untouched. In either case they are pushed apart along that line by the overlap depth. Between two fluid particles momentum and mass-weighted centre are conserved, and with a non-fluid partner only the fluid particle changes.",
 ["inputs", "configurations"], "every particle set, relative velocity, density ratio, restitution coefficient and collision distance",
 "No test touches collisions; wrong signs or weights show only for unequal densities, receding pairs, or fluid-wall pairs.",
 ["src/mps.cpp", "src/particle.cpp"], [("MPS::collision", "src/mps.cpp"), ("Particle::inverseDensity", "src/particle.cpp")],
 observe=["positions and velocities after the collision phase"])

prop("C09", "Number density is the sum of neighbour weights",
 "After the number-density phase every non-ghost particle's number density equals the sum of the interaction weights of its neighbours at the number-density radius, recomputed from scratch, and every ghost's is zero; nothing else changes.",
 ["inputs", "histories"], "every particle set, neighbour list and radius, whatever the previous number densities",
 "No test touches the phase; stale values accumulate only over several steps.",
 ["src/mps.cpp", "src/weight.cpp"], [("MPS::calNumberDensity", "src/mps.cpp")], observe=["numberDensity of each particle"])

prop("C10", "Free-surface classification",
 "When boundary conditions are generated, ghost and dummy-wall particles are classified as ignored, and every other particle as free surface exactly when the configured detector says so, else inner. The number-density detector says so exactly when the particle's number density is below threshold*n0; the distribution detector additionally requires that the particle has no neighbours or that some component of the summed relative neighbour positions exceeds, in absolute value, its threshold times the particle spacing. Prescribed pressure (zero) is set for exactly the particles not classified as inner.",
 ["inputs", "configurations"], "every particle set, both detectors, all threshold values",
 "No test touches surface detection or boundary-condition generation.",
 ["src/surface_detector/distribution.cpp", "src/surface_detector/number_density.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "src/pressure_calculator/dirichlet_boundary_condition.cpp"],
 [("Distribution::isFreeSurface", "src/surface_detector/distribution.cpp"), ("NumberDensity::isFreeSurface", "src/surface_detector/number_density.cpp"), ("FreeSurface::generate", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"), ("DirichletBoundaryCondition", "src/pressure_calculator/dirichlet_boundary_condition.cpp")],
 observe=["boundaryCondition of each particle", "generated Dirichlet condition"])

prop("C11", "Pressure Poisson system is assembled correctly",
 "For every particle with prescribed pressure the linear system has the row 'own pressure = prescribed value' and nothing else in that row; for every other particle i the off-diagonal entries are -2d/(n0*lambda)*weight/density_i for its non-ignored neighbours within the Laplacian radius, the diagonal is minus their sum plus compressibility/dt^2, and the right-hand side is gamma/dt^2*(n_i-n0)/n0. Every setup rebuilds the system from scratch, so each row sums to compressibility/dt^2 (or 1) and the matrix is diagonally dominant.",
 ["inputs", "histories", "configurations"], "every particle set, neighbour lists, boundary-condition set and coefficients; every sequence of setups on the same object",
 "No test builds a pressure system.",
 ["src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/dirichlet_boundary_condition.cpp"],
 [("PressurePoissonEquation::setMatrixTriplets", "src/pressure_calculator/pressure_poisson_equation.cpp"), ("PressurePoissonEquation::setSourceTerm", "src/pressure_calculator/pressure_poisson_equation.cpp"), ("PressurePoissonEquation::setup/resetEquation", "src/pressure_calculator/pressure_poisson_equation.cpp")],
 state=[("coefficientMatrix, sourceTerm", "the linear system", "src/pressure_calculator/pressure_poisson_equation.hpp")], observe=["coefficient matrix and right-hand side after setup"])

prop("C12", "Calculated pressures are never negative",
 "A pressure calculation returns one pressure per particle, indexed by particle, and none is negative. The explicit method returns c^2*density*(n-n0)/n0 where a non-ghost particle's number density n exceeds n0 and 0 otherwise; the implicit method returns the solution of the assembled system with negative entries replaced by 0, and terminates the program with an error instead of returning when the solver reports failure.",
 ["inputs", "histories", "configurations"], "every particle set, number densities, sound speeds; every solver outcome",
 "No test calculates a pressure.",
 ["src/pressure_calculator/explicit.cpp", "src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("Explicit::calc", "src/pressure_calculator/explicit.cpp"), ("Implicit::calc / removeNegativePressure", "src/pressure_calculator/implicit.cpp"), ("PressurePoissonEquation::solve", "src/pressure_calculator/pressure_poisson_equation.cpp")],
 observe=["vector returned by the pressure calculator"])

prop("C13", "Pressure gradient uses the neighbourhood minimum",
 "For every particle that is neither ghost nor dummy wall, the minimum pressure is the smallest of its own pressure and the pressures of its non-ghost, non-dummy neighbours within the gradient radius; for ghosts and dummy walls it is their own pressure. The gradient phase subtracts from each fluid particle's acceleration d/(n0*density) times the sum over those same neighbours of (p_j - minimum_i)/|r_ij|^2 * r_ij * weight, so every pair contribution is repulsive; nothing else changes.",
 ["inputs", "configurations"], "every particle set with a symmetric neighbour relation, every pressure field, radius and dimension",
 "No test touches the gradient; a wrong minimum shows only for particular pressure orders and id orders.",
 ["src/mps.cpp", "src/weight.cpp"], [("MPS::setMinimumPressure", "src/mps.cpp"), ("MPS::calPressureGradient", "src/mps.cpp")],
 observe=["minimumPressure and acceleration of each particle"])

prop("C14", "A time step runs its phases in order on fresh data",
 "One time step performs, in this order: gravity and viscosity, prediction move, collision, number density, pressure, minimum pressure, pressure gradient, correction move; each phase that uses neighbour lists sees lists rebuilt after the last position change, and each particle receives the pressure calculated for its own id. At the end the reported Courant number is the maximum over fluid particles of speed*dt/spacing (0 without fluid), recomputed each step.",
 ["histories", "inputs", "configurations"], "every state the simulation can reach and both pressure methods; every sequence of steps",
 "No test runs a time step; stale neighbour lists or a skipped phase only shift results quantitatively.",
 ["src/mps.cpp"], [("MPS::stepForward", "src/mps.cpp"), ("MPS::calCourant", "src/mps.cpp")],
 state=[("courant", "maximum Courant number of the last step", "src/mps.hpp")], observe=["particle state and courant after MPS::stepForward"])

prop("C15", "Simulation loop advances time and writes every output",
 "A run starts at the input's start time, saves the initial state, and then repeats step - advance time by dt - until the time reaches the end time, never stepping at or past it. After each step the state is saved exactly when the elapsed time has reached output-period times the number of files written so far, with the current time and the next consecutive file number; file number n is written at or after elapsed time n*period, and no file number is skipped or reused.",
 ["inputs", "histories", "configurations"], "every start time, end time, dt and output period, including periods shorter than dt",
 "No test runs the simulation loop.",
 ["src/simulation.cpp", "src/saver.cpp"], [("Simulation::run / saveCondition", "src/simulation.cpp"), ("Saver::save / getFileNumber", "src/saver.cpp")],
 state=[("time, timeStep", "simulation clock", "src/simulation.hpp"), ("fileNumber", "number of outputs written", "src/saver.hpp")], observe=["sequence of saves (time, file number) and of time steps"])

prop("C16", "Profile and CSV outputs are faithful",
 "A profile or CSV file written for a particle set contains the given time, the number of particles, (CSV: a header naming the columns,) and then exactly one row per particle in order, with the particle's own type, (CSV: fluid type,) position and velocity in the documented column order at the stream's default precision. Every saved output consists of a profile, a VTU and a CSV file carrying the same zero-padded number in their respective directories.",
 ["inputs"], "every particle set and time",
 "The exporter tests only check that a file exists, with all particles at the origin at rest.",
 ["src/particles_exporter.cpp", "src/saver.cpp", "docs/input-output.md"], [("ParticlesExporter::toProf", "src/particles_exporter.cpp"), ("ParticlesExporter::toCsv", "src/particles_exporter.cpp"), ("Saver::save", "src/saver.cpp")],
 observe=["bytes written to the prof and csv files"])

prop("C17", "VTU outputs are well formed and faithful",
 "A VTU file, ASCII or binary, declares as many points and cells as there are particles and carries, for every declared array, exactly one tuple per particle in order with that particle's own value (position, type, velocity, pressure, number density, number density / n0, boundary condition, fluid type; one vertex cell each) and the given time. In the binary form each array's declared offset is the position in the appended data of an 8-byte byte count followed by exactly that many bytes of the declared type.",
 ["inputs"], "every particle set (including empty), time and reference density, both encodings",
 "The exporter test only checks that an ASCII file exists; the loader test re-reads two particles' position, velocity and type; the binary writer is never run.",
 ["src/particles_exporter.cpp"], [("ParticlesExporter::toVtuAscii", "src/particles_exporter.cpp"), ("ParticlesExporter::toVtuBinary", "src/particles_exporter.cpp"), ("ParticlesExporter::dataArrayBegin", "src/particles_exporter.cpp")],
 observe=["bytes written to the vtu file"])

prop("C18", "Profile and CSV loading keeps every particle intact",
 "Loading a profile or CSV file yields its start time and one particle per row, in row order, with id equal to its index, type, position and velocity taken from the named columns, fluid type taken from the file if given and else 0, and density taken from the file when given non-negative and else the configured default. A file written by the matching exporter is read back with the same values up to printed precision.",
 ["inputs"], "every well-formed profile or CSV file, with and without the optional columns",
 "No test covers these two loaders.",
 ["src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles.cpp", "src/particle.cpp"], [("Prof::load", "src/particles_loader/prof.cpp"), ("Csv::load", "src/particles_loader/csv.cpp"), ("Particles::add", "src/particles.cpp"), ("Particle::Particle", "src/particle.cpp")],
 observe=["particles and start time returned by the loader"])

prop("C19", "VTU loading reads back what the exporter wrote",
 "Loading an ASCII VTU file written by the exporter yields the written time and, for every particle in order, the written position, velocity, type and fluid type (up to printed precision), with id equal to its index; density comes only from an array of that name, where non-negative, and otherwise is the configured default. A binary VTU file is rejected with an error instead of being misread.",
 ["inputs"], "every exported particle set (any number of particles, any field values), with and without a density array",
 "The one loader test uses two particles with number density 0 and does not check density or fluid type.",
 ["src/particles_loader/vtu.cpp", "src/particles_exporter.cpp"], [("Vtu::load", "src/particles_loader/vtu.cpp"), ("ParticlesExporter::toVtuAscii", "src/particles_exporter.cpp")],
 observe=["particles and start time returned by the VTU loader"])

prop("C20", "Settings are read from their own keys",
 "Every setting takes its value from its own documented key of the settings file: effective radii and collision distance are the given ratios times the particle spacing, the search radius is the largest effective radius, domain lengths are max minus min per axis, and the particle file is resolved relative to the settings file. Optional keys default as documented: Cartesian gravity input true, gravity norm and angle 0, binary VTU output false.",
 ["inputs", "configurations"], "every settings file with all required keys, every combination of optional keys",
 "No test loads a settings file.",
 ["src/loader.cpp", "src/settings.hpp"], [("Loader::loadSettingYaml", "src/loader.cpp")], observe=["Settings returned by the loader"])

prop("C21", "Configured solver components get the right parameters",
 "The simulation is built with the gravity given (the Cartesian vector, or norm and angle measured counter-clockwise from -y in the xy plane), the detector selected by the distribution flag with its own thresholds, and the pressure method named in the settings with its own parameters; any other method name ends the program with an error. Reference values for number density, gradient and Laplacian are each computed from their own effective radius, and particles, domain and settings are taken over unchanged.",
 ["configurations", "inputs"], "every settings combination: gravity mode, detector flag, pressure method name, radii",
 "No test builds the solver from settings.",
 ["src/mps_factory.cpp", "src/mps.cpp", "src/pressure_calculator/implicit.cpp", "src/pressure_calculator/explicit.cpp"], [("MPSFactory::create", "src/mps_factory.cpp"), ("MPS::MPS", "src/mps.cpp"), ("Implicit::Implicit", "src/pressure_calculator/implicit.cpp"), ("Explicit::Explicit", "src/pressure_calculator/explicit.cpp")],
 observe=["constructed simulation object"])

prop("C22", "Existing input files are never silently overwritten",
 "Preparing a run copies the settings file and the particle file into the output directory, but if a file of that name already exists there the program ends with an error and the existing file is left as it is. The particle generators overwrite existing input files only after the user answers y or Y; on n or N they end without writing, and on any other answer they ask again. Where nothing stands in the way, or after y or Y, one file input<type> is written for each requested type (.prof, .vtu, .csv), holding the given particles at time 0; a request for no type, or containing any other type, writes nothing.",
 ["inputs", "histories"], "every directory state, every sequence of user answers, every set of requested file types",
 "No test covers copying of inputs or the generator dialogue.",
 ["src/loader.cpp", "generator/generator_src/generator_dialogue.cpp"], [("Loader::copyInputFileToOutputDirectory", "src/loader.cpp"), ("GeneratorDialogue::generatorDialogue", "generator/generator_src/generator_dialogue.cpp")],
 observe=["file-system calls, exit status"])

prop("C23", "Parallel loops are free of data races",
 "Every loop marked for parallel execution has independent iterations: no iteration writes a location (particle field, vector element, shared variable or container) that another iteration reads or writes. Results therefore do not depend on the number of threads or the schedule.",
 ["schedules", "inputs"], "every interleaving and schedule of every parallel loop, for every particle set whose ids equal their indices",
 "The available build compiles the parallel directives out, and even with them a race needs an unlucky schedule to show.",
 ["src/mps.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/pressure_calculator/explicit.cpp", "src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("#pragma omp parallel for loops", "all listed files")], observe=["write and read footprint of each iteration"])

prop("C24", "Generated initial layouts are as designed",
 "The dam-break generator fills its lattice so that each site gets the type of the last matching region in the order dummy wall, wall (two rules), empty, fluid, and sites that are outside or empty get no particle; the hydrostatic generator gives each site the first matching region in the order empty, fluid, wall, dummy wall. Every generated particle lies on its lattice site, is at rest, has density 1000, and ids are consecutive from 0, no site being used twice.",
 ["inputs"], "every site of the generator lattices",
 "No test runs a generator.",
 ["generator/generate_dambreak.cpp", "generator/generate_hydrostatic.cpp"], [("main, isInside", "generator/generate_dambreak.cpp"), ("main, Box2d::sdf", "generator/generate_hydrostatic.cpp")],
 observe=["particles handed to the exporter"])

prop("C25", "Implicit pressure solves the assembled system accurately",
 "When the implicit pressure method returns, the values it returns (before negative ones are clipped) satisfy the linear system assembled for this call: they are the solver's converged solution at the solver's default (double precision) tolerance, so the residual is negligible against the right-hand side. A call whose solver did not converge never returns.",
 ["inputs"], "every assembled system",
 "No test solves a pressure system.",
 ["src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/implicit.cpp"], [("PressurePoissonEquation::solve", "src/pressure_calculator/pressure_poisson_equation.cpp"), ("Implicit::calc", "src/pressure_calculator/implicit.cpp")], observe=["residual of the solved system"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, sch)
for p in P: assert len(p["title"]) <= 80
print(len(P), "properties")
