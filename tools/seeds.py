"""Definitions of the planted bugs (mkseed.py turns them into /verif/seeded/<id>/)."""
SEEDS = {}
def seed(sid, prop, edits, needs, breaks, demo=None, **k):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

MAIN = '#include "seed_demo.hpp"\nint main() {\n%s\n    return bad;\n}\n'

seed("s01_weight_tail", "C01", [("src/weight.cpp", "if (dis >= re) {", "if (dis - re >= 1e-9) {")],
     "a pair of particles farther apart than the effective radius by less than 1e-9",
     "the weight is negative just beyond the effective radius",
     '#include "weight.hpp"\n' + MAIN % '''
    for (double re : {0.05, 1.0, 3.1}) for (double e : {0.0, 1e-12, 5e-11, 1e-10, 5e-10, 2e-9}) {
        double w = weight(re + e, re);
        expect(w == 0.0, "the weight is zero at and beyond the effective radius");
    }''', sources="src/weight.cpp")

seed("s02_lattice_bound", "C02", [("src/refvalues.cpp", "for (int iX = -4; iX < 5; iX++)", "for (int iX = -4; iX < 4; iX++)")],
     "an effective radius larger than four particle spacings",
     "the sites at x = +4 l0 are left out of the reference sums",
     '#include "refvalues.hpp"\n#include "weight.hpp"\n' + MAIN % '''
    for (int dim : {2, 3}) for (double re : {1.5, 2.1, 3.1, 4.0, 4.2, 4.9}) {
        double l0 = 0.1, n0 = 0, la = 0; re *= l0;
        for (int i = -6; i <= 6; i++) for (int j = -6; j <= 6; j++) for (int k = dim == 2 ? 0 : -6; k <= (dim == 2 ? 0 : 6); k++) {
            double d = l0 * std::sqrt(double(i * i + j * j + k * k)); if (d == 0 || d >= re) continue;
            n0 += re / d - 1; la += d * d * (re / d - 1);
        }
        RefValues r(dim, l0, re);
        expect(near(r.n0, n0), "n0 is the lattice sum"); expect(near(r.lambda, la / n0), "lambda is the weighted mean squared distance");
    }''', sources="src/weight.cpp src/refvalues.cpp")

seed("s03_flat_domain", "C03", [("src/neighbor_searcher.cpp", "for (int jz = iz - 1; jz <= iz + 1; jz++) {", "for (int jz = iz - (domain.zLength > re); jz <= iz + (domain.zLength > re); jz++) {")],
     "a domain exactly as thick as the search radius, with one particle on its upper face",
     "the layer above is not searched although particles on the upper face lie in it",
     MAIN % '''
    Input in = world(3); Domain& d = in.settings.domain; double re = 2.0;
    for (double zl : {0.0, 1.0, 2.0, 3.0, 4.0}) {
        d.zMin = 0; d.zMax = zl; d.zLength = zl;
        in.particles = Particles();
        put(in, ParticleType::Fluid, V3(5, 5, zl)); put(in, ParticleType::Fluid, V3(5, 5.5, zl / 2)); put(in, ParticleType::Wall, V3(5, 4, zl));
        NeighborSearcher ns(re, d, in.particles.size()); ns.setNeighbors(in.particles);
        for (auto& p : in.particles) { size_t n = 0; for (auto& q : in.particles) n += q.id != p.id && (q.position - p.position).norm() < re; expect(p.neighbors.size() == n, "the neighbour list holds every particle within the radius"); }
    }''')

seed("s04_cell_count", "C04", [("src/bucket.cpp", "this->numY = (int) (domain.yLength / length) + 3;", "this->numY = (int) std::ceil(domain.yLength / length) + 2;")],
     "a domain length in y that is a multiple of the search radius and a particle exactly on the upper y face, in the top layer",
     "the search grid lacks the margin layer beyond that particle: the search reads past the end of the grid",
     MAIN % '''
    Input in = world(3); Domain& d = in.settings.domain;
    d.xMax = d.yMax = d.zMax = 4; d.xLength = d.yLength = d.zLength = 4;
    put(in, ParticleType::Fluid, V3(3.5, 4.0, 3.5)); put(in, ParticleType::Fluid, V3(4, 4, 4)); put(in, ParticleType::Fluid, V3(0, 0, 0));
    NeighborSearcher ns(2.0, d, in.particles.size()); ns.setNeighbors(in.particles);
    expect(in.particles[0].neighbors.size() == 1 && in.particles[2].neighbors.empty(), "neighbours");''', flags="-fsanitize=address", sources="src/particle.cpp src/particles.cpp src/bucket.cpp src/neighbor_searcher.cpp")

seed("s05_dummy_wall_moves", "C05", [("src/particle.cpp", "    case ParticleType::Fluid:\n        return 1 / this->density;\n\n    case ParticleType::Wall:\n    case ParticleType::DummyWall:\n", "    case ParticleType::Fluid:\n    case ParticleType::DummyWall:\n        return 1 / this->density;\n\n    case ParticleType::Wall:\n")],
     "a fluid particle that gets within the collision distance of a dummy wall particle",
     "the dummy wall particle is pushed away by the collision",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(-1, 0, 0)); put(in, ParticleType::DummyWall, V3(4.7, 5, 0)); put(in, ParticleType::Wall, V3(5, 4.6, 0));
    MPS m = simulator(in); for (int k = 0; k < 3; k++) m.stepForward();
    for (int i : {1, 2}) { expect(m.particles[i].position == in.particles[i].position, "walls stay where they are"); expect(m.particles[i].velocity == V3(0, 0, 0), "walls stay at rest"); }''')

seed("s06_gravity_source", "C06", [("src/mps.cpp", "p.acceleration += gravity;", "p.acceleration += settings.gravity;")],
     "a simulator whose gravity is not the vector of the settings (polar gravity input)",
     "fluid particles feel the Cartesian gravity entry instead of the gravity the simulator was given",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0)); put(in, ParticleType::Wall, V3(15, 5, 0));
    in.settings.gravity = V3(0, 0, 0); in.settings.xyzInput = false; in.settings.gNorm = 9.8;
    MPS m = simulator(in, {}, V3(0, -9.8, 0)); m.stepForward();
    expect(near(m.particles[0].velocity, V3(0, -0.098, 0)), "velocity gains g*dt"); expect(near(m.particles[0].position, V3(5, 5 - 0.00098, 0)), "position advances by the new velocity");''')

seed("s07_viscosity_reference", "C07", [("src/mps.cpp", "double n0     = refValuesForLaplacian.n0;", "double n0     = refValuesForNumberDensity.n0;")],
     "different effective radii for number density and Laplacian",
     "the viscosity coefficient is computed with the reference number density of another radius",
     '#include "weight.hpp"\n' + MAIN % '''
    for (double rl : {2.1, 3.1, 4.1}) {
        Input in = world(); Settings& s = in.settings; s.re_forLaplacian = rl; s.reMax = std::max(rl, 3.1); s.kinematicViscosity = 0.3;
        put(in, ParticleType::Fluid, V3(5, 5, 0), V3(0, 1, 0)); put(in, ParticleType::Fluid, V3(6.5, 5, 0), V3(0, -2, 0));
        MPS m = simulator(in); m.stepForward();
        RefValues r(2, 1.0, rl); double a = 0.3 * 4 / (r.n0 * r.lambda) * weight(1.5, rl);
        expect(near(m.particles[0].velocity, V3(0, 1 - 3 * a * s.dt, 0)), "the fluid particle gets the Laplacian of velocity");
        expect(near(m.particles[1].velocity, V3(0, -2 + 3 * a * s.dt, 0)), "and its neighbour the opposite");
    }''')

seed("s08_wall_pair_skipped", "C08", [("src/mps.cpp", "if (pj.type == ParticleType::Fluid && pj.id >= pi.id)", "if (pj.type != ParticleType::Wall && pj.id >= pi.id)")],
     "a fluid particle colliding with a dummy wall particle that has the larger id",
     "that collision is never handled",
     MAIN % '''
    for (auto t : {ParticleType::Wall, ParticleType::DummyWall}) for (int order : {0, 1}) {
        Input in = world(); double c = 0.4;
        if (order) put(in, t, V3(5, 5, 0));
        put(in, ParticleType::Fluid, V3(5 + c + 0.01, 5, 0), V3(-1, 0, 0));
        if (!order) put(in, t, V3(5, 5, 0));
        MPS m = simulator(in); m.stepForward();
        auto& p = m.particles[order];
        expect(near(p.velocity, V3(0.2, 0, 0)), "the approach velocity is reversed and scaled by the coefficient of restitution"); expect(near(p.position, V3(5.5, 5, 0)), "the fluid particle is pushed out to the collision distance");
    }''')

seed("s09_ghost_density", "C09", [("src/mps.cpp", "        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n", "        if (pi.type == ParticleType::Ghost)\n            continue;\n\n        pi.numberDensity = 0.0;\n")],
     "a particle with a number density from an earlier step that leaves the domain",
     "a retired particle keeps its old number density",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(19.5, 5, 0), V3(30, 0, 0)); put(in, ParticleType::Fluid, V3(18.5, 5, 0), V3(30, 0, 0));
    MPS m = simulator(in);
    for (int k = 0; k < 8; k++) { m.stepForward(); for (auto& p : m.particles) { double n = 0; if (p.type != ParticleType::Ghost) for (auto& q : m.particles) if (q.id != p.id && q.type != ParticleType::Ghost) { double d = (q.position - p.position).norm(); if (d < 3.1) n += 3.1 / d - 1; } expect(near(p.numberDensity, n), "number density is the sum over the current neighbours, zero for ghosts"); } }''')

seed("s10_ghost_state_kept", "C10", [("src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall) {\n            pi.boundaryCondition = FluidState::Ignored;\n", "        if (pi.type == ParticleType::Ghost)\n            continue;\n        if (pi.type == ParticleType::DummyWall) {\n            pi.boundaryCondition = FluidState::Ignored;\n")],
     "an inner particle that is retired as a ghost between two steps",
     "the ghost keeps its classification as inner particle and gets a row in the pressure equation",
     '#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"\n#include "surface_detector/number_density.hpp"\n' + MAIN % '''
    Input in = world(); for (int i = 0; i < 3; i++) put(in, ParticleType::Fluid, V3(5 + i, 5, 0)).numberDensity = 10;
    PressureCalculator::DirichletBoundaryConditionGenerator::FreeSurface g(std::make_unique<SurfaceDetector::NumberDensity>(0.97, 5.0));
    auto d = g.generate(in.particles); expect(!d.contains(0) && !d.contains(1), "inner particles have no prescribed pressure");
    in.particles[1].type = ParticleType::Ghost; in.particles[2].type = ParticleType::DummyWall;
    d = g.generate(in.particles); expect(in.particles[1].boundaryCondition == FluidState::Ignored && in.particles[2].boundaryCondition == FluidState::Ignored, "ghosts and dummy walls are ignored");
    expect(!d.contains(0) && d.contains(1) && d.contains(2), "and have a prescribed pressure");''')

seed("s11_row_density", "C11", [("src/pressure_calculator/pressure_poisson_equation.cpp", "weight(neighbor.distance, re) / pi.density;", "weight(neighbor.distance, re) / pj.density;")],
     "neighbouring particles of different density",
     "the off-diagonal entries are divided by the neighbour's density instead of the row particle's",
     '#include "pressure_calculator/pressure_poisson_equation.hpp"\n#include "neighbor_searcher.hpp"\n'.replace('#include "neighbor_searcher.hpp"\n', "") + MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(0, 0, 0), 1000).numberDensity = 7; put(in, ParticleType::Fluid, V3(6, 5, 0), V3(0, 0, 0), 500).numberDensity = 8;
    for (int i = 0; i < 2; i++) { in.particles[i].boundaryCondition = FluidState::Inner; in.particles[i].neighbors.emplace_back(1 - i, 1.0); }
    double dt = 0.01, g = 0.2, al = 1e-6, n0 = 6, nL = 6, la = 2, re = 3.1;
    PressureCalculator::PressurePoissonEquation e(2, dt, g, al, n0, nL, la, re, re);
    e.setup(in.particles, PressureCalculator::DirichletBoundaryCondition()); auto p = e.solve();
    for (int i = 0; i < 2; i++) { double c = 4 / (nL * la) * (re - 1) / in.particles[i].density, b = g / dt / dt * (in.particles[i].numberDensity - n0) / n0; expect(near((c + al / dt / dt) * p[i] - c * p[1 - i], b, 1e-6), "the returned pressures solve the documented equation"); }''')

seed("s12_solver_failure", "C12", [("src/pressure_calculator/pressure_poisson_equation.cpp", "if (solver.info() != Eigen::Success) {", "if (solver.info() == Eigen::NumericalIssue || solver.info() == Eigen::InvalidInput) {")],
     "a pressure system on which the iterative solver does not converge",
     "the step continues with unconverged pressures instead of ending with an error",
     '#include "pressure_calculator/pressure_poisson_equation.hpp"\n#include <sys/wait.h>\n#include <unistd.h>\n' + MAIN % '''
    Input in = world(); for (int i = 0; i < 3; i++) { auto& p = put(in, ParticleType::Fluid, V3(5 + i, 5, 0)); p.numberDensity = 7 + i; p.boundaryCondition = FluidState::Inner; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) in.particles[i].neighbors.emplace_back(j, std::fabs(i - j));
    pid_t c = fork();
    if (c == 0) { // an incompressible closed system: the matrix is singular and the right-hand side is not in its range
        PressureCalculator::PressurePoissonEquation e(2, 0.01, 0.2, 0.0, 6, 6, 2, 3.1, 3.1);
        e.setup(in.particles, PressureCalculator::DirichletBoundaryCondition()); e.solve(); _exit(0);
    }
    int st; waitpid(c, &st, 0); expect(WIFEXITED(st) && WEXITSTATUS(st) != 0, "a failed pressure calculation ends the program with an error");''')

seed("s13_minimum_pair", "C13", [("src/mps.cpp", "        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {\n            Particle& pj = particles[neighbor.id];\n            if (pj.type", "        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {\n            Particle& pj = particles[neighbor.id];\n            if (pj.type")],
     "a fluid particle next to a wall particle with a larger id and a lower pressure",
     "pairs are visited only from the larger id, so a wall partner with the larger id no longer enters the minimum",
     MAIN % '''
    for (int k : {0, 1}) { // which of the two has the larger id
        Input in = world();
        for (int i = 0; i < 2; i++) put(in, i == k ? ParticleType::Wall : ParticleType::Fluid, V3(5 + i, 5, 0));
        std::vector<double> p(2); p[k] = 100; p[1 - k] = 300;
        MPS m = simulator(in, p); m.stepForward();
        for (int i = 0; i < 2; i++) expect(m.particles[i].minimumPressure == 100, "the minimum is taken over the neighbourhood");
    }''')

seed("s14_stale_neighbours", "C14", [("src/mps.cpp", "    collision();\n\n    neighborSearcher.setNeighbors(particles);\n", "    collision();\n\n    if (courant > 0.0)\n        neighborSearcher.setNeighbors(particles);\n")],
     "a collision in the first step, or in a step that follows one in which the fluid was at rest",
     "the number density of such a step is summed over the distances from before the collision",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(1, 0, 0)); put(in, ParticleType::Fluid, V3(5.4, 5, 0), V3(-1, 0, 0)); put(in, ParticleType::Wall, V3(6.5, 5, 0));
    MPS m = simulator(in);
    for (int k = 0; k < 3; k++) { m.stepForward(); for (auto& p : m.particles) { double n = 0; for (auto& q : m.particles) if (q.id != p.id) { double d = (q.position - p.position).norm(); if (d < 3.1) n += 3.1 / d - 1; } expect(near(p.numberDensity, n), "number density belongs to the positions after the collision"); } }''')

import os
GOMP = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "gomp_standin.hpp")).read()
RACE = dict(flags="-fopenmp -fsanitize=thread -DEIGEN_DONT_PARALLELIZE", files={"gomp_standin.hpp": GOMP}, tsan=True)
RACEDEMO = '#include "gomp_standin.hpp"\n' + MAIN % '''
    // several threads under ThreadSanitizer: the demonstration ends with its exit status when iterations interfere
    for (int k = 0; k < 3; k++) {
        Input in = world(); in.settings.kinematicViscosity = 0.1; std::vector<double> p;
        for (int i = 0; i < 64; i++) { put(in, i % 5 ? ParticleType::Fluid : ParticleType::Wall, V3(2 + i % 8, 2 + i / 8, 0), V3(i % 5 ? i % 3 : 0, 0, 0)); p.push_back(i % 7); }
        MPS m = simulator(in, p); m.stepForward(); m.stepForward();
    }'''
seed("s23_shared_accumulator", "C23", [("src/mps.cpp", "#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        Eigen::Vector3d viscosityTerm = Eigen::Vector3d::Zero();\n", "    Eigen::Vector3d viscosityTerm;\n\n#pragma omp parallel for\n    for (auto& pi : particles) {\n        if (pi.type != ParticleType::Fluid)\n            continue;\n\n        viscosityTerm.setZero();\n")],
     "a build with OpenMP and more than one thread",
     "all threads accumulate their viscosity sums in one shared variable", RACEDEMO, **RACE)
seed("s23_parallel_minimum", "C23", [("src/mps.cpp", "        p.minimumPressure = p.pressure;\n    }\n\n    for (auto& pi : particles) {\n        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {", "        p.minimumPressure = p.pressure;\n    }\n\n#pragma omp parallel for schedule(static)\n    for (int i = 0; i < particles.size(); i++) {\n        Particle& pi = particles[i];\n        if (pi.type == ParticleType::Ghost || pi.type == ParticleType::DummyWall)\n            continue;\n\n        for (auto& neighbor : pi.neighbors) {")],
     "a build with OpenMP and neighbouring particles handled by different threads",
     "the pairwise minimum loop runs in parallel although each pair updates both partners", RACEDEMO, **RACE)

# ---------------------------------------------------------------- files, settings, construction
IO = '''#include <filesystem>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include "seed_demo.hpp"
namespace fsys = std::filesystem;
static std::string slurp(const fsys::path& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spit(const fsys::path& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
static std::string yaml(std::map<std::string, std::string> m = {}) {
    std::map<std::string, std::string> y = {{"dim", "2"}, {"particleDistance", "1.0"}, {"dt", "0.25"}, {"endTime", "2"}, {"outputPeriod", "0.5"}, {"cflCondition", "0.2"}, {"numPhysicalCores", "1"}, {"defaultDensity", "1000"}, {"kinematicViscosity", "0"},
        {"gravity", "[0, -1, 0]"}, {"surfaceDetection-numberDensity-threshold", "0.97"}, {"surfaceDetection-particleDistribution", "false"}, {"surfaceDetection-particleDistribution-threshold", "0.85"}, {"pressureCalculationMethod", "Explicit"},
        {"compressibility", "4.5e-10"}, {"relaxationCoefficientForPressure", "0.2"}, {"soundSpeed", "10"}, {"collisionDistanceRatio", "0.5"}, {"coefficientOfRestitution", "0.2"}, {"radiusRatioForNumberDensity", "3.1"}, {"radiusRatioForGradient", "2.1"},
        {"radiusRatioForLaplacian", "3.1"}, {"domainMin", "[-100, -100, 0]"}, {"domainMax", "[100, 100, 0]"}, {"particlesPath", "input.prof"}};
    for (auto& q : m) y[q.first] = q.second;
    std::string s; for (auto& q : y) s += q.first + ": " + q.second + "\\n"; return s;
}
static Particles some() { Particles ps; for (int i = 0; i < 4; i++) { Particle p(i, (ParticleType) ((i + 1) %% 4), V3(0.5 * i, 1 - i, 0.25 * i * i), V3(i, -0.5 * i, 2 - i), 1000, i %% 3); p.pressure = 10 * i; p.numberDensity = 5 + i; p.boundaryCondition = FluidState::Inner; ps.add(p); } return ps; }
'''
IOMAIN = IO + 'int main() {\n%s\n    return bad;\n}\n'
SIM = '#include "simulation.hpp"\n' + IO + '''
static std::vector<double> outputs(std::map<std::string, std::string> m, double start) { // times of the saved profiles
    static int k = 0; fsys::path d = fsys::current_path() / std::to_string(k++), o = d / "out"; fsys::create_directories(o);
    spit(d / "s.yml", yaml(m)); spit(d / "input.prof", std::to_string(start) + "\\n1\\n1 0 0 0 0 0 0\\n");
    fsys::path s = d / "s.yml"; { Simulation sim(s, o); sim.run(); }
    std::vector<double> t; for (int i = 0;; i++) { char b[32]; snprintf(b, 32, "output_%%04d.prof", i); if (!fsys::exists(o / "prof" / b)) break; t.push_back(std::stod(slurp(o / "prof" / b))); }
    return t;
}
int main() {
%s
    return bad;
}
'''

seed("s15_step_count", "C15", [("src/simulation.cpp", "    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    int interval = std::max(1, (int) (outputPeriod / dt));\n    return timeStep % interval == 0;")],
     "an output period that is not a multiple of the time step",
     "outputs are written every floor(period / dt) steps, before their time is due",
     SIM % '''
    expect(outputs({{"outputPeriod", "0.5"}}, 0) == std::vector<double>({0, 0.5, 1, 1.5, 2}), "period of two steps");
    expect(outputs({{"outputPeriod", "0.1"}}, 0).size() == 9, "period below the time step");
    expect(outputs({{"outputPeriod", "0.625"}}, 0) == std::vector<double>({0, 0.75, 1.25, 2}), "period of two and a half steps");''')

seed("s15_restart", "C15", [("src/simulation.cpp", "    return time - startTime >= outputPeriod", "    return time >= outputPeriod")],
     "an input file whose start time is not zero",
     "after a restart the first outputs are written every step until the file number has caught up with the clock",
     SIM % '''
    expect(outputs({}, 0) == std::vector<double>({0, 0.5, 1, 1.5, 2}), "run from 0");
    expect(outputs({{"endTime", "3"}}, 1) == std::vector<double>({1, 1.5, 2, 2.5, 3}), "run from 1");''')

seed("s16_ghost_rows", "C16", [("src/particles_exporter.cpp", '    ofs << "type,fluidType,x,y,z,vx,vy,vz" << endl;\n    for (const auto& p : particles) {\n', '    ofs << "type,fluidType,x,y,z,vx,vy,vz" << endl;\n    for (const auto& p : particles) {\n        if (p.type == ParticleType::Ghost)\n            continue;\n')],
     "a particle set with a ghost in it",
     "the CSV file announces more particles than it has rows, and later rows shift",
     '#include "particles_exporter.hpp"\n' + IOMAIN % '''
    ParticlesExporter e; auto ps = some(); e.setParticles(ps); e.toCsv("a.csv", 0.5); std::istringstream f(slurp("a.csv")); std::string l; std::vector<std::string> v; while (std::getline(f, l)) v.push_back(l);
    expect(v.size() == 7 && v[1] == "4", "as many rows as particles"); for (int i = 0; i < 4 && i + 3 < (int) v.size(); i++) expect(v[3 + i][0] == '0' + (int) ps[i].type, "row i holds particle i");''')

seed("s16_second_save", "C16", [("src/saver.cpp", "    exporter.setParticles(mps.particles);\n\n", "    if (fileNumber == 0)\n        exporter.setParticles(mps.particles);\n\n"), ("src/saver.cpp", "    exporter.toVtu(", "    exporter.setParticles(mps.particles);\n    exporter.toVtu(")],
     "two saves in one run",
     "from the second output on, the profile shows the particles of the output before",
     '#include "saver.hpp"\n' + IOMAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0)); MPS m = simulator(in); Saver s("out", false);
    for (int k = 0; k < 3; k++) { m.particles[0].position = V3(5 + k, 5, 0); s.save(m, k); }
    for (int k = 0; k < 3; k++) { std::istringstream f(slurp("out/prof/output_000" + std::to_string(k) + ".prof")); double t, n, y, x = -1; f >> t >> n >> y >> x; expect(t == k && x == 5 + k, "each profile shows its own state"); }''')

seed("s17_byte_count", "C17", [("src/particles_exporter.cpp", "uint64_t length_offset = particles.size() * sizeof(int64_t);", "uint64_t length_offset = particles.size() * sizeof(int32_t);")],
     "binary VTU output",
     "the byte count in front of the cell offsets is half the number of bytes that follow",
     '#include "particles_exporter.hpp"\n' + IOMAIN % '''
    ParticlesExporter e; e.setParticles(some()); e.toVtu("a.vtu", 0.5, 6.5, true); std::string s = slurp("a.vtu"); size_t d = s.find("_", s.find("<AppendedData")) + 1, i = 0; std::map<std::string, size_t> size = {{"Float64", 8}, {"Int32", 4}, {"Int64", 8}, {"UInt8", 1}};
    while ((i = s.find("<DataArray", i)) != std::string::npos) {
        auto at = [&](std::string k) { size_t a = s.find(k + "=\\"", i) + k.size() + 2; return s.substr(a, s.find('"', a) - a); };
        uint64_t n; memcpy(&n, s.data() + d + std::stoul(at("offset")), 8); size_t c = at("Name") == "Time" ? 1 : 4 * std::stoul(at("NumberOfComponents"));
        expect(n == c * size[at("type")], "byte count of an array"); i++;
    }''')

seed("s17_ratio_reference", "C17", [("src/particles_exporter.cpp", "        toVtuAscii(path, time, n0ForNumberDensity);", "        toVtuAscii(path, time, 1.0);")],
     "ASCII output with a reference density other than 1",
     "the number density ratio is the number density itself",
     '#include "particles_exporter.hpp"\n' + IOMAIN % '''
    for (double n0 : {1.0, 4.0}) { ParticlesExporter e; auto ps = some(); e.setParticles(ps); e.toVtu("a.vtu", 0.5, n0, false); std::string s = slurp("a.vtu"); std::istringstream f(s.substr(s.find(">", s.find("Number Density Ratio")) + 1)); for (int i = 0; i < 4; i++) { double v; f >> v; expect(near(v, ps[i].numberDensity / n0, 1e-5), "number density / n0"); } }''')

seed("s18_zero_density", "C18", [("src/particles_loader/csv.cpp", "        if (density < 0) {", "        if (density <= 0) {")],
     "a CSV file with a density of exactly 0",
     "the given density 0 is replaced by the default",
     '#include "particles_loader/csv.hpp"\n' + IOMAIN % '''
    spit("a.csv", "0\\n3\\ntype,x,y,z,vx,vy,vz,density\\n1,0,0,0,0,0,0,-1\\n1,1,0,0,0,0,0,0\\n2,2,0,0,0,0,0,5\\n"); auto r = ParticlesLoader::Csv().load("a.csv", 1000).second;
    expect(r.size() == 3 && r[0].density == 1000 && r[1].density == 0 && r[2].density == 5, "densities");''')

seed("s18_fluid_type_default", "C18", [("src/particles_loader/csv.cpp", "        particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));\n", "        particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));\n        fluidType = type == (int) ParticleType::Wall ? 1 : 0;\n")],
     "a CSV file without fluidType column in which a wall particle is followed by another particle",
     "the particle after a wall particle gets fluid type 1 instead of 0",
     '#include "particles_loader/csv.hpp"\n' + IOMAIN % '''
    spit("a.csv", "0\\n3\\ntype,x,y,z,vx,vy,vz\\n1,0,0,0,0,0,0\\n2,1,0,0,0,0,0\\n1,2,0,0,0,0,0\\n"); auto r = ParticlesLoader::Csv().load("a.csv", 1000).second; for (auto& p : r) expect(p.fluidType == 0, "fluid type defaults to 0");
    spit("b.csv", "0\\n2\\ntype,fluidType,x,y,z,vx,vy,vz\\n2,2,0,0,0,0,0,0\\n1,3,1,0,0,0,0,0\\n"); r = ParticlesLoader::Csv().load("b.csv", 1000).second; expect(r[0].fluidType == 2 && r[1].fluidType == 3, "fluid type of the file");''')

seed("s19_type_arrays", "C19", [("src/particles_loader/vtu.cpp", 'line.find("Particle Type")', 'line.find("Type\\"")')],
     "an exported file with a fluid type other than 0",
     "the fluid type array is taken for more particle types, so every fluid type is read as 0",
     '#include "particles_loader/vtu.hpp"\n#include "particles_exporter.hpp"\n' + IOMAIN % '''
    ParticlesExporter e; auto ps = some(); e.setParticles(ps); e.toVtu("a.vtu", 0.5, 6.5, false); auto r = ParticlesLoader::Vtu().load("a.vtu", 1000); expect(r.first == 0.5 && r.second.size() == 4, "time and particles");
    for (int i = 0; i < 4 && i < r.second.size(); i++) expect(r.second[i].type == ps[i].type && r.second[i].fluidType == ps[i].fluidType && r.second[i].position == ps[i].position, "type, fluid type and position");''')

seed("s20_search_radius", "C20", [("src/loader.cpp", "std::max({s.re_forNumberDensity, s.re_forGradient, s.re_forLaplacian})", "std::max(s.re_forNumberDensity, s.re_forGradient)")],
     "a radius for the Laplacian larger than the other two",
     "the search radius is smaller than the Laplacian radius, so neighbours are missed",
     '#include "loader.hpp"\n' + IOMAIN % '''
    spit("input.prof", "0\\n1\\n1 0 0 0 0 0 0\\n"); int k = 0;
    for (auto& m : std::vector<std::map<std::string, std::string>>{{}, {{"radiusRatioForGradient", "4.1"}}, {{"radiusRatioForLaplacian", "4.1"}}}) { std::string o = "o" + std::to_string(k++); fsys::create_directories(o); spit("s.yml", yaml(m)); auto s = Loader().load("s.yml", o).settings; expect(near(s.reMax, std::max({s.re_forNumberDensity, s.re_forGradient, s.re_forLaplacian})), "the search radius is the largest effective radius"); }''')

seed("s21_thresholds", "C21", [("src/mps_factory.cpp", "            input.settings.surfaceDetection_particleDistribution_threshold,\n            input.settings.surfaceDetection_numberDensity_threshold\n", "            input.settings.surfaceDetection_numberDensity_threshold,\n            input.settings.surfaceDetection_particleDistribution_threshold\n")],
     "the distribution detector with the implicit method",
     "the distribution detector gets the two thresholds in each other's place",
     '#include "mps_factory.hpp"\n' + IOMAIN % '''
    // one isolated pair: the first particle has a number density between the two thresholds times n0, so its pressure is prescribed only with the right ones
    Input in = world(); Settings& s = in.settings; s.pressureCalculationMethod = "Implicit"; s.compressibility = 1e-3; s.relaxationCoefficientForPressure = 1; s.surfaceDetection_particleDistribution = true; s.surfaceDetection_numberDensity_threshold = 1.5; s.surfaceDetection_particleDistribution_threshold = 0.1;
    put(in, ParticleType::Fluid, V3(5, 5, 0)); put(in, ParticleType::Fluid, V3(6, 5, 0)); MPS m = MPSFactory::create(in); double n0 = m.refValuesForNumberDensity.n0;
    for (int i = 0; i < 2; i++) { m.particles[i].numberDensity = 1.2 * n0; m.particles[i].neighbors.emplace_back(1 - i, 1.0); }
    auto p = m.pressureCalculator->calc(m.particles); expect(p[0] == 0 && p[1] == 0, "particles below the density threshold with a one-sided neighbourhood are free surface");''')

seed("s21_explicit_radius", "C21", [("src/mps_factory.cpp", "new PressureCalculator::Explicit(\n            input.settings.re_forNumberDensity,", "new PressureCalculator::Explicit(\n            input.settings.reMax,")],
     "the explicit method with a number density radius that is not the largest one",
     "explicit pressures refer to the reference density of another radius",
     '#include "mps_factory.hpp"\n' + IOMAIN % '''
    for (double re : {3.1, 2.1}) { Input in = world(); in.settings.re_forNumberDensity = re; put(in, ParticleType::Fluid, V3(5, 5, 0)); MPS m = MPSFactory::create(in); double n0 = m.refValuesForNumberDensity.n0; m.particles[0].numberDensity = 1.5 * n0; expect(near(m.pressureCalculator->calc(m.particles)[0], 100 * 1000 * 0.5), "p = c^2 rho (n - n0) / n0"); }''')

DSRC = "src/*.cpp src/*/*.cpp src/*/*/*.cpp generator/generator_src/generator_dialogue.cpp | grep -v main.cpp"
seed("s22_last_file_asked", "C22", [("generator/generator_src/generator_dialogue.cpp", '        bool dialogueNeeded = false;\n        for (const auto& ext : extensions) {\n            fs::path filePath = parentPath / ("input" + ext);\n            if (fs::exists(filePath)) {\n                std::cout << "File already exists: " << filePath << std::endl;\n                dialogueNeeded = true;\n            }\n', '        bool dialogueNeeded = false;\n        for (const auto& ext : extensions) {\n            fs::path filePath = parentPath / ("input" + ext);\n            dialogueNeeded    = fs::exists(filePath);\n            if (dialogueNeeded) {\n                std::cout << "File already exists: " << filePath << std::endl;\n            }\n')],
     "a directory in which an earlier requested file exists and the last one does not",
     "the existing file is overwritten without asking",
     '#include "generator_src/generator_dialogue.hpp"\n' + IOMAIN % '''
    for (std::string had : {".prof", ".vtu", ".csv"}) {
        fsys::remove_all("in"); fsys::create_directories("in"); spit("in/input" + had, "mine");
        std::istringstream a("n\\n"); pid_t c = fork();
        if (c == 0) { std::cin.rdbuf(a.rdbuf()); alarm(10); GeneratorDialogue g; g.generatorDialogue("in", some(), {".prof", ".vtu", ".csv"}); _exit(5); }
        int st; waitpid(c, &st, 0); expect(WIFEXITED(st) && WEXITSTATUS(st) == 0, "n ends the program"); expect(slurp("in/input" + had) == "mine", "the existing file is kept");
    }''', sources=DSRC)

seed("s22_empty_file", "C22", [("src/loader.cpp", "    if (fs::exists(outputFilePath)) {\n        cerr", "    if (fs::exists(outputFilePath) && !fs::is_empty(outputFilePath)) {\n        cerr"), ("src/loader.cpp", "        fs::copy_file(inputFilePath, outputFilePath);", "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::overwrite_existing);")],
     "an empty file of that name in the output directory",
     "the empty file is overwritten and the run goes on",
     '#include "loader.hpp"\n' + IOMAIN % '''
    spit("input.prof", "0\\n1\\n1 0 0 0 0 0 0\\n"); spit("s.yml", yaml()); int k = 0;
    for (std::string f : {"s.yml", "input.prof"}) for (std::string old : {"old", ""}) {
        std::string o = "o" + std::to_string(k++); fsys::create_directories(o); spit(o + "/" + f, old); pid_t c = fork();
        if (c == 0) { Loader().load("s.yml", o); _exit(0); }
        int st; waitpid(c, &st, 0); expect(WIFEXITED(st) && WEXITSTATUS(st) != 0, "an existing file ends the program with an error"); expect(slurp(o + "/" + f) == old, "the existing file is left as it is");
    }''')

GEN = '''#include "generate_%s.cpp"
''' + IO + '''
static std::map<std::pair<long, long>, int> made(double l0, double off) { // lattice site -> type
    std::map<std::pair<long, long>, int> m; std::istringstream f(slurp("input/%s/input.prof")); double t; int n; f >> t >> n; double x, y, z, u, v, w; int k;
    for (int i = 0; i < n; i++) { f >> k >> x >> y >> z >> u >> v >> w; auto s = std::make_pair(std::lround(x / l0 - off), std::lround(y / l0 - off)); expect(!m.count(s), "one particle per site"); m[s] = k; }
    return m;
}
struct Check { // runs when the generator has ended
    ~Check() {
%s
        fflush(stdout); _exit(bad);
    }
} check;
'''
seed("s24_wall_top", "C24", [("generator/generate_dambreak.cpp", "            y_range = {0.6 - 2.0 * l0, 0.6};", "            y_range = {0.6 - 1.0 * l0, 0.6};")],
     "the third row of sites below the top in the two outer columns on each side",
     "those sites become dummy walls instead of walls",
     GEN % ("dambreak", "dambreak", '''
    auto m = made(0.025, 0); for (int y = -4; y <= 24; y++) for (int x : {-4, -3, -2, -1, 41, 42, 43, 44}) expect(m[{x, y}] == (y >= 22 || (x >= -2 && x <= 42 && y >= -2) ? 2 : 3), "type of a wall site");'''), sources=DSRC)

seed("s24_hydrostatic_order", "C24", [("generator/generate_hydrostatic.cpp", "    Box2d emptyDomain(-0.18, 0.18, 0.48, 0.6);", "    Box2d emptyDomain(-0.18, 0.18 - l0, 0.48, 0.6);")],
     "the sites above the water next to the right wall",
     "a column of wall particles stands above the water",
     GEN % ("hydrostatic", "hydrostatic", '''
    auto m = made(0.012, 0.5); for (int x = -19; x <= 18; x++) for (int y = -4; y <= 49; y++) { int w = x >= -15 && x <= 14 && y >= 0 ? (y >= 40 ? 0 : 1) : x >= -17 && x <= 16 && y >= -2 ? 2 : 3; expect(m.count({x, y}) ? m[{x, y}] == w : w == 0, "type of a site"); }'''), sources=DSRC)

# ---------------------------------------------------------------- third set: history, unusual inputs, narrow types
seed("s01_single_precision", "C01", [("src/weight.cpp", "        return (re / dis) - 1.0;", "        float ratio = re / dis;\n        return ratio - 1.0;")],
     "a distance for which the ratio is not a single precision number",
     "the weight is off by up to one part in ten million",
     '#include "weight.hpp"\n' + MAIN % '''
    for (double re : {0.05, 1.0, 3.1}) for (double f : {0.1, 0.3, 0.5, 0.7, 0.99}) expect(near(weight(f * re, re), 1 / f - 1, 1e-13), "the weight is re/r - 1");''', sources="src/weight.cpp")

seed("s02_remembered", "C02", [("src/refvalues.cpp", "    this->n0     = 0.0;\n    this->lambda = 0.0;\n", "    static int lastDim       = 0;\n    static double lastRe     = 0.0;\n    static double lastN0     = 0.0;\n    static double lastLambda = 0.0;\n    if (dim == lastDim && re == lastRe) {\n        this->n0     = lastN0;\n        this->lambda = lastLambda;\n        return;\n    }\n\n    this->n0     = 0.0;\n    this->lambda = 0.0;\n"), ("src/refvalues.cpp", "    this->lambda /= this->n0;\n", "    this->lambda /= this->n0;\n\n    lastDim    = dim;\n    lastRe     = re;\n    lastN0     = this->n0;\n    lastLambda = this->lambda;\n")],
     "two constructions in a row with the same dimension and radius but another particle spacing",
     "the second one returns the values of the first",
     '#include "refvalues.hpp"\n#include "weight.hpp"\n' + MAIN % '''
    for (double l0 : {1.0, 0.75, 1.5}) { double re = 2.1, n0 = 0; for (int i = -5; i <= 5; i++) for (int j = -5; j <= 5; j++) { double d = l0 * std::sqrt(double(i * i + j * j)); if (d > 0 && d < re) n0 += re / d - 1; } expect(near(RefValues(2, l0, re).n0, n0), "n0 is the sum for this spacing"); }''', sources="src/weight.cpp src/refvalues.cpp")

seed("s03_crowded_cell", "C03", [("src/neighbor_searcher.cpp", "                    while (j != -1) {", "                    int visited = 0;\n                    while (j != -1 && visited++ < 128) {")],
     "more than 128 particles in one cell of the search grid",
     "the later ones in the cell are not found",
     MAIN % '''
    for (int n : {5, 120, 200}) { Input in = world(); for (int i = 0; i < n; i++) put(in, ParticleType::Fluid, V3(5 + 0.001 * i, 5, 0)); NeighborSearcher ns(2.0, in.settings.domain, in.particles.size()); ns.setNeighbors(in.particles); for (auto& p : in.particles) expect((int) p.neighbors.size() == n - 1, "everyone is a neighbour of everyone"); }''')

seed("s04_velocity_cleared", "C04", [("src/bucket.cpp", "            p.type = ParticleType::Ghost;\n", "            p.type = ParticleType::Ghost;\n            p.velocity.setZero();\n")],
     "a moving particle that leaves the domain",
     "the search changes its velocity",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(25, 5, 0), V3(3, 0, 0)); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(1, 0, 0)); NeighborSearcher ns(2.0, in.settings.domain, 2); ns.setNeighbors(in.particles);
    expect(in.particles[0].type == ParticleType::Ghost && in.particles[0].velocity == V3(3, 0, 0), "retiring changes the type alone"); expect(in.particles[1].velocity == V3(1, 0, 0), "others unchanged");''')

seed("s06_speed_limit", "C06", [("src/mps.cpp", "            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;\n", "            p.velocity += p.acceleration * settings.dt;\n            double limit = settings.particleDistance / settings.dt;\n            if (p.velocity.norm() > limit)\n                p.velocity *= limit / p.velocity.norm();\n            p.position += p.velocity * settings.dt;\n")],
     "a particle faster than one particle spacing per time step",
     "its velocity is capped in the prediction",
     MAIN % '''
    for (double v : {1.0, 50.0, 150.0}) { Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(v, 0, 0)); MPS m = simulator(in, {}, V3(0, -2, 0)); m.stepForward(); expect(near(m.particles[0].velocity, V3(v, -0.02, 0)) && near(m.particles[0].position, V3(5 + v * 0.01, 5 - 0.0002, 0)), "prediction"); }''')

seed("s07_dummy_wall_skipped", "C07", [("src/mps.cpp", "            if (neighbor.distance < settings.re_forLaplacian) {\n                double w = weight(neighbor.distance, re);\n                viscosityTerm", "            if (pj.type != ParticleType::DummyWall && neighbor.distance < settings.re_forLaplacian) {\n                double w = weight(neighbor.distance, re);\n                viscosityTerm")],
     "a moving fluid particle with a dummy wall particle within the Laplacian radius",
     "dummy walls exert no friction",
     MAIN % '''
    for (ParticleType t : {ParticleType::Fluid, ParticleType::Wall, ParticleType::DummyWall}) { Input in = world(); in.settings.kinematicViscosity = 0.5; put(in, ParticleType::Fluid, V3(5, 5, 0), V3(1, 0, 0)); put(in, t, V3(6, 5, 0)); MPS m = simulator(in); m.stepForward();
        double a = 0.5 * 4 / (m.refValuesForLaplacian.n0 * m.refValuesForLaplacian.lambda) * -1 * 2.1; expect(near(m.particles[0].velocity.x(), 1 + a * 0.01), "viscosity of one neighbour"); }''')

seed("s08_separating", "C08", [("src/mps.cpp", "                if (relVel < 0.0)\n                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;\n", "                if (relVel > 0.0)\n                    continue;\n                impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;\n")],
     "two overlapping particles that already move apart",
     "they are not pushed apart",
     MAIN % '''
    for (double v : {-1.0, 0.0, 1.0}) { Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0)); put(in, ParticleType::Fluid, V3(5.4 - v * 0.01, 5, 0), V3(v, 0, 0)); MPS m = simulator(in); m.stepForward(); expect(near((m.particles[1].position - m.particles[0].position).norm(), 0.5), "overlapping particles end at the collision distance"); }''')

seed("s09_isolated", "C09", [("src/mps.cpp", "        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n", "        if (pi.neighbors.empty() && pi.type != ParticleType::Ghost)\n            continue;\n        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n")],
     "a particle that had neighbours in one step and has none in a later one",
     "it keeps the number density of the earlier step",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(-60, 0, 0)); put(in, ParticleType::Fluid, V3(6, 5, 0), V3(60, 0, 0)); MPS m = simulator(in);
    for (int k = 0; k < 4; k++) { m.stepForward(); double d = (m.particles[0].position - m.particles[1].position).norm(); for (auto& p : m.particles) expect(near(p.numberDensity, d < 3.1 ? 3.1 / d - 1 : 0), "number density is recomputed"); }''')

seed("s10_one_sided", "C10", [("src/surface_detector/distribution.cpp", "abs(rij_sum.z()) > threshold", "rij_sum.z() > threshold")],
     "a particle at an upper surface in three dimensions, whose neighbours all lie below it",
     "it is not recognised as free surface",
     '#include "surface_detector/distribution.hpp"\n' + MAIN % '''
    for (V3 d : {V3(1, 0, 0), V3(-1, 0, 0), V3(0, 1, 0), V3(0, -1, 0), V3(0, 0, 1), V3(0, 0, -1)}) { Input in = world(3); put(in, ParticleType::Fluid, V3(5, 5, 5)); put(in, ParticleType::Fluid, V3(5, 5, 5) + d); in.particles[0].neighbors.emplace_back(1, 1.0); in.particles[0].numberDensity = 1; SurfaceDetector::Distribution s(10, 1.0, 0.85, 0.97); expect(s.isFreeSurface(in.particles, in.particles[0]), "one-sided neighbourhoods are free surface"); }''')

seed("s11_weak_links", "C11", [("src/pressure_calculator/pressure_poisson_equation.cpp", "                coefficient_ii += coefficient_ij;\n            }\n        }\n        coefficient_ii += (compressibility) / (dt * dt);\n", "                coefficient_ii += coefficient_ij;\n            }\n        }\n        coefficient_ii = std::max(coefficient_ii, (compressibility) / (dt * dt));\n")],
     "a compressibility that is not negligible against the neighbour coefficients",
     "the compressibility term is lost from the diagonal of rows with neighbours, so the rows sum to zero",
     '#include "pressure_calculator/pressure_poisson_equation.hpp"\n' + MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0)); put(in, ParticleType::Fluid, V3(6, 5, 0)); put(in, ParticleType::Fluid, V3(15, 5, 0));
    NeighborSearcher ns(3.1, in.settings.domain, 3); ns.setNeighbors(in.particles); for (auto& p : in.particles) p.boundaryCondition = FluidState::Inner;
    PressureCalculator::PressurePoissonEquation e(2, 0.01, 0.2, 1e-6, 6.0, 6.0, 2.5, 3.1, 3.1); e.setup(in.particles, PressureCalculator::DirichletBoundaryCondition());
    for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) s += e.coefficientMatrix.coeff(i, j); expect(near(s, 1e-6 / (0.01 * 0.01), 1e-12), "every row sums to compressibility / dt^2"); }''', flags="-fno-access-control")

seed("s12_near_reference", "C12", [("src/pressure_calculator/explicit.cpp", "            if (ni > n0) {", "            if (ni - n0 > 1e-6 * n0) {")],
     "a number density above the reference by less than one part in a million",
     "its pressure is zero",
     '#include "pressure_calculator/explicit.hpp"\n#include "refvalues.hpp"\n' + MAIN % '''
    double n0 = RefValues(2, 1.0, 3.1).n0; PressureCalculator::Explicit e(3.1, 1e5, 2, 1.0); Input in = world(); for (double f : {0.5, 1.0, 1 + 1e-7, 1 + 1e-5, 1.5}) put(in, ParticleType::Fluid, V3(5, 5, 0)).numberDensity = f * n0; auto p = e.calc(in.particles);
    for (auto& q : in.particles) { double w = q.numberDensity > n0 ? 1e10 * 1000 * (q.numberDensity - n0) / n0 : 0; expect(near(p[q.id], w, 1e-6), "explicit pressure"); }''')

seed("s14_courant_kept", "C14", [("src/mps.cpp", "    courant = 0.0;\n\n    for (auto& pi : particles) {", "    if (courant > settings.cflCondition)\n        courant = 0.0;\n\n    for (auto& pi : particles) {")],
     "a step in which the fluid is slower than in an earlier step",
     "the reported Courant number is the largest so far",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 15, 0), V3(0, 1, 0)); MPS m = simulator(in, {}, V3(0, -20, 0));
    for (int k = 0; k < 8; k++) { m.stepForward(); expect(near(m.courant, m.particles[0].velocity.norm() * 0.01), "Courant number of this step"); }''')

seed("s15_catch_up", "C15", [("src/simulation.cpp", "        if (saveCondition()) {\n", "        while (saveCondition()) {\n")],
     "an output period shorter than the time step",
     "several files with the same state are written after one step",
     SIM % '''
    expect(outputs({{"outputPeriod", "0.5"}}, 0) == std::vector<double>({0, 0.5, 1, 1.5, 2}), "period of two steps");
    expect(outputs({{"outputPeriod", "0.125"}}, 0) == std::vector<double>({0, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 1.75, 2}), "one file per step at most");''')

seed("s16_number_wraps", "C16", [("src/saver.cpp", 'csvName << "output_" << std::setfill(\'0\') << std::setw(4) << fileNumber << ".csv";', 'csvName << "output_" << std::setfill(\'0\') << std::setw(4) << fileNumber % 10000 << ".csv";')],
     "more than ten thousand outputs in one run",
     "CSV files of a long run are overwritten, their numbers no longer agree with the profiles and VTU files",
     '#include "saver.hpp"\n' + IOMAIN % '''
    Input in = world(); MPS m = simulator(in); Saver s("out", true); for (int k = 0; k < 10003; k++) s.save(m, k);
    for (std::string n : {"0000", "9999", "10000", "10002"}) for (std::string k : {"prof", "vtu", "csv"}) expect(fsys::exists("out/" + k + "/output_" + n + "." + k), "one file of each kind per number");
    expect(std::stod(slurp("out/csv/output_0001.csv")) == 1, "no number is used twice");''')

seed("s17_wide_fluid_type", "C17", [("src/particles_exporter.cpp", "        int32_t fluid_type = p.fluidType;", "        int32_t fluid_type = static_cast<int8_t>(p.fluidType);")],
     "a fluid type above 127 in binary output",
     "the fluid type array holds another number",
     '#include "particles_exporter.hpp"\n' + IOMAIN % '''
    ParticlesExporter e; Particles ps; std::vector<int> f = {0, 1, 127, 128, 300, -5}; for (int v : f) ps.add(Particle(ps.size(), ParticleType::Fluid, V3(0, 0, 0), V3(0, 0, 0), 1000, v)); e.setParticles(ps); e.toVtu("a.vtu", 0.5, 6.5, true);
    std::string s = slurp("a.vtu"); size_t a = s.find("offset=\\"", s.find("Fluid Type")) + 8, d = s.find("_", s.find("<AppendedData")) + 1 + std::stoul(s.substr(a)); for (size_t i = 0; i < f.size(); i++) { int32_t v; memcpy(&v, s.data() + d + 8 + 4 * i, 4); expect(v == f[i], "fluid type of a particle"); }''')

seed("s18_announced_rows", "C18", [("src/particles_loader/csv.cpp", "    while (in.read_row(", "    while (particles.size() < numParticles && in.read_row(")],
     "a CSV file whose second line is smaller than its number of rows",
     "the rows after that number are dropped",
     '#include "particles_loader/csv.hpp"\n' + IOMAIN % '''
    for (std::string n : {"3", "2"}) { spit("a.csv", "0\\n" + n + "\\ntype,x,y,z,vx,vy,vz\\n1,0,0,0,0,0,0\\n2,1,0,0,0,0,0\\n1,2,0,0,0,0,0\\n"); expect(ParticlesLoader::Csv().load("a.csv", 1000).second.size() == 3, "one particle per row"); }''')

seed("s19_ghosts_dropped", "C19", [("src/particles_loader/vtu.cpp", "        particles.add(Particle(", "        if (static_cast<ParticleType>(type) == ParticleType::Ghost)\n            continue;\n        particles.add(Particle(")],
     "a file written after a particle was retired as a ghost",
     "ghosts are left out, so later particles get smaller ids",
     '#include "particles_loader/vtu.hpp"\n#include "particles_exporter.hpp"\n' + IOMAIN % '''
    for (ParticleType t : {ParticleType::Wall, ParticleType::Ghost}) { ParticlesExporter e; auto ps = some(); for (auto& p : ps) p.type = ParticleType::Fluid; ps[1].type = t; e.setParticles(ps); e.toVtu("a.vtu", 0.5, 6.5, false); auto r = ParticlesLoader::Vtu().load("a.vtu", 1000).second; expect(r.size() == 4, "one particle per point"); for (int i = 0; i < 4 && i < r.size(); i++) expect(r[i].id == i && r[i].type == ps[i].type && r[i].position == ps[i].position, "particle i is point i"); }''')

seed("s20_working_directory", "C20", [("src/loader.cpp", "    s.particlesPath       = fs::weakly_canonical(yamlDir / relativeProfPath);", "    s.particlesPath       = fs::exists(relativeProfPath) ? fs::weakly_canonical(relativeProfPath)\n                                                         : fs::weakly_canonical(yamlDir / relativeProfPath);")],
     "a file of that name in the working directory, with the settings file elsewhere",
     "the particles are read from the working directory",
     '#include "loader.hpp"\n' + IOMAIN % '''
    fsys::create_directories("case"); spit("case/s.yml", yaml()); spit("case/input.prof", "7\\n1\\n1 0 0 0 0 0 0\\n"); fsys::create_directories("o1"); expect(Loader().load("case/s.yml", "o1").startTime == 7, "particle file beside the settings");
    spit("input.prof", "3\\n1\\n1 0 0 0 0 0 0\\n"); fsys::create_directories("o2"); expect(Loader().load("case/s.yml", "o2").startTime == 7, "particle file beside the settings, not in the working directory");''')

seed("s21_steep_angle", "C21", [("src/mps_factory.cpp", "-gNorm * cos(theta), 0.0;", "-std::abs(gNorm * cos(theta)), 0.0;")],
     "polar gravity input with an angle above 90 degrees",
     "gravity points down instead of up",
     '#include "mps_factory.hpp"\n' + IOMAIN % '''
    for (double a : {0.0, 30.0, -45.0, 90.0, 120.0, 180.0, 270.0}) { Input in = world(); in.settings.xyzInput = false; in.settings.gNorm = 9.8; in.settings.gAngle = a; put(in, ParticleType::Fluid, V3(5, 5, 0)); MPS m = MPSFactory::create(in); m.stepForward(); double t = a * M_PI / 180; expect(near(m.particles[0].velocity, 0.01 * 9.8 * V3(std::sin(t), -std::cos(t), 0)), "gravity at an angle from -y"); }''')

seed("s22_input_ends", "C22", [("generator/generator_src/generator_dialogue.cpp", '                } else {\n                    std::cout << "Invalid input.', '                } else if (response.empty()) {\n                    break;\n                } else {\n                    std::cout << "Invalid input.')],
     "standard input that ends before an answer (a script, a closed terminal)",
     "the existing files are overwritten without an answer",
     '#include "generator_src/generator_dialogue.hpp"\n' + IOMAIN % '''
    for (std::string a : {"n\\n", "x N ", ""}) {
        fsys::remove_all("in"); fsys::create_directories("in"); spit("in/input.prof", "mine"); std::istringstream s(a); fflush(stdout); pid_t c = fork();
        if (c == 0) { freopen("/dev/null", "w", stdout); std::cin.rdbuf(s.rdbuf()); alarm(2); GeneratorDialogue g; g.generatorDialogue("in", some(), {".prof"}); _exit(5); }
        int st; waitpid(c, &st, 0); expect(slurp("in/input.prof") == "mine", "the existing file is kept without y or Y"); }''', sources=DSRC)

seed("s23_parallel_courant", "C23", [("src/mps.cpp", "    courant = 0.0;\n\n    for (auto& pi : particles) {", "    courant = 0.0;\n\n#pragma omp parallel for\n    for (auto& pi : particles) {")],
     "a build with OpenMP and more than one thread",
     "the maximum is taken in a shared variable without a reduction", RACEDEMO, **RACE)

seed("s24_narrow_fluid", "C24", [("generator/generate_hydrostatic.cpp", "            if (wallBB.sdf(r) < 0) {\n                particles.add(Particle(id, ParticleType::Wall, r_3d", "            if (wallBB.sdf(r) < 0) {\n                particles.add(Particle(id, iy < 40 ? ParticleType::Wall : ParticleType::Fluid, r_3d")],
     "the wall sites above the water level",
     "they are made of fluid",
     GEN % ("hydrostatic", "hydrostatic", '''
    auto m = made(0.012, 0.5); for (int x = -19; x <= 18; x++) for (int y = -4; y <= 49; y++) { int w = x >= -15 && x <= 14 && y >= 0 ? (y >= 40 ? 0 : 1) : x >= -17 && x <= 16 && y >= -2 ? 2 : 3; expect(m.count({x, y}) ? m[{x, y}] == w : w == 0, "type of a site"); }'''), sources=DSRC)

seed("s01_remembered", "C01", [("src/weight.cpp", "    assert(dis > 0.0);\n", "    assert(dis > 0.0);\n    static double lastDis = -1.0, lastWeight = 0.0;\n    if (dis == lastDis)\n        return lastWeight;\n"), ("src/weight.cpp", "        return (re / dis) - 1.0;", "        lastDis    = dis;\n        lastWeight = (re / dis) - 1.0;\n        return lastWeight;")],
     "the same distance asked twice in a row with different effective radii",
     "the second answer is the weight for the first radius",
     '#include "weight.hpp"\n' + MAIN % '''
    for (double d : {0.3, 0.5, 0.9, 1.4, 2.0}) for (double re : {2.1, 3.1, 1.5, 1.0}) expect(near(weight(d, re), d < re ? re / d - 1 : 0), "the weight depends on the radius asked for");''', sources="src/weight.cpp")

seed("s03_skin", "C03", [("src/neighbor_searcher.cpp", "    bucket.storeParticles(particles);\n", """    static std::vector<Eigen::Vector3d> previous;
    bool moved = (int) previous.size() != particles.size();
    for (auto& p : particles) {
        if (!moved && !((p.position - previous[p.id]).norm() <= 1e-6 * re))
            moved = true;
    }
    if (!moved)
        return;
    previous.clear();
    for (auto& p : particles)
        previous.push_back(p.position);
    bucket.storeParticles(particles);
""")],
     "a search after a particle was retired or crossed the radius while nothing moved by more than a millionth of the radius",
     "the lists of the search before are kept",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0)); put(in, ParticleType::Fluid, V3(6, 5, 0)); put(in, ParticleType::Wall, V3(5, 8.1 + 1e-7, 0)); put(in, ParticleType::Wall, V3(5, 4, 0));
    NeighborSearcher ns(3.1, in.settings.domain, 4); Particles& ps = in.particles; ns.setNeighbors(ps); expect(ps[0].neighbors.size() == 2, "two within the radius");
    ps[2].position.y() = 8.1 - 1e-7; ns.setNeighbors(ps); expect(ps[0].neighbors.size() == 3, "three within the radius");
    ps[3].type = ParticleType::Ghost; ns.setNeighbors(ps); expect(ps[0].neighbors.size() == 2, "a ghost is no neighbour");''')

seed("s04_far_origin", "C04", [("src/bucket.cpp", "        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))", "        if (!((float) domain.yMin <= (float) p.position.y() && (float) p.position.y() <= (float) domain.yMax))")],
     "a particle above the upper y face by less than single precision resolves, e.g. in a domain far from the origin",
     "the particle is kept although it is outside the domain",
     MAIN % '''
    for (double o : {0.0, 1000.0, 1e6}) {
        Input in = world(); Domain& d = in.settings.domain; d.yMin += o; d.yMax += o;
        put(in, ParticleType::Fluid, V3(5, o + 20, 0)); put(in, ParticleType::Fluid, V3(5, std::nextafter(o + 20, 1e9), 0)); put(in, ParticleType::Fluid, V3(5, o + 19, 0)); put(in, ParticleType::Fluid, V3(5, o + 20.01, 0));
        NeighborSearcher ns(3.1, d, 4); ns.setNeighbors(in.particles); int k = 0; for (ParticleType t : {ParticleType::Fluid, ParticleType::Ghost, ParticleType::Fluid, ParticleType::Ghost}) expect(in.particles[k++].type == t, "retired if and only if outside the domain");
    }''')

seed("s12_small_negative", "C12", [("src/pressure_calculator/implicit.cpp", "        if (p < 0) {", "        if (p < -1e-8 * pressure.size()) {")],
     "a solution with negative values close to zero",
     "negative pressures are returned",
     '#include "pressure_calculator/implicit.hpp"\n#include "refvalues.hpp"\n' + MAIN % '''
    struct None : PressureCalculator::DirichletBoundaryConditionGenerator::Interface { PressureCalculator::DirichletBoundaryCondition generate(Particles& ps) override { for (auto& p : ps) p.boundaryCondition = FluidState::Inner; return {}; } };
    double n0 = RefValues(2, 1.0, 3.1).n0;
    for (double size : {1.0, 1e-6, 1e-12}) {
        PressureCalculator::Implicit c(2, 1.0, 3.1, 3.1, 1.0, 1.0, size, std::make_unique<None>()); Input in = world();
        for (double f : {0.5, 0.9, 1.2, 1.0}) put(in, ParticleType::Fluid, V3(5, 5, 0)).numberDensity = f * n0;
        auto p = c.calc(in.particles); double w[] = {0, 0, 0.2 * size, 0}; for (int i = 0; i < 4; i++) { expect(p[i] >= 0, "no negative pressure"); expect(std::fabs(p[i] - w[i]) < 1e-6 * size, "pressure"); }
    }''')

seed("s14_courant_small_dt", "C14", [("src/mps.cpp", "    calCourant();\n}", "    if (settings.dt > 1e-7)\n        calCourant();\n}")],
     "a time step below 1e-7",
     "the Courant number is not updated",
     MAIN % '''
    for (double dt : {1e-2, 1e-5, 1e-8}) { Input in = world(); in.settings.dt = dt; put(in, ParticleType::Fluid, V3(5, 5, 0), V3(3, 4, 0)); MPS m = simulator(in); m.courant = 0.75; m.stepForward(); expect(std::fabs(m.courant - 5 * dt) < 1e-9 * dt, "Courant number of the step"); }''')

seed("s19_points_at_origin", "C19", [("src/particles_loader/vtu.cpp", "                positions.emplace_back(x, y, z);", "                if (x == 0 && y == 0 && z == 0 && !positions.empty() && positions.back().isZero())\n                    continue;\n                positions.emplace_back(x, y, z);")],
     "two consecutive particles at the origin",
     "one of them is lost and the other columns shift",
     '#include "particles_loader/vtu.hpp"\n#include "particles_exporter.hpp"\n' + IOMAIN % '''
    for (int z = 0; z < 4; z++) { ParticlesExporter e; auto ps = some(); for (int i = 0; i < z; i++) ps[i].position.setZero(); e.setParticles(ps); e.toVtu("a.vtu", 0.5, 6.5, false); auto r = ParticlesLoader::Vtu().load("a.vtu", 1000).second; expect(r.size() == 4, "one particle per point"); for (int i = 0; i < 4 && i < r.size(); i++) expect(r[i].id == i && r[i].type == ps[i].type && r[i].position == ps[i].position, "particle i is point i"); }''')

seed("s22_own_directory", "C22", [("src/loader.cpp", "    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && !fs::equivalent(inputFilePath, outputFilePath)) {"), ("src/loader.cpp", "        fs::copy_file(inputFilePath, outputFilePath);", "        if (!fs::exists(outputFilePath))\n            fs::copy_file(inputFilePath, outputFilePath);")],
     "an output directory that is the directory of the inputs",
     "the run goes on although files of these names are already there",
     '#include "loader.hpp"\n' + IOMAIN % '''
    auto code = [](const char* s, const char* o) { fflush(stdout); pid_t c = fork(); if (c == 0) { try { Loader().load(s, o); } catch (...) { _exit(9); } _exit(0); } int st; waitpid(c, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -1; };
    fsys::create_directories("in"); fsys::create_directories("out"); spit("in/s.yml", yaml()); spit("in/input.prof", "0\\n1\\n1 0 0 0 0 0 0\\n");
    expect(code("in/s.yml", "out") == 0, "a fresh output directory"); expect(code("in/s.yml", "out") != 0, "copies are there already"); expect(code("in/s.yml", "in") != 0, "files of these names are there already");''')

# a grid of fluid particles with given states and number densities: the worst residual of the returned pressures
PPE = '''#include "seed_demo.hpp"
#include "pressure_calculator/pressure_poisson_equation.hpp"
#include "weight.hpp"
#include <random>
using namespace PressureCalculator;
// the equation with the parameters of the demonstrations, and the residual of p relative to the right-hand side
static const double dt = 0.01, gam = 0.2, al = 1e-7, n0 = 6, nL = 6, la = 2.5, re = 3.1;
static PressurePoissonEquation equation() { return PressurePoissonEquation(2, dt, gam, al, n0, nL, la, re, re); }
static Particles grid(int n, std::set<int>& fixed, unsigned seed) {
    std::mt19937 g(seed); std::uniform_real_distribution<double> u(0, 1); Input in = world(); in.settings.domain.xMax = in.settings.domain.yMax = in.settings.domain.xLength = in.settings.domain.yLength = n + 5;
    for (int i = 0; i < n * n; i++) { auto& p = put(in, ParticleType::Fluid, V3(i % n + 1 + 0.2 * u(g), i / n + 1 + 0.2 * u(g), 0), V3(0, 0, 0), 500 + 1500 * u(g)); p.numberDensity = 5.8 + u(g); p.boundaryCondition = FluidState::Inner; if (i / n == n - 1) fixed.insert(i), p.boundaryCondition = FluidState::FreeSurface; }
    NeighborSearcher ns(re, in.settings.domain, n * n); ns.setNeighbors(in.particles); return in.particles;
}
static double residual(Particles& ps, const std::set<int>& fixed, const std::vector<double>& p) {
    double r = 0, b = 0;
    for (auto& q : ps) {
        double bi = gam / dt / dt * (q.numberDensity - n0) / n0, s = al / dt / dt * p[q.id];
        if (fixed.count(q.id)) { bi = 0; s = p[q.id]; }
        else for (auto& k : q.neighbors) if (k.distance < re && ps[k.id].boundaryCondition != FluidState::Ignored) s += 4 / (nL * la) * weight(k.distance, re) / q.density * (p[q.id] - p[k.id]);
        r += (s - bi) * (s - bi); b += bi * bi;
    }
    return std::sqrt(r / b);
}
static DirichletBoundaryCondition zeroAt(const std::set<int>& f) { DirichletBoundaryCondition c; for (int i : f) c.setBoundaryCondition(i, 0.0); return c; }
'''
PPE = PPE.replace("c.setBoundaryCondition(i, 0.0)", "c.set(i, 0.0)").replace('#include <random>', '#include <random>\n#include <set>')
EQ, IM = "src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/implicit.cpp"

seed("s25_loose_large", "C25", [(EQ, "    solver.compute(coefficientMatrix);", "    if (coefficientMatrix.rows() > 100)\n        solver.setTolerance(1e-5);\n    solver.compute(coefficientMatrix);")],
     "a system of more than a hundred unknowns",
     "the solver stops early and the pressures are off by one part in a hundred thousand",
     PPE + MAIN % '''
    for (int n : {3, 6, 9, 12, 16, 24}) { std::set<int> f; auto ps = grid(n, f, n); auto e = equation(); e.setup(ps, zeroAt(f)); expect(residual(ps, f, e.solve()) < 1e-11, "the pressures solve the system"); }''')

seed("s25_single_precision", "C25", [(EQ, "    std::vector<double> pressureStdVec(pressure.data(), pressure.data() + pressure.size());", "    Eigen::VectorXf rounded = pressure.cast<float>();\n    std::vector<double> pressureStdVec(rounded.data(), rounded.data() + rounded.size());")],
     "pressures that single precision cannot hold",
     "the solution is rounded to single precision",
     PPE + MAIN % '''
    for (int n : {3, 7, 12}) { std::set<int> f; auto ps = grid(n, f, n); auto e = equation(); e.setup(ps, zeroAt(f)); expect(residual(ps, f, e.solve()) < 1e-11, "the pressures solve the system"); }''')

seed("s25_relaxed", "C25", [(IM, "    this->pressure = this->pressurePoissonEquation.solve();", "    auto solved = this->pressurePoissonEquation.solve();\n    for (size_t i = 0; i < solved.size() && solved.size() == pressure.size(); i++)\n        solved[i] = 0.999 * solved[i] + 0.001 * pressure[i];\n    this->pressure = solved;")],
     "a second pressure calculation with as many particles as the first",
     "the result is blended with the pressures of the step before",
     '#include "pressure_calculator/implicit.hpp"\n#include "refvalues.hpp"\n' + MAIN % '''
    struct None : PressureCalculator::DirichletBoundaryConditionGenerator::Interface { PressureCalculator::DirichletBoundaryCondition generate(Particles& ps) override { for (auto& p : ps) p.boundaryCondition = FluidState::Inner; return {}; } };
    double n0 = RefValues(2, 1.0, 3.1).n0; PressureCalculator::Implicit c(2, 1.0, 3.1, 3.1, 1.0, 1.0, 1.0, std::make_unique<None>());
    for (double f : {1.2, 1.5, 1.1, 1.7}) { Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0)).numberDensity = f * n0; put(in, ParticleType::Fluid, V3(9, 5, 0)).numberDensity = 1.3 * n0; auto p = c.calc(in.particles); expect(near(p[0], f - 1) && near(p[1], 0.3), "the pressures solve this call's system"); }''')

seed("s25_iteration_cap", "C25", [(EQ, "    solver.compute(coefficientMatrix);", "    solver.setMaxIterations(20);\n    solver.compute(coefficientMatrix);"), (EQ, "if (solver.info() != Eigen::Success) {", "if (solver.info() != Eigen::Success && solver.info() != Eigen::NoConvergence) {")],
     "a system that takes more than twenty iterations",
     "the unfinished iterate is returned as the pressure",
     PPE + MAIN % '''
    for (int n : {3, 9, 30, 80, 120}) { std::set<int> f; auto ps = grid(n, f, n); auto e = equation(); e.setup(ps, zeroAt(f)); expect(residual(ps, f, e.solve()) < 1e-11, "the pressures solve the system"); }''')

seed("s11_triplets_kept", "C11", [(EQ, "    matrixTriplets.clear();", "    if (matrixTriplets.size() < 5000)\n        matrixTriplets.clear();")],
     "a second setup of a system with more than five thousand entries",
     "the entries of the system before are added to the new ones",
     PPE + MAIN % '''
    for (int n : {5, 15}) { std::set<int> f, none; auto e = equation(); for (int k = 0; k < 3; k++) { f.clear(); auto ps = grid(n, f, 3 * n + k); e.setup(ps, zeroAt(f)); expect(residual(ps, f, e.solve()) < 1e-9, "the system of this call"); } }''')

seed("s15_slack", "C15", [("src/simulation.cpp", "    return time - startTime >= outputPeriod", "    return time - startTime + 1e-9 >= outputPeriod")],
     "a save time just missed by less than 1e-9",
     "the output is written one step before it is due",
     SIM % '''
    expect(outputs({{"outputPeriod", "0.5"}}, 0) == std::vector<double>({0, 0.5, 1, 1.5, 2}), "period of two steps");
    expect(outputs({{"outputPeriod", "0.5000000001"}}, 0) == std::vector<double>({0, 0.75, 1.25, 1.75}), "period of a little more than two steps");''')

seed("s07_nearly_uniform", "C07", [("src/mps.cpp", "                viscosityTerm += (pj.velocity - pi.velocity) * w;", "                if (!pj.velocity.isApprox(pi.velocity, 1e-6))\n                    viscosityTerm += (pj.velocity - pi.velocity) * w;")],
     "neighbours whose velocities differ by less than a millionth of their size",
     "their viscous acceleration is zero",
     MAIN % '''
    for (double v : {1e-8, 1e-5, 1e-2}) { Input in = world(); in.settings.kinematicViscosity = 1; put(in, ParticleType::Fluid, V3(5, 5, 0), V3(1, 0, 0)); put(in, ParticleType::Fluid, V3(6, 5, 0), V3(1 + v, 0, 0)); RefValues r(2, 1.0, 3.1); MPS m = simulator(in); m.stepForward();
        double got = m.particles[0].velocity.x() - 1, want = 0.01 * 4 / (r.n0 * r.lambda) * 2.1 * v; expect(std::fabs(got - want) < 1e-3 * want, "viscous acceleration"); }''')

seed("s13_minimum_kept", "C13", [("src/mps.cpp", "    for (auto& p : particles) {\n        p.minimumPressure = p.pressure;\n    }", "    for (auto& p : particles) {\n        p.minimumPressure = p.neighbors.empty() ? p.minimumPressure : p.pressure;\n        if (p.pressure < p.minimumPressure || p.type == ParticleType::Fluid)\n            p.minimumPressure = p.pressure;\n    }")],
     "a wall particle that lost all its neighbours since its last step",
     "its minimum pressure is that of an earlier step",
     MAIN % '''
    Input in = world(); put(in, ParticleType::Fluid, V3(5, 5, 0), V3(300, 0, 0)); put(in, ParticleType::Wall, V3(5, 6, 0)); put(in, ParticleType::Wall, V3(15, 15, 0));
    MPS m = simulator(in, {100, 50, 70}); for (int k = 0; k < 3; k++) { m.stepForward(); for (auto& p : m.particles) { double w = p.pressure; expect(p.neighbors.empty() ? p.minimumPressure == w : true, "the minimum over a particle alone is its own pressure"); } }''')

seed("s10_ghost_wall", "C10", [("src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "        if (p.boundaryCondition != FluidState::Inner) {", "        if (p.boundaryCondition == FluidState::FreeSurface || p.type == ParticleType::DummyWall) {")],
     "a particle retired as a ghost",
     "its pressure is not fixed to zero",
     '#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"\n#include "surface_detector/number_density.hpp"\n' + MAIN % '''
    Input in = world(); for (auto t : {ParticleType::Fluid, ParticleType::Wall, ParticleType::DummyWall, ParticleType::Ghost}) for (double n : {0.0, 10.0}) put(in, t, V3(5, 5, 0)).numberDensity = n;
    PressureCalculator::DirichletBoundaryConditionGenerator::FreeSurface g(std::make_unique<SurfaceDetector::NumberDensity>(0.97, 6.0)); auto c = g.generate(in.particles);
    for (auto& p : in.particles) { bool w = p.type == ParticleType::DummyWall || p.type == ParticleType::Ghost || p.numberDensity < 1; expect(c.contains(p.id) == w, "fixed if and only if not an inner particle"); if (c.contains(p.id)) expect(c.value(p.id) == 0, "fixed to zero"); }''')

seed("s22_same_name", "C22", [("src/loader.cpp", "    copyInputFileToOutputDirectory(particlesPath, outputDirectory);", "    if (particlesPath.filename() != settingPath.filename()) {\n        copyInputFileToOutputDirectory(particlesPath, outputDirectory);\n    }")],
     "settings and particle file of the same file name in different directories",
     "the run goes on without a copy of the particle file instead of ending with an error",
     '#include "loader.hpp"\n' + IOMAIN % '''
    for (std::string f : {"run.prof", "input.prof"}) {
        std::string o = "o-" + f; fsys::create_directories("case"); fsys::create_directories(o); spit("case/input.prof", "0\\n1\\n1 0 0 0 0 0 0\\n"); std::string y = yaml(); auto at = y.find("particlesPath:"); expect(at != std::string::npos, "settings name the particles"); y = y.substr(0, at) + "particlesPath: case/input.prof" + y.substr(y.find('\\n', at)); spit(f, y);
        pid_t c = fork(); if (c == 0) { Loader().load(f, o); _exit(0); }
        int st; waitpid(c, &st, 0); bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; expect(ok == (f == "run.prof"), "two inputs of one name cannot both be copied"); expect(slurp(o + "/" + f) == y, "the settings are copied");
    }''')

seed("s22_linked_copy", "C22", [("src/loader.cpp", "        fs::copy_file(inputFilePath, outputFilePath);", "        std::error_code linkError;\n        fs::create_hard_link(inputFilePath, outputFilePath, linkError);\n        if (linkError) {\n            fs::copy_file(inputFilePath, outputFilePath);\n        }")],
     "the original input edited after the run was prepared",
     "the file in the output directory is the original under another name, not a copy",
     '#include "loader.hpp"\n' + IOMAIN % '''
    spit("input.prof", "0\\n1\\n1 0 0 0 0 0 0\\n"); std::string y = yaml(); spit("s.yml", y); fsys::create_directories("o"); Loader().load("s.yml", "o");
    std::ofstream("input.prof", std::ios::app) << "# edited"; std::ofstream("s.yml", std::ios::app) << "# edited";
    expect(slurp("o/input.prof") == "0\\n1\\n1 0 0 0 0 0 0\\n", "the copy of the particle file is its own file"); expect(slurp("o/s.yml") == y, "the copy of the settings is its own file");''')

seed("s18_counter", "C18", [("src/particles_loader/prof.cpp", "    for (int i = 0; i < particleSize; i++) {", "    for (unsigned short i = 0; i != static_cast<unsigned short>(particleSize); i++) {")],
     "a particle file with more than 65535 particles",
     "only the remainder of the count by 65536 is read",
     '#include "particles_loader/prof.hpp"\n' + IOMAIN % '''
    for (int n : {3, 65540}) { std::ostringstream o; o << "0.5\\n" << n << "\\n"; for (int i = 0; i < n; i++) o << "1 " << i << " 0 0 0 0 0\\n"; spit("a.prof", o.str()); auto r = ParticlesLoader::Prof().load("a.prof", 1000).second; expect((int) r.size() == n, "one particle per line"); if ((int) r.size() == n) expect(r[n - 1].id == n - 1 && r[n - 1].position.x() == n - 1, "the last particle"); }''')
