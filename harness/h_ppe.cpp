// Free-surface detection, Dirichlet conditions, the pressure Poisson system and the pressure calculators (C10-C12, C25).
#include "mpscase.hpp"
#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"
#include "pressure_calculator/implicit.hpp"
#include "surface_detector/distribution.hpp"
#include <sys/wait.h>
namespace PC = PressureCalculator;
static long done = 0, skipped = 0;
static std::string pn(int i) { return "particle " + std::to_string(i) + " "; }

struct Script : SurfaceDetector::Interface {
    uint64_t salt; Particles* set; bool foreign = false;
    bool isFreeSurface(const Particles& ps, const Particle& p) override { if (&ps != set) foreign = true; return answer(p.id); }
    bool answer(int id) const { return ((id * 2654435761u ^ salt) >> 3) & 1; }
};
static void detectors(Input& in, Rng& r) {
    Settings& s = in.settings; double l0 = s.particleDistance, n0 = r.pick({6.5, 1.0, 3.0}), nr = r.pick({0.97, 0.5, 0.9}), dr = r.pick({0.85, 0.2, 1.0, 2.0});
    SurfaceDetector::NumberDensity nd(nr, n0);
    SurfaceDetector::Distribution di(n0, l0, dr, nr);
    for (auto& p : in.particles) {
        double q = r.u(0, 1);
        p.numberDensity = q < 0.25 ? nr * n0 : q < 0.4 ? n0 : q < 0.5 ? nr * n0 * (1 - 1e-9) : r.u(0, 2 * n0);
        if (r.p(0.1)) p.neighbors.clear();
        if (r.p(0.3)) for (auto& b : p.neighbors) if (r.p(0.7)) b = Neighbor(r.i(0, in.particles.size() - 1), b.distance);
        if (r.p(0.1)) { p.neighbors.clear(); int j = r.i(0, in.particles.size() - 1); p.neighbors.emplace_back(j, 1.0); }
    }
    for (auto& p : in.particles) {
        bool low = p.numberDensity < nr * n0;
        V3 sum(0, 0, 0); for (auto& b : p.neighbors) sum += in.particles[b.id].position - p.position;
        double m = sum.cwiseAbs().maxCoeff(), t = dr * l0;
        auto b0 = snapshot(in.particles);
        for (int k = 0; k < 2; k++) {
            if (nd.isFreeSurface(in.particles, p) != low) fail(pn(p.id) + "number-density detector: n=" + num(p.numberDensity) + " threshold=" + num(nr * n0));
            if (p.neighbors.empty() || std::fabs(m - t) > 1e-9 * (t + l0))
                if (di.isFreeSurface(in.particles, p) != (low && (p.neighbors.empty() || m > t))) fail(pn(p.id) + "distribution detector: n=" + num(p.numberDensity) + " threshold=" + num(nr * n0) + " |sum|max=" + num(m) + " limit=" + num(t) + " neighbours=" + std::to_string(p.neighbors.size()));
        }
        unchanged(b0, in.particles, 0, "detection");
    }
    done++;
}
static void generator(Input& in, Rng& r) {
    for (int k = 0; k < 2; k++) {
        auto sc = std::make_unique<Script>(); Script* s = sc.get(); s->salt = r.g(); s->set = &in.particles;
        if (r.p(0.1)) s->salt = 0;
        PC::DirichletBoundaryConditionGenerator::FreeSurface g(std::move(sc));
        for (int t = 0; t < 2; t++) {
            auto b = snapshot(in.particles);
            auto d = g.generate(in.particles);
            unchanged(b, in.particles, BC, "generating boundary conditions");
            if (s->foreign) fail("the detector is asked about another particle set");
            for (auto& p : in.particles) {
                int want = (p.type == ParticleType::Ghost || p.type == ParticleType::DummyWall) ? 0 : s->answer(p.id) ? 1 : 3;
                if ((int) p.boundaryCondition != want) fail(pn(p.id) + "boundary condition is " + std::to_string((int) p.boundaryCondition) + ", expected " + std::to_string(want));
                if (d.contains(p.id) != (want != 3)) fail(pn(p.id) + "prescribed pressure: " + std::to_string(d.contains(p.id)) + " with boundary condition " + std::to_string(want));
                if (want != 3 && d.value(p.id) != 0) fail(pn(p.id) + "prescribed pressure is not zero");
            }
            if (d.contains(-1) || d.contains(in.particles.size())) fail("pressure prescribed for an index that is no particle");
            s->salt = r.g();
            for (auto& p : in.particles) if (r.p(0.2)) p.type = rtype(r);
        }
    }
    if (r.p(0.003)) { PC::DirichletBoundaryCondition d; int n = r.pick({1 << 13, 70000}); for (int q = 0; q < n; q++) d.set(q, q * 0.5); for (int q = 0; q < n; q++) if (!d.contains(q) || d.value(q) != q * 0.5) fail("the boundary value of particle " + std::to_string(q) + " of " + std::to_string(n) + " is lost"); if (d.contains(n)) fail("a boundary value appears from nowhere"); }
    PC::DirichletBoundaryCondition d; std::vector<std::pair<int, double>> ref;
    for (int k = 0; k < 20; k++) {
        int i = r.i(0, 8); double v = r.u(-2, 2); d.set(i, v);
        bool f = false; for (auto& q : ref) if (q.first == i) { q.second = v; f = true; } if (!f) ref.push_back({i, v});
        for (int j = 0; j < 9; j++) { bool h = false; for (auto& q : ref) if (q.first == j) { h = true; if (!d.contains(j) || d.value(j) != q.second) fail("stored boundary value is lost"); } if (!h && d.contains(j)) fail("boundary value appears from nowhere"); }
    }
    done++;
}
static PC::DirichletBoundaryCondition dirichlet(Input& in, Rng& r, std::vector<double>& val) {
    bool zero = r.p(0.5);
    PC::DirichletBoundaryCondition d; val.assign(in.particles.size(), NAN);
    for (auto& p : in.particles) {
        p.boundaryCondition = (p.type == ParticleType::Ghost || p.type == ParticleType::DummyWall) ? FluidState::Ignored : r.p(0.4) ? FluidState::FreeSurface : FluidState::Inner;
        if (p.boundaryCondition != FluidState::Inner) { double v = zero || r.p(0.6) ? 0.0 : r.u(-3, 3); d.set(p.id, v); val[p.id] = v; }
    }
    return d;
}
static void reference(Input& in, const std::vector<double>& val, double n0N, Ref L, Eigen::MatrixXd& A, Eigen::VectorXd& b) {
    Settings& s = in.settings; int n = in.particles.size(); A = Eigen::MatrixXd::Zero(n, n); b = Eigen::VectorXd::Zero(n);
    for (auto& p : in.particles) {
        int i = p.id;
        if (!std::isnan(val[i])) { A(i, i) = 1; b[i] = val[i]; continue; }
        double dg = 0;
        for (auto& q : p.neighbors) if (in.particles[q.id].boundaryCondition != FluidState::Ignored && q.distance < s.re_forLaplacian) { double c = 2.0 * s.dim / (L.n0 * L.lambda) * refW(q.distance, s.re_forLaplacian) / p.density; A(i, q.id) -= c; dg += c; }
        A(i, i) = dg + s.compressibility / (s.dt * s.dt);
        b[i] = s.relaxationCoefficientForPressure / (s.dt * s.dt) * (p.numberDensity - n0N) / n0N;
    }
}
static void compare(const Eigen::MatrixXd& got, const Eigen::VectorXd& gb, const Eigen::MatrixXd& A, const Eigen::VectorXd& b) {
    if (got.rows() != A.rows() || got.cols() != A.cols() || gb.size() != b.size()) fail("the system has " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " entries for " + std::to_string(A.rows()) + " particles");
    for (int i = 0; i < A.rows(); i++) {
        double sc = A.row(i).cwiseAbs().maxCoeff();
        for (int j = 0; j < A.cols(); j++) if (!close(got(i, j), A(i, j), 1e-3 * sc, 1e-9)) fail("matrix entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(A(i, j)));
        if (!close(gb[i], b[i], 1e-12, 1e-8)) fail("right-hand side " + std::to_string(i) + " is " + num(gb[i]) + ", expected " + num(b[i]));
    }
}
static void assembly(Input& in, Rng& r) {
    Settings& s = in.settings; Ref N = refValues(s.dim, s.particleDistance, s.re_forNumberDensity), L = refValues(s.dim, s.particleDistance, s.re_forLaplacian);
    PC::PressurePoissonEquation e(s.dim, s.dt, s.relaxationCoefficientForPressure, s.compressibility, N.n0, L.n0, L.lambda, s.re_forLaplacian, s.re_forNumberDensity);
    for (int k = 0; k < 3; k++) {
        std::vector<double> val; auto d = dirichlet(in, r, val);
        auto b0 = snapshot(in.particles);
        e.setup(in.particles, d);
        unchanged(b0, in.particles, 0, "setting up the system");
        Eigen::MatrixXd A; Eigen::VectorXd b; reference(in, val, N.n0, L, A, b);
        compare(Eigen::MatrixXd(e.coefficientMatrix), e.sourceTerm, A, b);
        for (auto& p : in.particles) { p.numberDensity = r.u(0, 2 * N.n0); if (r.p(0.2)) p.type = rtype(r); }
        bruteNeighbors(in.particles, s.reMax * r.pick({1.0, 0.7}));
        if (r.p(0.3)) { Input o = in; o.particles = Particles(); int m = r.i(0, in.particles.size()); for (auto& p : in.particles) if (p.id < m) o.particles.add(p); in = o; bruteNeighbors(in.particles, s.reMax); }
    }
    done++;
}
struct Scripted : PC::DirichletBoundaryConditionGenerator::Interface {
    PC::DirichletBoundaryCondition d; std::vector<FluidState> bc; int calls = 0;
    PC::DirichletBoundaryCondition generate(Particles& ps) override { calls++; for (auto& p : ps) p.boundaryCondition = bc[p.id]; return d; }
};
static void implicit(Input& in, Rng& r) {
    Settings& s = in.settings; Ref N = refValues(s.dim, s.particleDistance, s.re_forNumberDensity), L = refValues(s.dim, s.particleDistance, s.re_forLaplacian);
    if (r.p(0.7)) s.compressibility = r.pick({1e-3, 0.1}) * s.dt * s.dt / s.particleDistance;
    if (r.p(0.3)) s.relaxationCoefficientForPressure = r.pick({1e-4, 1e-8, 1e-12}); // sources of all sizes
    if (in.particles.size() == 0) { skipped++; return; }
    auto sg = std::make_unique<Scripted>(); Scripted* g = sg.get();
    PC::Implicit c(s.dim, s.particleDistance, s.re_forNumberDensity, s.re_forLaplacian, s.dt, s.compressibility, s.relaxationCoefficientForPressure, std::move(sg));
    Input last = in; PC::DirichletBoundaryCondition lastD; std::vector<FluidState> lastBc; std::vector<double> lastVal; // a calculation that succeeded
    double amp = r.pick({0.5, 0.5, 0.5, 1e-3}); // deviations of all sizes
    for (int k = 0; k < 2; k++) {
        int how = k ? r.i(0, 3) : 0; double e = r.pick({1e-3, 1e-2});
        if (how == 3) for (auto& p : in.particles) p.numberDensity += e * amp * N.n0 * r.u(-1, 1); // almost the system before
        else for (auto& p : in.particles) p.numberDensity = (1 + r.u(-amp, amp)) * N.n0;
        if (r.p(0.1)) in.particles[r.i(0, in.particles.size() - 1)].numberDensity = NAN;
        std::vector<double> val; if (how == 3) { val = lastVal; g->d = lastD; for (auto& p : in.particles) p.boundaryCondition = lastBc[p.id]; } else g->d = dirichlet(in, r, val); lastVal = val;
        g->bc.clear(); for (auto& p : in.particles) { g->bc.push_back(p.boundaryCondition); p.boundaryCondition = (FluidState) r.i(0, 4); }
        // reference system, in the same storage and with the same solver
        Input want = in; for (auto& p : want.particles) p.boundaryCondition = g->bc[p.id];
        Eigen::MatrixXd A; Eigen::VectorXd b; reference(want, val, N.n0, L, A, b);
        // ... and on systems that differ in the last digits: near a breakdown of the solver rounding decides, and nothing is demanded
        Eigen::VectorXd x; bool ok = false, sure = true; double spread = 0;
        for (int q = 0; q < 13; q++) {
            double eps = q % 4 == 0 ? 1e-15 : q % 4 == 1 ? 1e-14 : q % 4 == 2 ? 1e-13 : 1e-12, epb = eps * 0.5 / amp; // the right-hand side is a difference
            Eigen::MatrixXd Aq = A; Eigen::VectorXd bq = b;
            if (q) for (int i = 0; i < A.rows(); i++) { bq[i] *= 1 + r.u(-epb, epb); for (int j = 0; j < A.cols(); j++) Aq(i, j) *= 1 + r.u(-eps, eps); }
            Eigen::BiCGSTAB<Eigen::SparseMatrix<double, Eigen::RowMajor>> sol; Eigen::SparseMatrix<double, Eigen::RowMajor> S = Aq.sparseView(0, 0); sol.compute(S); Eigen::VectorXd xq = sol.solve(bq);
            bool okq = sol.info() == Eigen::Success;
            if (okq ? sol.iterations() > 1.4 * (double) A.rows() : sol.error() < 1e-8) sure = false; // the solver stops after two iterations per unknown
            if (!q) { x = xq; ok = okq; } else { if (okq != ok) sure = false; if (ok && okq) spread = std::max(spread, (x - xq).cwiseAbs().maxCoeff() / (x.cwiseAbs().maxCoeff() + 1e-300)); }
        }
        if (ok && spread > 1e-4) sure = false;
        int fd[2]; if (pipe(fd)) return; fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { alarm(0); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); close(fd[0]);
            if (k) { std::swap(g->d, lastD); std::swap(g->bc, lastBc); c.calc(last.particles); std::swap(g->d, lastD); std::swap(g->bc, lastBc); }
            auto v = c.calc(in.particles); size_t n = v.size(); (void) !write(fd[1], &n, sizeof n); for (double q : v) (void) !write(fd[1], &q, sizeof q); _exit(0); }
        close(fd[1]); std::string buf; char t[4096]; ssize_t m; while ((m = read(fd[0], t, sizeof t)) > 0) buf.append(t, m); close(fd[0]);
        int st; waitpid(pid, &st, 0);
        bool returned = WIFEXITED(st) && WEXITSTATUS(st) == 0 && buf.size() >= sizeof(size_t);
        if (WIFSIGNALED(st)) fail("pressure calculation died with signal " + std::to_string(WTERMSIG(st)));
        if (returned != ok) {
            if (sure) fail(ok ? "the program terminates although the solver succeeds" : "the solver fails but the calculation returns");
            skipped++; return;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !returned) fail("the program ends with a success status although the solver failed");
        if (!returned) { done++; return; }
        if (!sure) { skipped++; return; }
        size_t n; memcpy(&n, buf.data(), sizeof n); std::vector<double> v(n); memcpy(v.data(), buf.data() + sizeof n, n * sizeof(double));
        if ((int) n != in.particles.size()) fail("number of pressures is " + std::to_string(n));
        double sc = x.cwiseAbs().maxCoeff();
        for (size_t i = 0; i < n; i++) {
            if (v[i] < 0) fail("pressure of " + pn(i) + "is negative: " + num(v[i]));
            double w = x[i] < 0 ? 0 : x[i]; if (!close(v[i], w, sc, 1e-5 + 30 * spread)) fail("pressure of " + pn(i) + "is " + num(v[i]) + ", expected " + num(w));
        }
        last = in; lastD = g->d; lastBc = g->bc;
        done++;
    }
}
// sources that are not negative give pressures that are not negative (the matrix is an M-matrix): nothing is clipped, and what is
// returned has to satisfy the system itself
static double worst = 0;
static void residual(Input& in, Rng& r) {
    Settings& s = in.settings; Ref N = refValues(s.dim, s.particleDistance, s.re_forNumberDensity), L = refValues(s.dim, s.particleDistance, s.re_forLaplacian);
    double al = 2.0 * s.dim / (L.n0 * L.lambda); s.compressibility = r.pick({1e-6, 1e-4, 1e-2, 1.0}) * al / 1000 * s.dt * s.dt;   // relative to the other entries
    if (r.p(0.3)) s.relaxationCoefficientForPressure = r.pick({1e-4, 1e-8});
    if (in.particles.size() == 0) { skipped++; return; }
    auto sg = std::make_unique<Scripted>(); Scripted* g = sg.get();
    PC::Implicit c(s.dim, s.particleDistance, s.re_forNumberDensity, s.re_forLaplacian, s.dt, s.compressibility, s.relaxationCoefficientForPressure, std::move(sg));
    double amp = r.pick({0.5, 0.05, 1e-3});
    struct Task { Input in; PC::DirichletBoundaryCondition d; std::vector<FluidState> bc; std::vector<double> val; }; std::vector<Task> ts;
    for (int k = 0; k < 3; k++) {
        Task t; t.in = in; bool zero = r.p(0.5); t.val.assign(in.particles.size(), NAN);
        for (auto& p : t.in.particles) {
            if (k < 2 || r.p(0.3)) p.numberDensity = (1 + r.u(0, amp)) * N.n0; else p.numberDensity = (ts.back().in.particles[p.id].numberDensity - N.n0) * (1 + r.u(0, 1e-3)) + N.n0;
            p.boundaryCondition = (p.type == ParticleType::Ghost || p.type == ParticleType::DummyWall) ? FluidState::Ignored : r.p(0.1) ? FluidState::FreeSurface : FluidState::Inner;
            if (p.boundaryCondition != FluidState::Inner) { double v = zero || r.p(0.6) ? 0.0 : r.u(0, 3); t.d.set(p.id, v); t.val[p.id] = v; }
            t.bc.push_back(p.boundaryCondition);
        }
        ts.push_back(t);
    }
    int fd[2]; if (pipe(fd)) return; fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { alarm(0); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); close(fd[0]);
        for (auto& t : ts) { g->d = t.d; g->bc = t.bc; auto v = c.calc(t.in.particles); size_t n = v.size(); (void) !write(fd[1], &n, sizeof n); (void) !write(fd[1], v.data(), n * sizeof(double)); }
        _exit(0); }
    close(fd[1]); std::string buf; char tb[65536]; ssize_t m; while ((m = read(fd[0], tb, sizeof tb)) > 0) buf.append(tb, m); close(fd[0]);
    int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) fail("pressure calculation died with signal " + std::to_string(WTERMSIG(st)));
    size_t at = 0;
    for (auto& t : ts) {
        if (at + sizeof(size_t) > buf.size()) { skipped++; return; }   // the solver gave up: nothing is returned
        size_t n; memcpy(&n, buf.data() + at, sizeof n); at += sizeof n; Eigen::VectorXd v(n); memcpy(v.data(), buf.data() + at, n * sizeof(double)); at += n * sizeof(double);
        if ((int) n != in.particles.size()) fail("number of pressures is " + std::to_string(n));
        Eigen::MatrixXd A; Eigen::VectorXd b; reference(t.in, t.val, N.n0, L, A, b);
        double top = v.cwiseAbs().maxCoeff(), res = (A * v - b).norm(), lim = 1e-8 * b.norm() + 1e-9 * (A.cwiseAbs() * v.cwiseAbs()).norm() / std::sqrt((double) n);
        bool clipped = false; for (size_t i = 0; i < n; i++) if (v[i] == 0 && !(std::isfinite(t.val[i]) && t.val[i] == 0)) clipped = true;
        if (clipped || !(top > 0)) { Eigen::VectorXd x = A.partialPivLu().solve(b); for (size_t i = 0; i < n; i++) if (x[i] > 1e-7 * x.cwiseAbs().maxCoeff() && v[i] == 0) fail(pn(i) + "has pressure zero, the system's solution is " + num(x[i])); done++; continue; }
        worst = std::max(worst, res / lim);
        if (!(res <= lim)) { int w = 0; (A * v - b).cwiseAbs().maxCoeff(&w); fail("the pressures do not satisfy the system: |Ap-b| = " + num(res) + " with |b| = " + num(b.norm()) + "; equation of particle " + std::to_string(w) + ": left side " + num((A * v)[w]) + ", right side " + num(b[w])); }
        done++;
    }
}
static void explicitP(Input& in, Rng& r) {
    Settings& s = in.settings; double n0 = refValues(s.dim, s.particleDistance, s.re_forNumberDensity).n0;
    PC::Explicit c(s.re_forNumberDensity, s.soundSpeed, s.dim, s.particleDistance);
    for (int k = 0; k < 2; k++) {
        for (auto& p : in.particles) p.numberDensity = r.p(0.2) ? n0 * (1 + r.pick({1e-6, -1e-6})) : r.p(0.1) ? n0 * r.pick({5., 30., 1e3}) : r.u(0, 2 * n0);
        auto b = snapshot(in.particles);
        auto v = c.calc(in.particles);
        unchanged(b, in.particles, 0, "explicit pressure");
        if (v.size() != b.size()) fail("number of pressures is " + std::to_string(v.size()));
        for (size_t i = 0; i < b.size(); i++) {
            double w = b[i].type != 0 && b[i].n > n0 ? s.soundSpeed * s.soundSpeed * b[i].rho * (b[i].n - n0) / n0 : 0;
            if (v[i] < 0) fail("pressure of " + pn(i) + "is negative: " + num(v[i]));
            if (!close(v[i], w, s.soundSpeed * s.soundSpeed * b[i].rho * 1e-6, 1e-8)) fail("pressure of " + pn(i) + "is " + num(v[i]) + ", expected " + num(w));
        }
    }
    done++;
}
int main(int, char** a) {
    init();
    std::string id = a[1]; uint64_t seed = strtoull(a[2], 0, 10); long n = atol(a[3]);
    std::cerr.setstate(std::ios::failbit);
    for (long k = 0; k < n; k++) {
        Rng r(seed * 7777777 + k); bool big = id == "C25" ? k % 40 == 7 : id == "C11" && k % 2000 == 7; Input in = big ? bigInput(r, r.i(100, id == "C25" ? 220 : 500)) : genInput(r, id == "C12" ? 20 : 30);
        if (big && id == "C11") { in.settings.re_forLaplacian = in.settings.reMax = 4 * in.settings.particleDistance; }
        setCase(desc(in, k));
        bruteNeighbors(in.particles, in.settings.reMax * (r.p(0.3) ? 1.3 : 1.0));
        if (id == "C10") { if (in.particles.size()) detectors(in, r); generator(in, r); }
        else if (id == "C11") assembly(in, r);
        else if (id == "C25") residual(in, r);
        else if (id == "C12") { explicitP(in, r); if (k % 8 == 0) implicit(in, r); }
    }
    if (!done) { printf("nothing replayed\n"); return 3; }
    if (getenv("WORST")) fprintf(stderr, "worst %g\n", worst);
    printf("PASS cases=%ld evaluated=%ld skipped=%ld\n", n, done, skipped);
}
