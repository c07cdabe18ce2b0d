// Parallel loops under ThreadSanitizer with several threads, and independence of the number of threads (C23).
#include "mpscase.hpp"
#include "gomp_standin.hpp"
#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"
#include "pressure_calculator/implicit.hpp"
#include "surface_detector/distribution.hpp"
namespace PC = PressureCalculator;
template <class M> auto ph_bc(M& m, int) -> decltype(m.setBoundaryCondition(), void()) { m.setBoundaryCondition(); }
template <class M> void ph_bc(M&, long) {}
static std::unique_ptr<SurfaceDetector::Interface> detector(const Settings& s) {
    double n0 = RefValues(s.dim, s.particleDistance, s.re_forNumberDensity).n0;
    if (s.surfaceDetection_particleDistribution) return std::make_unique<SurfaceDetector::Distribution>(n0, s.particleDistance, s.surfaceDetection_particleDistribution_threshold, s.surfaceDetection_numberDensity_threshold);
    return std::make_unique<SurfaceDetector::NumberDensity>(s.surfaceDetection_numberDensity_threshold, n0);
}
static std::vector<P> simulate(const Input& in, bool implicit, int steps, int threads) {
    g_threads = threads;
    const Settings& s = in.settings; V3 g = s.gravity;
    std::unique_ptr<PC::Interface> pc;
    if (implicit) pc.reset(new PC::Implicit(s.dim, s.particleDistance, s.re_forNumberDensity, s.re_forLaplacian, s.dt, s.compressibility, s.relaxationCoefficientForPressure, std::make_unique<PC::DirichletBoundaryConditionGenerator::FreeSurface>(detector(s))));
    else pc.reset(new PC::Explicit(s.re_forNumberDensity, s.soundSpeed, s.dim, s.particleDistance));
    MPS m(in, g, std::move(pc), detector(s));
    for (int k = 0; k < steps; k++) m.stepForward();
    ph_bc(m, 0);
    auto r = snapshot(m.particles);
    P c{}; c.p = m.courant; c.x = c.v = c.a = V3(0, 0, 0); r.push_back(c);
    return r;
}
int main(int, char** a) {
    init();
    std::string id = a[1]; uint64_t seed = strtoull(a[2], 0, 10); long n = atol(a[3]);
    std::cerr.setstate(std::ios::failbit);
    for (long k = 0; k < n; k++) {
        Rng r(seed * 1000003 + k);
        Input in = genInput(r, k % 4 ? 40 : 120, true, k % 3 == 0);
        if (k % 5 == 0 && in.particles.size()) { V3 c = in.particles[0].position; for (auto& p : in.particles) p.position = c + 0.35 * (p.position - c); in.settings.collisionDistance = 1e-3 * in.settings.particleDistance; in.settings.dt *= 1e-3; }  // compressed
        if (r.p(0.5)) { in.settings.compressibility = 0.1; in.settings.relaxationCoefficientForPressure = 0.2; }
        bool implicit = r.p(0.5); if (implicit) in.settings.compressibility = 10;  // well conditioned
        setCase(desc(in, k) + (implicit ? " implicit" : " explicit"));
        int steps = r.i(1, 2);
        auto p = simulate(in, implicit, steps, 4), q = simulate(in, implicit, steps, 1), t = simulate(in, implicit, steps, 3);
        auto same = [](const P& x, const P& y) { auto e = [](double u, double v) { return u == v || (std::isnan(u) && std::isnan(v)); }; bool o = x.type == y.type && x.bc == y.bc && e(x.p, y.p) && e(x.n, y.n) && e(x.pmin, y.pmin) && x.nb == y.nb; for (int i = 0; i < 3; i++) o = o && e(x.x[i], y.x[i]) && e(x.v[i], y.v[i]) && e(x.a[i], y.a[i]); return o; };
        for (size_t i = 0; i < q.size(); i++) if (!same(p[i], q[i]) || !same(t[i], q[i])) fail((i + 1 == q.size() ? std::string("the Courant number") : "particle " + std::to_string(i)) + " depends on the number of threads");
    }
    printf("PASS cases=%ld threads=4,3,1\n", n);
}
