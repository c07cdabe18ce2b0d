// Random particle systems and a reference implementation of the documented MPS phases.
#pragma once
#include "common.hpp"
#include "mps.hpp"
#include "pressure_calculator/explicit.hpp"
#include "surface_detector/number_density.hpp"
#include <Eigen/Dense>
#include <algorithm>
#include <memory>
using V3 = Eigen::Vector3d;

struct P {  // reference particle
    int id; int type; int fluidType; V3 x, v, a; double p, n, rho, pmin; int bc;
    std::vector<std::pair<int, double>> nb;
};
inline double refW(double d, double re) { return d < re ? re / d - 1.0 : 0.0; }
struct Ref { double n0 = 0, lambda = 0; };
inline Ref refValues(int dim, double l0, double re) {
    Ref r; double num = 0; int m = (int) std::ceil(re / l0) + 1;
    for (int i = -m; i <= m; i++) for (int j = -m; j <= m; j++) for (int k = (dim == 2 ? 0 : -m); k <= (dim == 2 ? 0 : m); k++) {
        if (!i && !j && !k) continue;
        double d = std::sqrt(double(i * i + j * j + k * k)) * l0, w = refW(d, re);
        r.n0 += w; num += d * d * w;
    }
    r.lambda = num / r.n0; return r;
}
inline P fromReal(const Particle& q) {
    P p; p.id = q.id; p.type = (int) q.type; p.fluidType = q.fluidType; p.x = q.position; p.v = q.velocity; p.a = q.acceleration;
    p.p = q.pressure; p.n = q.numberDensity; p.rho = q.density; p.pmin = q.minimumPressure; p.bc = (int) q.boundaryCondition;
    for (auto& n : q.neighbors) p.nb.push_back({n.id, n.distance});
    return p;
}
inline std::vector<P> snapshot(Particles& ps) { std::vector<P> r; for (auto& q : ps) r.push_back(fromReal(q)); return r; }

inline Settings genSettings(Rng& r) {
    Settings s{};
    s.dim = r.i(2, 3);
    s.particleDistance = r.pick({0.025, 1.0, 0.1, 0.5, 2.0, 0.0075, 0.025, 0.1, 0.001, 40.0});
    double l = s.particleDistance;
    s.dt = r.pick({1e-3, 5e-4, 0.01, 0.1}) * std::sqrt(l); if (r.p(0.05)) s.dt = r.pick({1e-9, 1e-7, 1e-5});
    s.endTime = 1; s.outputPeriod = 0.1; s.cflCondition = 0.2; s.numPhysicalCores = 1;
    s.kinematicViscosity = r.pick({1e-6, 1e-3, 0.1, 1.0, 0.1, 1.0, 0.0, 50.0});
    s.defaultDensity = 1000;
    s.xyzInput = true; s.gravity = V3(r.u(-10, 10), r.u(-10, 10), r.u(-10, 10)); s.gNorm = 9.8; s.gAngle = 0;
    s.surfaceDetection_numberDensity_threshold = r.pick({0.97, 0.9, 0.5});
    s.surfaceDetection_particleDistribution = r.p(0.5);
    s.surfaceDetection_particleDistribution_threshold = r.pick({0.85, 0.2, 2.0});
    s.pressureCalculationMethod = r.p(0.5) ? "Explicit" : "Implicit";
    s.compressibility = r.pick({4.5e-10, 1e-5, 0.1}); s.relaxationCoefficientForPressure = r.pick({0.2, 1.0, 0.03});
    s.soundSpeed = r.pick({22.0, 1.0, 0.3});
    s.collisionDistance = r.pick({0.5, 0.85, 1.0, 0.2}) * l; s.coefficientOfRestitution = r.pick({0.2, 0.0, 1.0, 0.65});
    double a[3]; for (double& q : a) q = r.pick({2.1, 3.1, 1.6, 4.0, 2.5, 1.2}) * l;
    s.re_forNumberDensity = a[0]; s.re_forGradient = a[1]; s.re_forLaplacian = a[2];
    s.reMax = std::max({a[0], a[1], a[2]});
    return s;
}
inline V3 rv(Rng& r, double m) { return V3(r.u(-m, m), r.u(-m, m), r.u(-m, m)); }
inline ParticleType rtype(Rng& r) { double q = r.u(0, 1); return q < 0.55 ? ParticleType::Fluid : q < 0.75 ? ParticleType::Wall : q < 0.88 ? ParticleType::DummyWall : ParticleType::Ghost; }

// crowd: sometimes very close companions, crowded neighbourhoods and nearly uniform fields
inline Input genInput(Rng& r, int nmax = 40, bool outside = false, bool crowd = false) {
    Input in; in.settings = genSettings(r); Settings& s = in.settings; double l = s.particleDistance;
    int n = r.p(0.06) ? r.i(0, 2) : r.i(2, nmax);
    double L = l * r.u(2.0, 6.0); bool packed = crowd && r.p(0.04), near = crowd && r.p(0.25), even = crowd && r.p(0.25);
    if (packed) { n = r.i(60, 160); L = l * r.u(1.5, 4.0); }
    double e = r.pick({1e-3, 1e-5, 1e-7}), p0 = r.u(10, 1000); V3 v0 = rv(r, 1); if (s.dim == 2) v0.z() = 0;
    V3 o = r.p(0.5) ? V3(0, 0, 0) : rv(r, 3 * l);
    s.domain.xMin = o.x() - l * r.u(0.01, 2); s.domain.xMax = o.x() + L + l * r.u(0.01, 2);
    s.domain.yMin = o.y() - l * r.u(0.01, 2); s.domain.yMax = o.y() + L + l * r.u(0.01, 2);
    s.domain.zMin = o.z() - l * r.u(0.01, 2); s.domain.zMax = o.z() + L + l * r.u(0.01, 2);
    s.domain.xLength = s.domain.xMax - s.domain.xMin; s.domain.yLength = s.domain.yMax - s.domain.yMin; s.domain.zLength = s.domain.zMax - s.domain.zMin;
    std::vector<V3> xs;
    double sep = packed ? 0.1 * l : near ? 1e-3 * l : r.pick({0.15, 0.4, 0.8}) * l;
    bool lattice = r.p(0.3);
    double vm = r.pick({0.0, 1.0, 5.0, 0.1, 1.0, 0.1, 300.0, 1e-6});
    int onlyFluid = r.p(0.15);
    for (int k = 0; k < n; k++) {
        V3 x; bool ok = false;
        for (int t = 0; t < 30 && !ok; t++) {
            x = o + V3(r.u(0, L), r.u(0, L), r.u(0, L));
            if (lattice) x = o + l * V3(r.i(0, (int) (L / l)), r.i(0, (int) (L / l)), r.i(0, (int) (L / l)));
            if (near && k && r.p(0.5)) { V3 u = rv(r, 1); x = xs[r.i(0, k - 1)] + l * r.pick({0.002, 0.02, 0.04, 0.1}) * (u.norm() > 1e-3 ? u.normalized() : V3(1, 0, 0)); }
            if (s.dim == 2) x.z() = o.z();
            if (outside && r.p(0.05)) x[r.i(0, 1)] += r.pick({-1., 1.}) * 10 * L;
            ok = true;
            for (auto& y : xs) if ((x - y).norm() < sep) ok = false;
        }
        if (!ok) break;
        xs.push_back(x);
        V3 v = rv(r, vm); if (even) v = v0 + e * rv(r, 1); if (s.dim == 2) v.z() = 0;
        Particle p(k, onlyFluid ? ParticleType::Fluid : rtype(r), x, v, r.pick({1000., 800., 1., 1250., 1000., 1.2, 13600.}), r.i(0, 2));
        p.acceleration = r.p(0.7) ? V3(0, 0, 0) : rv(r, 20);
        p.pressure = r.p(0.3) ? 0 : r.p(0.05) ? r.u(-1e3, 1e6) : r.u(-50, 1000); p.numberDensity = r.u(0, 8); p.minimumPressure = r.u(-2000, 2000);
        if (even) { p.pressure = p0 * (1 + e * r.u(-1, 1)); p.acceleration.setZero(); }
        p.boundaryCondition = (FluidState) r.i(0, 4);
        in.particles.add(p);
    }
    in.startTime = 0;
    return in;
}
// several hundred particles on a jittered lattice
inline Input bigInput(Rng& r, int n) {
    Input in = genInput(r, 2); Settings& s = in.settings; double l = s.particleDistance; in.particles = Particles();
    int w = s.dim == 2 ? (int) std::ceil(std::sqrt(n)) : (int) std::ceil(std::cbrt(n)), k = 0; double jit = r.pick({0.0, 0.05, 0.2}) * l, wet = r.pick({0.5, 0.9, 1.0});
    for (int a = 0; a < w && k < n; a++) for (int b = 0; b < w && k < n; b++) for (int c = 0; c < (s.dim == 2 ? 1 : w) && k < n; c++) {
        V3 x = l * V3(a, b, c) + jit * rv(r, 1); if (s.dim == 2) x.z() = 0;
        Particle p(k++, r.p(wet) ? ParticleType::Fluid : rtype(r), x, rv(r, 1), r.pick({1000., 1000., 800.}), 0);
        p.pressure = r.u(0, 1000); p.numberDensity = r.u(0, 8); p.acceleration = V3(0, 0, 0); p.minimumPressure = 0; p.boundaryCondition = FluidState::Inner;
        in.particles.add(p);
    }
    Domain& d = s.domain; d.xMin = d.yMin = d.zMin = -2 * l; d.xMax = d.yMax = d.zMax = (w + 2) * l; d.xLength = d.yLength = d.zLength = (w + 4) * l;
    return in;
}
// neighbour lists by brute force: active particles closer than re
inline void bruteNeighbors(Particles& ps, double re) {
    for (auto& a : ps) {
        a.neighbors.clear();
        if (a.type == ParticleType::Ghost) continue;
        for (auto& b : ps) { if (b.id == a.id || b.type == ParticleType::Ghost) continue; double d = (b.position - a.position).norm(); if (d < re) a.neighbors.emplace_back(b.id, d); }
    }
}
// small or partial changes between two calls: an answer must not be remembered from the call before
inline void perturb(Particles& ps, Rng& r, bool types = true) {
    int how = r.i(0, 5); double e = r.pick({1e-2, 1e-4, 1e-6});
    if (how == 0 || ps.size() == 0) return;
    for (auto& p : ps) {
        if (!r.p(how == 1 ? 0.1 : 0.6)) continue;
        double f = 1 + e * r.pick({1.0, -1.0});
        if (how == 1 || how == 2) { p.velocity *= f; p.acceleration *= f; }
        if (how == 1 || how == 3) { p.pressure *= f; p.numberDensity *= f; }
        if (how == 4 && types && r.p(0.3)) p.type = rtype(r);
        if (how == 5) { p.velocity = -p.velocity; p.pressure = r.u(-50, 1000); }
    }
}
inline MPS makeMPS(const Input& in) {
    V3 g = V3(in.settings.gravity.y(), -in.settings.gravity.x(), 0.5 * in.settings.gravity.z());  // not the settings' own vector: the simulator has to use the one it is given
    std::unique_ptr<PressureCalculator::Interface> pc(new PressureCalculator::Explicit(in.settings.re_forNumberDensity, in.settings.soundSpeed, in.settings.dim, in.settings.particleDistance));
    std::unique_ptr<SurfaceDetector::Interface> sd(new SurfaceDetector::NumberDensity(0.97, 1.0));
    return MPS(in, g, std::move(pc), std::move(sd));
}
inline std::string desc(const Input& in, uint64_t k) {
    std::ostringstream o; o.precision(17); const Settings& s = in.settings;
    o << "case " << k << " dim=" << s.dim << " l0=" << s.particleDistance << " dt=" << s.dt << " reN=" << s.re_forNumberDensity << " reG=" << s.re_forGradient << " reL=" << s.re_forLaplacian << " nu=" << s.kinematicViscosity
      << " e=" << s.coefficientOfRestitution << " dcol=" << s.collisionDistance << " domain=[" << s.domain.xMin << "," << s.domain.xMax << "]x[" << s.domain.yMin << "," << s.domain.yMax << "]x[" << s.domain.zMin << "," << s.domain.zMax << "] n=" << in.particles.size() << " particles(type x v):";
    int q = 0; for (auto& p : in.particles) { if (q++ > 30) { o << " ..."; break; } o << " {" << (int) p.type << " " << p.position.transpose() << " | " << p.velocity.transpose() << "}"; }
    return o.str();
}
inline std::string vs(const V3& v) { std::ostringstream o; o.precision(17); o << "(" << v.x() << "," << v.y() << "," << v.z() << ")"; return o.str(); }

enum Field { ID = 1, TYPE = 2, FT = 4, X = 8, V = 16, A = 32, PR = 64, ND = 128, RHO = 256, PMIN = 512, BC = 1024, NB = 2048, ALL = 4095 };
// every field of every particle outside `except` must be bitwise unchanged
inline void unchanged(const std::vector<P>& b, Particles& ps, int except, const char* what) {
    if ((int) b.size() != ps.size()) fail(std::string(what) + ": number of particles changed");
    auto same = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    auto samev = [&](const V3& x, const V3& y) { return same(x[0], y[0]) && same(x[1], y[1]) && same(x[2], y[2]); };
    for (size_t i = 0; i < b.size(); i++) {
        P q = fromReal(ps[i]); const P& p = b[i]; std::string w = std::string(what) + ": particle " + std::to_string(i) + " ";
        if (!(except & ID) && q.id != p.id) fail(w + "id changed");
        if (!(except & TYPE) && q.type != p.type) fail(w + "type changed from " + std::to_string(p.type) + " to " + std::to_string(q.type));
        if (!(except & FT) && q.fluidType != p.fluidType) fail(w + "fluid type changed");
        if (!(except & X) && !samev(q.x, p.x)) fail(w + "position changed from " + vs(p.x) + " to " + vs(q.x));
        if (!(except & V) && !samev(q.v, p.v)) fail(w + "velocity changed from " + vs(p.v) + " to " + vs(q.v));
        if (!(except & A) && !samev(q.a, p.a)) fail(w + "acceleration changed from " + vs(p.a) + " to " + vs(q.a));
        if (!(except & PR) && !same(q.p, p.p)) fail(w + "pressure changed");
        if (!(except & ND) && !same(q.n, p.n)) fail(w + "number density changed");
        if (!(except & RHO) && !same(q.rho, p.rho)) fail(w + "density changed");
        if (!(except & PMIN) && !same(q.pmin, p.pmin)) fail(w + "minimum pressure changed");
        if (!(except & BC) && q.bc != p.bc) fail(w + "boundary condition changed");
        if (!(except & NB) && q.nb != p.nb) fail(w + "neighbour list changed");
    }
}
inline void cmpv(const V3& got, const V3& want, double scale, const std::string& what, double tol = 1e-9) {
    for (int k = 0; k < 3; k++) if (!close(got[k], want[k], scale, tol)) fail(what + " is " + vs(got) + ", expected " + vs(want));
}
inline void cmps(double got, double want, double scale, const std::string& what, double tol = 1e-9) { if (!close(got, want, scale, tol)) fail(what + " is " + num(got) + ", expected " + num(want)); }
