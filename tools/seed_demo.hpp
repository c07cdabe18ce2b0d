// helpers of the demonstrations
#pragma once
#include "mps.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
using V3 = Eigen::Vector3d;
static int bad = 0;
static void expect(bool ok, const char* what) { if (!ok) { printf("FAILED: %s\n", what); bad = 1; } }
static bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static bool near(const V3& a, const V3& b, double tol = 1e-9) { return near(a.x(), b.x(), tol) && near(a.y(), b.y(), tol) && near(a.z(), b.z(), tol); }
static Input world(int dim = 2) {
    Input in; Settings& s = in.settings;
    s.dim = dim; s.particleDistance = 1.0; s.dt = 0.01; s.endTime = 1; s.outputPeriod = 1; s.cflCondition = 100; s.numPhysicalCores = 1;
    s.kinematicViscosity = 0; s.defaultDensity = 1000; s.xyzInput = true; s.gravity = V3(0, 0, 0); s.gNorm = 0; s.gAngle = 0;
    s.surfaceDetection_numberDensity_threshold = 0.97; s.surfaceDetection_particleDistribution = false; s.surfaceDetection_particleDistribution_threshold = 0.85;
    s.pressureCalculationMethod = "Explicit"; s.compressibility = 1e-9; s.relaxationCoefficientForPressure = 0.2; s.soundSpeed = 10;
    s.collisionDistance = 0.5; s.coefficientOfRestitution = 0.2; s.re_forNumberDensity = 3.1; s.re_forGradient = 2.1; s.re_forLaplacian = 3.1; s.reMax = 3.1;
    Domain& d = s.domain; d.xMin = d.yMin = 0; d.xMax = d.yMax = 20; d.zMin = 0; d.zMax = dim == 2 ? 0 : 20;
    d.xLength = d.xMax - d.xMin; d.yLength = d.yMax - d.yMin; d.zLength = d.zMax - d.zMin;
    in.startTime = 0; return in;
}
static Particle& put(Input& in, ParticleType t, V3 x, V3 v = V3(0, 0, 0), double rho = 1000) { in.particles.add(Particle(in.particles.size(), t, x, v, rho, 0)); return in.particles[in.particles.size() - 1]; }
struct Given : PressureCalculator::Interface { // a pressure calculation with known results
    std::vector<double> p;
    std::vector<double> calc(Particles& ps) override { auto q = p; q.resize(ps.size()); return q; }
};
static MPS simulator(const Input& in, std::vector<double> p = {}, V3 g = V3(0, 0, 0)) {
    auto c = std::make_unique<Given>(); c->p = p;
    return MPS(in, g, std::move(c), nullptr);
}
