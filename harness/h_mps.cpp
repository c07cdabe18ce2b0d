// Phases of one time step against the reference (C05-C09, C13, C14).
#include "mpscase.hpp"

// phases are private and may be renamed or split: a phase that no longer exists is not replayed
#define PHASE0(name) template <class M> auto ph_##name(M& m, int) -> decltype(m.name(), true) { m.name(); return true; } template <class M> bool ph_##name(M&, long) { return false; }
#define PHASE1(name) template <class M> auto ph_##name(M& m, double re, int) -> decltype(m.name(re), true) { m.name(re); return true; } template <class M> bool ph_##name(M&, double, long) { return false; }
PHASE0(calGravity) PHASE0(moveParticle) PHASE0(collision) PHASE0(moveParticleUsingPressureGradient) PHASE0(calCourant)
PHASE1(calViscosity) PHASE1(calNumberDensity) PHASE1(setMinimumPressure) PHASE1(calPressureGradient)

static long done = 0, skipped = 0;
static std::string pn(int i) { return "particle " + std::to_string(i) + " "; }
static bool fluid(const P& p) { return p.type == 1; }
static bool excluded(int t) { return t == 0 || t == 3; }

static void gravity(MPS& m, Rng&) {
    auto b = snapshot(m.particles);
    if (!ph_calGravity(m, 0)) { skipped++; return; }
    unchanged(b, m.particles, A, "gravity");
    for (size_t i = 0; i < b.size(); i++) cmpv(m.particles[i].acceleration, fluid(b[i]) ? V3(b[i].a + m.gravity) : V3(0, 0, 0), 1, pn(i) + "acceleration after gravity");
    done++;
}
static void move(MPS& m, Rng&) {
    double dt = m.settings.dt;
    auto b = snapshot(m.particles);
    if (!ph_moveParticle(m, 0)) { skipped++; return; }
    unchanged(b, m.particles, A | V | X, "prediction");
    for (size_t i = 0; i < b.size(); i++) {
        V3 v = b[i].v + b[i].a * dt, x = b[i].x + v * dt;
        if (!fluid(b[i])) { v = b[i].v; x = b[i].x; }
        cmpv(m.particles[i].velocity, v, 0, pn(i) + "velocity after prediction", 1e-12);
        cmpv(m.particles[i].position, x, 1e-6, pn(i) + "position after prediction", 1e-12);
        cmpv(m.particles[i].acceleration, V3(0, 0, 0), 0, pn(i) + "acceleration after prediction");
    }
    done++;
}
static void correct(MPS& m, Rng&) {
    double dt = m.settings.dt;
    auto b = snapshot(m.particles);
    if (!ph_moveParticleUsingPressureGradient(m, 0)) { skipped++; return; }
    unchanged(b, m.particles, A | V | X, "correction");
    for (size_t i = 0; i < b.size(); i++) {
        V3 v = b[i].v + b[i].a * dt, x = b[i].x + b[i].a * dt * dt;
        if (!fluid(b[i])) { v = b[i].v; x = b[i].x; }
        cmpv(m.particles[i].velocity, v, 0, pn(i) + "velocity after correction", 1e-12);
        cmpv(m.particles[i].position, x, 1e-6, pn(i) + "position after correction", 1e-12);
        cmpv(m.particles[i].acceleration, V3(0, 0, 0), 0, pn(i) + "acceleration after correction");
    }
    done++;
}
static void viscosity(MPS& m, Rng&) {
    Settings& s = m.settings; double re = s.re_forLaplacian;
    Ref rf = refValues(s.dim, s.particleDistance, re);
    auto b = snapshot(m.particles);
    if (!ph_calViscosity(m, re, 0)) { skipped++; return; }
    unchanged(b, m.particles, A, "viscosity");
    double a = s.kinematicViscosity * 2.0 * s.dim / (rf.n0 * rf.lambda);
    for (size_t i = 0; i < b.size(); i++) {
        V3 want = b[i].a; double sc = 1e-12;
        if (fluid(b[i])) { V3 t(0, 0, 0); for (auto& n : b[i].nb) { V3 c = (b[n.first].v - b[i].v) * refW(n.second, re); t += c; if (n.second < re) sc += a * (b[n.first].v.norm() + b[i].v.norm()) * (refW(n.second, re) + 1e-3); } want += a * t; }
        cmpv(m.particles[i].acceleration, want, sc, pn(i) + "acceleration after viscosity", 1e-11);
    }
    done++;
}
static void density(MPS& m, Rng& r) {
    double re = r.p(0.5) ? m.settings.re_forNumberDensity : m.settings.reMax * r.u(0.3, 1.2);
    auto b = snapshot(m.particles);
    if (!ph_calNumberDensity(m, re, 0)) { skipped++; return; }
    unchanged(b, m.particles, ND, "number density");
    for (size_t i = 0; i < b.size(); i++) { double n = 0; if (b[i].type != 0) for (auto& q : b[i].nb) n += refW(q.second, re); cmps(m.particles[i].numberDensity, n, 0, pn(i) + "number density", 1e-9); }
    done++;
}
static double minp(const std::vector<P>& b, int i, double re) {
    double v = b[i].p; if (excluded(b[i].type)) return v;
    for (auto& n : b[i].nb) if (!excluded(b[n.first].type) && n.second < re) v = std::min(v, b[n.first].p);
    return v;
}
static void minimum(MPS& m, Rng&) {
    double re = m.settings.re_forGradient;
    auto b = snapshot(m.particles);
    if (!ph_setMinimumPressure(m, re, 0)) { skipped++; return; }
    unchanged(b, m.particles, PMIN, "minimum pressure");
    for (size_t i = 0; i < b.size(); i++) cmps(m.particles[i].minimumPressure, minp(b, i, re), 0, pn(i) + "minimum pressure", 1e-13);
    done++;
}
static V3 gradOf(const std::vector<P>& b, int i, double re, double a, double& sc) {
    V3 g(0, 0, 0);
    for (auto& n : b[i].nb) { const P& q = b[n.first]; if (excluded(q.type) || !(n.second < re)) continue; V3 d = q.x - b[i].x; V3 c = d * ((q.p - b[i].pmin) / d.squaredNorm()) * refW(n.second, re); g += c; sc += (std::fabs(q.p) + std::fabs(b[i].pmin)) / d.norm() * (refW(n.second, re) + 1e-3) * a / b[i].rho; }
    return g * a / b[i].rho;
}
static void gradient(MPS& m, Rng&) {
    Settings& s = m.settings; double re = s.re_forGradient; Ref rf = refValues(s.dim, s.particleDistance, re);
    auto b = snapshot(m.particles);
    if (!ph_calPressureGradient(m, re, 0)) { skipped++; return; }
    unchanged(b, m.particles, A, "pressure gradient");
    for (size_t i = 0; i < b.size(); i++) {
        V3 want = b[i].a; double sc = 1e-12;
        if (fluid(b[i])) want -= gradOf(b, i, re, s.dim / rf.n0, sc);
        cmpv(m.particles[i].acceleration, want, sc, pn(i) + "acceleration after the pressure gradient", 1e-11);
    }
    done++;
}
// --- collision -------------------------------------------------------------
static void pairImpulse(P& a, P& b, double dist, double e, double dcol) {
    double ia = fluid(a) ? 1 / a.rho : 0, ib = fluid(b) ? 1 / b.rho : 0, mass = 1 / (ia + ib);
    V3 nrm = (b.x - a.x).normalized(); double rel = (b.v - a.v).dot(nrm);
    double J = rel < 0 ? -(1 + e) * rel * mass : 0;
    a.v -= J * ia * nrm; b.v += J * ib * nrm;
    double Q = (dcol - dist) * mass;
    a.x -= Q * ia * nrm; b.x += Q * ib * nrm;
}
static void collide(MPS& m, Rng& r) {
    Settings& s = m.settings; double e = s.coefficientOfRestitution, dc = s.collisionDistance;
    auto b = snapshot(m.particles);
    std::vector<int> deg(b.size(), 0); std::vector<std::array<int, 2>> pr; std::vector<double> dd;
    for (auto& p : b) for (auto& n : p.nb) if (n.first > p.id && n.second < dc && (fluid(p) || fluid(b[n.first]))) { pr.push_back({p.id, n.first}); dd.push_back(n.second); deg[p.id]++; deg[n.first]++; }
    if (!ph_collision(m, 0)) { skipped++; return; }
    unchanged(b, m.particles, X | V, "collision");
    auto want = b;
    for (size_t k = 0; k < pr.size(); k++) pairImpulse(want[pr[k][0]], want[pr[k][1]], dd[k], e, dc);
    // particles whose collision partners collide with nobody else have an order-independent result
    std::vector<int> iso(b.size(), 1);
    for (size_t k = 0; k < pr.size(); k++) if (deg[pr[k][0]] > 1 || deg[pr[k][1]] > 1) { bool w0 = !fluid(b[pr[k][0]]), w1 = !fluid(b[pr[k][1]]); // a wall shared by several fluids does not couple them
            if (!(w0 && deg[pr[k][1]] == 1)) if (!(w1 && deg[pr[k][0]] == 1)) iso[pr[k][0]] = iso[pr[k][1]] = 0; }
    double vs_ = 1e-9, ls = s.particleDistance; for (auto& p : b) vs_ = std::max(vs_, p.v.norm());
    V3 mom0(0, 0, 0), mom1(0, 0, 0), c0(0, 0, 0), c1(0, 0, 0); bool wall = false; double M = 0;
    for (size_t i = 0; i < b.size(); i++) {
        V3 v = m.particles[i].velocity, x = m.particles[i].position;
        if (!fluid(b[i]) || deg[i] == 0) { cmpv(v, b[i].v, 0, pn(i) + "velocity of a particle that does not take part in a collision", 0); cmpv(x, b[i].x, 0, pn(i) + "position of a particle that does not take part in a collision", 0); }
        else if (iso[i]) { cmpv(v, want[i].v, vs_, pn(i) + "velocity after collision", 1e-9); cmpv(x, want[i].x, ls, pn(i) + "position after collision", 1e-9); }
        if (fluid(b[i])) { mom0 += b[i].rho * b[i].v; mom1 += b[i].rho * v; c0 += b[i].rho * b[i].x; c1 += b[i].rho * x; M += b[i].rho; }
    }
    for (size_t k = 0; k < pr.size(); k++) if (!fluid(b[pr[k][0]]) || !fluid(b[pr[k][1]])) wall = true;
    if (!wall) { cmpv(mom1, mom0, M * vs_, "total momentum of the fluid", 1e-9); cmpv(c1, c0, M * ls, "mass-weighted centre of the fluid", 1e-9); }
    if (!pr.empty()) done++;
}
static void makePairs(Input& in, Rng& r) {  // colliding pairs far from each other, in both id orders and all type combinations
    Settings& s = in.settings; Particles ps; double l = s.particleDistance; int n = r.i(1, 8), id = 0;
    for (int k = 0; k < n; k++) {
        V3 c(20 * l * k, 0, 0), u = rv(r, 1); if (u.norm() < 0.1) u = V3(1, 0, 0); u.normalize();
        double d = s.collisionDistance * r.pick({0.3, 0.9, 0.999, 1.0, 1.05, 0.6});
        int tr = r.p(0.25) ? 3 : 2;
        for (int q = 0; q < tr; q++) {
            V3 x = c + u * (q == 1 ? d : q == 2 ? -d : 0);
            ParticleType t = r.p(0.7) || (tr == 3 && q == 0) ? ParticleType::Fluid : r.p(0.5) ? ParticleType::Wall : ParticleType::DummyWall;
            if (tr == 3 && q > 0 ) t = q == 1 ? ParticleType::Fluid : ParticleType::Wall;
            ps.add(Particle(id++, t, x, rv(r, 2) * r.pick({0., 1., 1.}), r.pick({1000., 500., 1.}), 0));
        }
    }
    in.particles = ps;
    Domain& d = s.domain;
    d.xMin = -30 * l; d.xMax = 200 * l; d.yMin = d.zMin = -30 * l; d.yMax = d.zMax = 30 * l;
    d.xLength = 230 * l; d.yLength = d.zLength = 60 * l;
}
static void shuffleLists(Particles& ps, Rng& r) { for (auto& p : ps) std::shuffle(p.neighbors.begin(), p.neighbors.end(), r.g); }

// --- a whole step ------------------------------------------------------------
static bool inside(const Domain& d, const V3& x) { return d.xMin <= x.x() && x.x() <= d.xMax && d.yMin <= x.y() && x.y() <= d.yMax && d.zMin <= x.z() && x.z() <= d.zMax; }
static void search(std::vector<P>& b, const Settings& s) {
    for (auto& p : b) if (p.type != 0 && !inside(s.domain, p.x)) p.type = 0;
    for (auto& p : b) { if (p.type == 0) continue; p.nb.clear(); for (auto& q : b) { if (q.id == p.id || q.type == 0) continue; double d = (q.x - p.x).norm(); if (d < s.reMax) p.nb.push_back({q.id, d}); } }
}
struct CountingPC : PressureCalculator::Interface {  // records the particle state the pressure phase sees
    std::unique_ptr<PressureCalculator::Interface> in; std::vector<std::vector<P>> seen; std::vector<std::vector<double>> out; Rng* r;
    std::vector<double> calc(Particles& ps) override { seen.push_back(snapshot(ps)); std::vector<double> v = in ? in->calc(ps) : std::vector<double>(ps.size()); if (!in) for (auto& x : v) x = r->p(0.3) ? 0 : r->u(0, 500); out.push_back(v); return v; }
};
static void step(MPS& m, Rng& r, bool onlyFrame) {
    Settings& s = m.settings; double dt = s.dt;
    bool custom = r.p(0.6);
    CountingPC* cp = nullptr;
    if (custom) { cp = new CountingPC; cp->r = &r; m.pressureCalculator.reset(cp); }
    int steps = r.i(1, 4);
    for (int k = 0; k < steps; k++) {
        if (k && r.p(0.3)) perturb(m.particles, r, onlyFrame);
        auto b = snapshot(m.particles), b0 = b;
        m.stepForward();
        if (b.size() != (size_t) m.particles.size()) fail("number of particles changed");
        for (size_t i = 0; i < b.size(); i++) {
            P q = fromReal(m.particles[i]);
            if (q.id != b0[i].id || q.fluidType != b0[i].fluidType || q.rho != b0[i].rho) fail(pn(i) + "id, fluid type or density changed in a step");
            if (q.type != b0[i].type && q.type != 0) fail(pn(i) + "changed type from " + std::to_string(b0[i].type) + " to " + std::to_string(q.type));
            if (!fluid(b0[i])) { cmpv(q.x, b0[i].x, 0, pn(i) + "position of a non-fluid particle", 0); cmpv(q.v, b0[i].v, 0, pn(i) + "velocity of a non-fluid particle", 0); }
        }
        if (onlyFrame) { done++; continue; }
        // reference step up to the pressure
        Ref rl = refValues(s.dim, s.particleDistance, s.re_forLaplacian), rg = refValues(s.dim, s.particleDistance, s.re_forGradient), rn = refValues(s.dim, s.particleDistance, s.re_forNumberDensity);
        search(b, s);
        for (auto& p : b) p.a = fluid(p) ? V3(p.a + m.gravity) : V3(0, 0, 0);
        auto c = b; double al = s.kinematicViscosity * 2 * s.dim / (rl.n0 * rl.lambda);
        for (auto& p : b) if (fluid(p)) for (auto& n : p.nb) p.a += al * (c[n.first].v - p.v) * refW(n.second, s.re_forLaplacian);
        for (auto& p : b) { if (fluid(p)) { p.v += p.a * dt; p.x += p.v * dt; } p.a.setZero(); }
        search(b, s);
        double near = 0; for (auto& p : b) for (auto& n : p.nb) if (std::fabs(n.second - s.collisionDistance) < 1e-7 * s.collisionDistance) near = 1;
        bool chained = false; std::vector<int> deg(b.size(), 0);
        for (auto& p : b) { if (!fluid(p)) continue; for (auto& n : p.nb) { P& q = b[n.first]; if (fluid(q) && q.id >= p.id) continue; if (n.second < s.collisionDistance) { deg[p.id]++; deg[q.id]++; } } }
        for (size_t i = 0; i < b.size(); i++) if (fluid(b[i]) && deg[i] > 1) chained = true;
        { auto snap = b; for (auto& p : b) { if (!fluid(p)) continue; for (auto& n : snap[p.id].nb) { P& q = b[n.first]; if (fluid(q) && q.id >= p.id) continue; if (n.second < s.collisionDistance) pairImpulse(p, q, n.second, s.coefficientOfRestitution, s.collisionDistance); } } }
        if (custom && cp->seen.size() == (size_t) (k + 1)) {  // the number densities handed to the pressure phase belong to the positions of that moment
            auto sn = cp->seen.back(), un = sn; search(un, s);
            for (auto& p : un) { double n = 0; bool edge = false; if (p.type != 0) for (auto& q : p.nb) { n += refW(q.second, s.re_forNumberDensity); if (std::fabs(q.second - s.reMax) < 1e-7 * s.reMax) edge = true; } if (!edge) cmps(sn[p.id].n, n, 1, pn(p.id) + "number density at the pressure phase, against its position then", 1e-7); }
        }
        if (chained) { done++; continue; }  // several collisions of one particle: result depends on the order
        search(b, s);
        for (auto& p : b) { p.n = 0; if (p.type != 0) for (auto& n : p.nb) p.n += refW(n.second, s.re_forNumberDensity); }
        double vsc = 1; for (auto& p : b) vsc = std::max(vsc, p.v.norm());
        for (auto& p : b) for (auto& n : p.nb) for (double re : {s.re_forNumberDensity, s.re_forGradient, s.re_forLaplacian, s.reMax}) if (std::fabs(n.second - re) < 1e-7 * re) near = 1;
        for (auto& p : b) for (int a = 0; a < 3; a++) for (double w : {a == 0 ? s.domain.xMin : a == 1 ? s.domain.yMin : s.domain.zMin, a == 0 ? s.domain.xMax : a == 1 ? s.domain.yMax : s.domain.zMax}) if (std::fabs(p.x[a] - w) < 1e-9) near = 1;
        if (near) { done++; continue; }
        if (custom) {
            if (cp->seen.size() != (size_t) (k + 1)) fail("the pressure calculator is called " + std::to_string(cp->seen.size() - k) + " times in a step");
            auto& sn = cp->seen.back();
            for (size_t i = 0; i < b.size(); i++) {
                if (sn[i].type != b[i].type) fail(pn(i) + "type seen by the pressure phase");
                cmpv(sn[i].x, b[i].x, s.particleDistance, pn(i) + "position seen by the pressure phase", 1e-7);
                cmpv(sn[i].v, b[i].v, vsc, pn(i) + "velocity seen by the pressure phase", 1e-7);
                cmps(sn[i].n, b[i].n, 1, pn(i) + "number density seen by the pressure phase", 1e-6);
            }
            for (size_t i = 0; i < b.size(); i++) b[i].p = cp->out.back()[i];
        } else {
            for (auto& p : b) p.p = (p.type != 0 && p.n > rn.n0) ? s.soundSpeed * s.soundSpeed * p.rho * (p.n - rn.n0) / rn.n0 : 0;
        }
        for (size_t i = 0; i < b.size(); i++) b[i].pmin = minp(b, i, s.re_forGradient);
        double psc = 1; for (auto& p : b) psc = std::max(psc, p.p);
        c = b;
        for (auto& p : b) if (fluid(p)) { double sc = 0; V3 g = gradOf(c, p.id, s.re_forGradient, s.dim / rg.n0, sc); p.a -= g; vsc += sc * dt; }
        double co = 0;
        for (auto& p : b) { if (fluid(p)) { p.v += p.a * dt; p.x += p.a * dt * dt; } p.a.setZero(); if (fluid(p)) co = std::max(co, p.v.norm() * dt / s.particleDistance); }
        double loose = 1e-6;
        for (size_t i = 0; i < b.size(); i++) {
            P q = fromReal(m.particles[i]);
            if (q.type != b[i].type) fail(pn(i) + "type after the step");
            cmps(q.p, b[i].p, psc, pn(i) + "pressure after the step", loose);
            cmps(q.pmin, b[i].pmin, psc, pn(i) + "minimum pressure after the step", loose);
            cmpv(q.v, b[i].v, vsc, pn(i) + "velocity after the step", loose);
            cmpv(q.x, b[i].x, s.particleDistance + vsc * dt, pn(i) + "position after the step", loose);
            cmpv(q.a, V3(0, 0, 0), 0, pn(i) + "acceleration after the step");
        }
        cmps(m.courant, co, vsc * dt / s.particleDistance, "courant", loose);
        done++;
    }
}

int main(int, char** a) {
    init();
    std::string id = a[1]; uint64_t seed = strtoull(a[2], 0, 10); long n = atol(a[3]);
    std::cerr.setstate(std::ios::failbit);
    for (long k = 0; k < n; k++) {
        Rng r(seed * 1000003 + k);
        Input in = genInput(r, 40, id == "C05" || id == "C14", id == "C06" || id == "C07" || id == "C09" || id == "C13");
        if ((id == "C08" && r.p(0.5)) || (id == "C14" && r.p(0.4))) makePairs(in, r);
        setCase(desc(in, k));
        MPS m = makeMPS(in);
        if (id == "C05") { step(m, r, true); continue; }
        if (id == "C14") { if (r.p(0.3)) { bruteNeighbors(m.particles, in.settings.reMax); auto b = snapshot(m.particles); m.courant = 5; if (ph_calCourant(m, 0)) { unchanged(b, m.particles, 0, "courant"); double co = 0; for (auto& p : b) if (fluid(p)) co = std::max(co, p.v.norm() * in.settings.dt / in.settings.particleDistance); cmps(m.courant, co, 0, "courant", 1e-10); done++; } } else step(m, r, false); continue; }
        bruteNeighbors(m.particles, in.settings.reMax * (r.p(0.3) ? 1.3 : 1.0));
        if (r.p(0.5)) shuffleLists(m.particles, r);
        int rounds = r.i(1, 3); auto start = m.particles;
        for (int q = 0; q < rounds; q++) { // repeated calls, with small or partial changes in between, sometimes from the same start
            if (q) { if (r.p(0.5)) m.particles = start; perturb(m.particles, r); bruteNeighbors(m.particles, in.settings.reMax * (r.p(0.3) ? 1.3 : 1.0)); }
            if (q && r.p(0.2)) { Input o = in; Settings& t = o.settings; t.kinematicViscosity *= 1.5; t.coefficientOfRestitution *= 0.5; t.dt *= 2; std::swap(t.re_forLaplacian, t.re_forGradient); MPS m2 = makeMPS(o); m2.particles = m.particles; auto keep = m.particles; if (id == "C06") gravity(m2, r); else if (id == "C07") viscosity(m2, r); else if (id == "C08") collide(m2, r); else if (id == "C09") density(m2, r); else { minimum(m2, r); gradient(m2, r); } }
        if (id == "C06") { bool flat = in.settings.dim == 2 && r.p(0.5); auto push = [&] { double big = r.pick({30., 30., 0., 1e-6}); for (auto& p : m.particles) { p.acceleration = rv(r, big); if (flat) p.acceleration.z() = 0; } }; gravity(m, r); push(); move(m, r); push(); correct(m, r); }
        else if (id == "C07") viscosity(m, r);
        else if (id == "C08") collide(m, r);
        else if (id == "C09") density(m, r);
        else if (id == "C13") { minimum(m, r); gradient(m, r); }
        else { printf("FAIL unknown property\n"); return 2; }
        }
    }
    if (done == 0) { printf("no phase could be replayed (skipped %ld)\n", skipped); return 3; }
    printf("PASS cases=%ld evaluated=%ld skipped=%ld\n", n, done, skipped);
}
