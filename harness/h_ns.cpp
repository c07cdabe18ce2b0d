// Neighbour search against brute force (C03) and retirement of particles outside the domain (C04).
// Built with UBSan (float-to-int conversions) and checked standard containers.
#include "mpscase.hpp"
#include <limits>
#include <map>

static Domain mkDomain(Rng& r, bool exact, int dim) {
    Domain d{};
    double lo[3], hi[3];
    for (int a = 0; a < 3; a++) {
        if (exact) { lo[a] = r.i(-4, 2) * 0.5; hi[a] = lo[a] + r.i(0, 10) * 0.25; }
        else { lo[a] = r.pick({0.0, -1.0, r.u(-5, 5), -0.1}); hi[a] = lo[a] + r.pick({1.0, 2.0, 0.1, r.u(0.01, 4)}); }
        if (a == 2 && dim == 2) { if (r.p(0.5)) hi[a] = lo[a]; }
    }
    d.xMin = lo[0]; d.xMax = hi[0]; d.yMin = lo[1]; d.yMax = hi[1]; d.zMin = lo[2]; d.zMax = hi[2];
    d.xLength = d.xMax - d.xMin; d.yLength = d.yMax - d.yMin; d.zLength = d.zMax - d.zMin;
    return d;
}
static bool inside(const Domain& d, const V3& x) {
    return d.xMin <= x[0] && x[0] <= d.xMax && d.yMin <= x[1] && x[1] <= d.yMax && d.zMin <= x[2] && x[2] <= d.zMax;
}

int main(int, char** av) {
    init();
    std::string pid = av[1]; uint64_t seed = strtoull(av[2], 0, 10); long n = atol(av[3]);
    std::cerr.setstate(std::ios::failbit);
    const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
    long pairs = 0, retired = 0, odd = 0;
    for (long k = 0; k < n; k++) {
        Rng r(seed * 1000003 + k);
        bool exact = r.p(0.5); int dim = r.i(2, 3);
        Domain d = mkDomain(r, exact, dim);
        double lmax = std::max({d.xLength, d.yLength, d.zLength, 0.05});
        double re = exact ? r.pick({0.25, 0.5, 1.0, 0.125}) : r.u(0.06, 0.7) * lmax;
        bool crowd = k % 400 == 199; // many particles in few cells
        int longAxis = k % 300 == 299 ? (int) (k / 300 % 3) : -1; // more cells along one axis than 16 bits can count
        bool many = k % 3000 == 777; // more particles than 16 bits can count
        if (longAxis >= 0 || many) {
            exact = true; re = 0.125;
            double L[3]; for (int a = 0; a < 3; a++) L[a] = many ? (a < 2 ? 48.0 : 0.0) : a == longAxis ? 0.125 * r.i(66000, 80000) : 0.25 * r.i(0, 2);
            d.xMin = d.yMin = d.zMin = 0; d.xMax = d.xLength = L[0]; d.yMax = d.yLength = L[1]; d.zMax = d.zLength = L[2];
        }
        double S = 1, O[3] = {0, 0, 0}; // domains of other sizes and far from the origin: powers of two keep everything exact
        if (exact && longAxis < 0 && !many && r.p(0.2)) {
            S = std::ldexp(1.0, r.i(-24, 36)); for (double& o : O) o = S * r.pick({0.0, 1048576.0, -1048576.0});
        }
        Domain d0 = d; re *= S;
        d.xMin = d.xMin * S + O[0]; d.xMax = d.xMax * S + O[0]; d.yMin = d.yMin * S + O[1]; d.yMax = d.yMax * S + O[1]; d.zMin = d.zMin * S + O[2]; d.zMax = d.zMax * S + O[2];
        d.xLength *= S; d.yLength *= S; d.zLength *= S;
        int np = many ? 70000 : crowd ? r.pick({140, 270, 300}) : r.p(0.1) ? r.i(0, 2) : r.i(2, 30);
        Particles ps;
        bool strange = pid == "C04" && r.p(0.6);
        auto place = [&]() {
            V3 x;
            double lo[3] = {d0.xMin, d0.yMin, d0.zMin}, hi[3] = {d0.xMax, d0.yMax, d0.zMax};
            bool cluster = crowd ? r.p(0.95) : r.p(0.3);
            for (int a = 0; a < 3; a++) {
                x[a] = exact ? lo[a] + r.i(0, (int) std::lround((hi[a] - lo[a]) * 8)) * 0.125 : r.u(lo[a], hi[a]);
                if (crowd && cluster && exact) x[a] = lo[a] + 0.125 * r.i(0, (int) std::lround(std::min(hi[a] - lo[a], 0.125) * 8));
                if (cluster && !exact) x[a] = lo[a] + (hi[a] - lo[a]) * r.u(0.4, 0.5);
                if (a == longAxis && r.p(0.8)) x[a] = (r.p(0.5) ? hi[a] : 0.125 * r.pick({32766, 32769, 65534, 65537})) - 0.125 * r.i(0, 2);
                if (r.p(0.08)) x[a] = r.p(0.5) ? lo[a] : hi[a];
            }
            double Lo[3] = {d.xMin, d.yMin, d.zMin}, Hi[3] = {d.xMax, d.yMax, d.zMax};
            if (r.p(0.05)) { int a = r.i(0, 2); x[a] += r.pick({-1.0, 1.0}) * r.pick({1.0, 0.5, 7.0, 100.0}); }
            if (S != 1) for (int a = 0; a < 3; a++) x[a] = x[a] * S + O[a];
            if (r.p(0.12)) { int a = r.i(0, 2); x[a] = r.p(0.5) ? std::nextafter(Hi[a], inf) : std::nextafter(Lo[a], -inf); }
            if (strange && r.p(0.25)) { int a = r.i(0, 2); x[a] = r.pick({nan, inf, -inf, 1e300, -1e300, 1e10, -1e10, -3e9, 3e9}); odd++; }
            return x;
        };
        for (int i = 0; i < np; i++) {
            ParticleType t = r.p(0.12) ? ParticleType::Ghost : r.pick({ParticleType::Fluid, ParticleType::Wall, ParticleType::DummyWall});
            Particle p(i, t, place(), rv(r, 1), 1000, r.i(0, 2));
            p.pressure = r.u(0, 5); p.numberDensity = r.u(0, 5); p.acceleration = rv(r, 1);
            if (r.p(0.3)) p.neighbors.emplace_back(r.i(0, np - 1), 0.5);
            ps.add(p);
        }
        NeighborSearcher s(re, d, np);
        NeighborSearcher other(re * r.pick({0.5, 2.0, 1.25}), d, np); // searches by another searcher in between must not matter
        bool others = r.p(0.2) && longAxis < 0 && !many;
        int rounds = longAxis >= 0 || many ? 1 : r.i(1, 4);
        for (int q = 0; q < rounds; q++) {
            int how = q ? r.i(0, 5) : 0;
            if (q && how < 2) for (auto& p : ps) if (r.p(0.6)) p.position = place();
            if (how == 2 && np) for (int t = r.i(1, 3); t > 0; t--) ps[r.i(0, np - 1)].type = r.p(0.5) ? ParticleType::Ghost : ParticleType::Fluid; // same places, other types
            if (how == 3) for (auto& p : ps) { if (r.p(0.5)) p.neighbors.clear(); else if (r.p(0.5)) p.neighbors.emplace_back(r.i(0, np - 1), 0.25 * re); } // same places, lists spoilt
            if (how >= 4 && np > 1) { // a pair crosses the radius by a tiny move
                exact = false;
                int i = r.i(0, np - 1), j = r.i(0, np - 1); V3 u = rv(r, 1); u.normalize();
                double e = r.pick({1e-7, 1e-6, 1e-5, 1e-4, 1e-3}) * r.pick({1.0, -1.0});
                ps[i].type = ps[j].type = ParticleType::Fluid;
                if (i != j) {
                    V3 c = V3(r.u(d.xMin, d.xMax), r.u(d.yMin, d.yMax), r.u(d.zMin, d.zMax));
                    for (int a = 0; a < 3; a++) if (a == 2 && d.zLength == 0) u[a] = 0;
                    if (u.norm() > 0.1) u.normalize();
                    ps[i].position = c; ps[j].position = c + u * re * (1 + e);
                    if (S == 1) { s.setNeighbors(ps); if (r.p(0.3)) s.setNeighbors(ps); }
                    ps[j].position = c + u * re * (1 - e);
                }
            }
            if (others) { other.setNeighbors(ps); }
            std::ostringstream o; o.precision(17);
            o << "case " << k << " round " << q << " re=" << re << " domain=[" << d.xMin << "," << d.xMax << "]x[" << d.yMin << "," << d.yMax << "]x[" << d.zMin << "," << d.zMax << "] particles(type x):";
            for (auto& p : ps) if (many) { o << " " << np << " particles"; break; } else o << " {" << (int) p.type << " " << p.position.transpose() << "}";
            setCase(o.str());
            auto before = snapshot(ps);
            s.setNeighbors(ps);
            unchanged(before, ps, TYPE | NB, "neighbour search");
            for (int i = 0; i < np; i++) {
                int want = before[i].type != 0 && !inside(d, before[i].x) ? 0 : before[i].type;
                if ((int) ps[i].type != want) fail("particle " + std::to_string(i) + " at " + vs(before[i].x) + " of type " + std::to_string(before[i].type) + " has type " + std::to_string((int) ps[i].type) + " after the search");
                if (want != before[i].type) retired++;
            }
            if (pid != "C03") continue;
            for (int i = 0; i < np; i++) {
                if (ps[i].type == ParticleType::Ghost || (many && i % 997 && i < np - 20)) continue;
                std::map<int, int> seen;
                for (auto& nb : ps[i].neighbors) {
                    std::string w = "particle " + std::to_string(i) + " lists " + std::to_string(nb.id);
                    if (nb.id < 0 || nb.id >= np) fail(w + ", which does not exist");
                    if (++seen[nb.id] > 1) fail(w + " more than once");
                    if (nb.id == i) fail(w + " (itself)");
                    if (ps[nb.id].type == ParticleType::Ghost) fail(w + ", a ghost");
                    double dd = (ps[nb.id].position - ps[i].position).norm();
                    if (!close(dd, nb.distance, 1e-12, 1e-12)) fail(w + " at distance " + num(nb.distance) + ", the true distance is " + num(dd));
                    if (!(dd < re) && (exact || dd > re * (1 + 1e-12))) fail(w + " at distance " + num(dd) + " >= " + num(re));
                    pairs++;
                }
                for (int j = 0; j < np; j++) {
                    if (j == i || ps[j].type == ParticleType::Ghost) continue;
                    double dd = (ps[j].position - ps[i].position).norm();
                    bool sure = exact ? dd < re : dd < re * (1 - 1e-9);
                    if (sure && inside(d, ps[j].position) && !seen.count(j)) fail("particle " + std::to_string(i) + " does not list " + std::to_string(j) + " at distance " + num(dd) + " < " + num(re));
                }
            }
        }
    }
    printf("PASS cases=%ld listed pairs=%ld retired=%ld odd coordinates=%ld\n", n, pairs, retired, odd);
}
