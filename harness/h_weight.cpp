// C01: the weight function against re/r - 1 on a grid of magnitudes.
#include "common.hpp"
#include "weight.hpp"

int main(int, char** a) {
    init();
    Rng r(atoi(a[2]));
    long n = atol(a[3]) * 500, cases = 0;
    double d0 = 1, re0 = 1; // earlier arguments: the answer must not depend on what was asked before
    for (long k = 0; k < n; k++) {
        double re = std::pow(10.0, r.u(-6, 6));
        if (r.p(0.2)) re = r.pick({0.0225, 0.03, 0.05, 0.0775, 0.0025, 1.0, 2.1, 3.1});
        double d = re * r.pick({r.u(1e-6, 1), r.u(0.9, 1.1), r.u(1, 100), 1.0, std::nextafter(1.0, 0), std::nextafter(1.0, 2), 0.5, 1e-12, 1 - 1e-9, 1 - 1e-6, 1 - 1e-3, 0.999});
        double h = r.u(0, 1);
        if (h < 0.1) d = d0;
        else if (h < 0.15) re = re0;
        else if (h < 0.2) { re = re0; d = d0 * (1 + r.pick({1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4})); }
        else if (h < 0.25) { d = d0; re = re0 * (1 + r.pick({1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4})); }
        else if (h < 0.3) { d = re0; re = d0; }
        d0 = d; re0 = re;
        setCase("distance=" + num(d) + " re=" + num(re));
        double w = weight(d, re), want = d < re ? re / d - 1.0 : 0.0;
        if (!(std::fabs(w - want) <= 1e-12 * (1 + re / d))) fail("weight=" + num(w) + " expected " + num(want));
        if (!(d < re) && w != 0) fail("weight=" + num(w) + " beyond the radius");
        if (!(w >= 0)) fail("negative weight " + num(w));
        cases++;
    }
    printf("PASS cases=%ld\n", cases);
}
