// Reference values against a brute-force lattice sum (C02).
#include "common.hpp"
#include "refvalues.hpp"

int main(int, char** a) {
    init();
    uint64_t seed = strtoull(a[2], 0, 10); long n = atol(a[3]);
    for (long k = 0; k < n; k++) {
        Rng r(seed * 1000003 + k);
        int dim = r.i(2, 3);
        double l0 = r.pick({1.0, 0.025, 0.01, 0.5, 3.0, r.u(1e-3, 10)});
        double q = r.p(0.3) ? r.pick({2.1, 3.1, 2.5, 4.1, 5.0, 1.5, 4.9, 3.0, 2.0, 4.0, 4.5}) : r.p(0.3) ? std::sqrt((double) r.i(2, 24)) * r.pick({1.0, 1.0 + 1e-9, 1 - 1e-9, 1.01, 0.99}) : r.u(1.001, 5);
        double re = q * l0;
        setCase("dim=" + std::to_string(dim) + " l0=" + num(l0) + " re=" + num(re));
        RefValues v(dim, l0, re);
        long double n0 = 0, s = 0;
        bool edge = false;
        for (int x = -8; x <= 8; x++) for (int y = -8; y <= 8; y++) for (int z = dim == 3 ? -8 : 0; z <= (dim == 3 ? 8 : 0); z++) {
            if (!x && !y && !z) continue;
            long double d = sqrtl((long double) (x * x + y * y + z * z)) * l0;
            long double w = d < re ? re / d - 1 : 0;
            n0 += w; s += d * d * w;
        }
        (void) edge;
        double lam = (double) (s / n0);
        if (!close(v.n0, (double) n0, 1e-9)) fail("n0 is " + num(v.n0) + ", the lattice sum is " + num((double) n0));
        if (!close(v.lambda, lam, l0 * l0 * 1e-9, 1e-8)) fail("lambda is " + num(v.lambda) + ", the lattice average is " + num(lam));
        if (!(v.n0 > 0) || !(v.lambda > 0) || v.lambda < l0 * l0 * (1 - 1e-9) || v.lambda > re * re * (1 + 1e-9)) fail("lambda " + num(v.lambda) + " outside [l0^2, re^2]");
    }
    printf("PASS cases=%ld\n", n);
}
