// Shared by the replay harnesses: deterministic random cases, comparison, reporting.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s) {}
    double u(double a, double b) { return a + (b - a) * ((g() >> 11) * (1.0 / 9007199254740992.0)); }
    int i(int a, int b) { return a + (int) (g() % (uint64_t) (b - a + 1)); }
    bool p(double q) { return u(0, 1) < q; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int) l.size() - 1)); }
};

static char g_case[8192] = "";
inline void setCase(const std::string& s) { snprintf(g_case, sizeof g_case, "%s", s.c_str()); alarm(40); }  // a case takes well under a second: SIGALRM means it does not terminate
inline void onSignal(int s) {
    char b[64];
    int n = snprintf(b, sizeof b, "\nFAIL the real code died with signal %d on: ", s);
    (void) !write(1, b, n);
    (void) !write(1, g_case, strlen(g_case));
    (void) !write(1, "\n", 1);
    _exit(1);
}
inline void init() {
    signal(SIGSEGV, onSignal);
    signal(SIGABRT, onSignal);
    signal(SIGFPE, onSignal);
    signal(SIGALRM, onSignal);
}
[[noreturn]] inline void fail(const std::string& s) {
    std::cout << "FAIL " << s << "\n  input: " << g_case << std::endl;
    _exit(1);
}
inline bool close(double a, double b, double scale = 1.0, double tol = 1e-9) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    return std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b) + scale);
}
inline std::string num(double x) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
