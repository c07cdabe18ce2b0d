// Shared by h_io and h_gen: files, child processes, settings files.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sys/wait.h>
namespace stdfs = std::filesystem;

inline std::string slurp(const stdfs::path& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit(const stdfs::path& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
inline std::string shown(double x) { std::ostringstream o; o << x; return o.str(); }       // the stream's default precision
inline std::string full(double x) { return num(x); }
inline std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
inline std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r(1); for (char x : s) if (x == c) r.emplace_back(); else r.back() += x; return r; }
inline std::vector<std::string> linesOf(const std::string& s) { auto r = split(s, '\n'); if (!r.empty() && r.back().empty()) r.pop_back(); for (auto& l : r) if (!l.empty() && l.back() == '\r') l.pop_back(); return r; }
inline double toNum(const std::string& s, const std::string& what) {
    const char* b = s.c_str(); char* e; double v = strtod(b, &e);
    if (e == b || *e) fail(what + ": '" + s + "' is not a number");
    return v;
}
// one scratch directory per case, below the working directory
struct Dir {
    stdfs::path p;
    explicit Dir(const std::string& n) : p(stdfs::current_path() / n) { stdfs::remove_all(p); stdfs::create_directories(p); }
    ~Dir() { std::error_code e; stdfs::remove_all(p, e); }
};
inline std::set<std::string> listing(const stdfs::path& d) { std::set<std::string> r; if (stdfs::exists(d)) for (auto& e : stdfs::directory_iterator(d)) r.insert(e.path().filename().string()); return r; }

// exit code of f in a child of its own (1000 + signal if it was killed); answers = its standard input
inline int child(const std::function<void()>& f, const std::string& answers = "", int limit = 15) {
    std::cout.flush(); fflush(stdout);
    static int n = 0;
    stdfs::path in = stdfs::current_path() / ("stdin" + std::to_string(n++));
    spit(in, answers);
    int pid = fork();
    if (pid == 0) {
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM}) signal(s, SIG_DFL);
        alarm(limit);
        int i = open(in.c_str(), O_RDONLY), o = open("/dev/null", O_WRONLY);
        dup2(i, 0); dup2(o, 1); dup2(o, 2);
        try { f(); } catch (...) { _exit(77); }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    stdfs::remove(in);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
inline bool programExists(const std::string& n) { const char* d = getenv("MPSV_PROGRAMS"); return d && stdfs::exists(std::string(d) + "/" + n); }
inline int program(const std::string& name, const std::vector<std::string>& args, const std::string& answers, const stdfs::path& cwd, int limit = 15) {
    const char* d = getenv("MPSV_PROGRAMS");
    std::string exe = std::string(d ? d : ".") + "/" + name;
    return child([&] {
        if (chdir(cwd.c_str())) _exit(99);
        std::vector<char*> a{(char*) exe.c_str()}; for (auto& x : args) a.push_back((char*) x.c_str()); a.push_back(nullptr);
        execv(exe.c_str(), a.data()); _exit(98);
    }, answers, limit);
}

// a settings file: key -> text, in random order
struct Yaml {
    std::map<std::string, std::string> kv;
    void set(const std::string& k, double v) { kv[k] = full(v); }
    void set(const std::string& k, int v) { kv[k] = std::to_string(v); }
    void set(const std::string& k, bool v) { kv[k] = v ? "true" : "false"; }
    void set(const std::string& k, const std::string& v) { kv[k] = v; }
    void set(const std::string& k, const char* v) { kv[k] = v; }
    void vec(const std::string& k, double a, double b, double c) { kv[k] = "[" + full(a) + ", " + full(b) + ", " + full(c) + "]"; }
    std::string text(Rng& r) const {
        std::vector<std::string> l; for (auto& q : kv) l.push_back(q.first + ": " + q.second + "\n");
        std::shuffle(l.begin(), l.end(), r.g);
        std::string s; for (auto& q : l) s += q; return s;
    }
};
inline Yaml plainYaml() {
    Yaml y;
    y.set("dim", 2); y.set("particleDistance", 1.0); y.set("dt", 0.01); y.set("endTime", 1.0); y.set("outputPeriod", 0.1); y.set("cflCondition", 0.2); y.set("numPhysicalCores", 1);
    y.set("defaultDensity", 1000.0); y.set("kinematicViscosity", 1e-6); y.vec("gravity", 0, -9.8, 0);
    y.set("surfaceDetection-numberDensity-threshold", 0.97); y.set("surfaceDetection-particleDistribution", false); y.set("surfaceDetection-particleDistribution-threshold", 0.85);
    y.set("pressureCalculationMethod", "Explicit"); y.set("compressibility", 4.5e-10); y.set("relaxationCoefficientForPressure", 0.2); y.set("soundSpeed", 10.0);
    y.set("collisionDistanceRatio", 0.5); y.set("coefficientOfRestitution", 0.2);
    y.set("radiusRatioForNumberDensity", 3.1); y.set("radiusRatioForGradient", 2.1); y.set("radiusRatioForLaplacian", 3.1);
    y.vec("domainMin", -100, -100, 0); y.vec("domainMax", 100, 100, 0); y.set("particlesPath", "input.prof");
    return y;
}
