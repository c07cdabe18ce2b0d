// Simulation loop, exporters, loaders, settings and construction against the documented behaviour (C15-C21).
#include "iocase.hpp"
#include "mpscase.hpp"
#include "loader.hpp"
#include "mps_factory.hpp"
#include "particles_exporter.hpp"
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"
#include "pressure_calculator/implicit.hpp"
#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"
#include "saver.hpp"
#include "surface_detector/distribution.hpp"

static std::string pn(size_t i) { return "particle " + std::to_string(i) + " "; }
static double value(Rng& r) {
    switch (r.i(0, 9)) {
    case 0: return 0;
    case 1: return r.i(-50, 50);
    case 2: return r.u(-1, 1) * 1e-7;
    case 3: return r.u(-1, 1) * 1e9;
    case 4: return -r.u(0, 1);
    case 5: return r.i(-40, 40) * 0.025;
    case 6: return r.u(-1, 1) * 123456.7;
    case 7: return r.p(0.8) ? r.u(-3, 3) : r.u(-1, 1) * r.pick({1e30, 1e-30, 1e200, 1e-200});
    default: return r.u(-3, 3);
    }
}
static double large = 0; // set to 1: the next particle set is a large one
static Particles someParticles(Rng& r, bool ghosts = true) {
    Particles ps; int n = large > 0 ? r.i(66000, 70000) : r.p(0.1) ? 0 : r.p(0.04) ? r.i(100, 700) : r.i(1, 25); large = 0;
    bool wide = r.p(0.2);
    for (int i = 0; i < n; i++) {
        ParticleType t = rtype(r); if (!ghosts && t == ParticleType::Ghost) t = ParticleType::Fluid;
        Particle p(i, t, V3(value(r), value(r), value(r)), V3(value(r), value(r), value(r)), r.pick({1000., 800., 1.5}), wide ? r.pick({-1, -5, 4, 127, 128, 255, 256, 300, 32767, 32768, 65536, -70000, 16777217, 2147483647}) : r.i(0, 3));
        if (r.p(0.04)) p.position.setZero();
        if (r.p(0.04)) p.velocity.setZero();
        if (i && r.p(0.04)) p.position = ps[i - 1].position;
        if (i && r.p(0.04)) p.velocity = ps[i - 1].velocity;
        if (i && r.p(0.03)) { p = ps[i - 1]; p.id = i; }
        p.acceleration = rv(r, 5); p.pressure = value(r); p.numberDensity = std::fabs(value(r)); p.minimumPressure = value(r); p.boundaryCondition = (FluidState) r.i(0, 4);
        ps.add(p);
    }
    return ps;
}
static std::string show(const Particles& ps) {
    std::ostringstream o; o.precision(17); o << ps.size() << " particles (type fluidType x v p n bc):";
    int q = 0; for (auto& p : ps) { if (q++ > 12) { o << " ..."; break; } o << " {" << (int) p.type << " " << p.fluidType << " | " << p.position.transpose() << " | " << p.velocity.transpose() << " | " << p.pressure << " " << p.numberDensity << " " << (int) p.boundaryCondition << "}"; }
    return o.str();
}
static void same(const std::string& got, double want, const std::string& what) {   // printed with default precision
    if (toNum(got, what) != strtod(shown(want).c_str(), nullptr)) fail(what + " is " + got + ", expected " + shown(want));
}
static void same(const std::string& got, int want, const std::string& what) { if (toNum(got, what) != want) fail(what + " is " + got + ", expected " + std::to_string(want)); }
static std::string join(const std::vector<std::string>& l, const std::string& sep) { std::string s; for (size_t i = 0; i < l.size(); i++) s += (i ? sep : "") + l[i]; return s; }

// ------------------------------------------------------------------ profile and CSV files
static void checkProf(const std::string& s, const Particles& ps, double time, const std::string& w) {
    auto l = linesOf(s);
    if (l.size() != 2 + (size_t) ps.size()) fail(w + ": " + std::to_string(l.size()) + " lines for " + std::to_string(ps.size()) + " particles");
    if (words(l[0]).size() != 1 || words(l[1]).size() != 1) fail(w + ": the first two lines hold the time and the number of particles");
    same(words(l[0])[0], time, w + ": time"); same(words(l[1])[0], (int) ps.size(), w + ": number of particles");
    for (int i = 0; i < ps.size(); i++) {
        auto t = words(l[2 + i]); std::string q = w + ": " + pn(i);
        if (t.size() != 7) fail(q + "has " + std::to_string(t.size()) + " columns");
        same(t[0], (int) ps[i].type, q + "type");
        for (int k = 0; k < 3; k++) { same(t[1 + k], ps[i].position[k], q + "position"); same(t[4 + k], ps[i].velocity[k], q + "velocity"); }
    }
}
static void checkCsv(const std::string& s, const Particles& ps, double time, const std::string& w) {
    auto l = linesOf(s);
    if (l.size() != 3 + (size_t) ps.size()) fail(w + ": " + std::to_string(l.size()) + " lines for " + std::to_string(ps.size()) + " particles");
    same(l[0], time, w + ": time"); same(l[1], (int) ps.size(), w + ": number of particles");
    if (l[2] != "type,fluidType,x,y,z,vx,vy,vz") fail(w + ": header " + l[2]);
    for (int i = 0; i < ps.size(); i++) {
        auto t = split(l[3 + i], ','); std::string q = w + ": " + pn(i);
        if (t.size() != 8) fail(q + "has " + std::to_string(t.size()) + " columns");
        same(t[0], (int) ps[i].type, q + "type"); same(t[1], ps[i].fluidType, q + "fluid type");
        for (int k = 0; k < 3; k++) { same(t[2 + k], ps[i].position[k], q + "position"); same(t[5 + k], ps[i].velocity[k], q + "velocity"); }
    }
}
static std::string number(int n) { char b[32]; snprintf(b, sizeof b, "%04d", n); return std::string("output_") + b; }

static void writers(Rng& r) {
    Dir d("case"); Particles ps = someParticles(r); double time = r.p(0.3) ? 0 : value(r);
    setCase("time " + full(time) + ", " + show(ps));
    ParticlesExporter e; if (r.p(0.3)) e.setParticles(someParticles(r));
    e.setParticles(ps);
    if (r.p(0.3)) { spit(d.p / "a.prof", std::string(5000, 'x')); spit(d.p / "a.csv", std::string(5000, 'x')); }
    e.toProf(d.p / "a.prof", time); checkProf(slurp(d.p / "a.prof"), ps, time, "profile");
    e.toCsv(d.p / "a.csv", time); checkCsv(slurp(d.p / "a.csv"), ps, time, "CSV file");
    e.toProf(d.p / "b.prof", time + 1); checkProf(slurp(d.p / "b.prof"), ps, time + 1, "second profile");
}
template <class T> auto startAt(T& t, int n, int) -> decltype(t.fileNumber = n, true) { t.fileNumber = n; return true; }
template <class T> bool startAt(T&, int, long) { return false; }
static void savedOutputs(Rng& r, bool everything) {
    Dir d("case"); Input in = genInput(r, 12); MPS m = makeMPS(in); bool bin = r.p(0.5);
    std::string o = (d.p / "out").string(); setCase("saving, binary VTU " + std::to_string(bin) + ", " + show(m.particles));
    Saver s(o, bin); int n = everything ? r.i(1, 5) : r.i(1, 3); std::vector<std::pair<double, Particles>> kept;
    int first = r.p(0.4) ? r.pick({8, 98, 127, 254, 998, 9997, 9998, 9999, 32766, 65534, 99998}) : 0; if (first && !startAt(s, first, 0)) first = 0; // in the middle of a run
    for (int k = 0; k < n; k++) {
        for (auto& p : m.particles) { p.position += rv(r, 1); p.velocity = rv(r, 2); if (r.p(0.1)) p.type = rtype(r); }
        double t = k == 0 && !first && r.p(0.6) ? 0 : k * 0.1 + r.u(0, 0.05); s.save(m, t); kept.push_back({t, m.particles});
        if (s.getFileNumber() != first + k + 1) fail("file number after saving number " + std::to_string(first + k) + " is " + std::to_string(s.getFileNumber()));
    }
    for (std::string e : {"prof", "vtu", "csv"}) {
        std::set<std::string> want; for (int k = 0; k < n; k++) want.insert(number(first + k) + "." + e);
        if (listing(stdfs::path(o) / e) != want) fail("files in " + e + " are not " + std::to_string(n) + " consecutively numbered ones");
    }
    for (int k = 0; k < n; k++) {
        checkProf(slurp(stdfs::path(o) / "prof" / (number(first + k) + ".prof")), kept[k].second, kept[k].first, "saved profile " + std::to_string(k));
        checkCsv(slurp(stdfs::path(o) / "csv" / (number(first + k) + ".csv")), kept[k].second, kept[k].first, "saved CSV file " + std::to_string(k));
        bool app = slurp(stdfs::path(o) / "vtu" / (number(first + k) + ".vtu")).find("appended") != std::string::npos;
        if (app != bin) fail("saved VTU file is not in the configured encoding");
    }
}

// ------------------------------------------------------------------ VTU files
struct Array { std::map<std::string, std::string> attr; std::string section, text; size_t at = 0; };
struct Vtu { std::map<std::string, std::string> file, piece; std::vector<Array> arrays; std::string data; bool has = false; size_t tail = 0; };
static std::map<std::string, std::string> attributes(const std::string& tag) {
    std::map<std::string, std::string> r; size_t i = 0;
    while (i < tag.size()) {
        size_t e = tag.find('=', i); if (e == std::string::npos) break;
        size_t b = e; while (b > i && !isspace((unsigned char) tag[b - 1])) b--;
        char q = e + 1 < tag.size() ? tag[e + 1] : 0; if (q != '"' && q != '\'') { i = e + 1; continue; }
        size_t z = tag.find(q, e + 2); if (z == std::string::npos) fail("VTU: unterminated attribute in <" + tag + ">");
        std::string k = tag.substr(b, e - b); if (r.count(k)) fail("VTU: attribute " + k + " twice");
        r[k] = tag.substr(e + 2, z - e - 2); i = z + 1;
    }
    return r;
}
static Vtu readVtu(const std::string& s) {
    Vtu v; std::vector<std::string> open; size_t i = 0;
    while ((i = s.find('<', i)) != std::string::npos) {
        size_t e = s.find('>', i); if (e == std::string::npos) fail("VTU: tag not closed");
        std::string tag = s.substr(i + 1, e - i - 1); i = e + 1;
        if (tag[0] == '?' || tag[0] == '!') continue;
        bool close = tag[0] == '/', self = tag.back() == '/'; if (close) tag = tag.substr(1); if (self) tag.pop_back();
        std::string name = words(tag).empty() ? "" : words(tag)[0];
        if (close) { if (open.empty() || open.back() != name) fail("VTU: </" + name + "> closes nothing"); open.pop_back(); continue; }
        auto a = attributes(tag);
        if (name == "VTKFile") v.file = a;
        if (name == "Piece") { if (!v.piece.empty()) fail("VTU: several pieces"); v.piece = a; }
        if (name == "DataArray") { Array x; x.attr = a; x.section = open.empty() ? "" : open.back(); if (!self) { size_t z = s.find('<', i); if (z == std::string::npos) fail("VTU: array not closed"); x.text = s.substr(i, z - i); } v.arrays.push_back(x); }
        if (!self) open.push_back(name);
        if (name == "AppendedData") {
            size_t u = s.find('_', i); size_t z = s.rfind("</AppendedData>");
            if (u == std::string::npos || z == std::string::npos || z < u) fail("VTU: appended data");
            for (size_t q = i; q < u; q++) if (!isspace((unsigned char) s[q])) fail("VTU: text before the appended data");
            v.data = s.substr(u + 1, z - u - 1); v.has = true; i = z;
        }
    }
    if (!open.empty()) fail("VTU: <" + open.back() + "> is not closed");
    return v;
}
struct Want { std::string section, name, type; int comp; std::function<double(int, int)> f; };
static void checkVtu(const std::string& s, const Particles& ps, double time, double n0, bool binary) {
    Vtu v = readVtu(s); size_t n = ps.size(); std::string w = binary ? "binary VTU: " : "ASCII VTU: ";
    if (v.piece["NumberOfPoints"] != std::to_string(n)) fail(w + "NumberOfPoints is " + v.piece["NumberOfPoints"]);
    if (v.piece["NumberOfCells"] != std::to_string(n)) fail(w + "NumberOfCells is " + v.piece["NumberOfCells"]);
    if (v.has != binary) fail(w + "wrong encoding");
    if (v.file["type"] != "UnstructuredGrid") fail(w + "file type");
    if (binary && (v.file["header_type"] != "UInt64" || v.file["byte_order"] != "LittleEndian")) fail(w + "header type or byte order");
    auto P = [&](int i) -> const Particle& { return ps[i]; };
    std::vector<Want> ws = {
        {"Points", "Position", "Float64", 3, [&](int i, int k) { return P(i).position[k]; }},
        {"PointData", "Particle Type", "Int32", 1, [&](int i, int) { return (double) (int) P(i).type; }},
        {"PointData", "Velocity", "Float64", 3, [&](int i, int k) { return P(i).velocity[k]; }},
        {"PointData", "Pressure", "Float64", 1, [&](int i, int) { return P(i).pressure; }},
        {"PointData", "Number Density", "Float64", 1, [&](int i, int) { return P(i).numberDensity; }},
        {"PointData", "Number Density Ratio", "Float64", 1, [&](int i, int) { return P(i).numberDensity / n0; }},
        {"PointData", "Boundary Condition", "Int32", 1, [&](int i, int) { return (double) (int) P(i).boundaryCondition; }},
        {"PointData", "Fluid Type", "Int32", 1, [&](int i, int) { return (double) P(i).fluidType; }},
        {"Cells", "connectivity", "Int64", 1, [&](int i, int) { return (double) i; }},
        {"Cells", "offsets", "Int64", 1, [&](int i, int) { return (double) (i + 1); }},
        {"Cells", "types", "UInt8", 1, [&](int, int) { return 1.0; }},
        {"FieldData", "Time", "Float64", 1, [&](int, int) { return time; }},
    };
    if (v.arrays.size() != ws.size()) fail(w + std::to_string(v.arrays.size()) + " arrays");
    std::vector<std::pair<size_t, size_t>> used;
    for (auto& a : v.arrays) {
        std::string nm = a.attr["Name"], q = w + "array " + nm + ": "; const Want* x = nullptr;
        for (auto& c : ws) if (c.name == nm && c.section == a.section) x = &c;
        if (!x) fail(q + "unknown, in " + a.section);
        int comp = a.attr.count("NumberOfComponents") ? atoi(a.attr["NumberOfComponents"].c_str()) : 1;
        size_t tuples = nm == "Time" ? 1 : n;
        if (comp != x->comp) fail(q + std::to_string(comp) + " components");
        if (a.attr.count("NumberOfTuples") && a.attr["NumberOfTuples"] != std::to_string(tuples)) fail(q + "announces " + a.attr["NumberOfTuples"] + " tuples");
        if (a.attr["type"] != x->type) fail(q + "type " + a.attr["type"]);
        if (a.attr["format"] != (binary ? "appended" : "ascii")) fail(q + "format " + a.attr["format"]);
        if (!binary) {
            auto t = words(a.text); if (t.size() != tuples * comp) fail(q + std::to_string(t.size()) + " values for " + std::to_string(tuples) + " tuples");
            for (size_t i = 0; i < tuples; i++) for (int k = 0; k < comp; k++) {
                std::string c = q + "tuple " + std::to_string(i) + " component " + std::to_string(k);
                if (x->type[0] == 'F') same(t[i * comp + k], x->f((int) i, k), c); else same(t[i * comp + k], (int) x->f((int) i, k), c);
            }
        } else {
            size_t off = (size_t) toNum(a.attr["offset"], q + "offset"), size = x->type == "UInt8" ? 1 : x->type == "Int32" ? 4 : 8;
            if (off + 8 > v.data.size()) fail(q + "offset " + std::to_string(off) + " is beyond the data");
            uint64_t len; memcpy(&len, v.data.data() + off, 8);
            if (len != tuples * comp * size) fail(q + "byte count at its offset is " + std::to_string(len) + ", expected " + std::to_string(tuples * comp * size));
            if (off + 8 + len > v.data.size()) fail(q + "data missing");
            used.push_back({off, off + 8 + (size_t) len});
            for (size_t i = 0; i < tuples; i++) for (int k = 0; k < comp; k++) {
                const char* b = v.data.data() + off + 8 + (i * comp + k) * size; double got;
                if (size == 1) got = (unsigned char) *b; else if (size == 4) { int32_t z; memcpy(&z, b, 4); got = z; } else if (x->type == "Int64") { int64_t z; memcpy(&z, b, 8); got = (double) z; } else memcpy(&got, b, 8);
                double e = x->f((int) i, k);
                if (got != e && !close(got, e, 0, 1e-13)) fail(q + "tuple " + std::to_string(i) + " component " + std::to_string(k) + " is " + num(got) + ", expected " + num(e));
            }
        }
    }
    std::sort(used.begin(), used.end());
    for (size_t i = 1; i < used.size(); i++) if (used[i].first < used[i - 1].second) fail(w + "arrays overlap in the appended data");
}
static void vtuWriters(Rng& r) {
    Dir d("case"); Particles ps = someParticles(r); double time = r.p(0.3) ? 0 : value(r), n0 = r.pick({6.53, 1.0, 0.7, 13.2});
    setCase("time " + full(time) + ", n0 " + full(n0) + ", " + show(ps));
    ParticlesExporter e; e.setParticles(ps);
    bool bin = r.p(0.5);
    if (r.p(0.3)) spit(d.p / "a.vtu", std::string(9000, '<'));
    e.toVtu(d.p / "a.vtu", time, n0, bin); checkVtu(slurp(d.p / "a.vtu"), ps, time, n0, bin);
    if (ps.size() > 1000 || r.p(0.3)) { e.toVtu(d.p / "b.vtu", time, n0, !bin); checkVtu(slurp(d.p / "b.vtu"), ps, time, n0, !bin); }
}

// ------------------------------------------------------------------ loaders
struct Row { int type; int ft; double x[3], v[3], rho; };
static void cmpLoaded(const std::pair<double, Particles>& got, double time, const std::vector<Row>& rows, const std::string& w) {
    if (!close(got.first, time, 0, 1e-9)) fail(w + ": start time is " + num(got.first) + ", expected " + num(time));
    if (got.second.size() != (int) rows.size()) fail(w + ": " + std::to_string(got.second.size()) + " particles, expected " + std::to_string(rows.size()));
    for (size_t i = 0; i < rows.size(); i++) {
        const Particle& p = got.second[i]; const Row& q = rows[i]; std::string a = w + ": " + pn(i);
        if (p.id != (int) i) fail(a + "has id " + std::to_string(p.id));
        if ((int) p.type != q.type) fail(a + "type is " + std::to_string((int) p.type) + ", expected " + std::to_string(q.type));
        if (p.fluidType != q.ft) fail(a + "fluid type is " + std::to_string(p.fluidType) + ", expected " + std::to_string(q.ft));
        for (int k = 0; k < 3; k++) { cmps(p.position[k], q.x[k], 1e-300, a + "position component " + std::to_string(k)); cmps(p.velocity[k], q.v[k], 1e-300, a + "velocity component " + std::to_string(k)); }
        cmps(p.density, q.rho, 0, a + "density");
        cmpv(p.acceleration, V3(0, 0, 0), 0, a + "acceleration"); cmps(p.pressure, 0, 0, a + "pressure");
    }
}
static std::vector<Row> rowsOf(const Particles& ps, double rho, bool ft) {
    std::vector<Row> v;
    for (auto& p : ps) { Row q; q.type = (int) p.type; q.ft = ft ? p.fluidType : 0; q.rho = rho; for (int k = 0; k < 3; k++) { q.x[k] = strtod(shown(p.position[k]).c_str(), 0); q.v[k] = strtod(shown(p.velocity[k]).c_str(), 0); } v.push_back(q); }
    return v;
}
static double rounded(double x) { return strtod(shown(x).c_str(), 0); }
static std::string digits(Rng& r, double x) { return r.p(0.5) ? shown(x) : full(x); }
static void textLoaders(Rng& r) {
    bool big = large > 0; Dir d("case"); Particles ps = someParticles(r); double time = r.p(0.3) ? 0 : r.i(0, 400) * 0.0125, dd = r.pick({1000., 997.5, 1.0});
    if (big || r.p(0.4)) {
        setCase("round trip, time " + full(time) + ", default density " + full(dd) + ", " + show(ps));
        ParticlesExporter e; e.setParticles(ps); e.toProf(d.p / "a.prof", time); e.toCsv(d.p / "a.csv", time);
        cmpLoaded(ParticlesLoader::Prof().load(d.p / "a.prof", dd), rounded(time), rowsOf(ps, dd, false), "profile round trip");
        cmpLoaded(ParticlesLoader::Csv().load(d.p / "a.csv", dd), rounded(time), rowsOf(ps, dd, true), "CSV round trip");
        return;
    }
    bool csv = r.p(0.6), hf = r.p(0.5), hd = r.p(0.5); std::vector<Row> rows; std::string s; int n = ps.size();
    int announced = csv && r.p(0.15) ? std::max(0, n + r.i(-3, 3)) : n; // a CSV file has one particle per row whatever its second line says
    s = digits(r, time) + "\n" + std::to_string(announced) + "\n"; time = strtod(s.c_str(), 0);
    std::vector<std::string> cols = {"type", "x", "y", "z", "vx", "vy", "vz"}; if (hf) cols.push_back("fluidType"); if (hd) cols.push_back("density");
    if (csv && r.p(0.7)) std::shuffle(cols.begin(), cols.end(), r.g);
    if (csv) s += join(cols, ",") + "\n";
    for (auto& p : ps) {
        Row q; std::map<std::string, std::string> c; double rho = r.p(0.3) ? -r.u(0.1, 5) : r.p(0.15) ? 0 : r.u(1, 2000);
        c["type"] = std::to_string((int) p.type); c["fluidType"] = std::to_string(p.fluidType); c["density"] = digits(r, rho);
        const char* xn[] = {"x", "y", "z"}; const char* vn[] = {"vx", "vy", "vz"};
        for (int k = 0; k < 3; k++) { c[xn[k]] = digits(r, p.position[k]); c[vn[k]] = digits(r, p.velocity[k]); q.x[k] = strtod(c[xn[k]].c_str(), 0); q.v[k] = strtod(c[vn[k]].c_str(), 0); }
        q.type = (int) p.type; q.ft = csv && hf ? p.fluidType : 0; rho = strtod(c["density"].c_str(), 0); q.rho = csv && hd && rho >= 0 ? rho : dd;
        std::vector<std::string> t; for (auto& k : cols) if (csv || (k != "fluidType" && k != "density")) t.push_back(c[k]);
        s += join(t, csv ? "," : r.p(0.9) ? " " : "  ") + "\n"; rows.push_back(q);
    }
    std::string name = csv ? "b.csv" : "b.prof"; spit(d.p / name, s); setCase(name + " with default density " + full(dd) + ":\n" + s);
    if (r.p(0.7)) { if (csv) cmpLoaded(ParticlesLoader::Csv().load(d.p / name, dd), time, rows, "CSV file"); else cmpLoaded(ParticlesLoader::Prof().load(d.p / name, dd), time, rows, "profile"); return; }
    Yaml y = plainYaml(); y.set("particlesPath", name); y.set("defaultDensity", dd); spit(d.p / "s.yml", y.text(r)); stdfs::create_directories(d.p / "out");
    Input in = Loader().load(d.p / "s.yml", d.p / "out"); cmpLoaded({in.startTime, in.particles}, time, rows, "input of the run");
}
static void vtuLoader(Rng& r) {
    bool big = large > 0; Dir d("case"); Particles ps = someParticles(r); double time = r.p(0.3) ? 0 : value(r), dd = r.pick({1000., 997.5}); bool bin = !big && r.p(0.2), den = r.p(0.4);
    ParticlesExporter e; e.setParticles(ps); e.toVtu(d.p / "a.vtu", time, 6.5, bin);
    auto rows = rowsOf(ps, dd, true); std::string s = slurp(d.p / "a.vtu");
    if (bin) {
        setCase("binary VTU file, " + show(ps));
        int rc = child([&] { ParticlesLoader::Vtu().load(d.p / "a.vtu", dd); });
        if (rc == 0) fail("a binary VTU file was loaded");
        if (rc >= 1000) fail("loading a binary VTU file died with signal " + std::to_string(rc - 1000));
        return;
    }
    if (den) {
        const char q = r.p(0.5) ? '"' : '\''; std::string a = std::string("<DataArray type=\"Float64\" Name=") + q + "Density" + q + " NumberOfComponents=\"1\" format=\"ascii\">\n";
        for (auto& w : rows) { double rho = r.p(0.3) ? -r.u(0.1, 5) : r.p(0.2) ? 0 : r.u(1, 2000); std::string t = digits(r, rho); rho = strtod(t.c_str(), 0); a += t + "\n"; if (rho >= 0) w.rho = rho; }
        a += "</DataArray>\n"; std::string mark = r.p(0.5) ? "</PointData>" : "<PointData>"; size_t i = s.find(mark);
        if (i == std::string::npos) fail("the exported file has no point data");
        if (mark[1] != '/') { i += mark.size(); if (i < s.size() && s[i] == '\n') i++; }
        s.insert(i, a); spit(d.p / "a.vtu", s);
    }
    setCase("time " + full(time) + ", default density " + full(dd) + ", VTU file:\n" + s.substr(0, 6000));
    if (r.p(0.7)) { cmpLoaded(ParticlesLoader::Vtu().load(d.p / "a.vtu", dd), rounded(time), rows, "VTU file"); return; }
    Yaml y = plainYaml(); y.set("particlesPath", "a.vtu"); y.set("defaultDensity", dd); spit(d.p / "s.yml", y.text(r)); stdfs::create_directories(d.p / "out");
    Input in = Loader().load(d.p / "s.yml", d.p / "out"); cmpLoaded({in.startTime, in.particles}, rounded(time), rows, "input of the run");
}

// ------------------------------------------------------------------ settings
static void settings(Rng& r) {
    Dir d("case"); Yaml y; auto R = [&](const char* k, double lo = 0.1, double hi = 10) { double v = r.p(0.1) ? r.i(1, 9) : r.p(0.06) ? r.pick({1e-9, 1e-6, 1e-4, 1e6, 1e9}) : r.p(0.04) ? 0 : r.u(lo, hi); y.set(k, v); return v; };
    stdfs::path sub = d.p / r.pick({"", "a", "a/b"}); stdfs::create_directories(sub); stdfs::create_directories(d.p / "p"); stdfs::create_directories(d.p / "out");
    std::string rel = r.pick({"input.prof", "./input.prof", "q/input.prof", "../p/../p/input.prof"}); if (sub == d.p / "") rel = "input.prof";
    stdfs::create_directories((sub / rel).parent_path()); spit(sub / rel, "0\n1\n1 0 0 0 0 0 0\n");
    Settings s{}; int dim = r.i(2, 3), cores = r.i(1, 64);
    y.set("dim", dim); y.set("numPhysicalCores", cores);
    double l0 = R("particleDistance"), dt = R("dt"), et = R("endTime"), op = R("outputPeriod"), cfl = R("cflCondition"), rho = R("defaultDensity", 1, 2000), nu = R("kinematicViscosity");
    double g[3], lo[3], hi[3]; for (int k = 0; k < 3; k++) { g[k] = r.u(-10, 10); lo[k] = r.u(-9, 0); hi[k] = r.u(1, 9); if (r.p(0.05)) g[k] = 0; if (r.p(0.1)) lo[k] = hi[k] = r.p(0.5) ? 0 : r.u(-5, 5); if (r.p(0.05)) { lo[k] += 1e6; hi[k] += 1e6; } if (r.p(0.05)) lo[k] = 0; }
    y.vec("gravity", g[0], g[1], g[2]); y.vec("domainMin", lo[0], lo[1], lo[2]); y.vec("domainMax", hi[0], hi[1], hi[2]);
    bool xyz = true, bin = false; double gn = 0, ga = 0;
    if (r.p(0.5)) y.set("xyz-input", xyz = r.p(0.5));
    if (r.p(0.5)) gn = R("gravity-norm");
    if (r.p(0.5)) ga = R("gravity-angle", -180, 180);
    if (r.p(0.5)) y.set("outputVtkInBinary", bin = r.p(0.5));
    double tn = R("surfaceDetection-numberDensity-threshold"), td = R("surfaceDetection-particleDistribution-threshold"); bool fd = r.p(0.5); y.set("surfaceDetection-particleDistribution", fd);
    std::string meth = r.pick({"Implicit", "Explicit", "Other"}); y.set("pressureCalculationMethod", meth);
    double co = R("compressibility"), rel_ = R("relaxationCoefficientForPressure"), ss = R("soundSpeed"), cd = R("collisionDistanceRatio"), cr = R("coefficientOfRestitution");
    double ra = R("radiusRatioForNumberDensity"), rb = R("radiusRatioForGradient"), rc = R("radiusRatioForLaplacian");
    y.set("particlesPath", rel);
    std::string text = y.text(r), name = r.pick({"settings.yml", "s.yaml"}); spit(sub / name, text); setCase("settings file:\n" + text);
    stdfs::path sp = sub / name; if (r.p(0.3)) sp = stdfs::relative(sp);
    stdfs::path decoy; if (sub != d.p / "" && rel[0] != '.' && r.p(0.5)) { decoy = stdfs::current_path() / rel; stdfs::create_directories(decoy.parent_path()); spit(decoy, "3\n1\n2 5 5 5 5 5 5\n"); } // same name, below the working directory
    if (decoy.empty() && r.p(0.1) && rel[0] != '.') { // the settings file is a link: its directory is the one it was named in
        stdfs::create_directories((d.p / "lk" / rel).parent_path()); spit(d.p / "lk" / rel, "0\n1\n1 0 0 0 0 0 0\n"); spit(sub / rel, "3\n1\n2 5 5 5 5 5 5\n");
        stdfs::create_symlink(stdfs::absolute(sub / name), d.p / "lk" / name); sub = d.p / "lk"; sp = sub / name;
    }
    Input whole = Loader().load(sp, d.p / "out"); s = whole.settings; if (!decoy.empty()) stdfs::remove(decoy);
    if (whole.startTime != 0 || whole.particles.size() != 1 || whole.particles[0].type != ParticleType::Fluid) fail("the particles do not come from the file named in the settings, relative to them");
#define EQ(f, w) do { double got_ = s.f, want_ = w; if (!close(got_, want_, 0, 1e-12)) fail(std::string(#f) + " is " + num(got_) + ", expected " + num(want_)); } while (0)
    EQ(dim, dim); EQ(particleDistance, l0); EQ(dt, dt); EQ(endTime, et); EQ(outputPeriod, op); EQ(cflCondition, cfl); EQ(numPhysicalCores, cores); EQ(defaultDensity, rho); EQ(kinematicViscosity, nu);
    EQ(gravity[0], g[0]); EQ(gravity[1], g[1]); EQ(gravity[2], g[2]); EQ(xyzInput, xyz); EQ(gNorm, gn); EQ(gAngle, ga); EQ(outputVtkInBinary, bin);
    EQ(surfaceDetection_numberDensity_threshold, tn); EQ(surfaceDetection_particleDistribution, fd); EQ(surfaceDetection_particleDistribution_threshold, td);
    if (s.pressureCalculationMethod != meth) fail("pressureCalculationMethod is " + s.pressureCalculationMethod);
    EQ(compressibility, co); EQ(relaxationCoefficientForPressure, rel_); EQ(soundSpeed, ss); EQ(collisionDistance, cd * l0); EQ(coefficientOfRestitution, cr);
    EQ(re_forNumberDensity, ra * l0); EQ(re_forGradient, rb * l0); EQ(re_forLaplacian, rc * l0); EQ(reMax, std::max({ra, rb, rc}) * l0);
    EQ(domain.xMin, lo[0]); EQ(domain.yMin, lo[1]); EQ(domain.zMin, lo[2]); EQ(domain.xMax, hi[0]); EQ(domain.yMax, hi[1]); EQ(domain.zMax, hi[2]);
    EQ(domain.xLength, hi[0] - lo[0]); EQ(domain.yLength, hi[1] - lo[1]); EQ(domain.zLength, hi[2] - lo[2]);
    if (stdfs::weakly_canonical(s.particlesPath) != stdfs::weakly_canonical(sub / rel)) fail("particlesPath is " + s.particlesPath.string());
}

// ------------------------------------------------------------------ construction
#define GET(f) template <class T> auto get_##f(T& t, int) -> decltype(&t.f) { return &t.f; } template <class T> void* get_##f(T&, long) { return nullptr; }
GET(n0) GET(soundSpeed) GET(pressurePoissonEquation) GET(dirichletBoundaryConditionGenerator) GET(surfaceDetector) GET(thresholdRatio) GET(particleDistance) GET(distributionThresholdRatio) GET(numberDensityThresholdRatio) GET(neighborSearcher)
GET(dimension) GET(dt) GET(relaxationCoefficient) GET(compressibility) GET(n0_forNumberDensity) GET(n0_forLaplacian) GET(lambda0) GET(reForLaplacian) GET(reForNumberDensity)
static void is(void*, double, const std::string&) {}
static void is(double* p, double w, const std::string& what) { cmps(*p, w, 0, what, 1e-12); }
static void is(int* p, double w, const std::string& what) { cmps(*p, w, 0, what); }
static void poisson(void*, const Settings&, Ref, Ref) {}
static void poisson(PressureCalculator::PressurePoissonEquation* e, const Settings& s, Ref n, Ref l) {
    is(get_dimension(*e, 0), s.dim, "implicit: dimension"); is(get_dt(*e, 0), s.dt, "implicit: dt"); is(get_relaxationCoefficient(*e, 0), s.relaxationCoefficientForPressure, "implicit: relaxation coefficient");
    is(get_compressibility(*e, 0), s.compressibility, "implicit: compressibility"); is(get_n0_forNumberDensity(*e, 0), n.n0, "implicit: n0 for number density"); is(get_n0_forLaplacian(*e, 0), l.n0, "implicit: n0 for Laplacian");
    is(get_lambda0(*e, 0), l.lambda, "implicit: lambda"); is(get_reForLaplacian(*e, 0), s.re_forLaplacian, "implicit: radius for Laplacian"); is(get_reForNumberDensity(*e, 0), s.re_forNumberDensity, "implicit: radius for number density");
}
static void detector(void*, const Settings&, Ref) {}
static void detector(std::unique_ptr<SurfaceDetector::Interface>* p, const Settings& s, Ref n) {
    if (!*p) fail("there is no surface detector");
    if (s.surfaceDetection_particleDistribution) {
        auto* d = dynamic_cast<SurfaceDetector::Distribution*>(p->get()); if (!d) fail("the distribution detector is not selected");
        is(get_n0(*d, 0), n.n0, "distribution detector: n0"); is(get_particleDistance(*d, 0), s.particleDistance, "distribution detector: particle distance");
        is(get_distributionThresholdRatio(*d, 0), s.surfaceDetection_particleDistribution_threshold, "distribution detector: distribution threshold"); is(get_numberDensityThresholdRatio(*d, 0), s.surfaceDetection_numberDensity_threshold, "distribution detector: number density threshold");
    } else {
        auto* d = dynamic_cast<SurfaceDetector::NumberDensity*>(p->get()); if (!d) fail("the number density detector is not selected");
        is(get_n0(*d, 0), n.n0, "number density detector: n0"); is(get_thresholdRatio(*d, 0), s.surfaceDetection_numberDensity_threshold, "number density detector: threshold");
    }
}
static void generatorOf(void*, const Settings&, Ref) {}
static void generatorOf(std::unique_ptr<PressureCalculator::DirichletBoundaryConditionGenerator::Interface>* p, const Settings& s, Ref n) {
    if (!*p) fail("there is no boundary condition generator");
    auto* g = dynamic_cast<PressureCalculator::DirichletBoundaryConditionGenerator::FreeSurface*>(p->get()); if (!g) fail("the boundary condition generator is another one");
    detector(get_surfaceDetector(*g, 0), s, n);
}
static void searches(void*, MPS&, const Input&) {}
static void searches(NeighborSearcher* q, MPS& m, const Input& in) {
    q->setNeighbors(m.particles); double re = in.settings.reMax;
    for (auto& a : m.particles) {
        std::set<int> want, got; if (a.type != ParticleType::Ghost) for (auto& b : m.particles) if (b.id != a.id && b.type != ParticleType::Ghost) { double d = (b.position - a.position).norm(); if (std::fabs(d - re) < 1e-9 * re) return; if (d < re) want.insert(b.id); }
        for (auto& b : a.neighbors) got.insert(b.id);
        if (a.type != ParticleType::Ghost && got != want) fail(pn(a.id) + "the neighbour searcher does not search the largest effective radius");
    }
}
static void construction(Rng& r, uint64_t k) {
    Input in = genInput(r, 20); Settings& s = in.settings;
    s.xyzInput = r.p(0.5); s.gNorm = r.u(0, 20); s.gAngle = r.p(0.3) ? r.i(-4, 4) * 90 : r.u(-360, 360); s.endTime = r.u(0, 9); s.outputPeriod = r.u(0, 1); s.cflCondition = r.u(0, 1); s.numPhysicalCores = r.i(1, 9);
    in.startTime = r.u(0, 3);
    for (auto& p : in.particles) if (r.p(0.2)) p.neighbors.emplace_back(r.i(0, 3), 1.0);
    std::string how = " method " + s.pressureCalculationMethod + (s.xyzInput ? " gravity vector" : " gravity norm " + full(s.gNorm) + " angle " + full(s.gAngle)) + (s.surfaceDetection_particleDistribution ? " distribution detector " : " ");
    if (r.p(0.03)) {
        s.pressureCalculationMethod = r.pick({"", "implicit", "EXPLICIT", "Semi-Implicit", "Explicit ", "ImplicitExplicit"}); setCase("pressure calculation method '" + s.pressureCalculationMethod + "'");
        int rc = child([&] { MPSFactory::create(in); });
        if (rc == 0) fail("an unknown pressure calculation method is accepted");
        if (rc >= 1000) fail("died with signal " + std::to_string(rc - 1000));
        return;
    }
    setCase(how + desc(in, k));
    Input copy = in; MPS m = MPSFactory::create(in);
    double th = s.gAngle * M_PI / 180; V3 g = s.xyzInput ? s.gravity : V3(s.gNorm * std::sin(th), -s.gNorm * std::cos(th), 0);
    cmpv(m.gravity, g, std::fabs(s.gNorm) * 1e-3, "gravity");
    Ref n = refValues(s.dim, s.particleDistance, s.re_forNumberDensity), gr = refValues(s.dim, s.particleDistance, s.re_forGradient), l = refValues(s.dim, s.particleDistance, s.re_forLaplacian);
    auto rv_ = [](const RefValues& a, Ref b, const char* w) { cmps(a.n0, b.n0, 0, std::string("n0 for ") + w); cmps(a.lambda, b.lambda, 0, std::string("lambda for ") + w); };
    rv_(m.refValuesForNumberDensity, n, "number density"); rv_(m.refValuesForGradient, gr, "gradient"); rv_(m.refValuesForLaplacian, l, "Laplacian");
    unchanged(snapshot(copy.particles), m.particles, 0, "particles taken over");
    Settings t = s; s = m.settings;
#define SAME(f) EQ(f, t.f)
    SAME(dim); SAME(particleDistance); SAME(dt); SAME(endTime); SAME(outputPeriod); SAME(cflCondition); SAME(numPhysicalCores); SAME(kinematicViscosity); SAME(defaultDensity); SAME(collisionDistance); SAME(coefficientOfRestitution);
    SAME(re_forNumberDensity); SAME(re_forGradient); SAME(re_forLaplacian); SAME(reMax); SAME(compressibility); SAME(relaxationCoefficientForPressure); SAME(soundSpeed); SAME(gravity[0]); SAME(gravity[1]); SAME(gravity[2]);
    SAME(domain.xMin); SAME(domain.xMax); SAME(domain.yMin); SAME(domain.yMax); SAME(domain.zMin); SAME(domain.zMax); SAME(domain.xLength); SAME(domain.yLength); SAME(domain.zLength);
    s.domain = m.domain; SAME(domain.xMin); SAME(domain.xMax); SAME(domain.yMin); SAME(domain.yMax); SAME(domain.zMin); SAME(domain.zMax); SAME(domain.xLength); SAME(domain.yLength); SAME(domain.zLength);
    s = t;
    if (!m.pressureCalculator) fail("there is no pressure calculator");
    if (s.pressureCalculationMethod == "Explicit") {
        auto* e = dynamic_cast<PressureCalculator::Explicit*>(m.pressureCalculator.get()); if (!e) fail("the explicit method is not selected");
        is(get_n0(*e, 0), n.n0, "explicit: n0"); is(get_soundSpeed(*e, 0), s.soundSpeed, "explicit: speed of sound");
        Particles ps = in.particles; auto q = e->calc(ps);
        for (auto& p : ps) { double w = p.type == ParticleType::Ghost || p.numberDensity <= n.n0 ? 0 : s.soundSpeed * s.soundSpeed * p.density * (p.numberDensity - n.n0) / n.n0; cmps(q[p.id], w, s.soundSpeed * s.soundSpeed * p.density, pn(p.id) + "explicit pressure"); }
    } else {
        auto* e = dynamic_cast<PressureCalculator::Implicit*>(m.pressureCalculator.get()); if (!e) fail("the implicit method is not selected");
        poisson(get_pressurePoissonEquation(*e, 0), s, n, l);
        generatorOf(get_dirichletBoundaryConditionGenerator(*e, 0), s, n);
    }
    searches(get_neighborSearcher(m, 0), m, in);
}

// ------------------------------------------------------------------ the simulation loop, run as a program
static void loop(Rng& r) {
    Dir d("case"); bool exact = r.p(0.5); double dt, period, start, len;
    if (exact) { dt = r.pick({0.125, 0.0625, 0.25}); period = dt * r.pick({0.0, 0.25, 0.5, 1.0, 2.0, 2.5, 3.0, 4.75}); start = r.pick({0.0, 0.5, 3.25}); len = dt * r.pick({0.0, -1.0, 1.0, 2.0, 7.0, 12.0, 12.5, 0.5});
        double tiny = dt * std::pow(2.0, -r.i(10, 30)); if (r.p(0.3)) len += r.pick({1.0, -1.0}) * tiny; if (r.p(0.3) && period > 0) period += r.pick({1.0, -1.0}) * tiny; }   // just missed or just reached
    else { dt = r.u(0.05, 0.2); period = r.u(0, 0.7); start = rounded(r.p(0.5) ? 0 : r.u(0, 2)); len = r.u(-0.1, 2.5); }
    if (r.p(0.03)) { exact = true; dt = 0.0625; period = dt * r.pick({1.0, 2.5}); start = 0.5; len = dt * r.i(150, 400); }   // a longer run
    double end = start + len; bool vec = r.p(0.5);
    std::vector<double> times{start}; double t = start; int steps = 0; std::vector<int> at{0};
    while (t < end) {
        t += dt; steps++;
        double lim = period * times.size();
        if (!exact && (std::fabs(t - end) < 1e-9 || std::fabs(t - start - lim) < 1e-9)) return;   // decided by rounding
        if (t - start >= lim) { times.push_back(t); at.push_back(steps); }
    }
    Yaml y = plainYaml(); y.set("dt", dt); y.set("endTime", end); y.set("outputPeriod", period); y.set("outputVtkInBinary", vec); y.vec("gravity", 0, -1, 0); y.vec("domainMin", -100, -1000, 0);
    y.set("pressureCalculationMethod", r.pick({"Explicit", "Implicit"}));
    bool csv = r.p(0.3); std::string name = csv ? "input.csv" : "input.prof"; y.set("particlesPath", name); y.set("kinematicViscosity", 0.0);
    spit(d.p / "s.yml", y.text(r)); spit(d.p / name, full(start) + "\n1\n" + (csv ? "type,x,y,z,vx,vy,vz\n1,0,0,0,0,0,0\n" : "1 0 0 0 0 0 0\n")); stdfs::create_directories(d.p / "out");
    setCase("run: start " + full(start) + " end " + full(end) + " dt " + full(dt) + " output period " + full(period));
    int rc = program("mps", {"-s", (d.p / "s.yml").string(), "-o", (d.p / "out").string()}, "", d.p);
    if (rc != 0) fail("the program ended with " + std::to_string(rc));
    for (std::string e : {"prof", "vtu", "csv"}) {
        auto l = listing(d.p / "out" / e);
        if (l.size() != times.size()) fail(std::to_string(l.size()) + " files in " + e + ", expected " + std::to_string(times.size()));
        for (size_t k = 0; k < times.size(); k++) if (!l.count(number((int) k) + "." + e)) fail("output " + std::to_string(k) + " is missing in " + e);
    }
    for (size_t k = 0; k < times.size(); k++) for (std::string e : {"prof", "csv"}) {
        auto l = linesOf(slurp(d.p / "out" / e / (number((int) k) + "." + e))); std::string w = "output " + std::to_string(k) + " (" + e + ")";
        if (l.empty()) fail(w + " is empty");
        if (!close(toNum(words(l[0])[0], w), times[k], 1e-3, 2e-5)) fail(w + " was saved at time " + l[0] + ", expected " + shown(times[k]));
        if (e == "prof" && l.size() > 2) {   // one free falling particle: its velocity counts the steps
            double v = toNum(words(l[2])[5], w); if (!close(v, -at[k] * dt, 1e-3, 2e-5)) fail(w + " shows velocity " + num(v) + " after " + std::to_string(at[k]) + " steps of " + num(dt));
        }
    }
}

int main(int argc, char** argv) {
    init(); std::string pid = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long n = atol(argv[3]);
    for (long k = 0; k < n; k++) {
        Rng r(seed * 1000003 + k);
        if (k % 700 == 5 && (pid == "C16" || pid == "C17" || pid == "C18" || pid == "C19")) large = 1;
        if (pid == "C15") { if (k % 4 == 3) savedOutputs(r, true); else loop(r); }
        else if (pid == "C16") { if (k % 4 == 3) savedOutputs(r, false); else writers(r); }
        else if (pid == "C17") vtuWriters(r);
        else if (pid == "C18") textLoaders(r);
        else if (pid == "C19") vtuLoader(r);
        else if (pid == "C20") settings(r);
        else if (pid == "C21") construction(r, k);
        else { std::cout << "unknown mode" << std::endl; return 2; }
    }
    std::cout << "PASS " << n << " cases" << std::endl; return 0;
}
