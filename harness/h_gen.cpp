// Copying of inputs, the generators and their dialogue, run as programs of their own (C22, C24).
#include "iocase.hpp"
#include "particles.hpp"
#include "../generator/generator_src/generator_dialogue.hpp"

static void copying(Rng& r, uint64_t k) {
    Dir d("case"); stdfs::path in = d.p / "in", out = d.p / "out"; stdfs::create_directories(in); stdfs::create_directories(out);
    std::string ext = r.pick({".prof", ".csv"}), pn = r.pick({"input", "dam", "a.b"}) + ext, sn = r.pick({"settings.yml", "input.yml", "s.yaml"});
    Yaml y = plainYaml(); y.set("endTime", r.pick({0.0, 0.02})); y.set("particlesPath", pn);
    std::string st = y.text(r), pt = ext == ".prof" ? "0\n1\n1 0 0 0 0 0 0\n" : "0\n1\ntype,x,y,z,vx,vy,vz\n1,0,0,0,0,0,0\n";
    bool none = ext == ".prof" && r.p(0.1), linked = r.p(0.15); if (none) pt = "";
    if (linked) { spit(d.p / "elsewhere.yml", st); stdfs::create_symlink(d.p / "elsewhere.yml", in / sn); } else spit(in / sn, st);
    spit(in / pn, pt);
    if (r.p(0.08)) { // the inputs lie in the output directory itself
        setCase("run " + std::to_string(k) + " with its own input directory as output directory");
        stdfs::path o = in; if (r.p(0.3)) o = in / "."; else if (r.p(0.5)) { stdfs::create_directory_symlink(in, d.p / "link"); o = d.p / "link"; }
        int rc = program("mps", {"-s", (in / sn).string(), "-o", o.string()}, "", d.p);
        if (rc == 0 || rc >= 1000) fail("files of these names are already in the output directory, but the program ended with " + std::to_string(rc));
        if (slurp(in / sn) != st || slurp(in / pn) != pt) fail("an input file was changed");
        return;
    }
    if (r.p(0.05)) { // settings and particle file have the same name: the second copy must not replace the first
        std::string n = "run" + ext; stdfs::create_directories(in / "sub"); spit(in / "sub" / n, pt); y.set("particlesPath", "sub/" + n); st = y.text(r); spit(in / n, st);
        setCase("run " + std::to_string(k) + " with settings " + n + " and particles sub/" + n);
        int rc = program("mps", {"-s", (in / n).string(), "-o", out.string()}, "", d.p);
        if (rc == 0 || rc >= 1000) fail("the file copied first has the name of the second, but the program ended with " + std::to_string(rc));
        if (slurp(out / n) != st) fail("the copy of the settings file was overwritten");
        return;
    }
    bool hs = r.p(0.35), hp = r.p(0.35);
    int kind = r.i(0, 5);  // what is already there: another file, an empty one, the same contents, a link to a file, a directory, a longer file
    std::string old = kind == 1 ? "" : kind == 5 ? std::string(3000, 'z') : "earlier contents\n";
    std::string os = kind == 2 ? st : old, op = kind == 2 ? pt : old; bool future = r.p(0.5);
    auto put = [&](const std::string& n, const std::string& t) {
        if (kind == 3) { spit(d.p / ("real-" + n), t); stdfs::create_symlink(d.p / ("real-" + n), out / n); }
        else if (kind == 4) { stdfs::create_directories(out / n); return; }
        else spit(out / n, t);
        stdfs::last_write_time(out / n, stdfs::file_time_type::clock::now() + std::chrono::hours(future ? 100 : -100));
    };
    if (hs) put(sn, os);
    if (hp) put(pn, op);
    if (r.p(0.3)) spit(out / "other.txt", "x");
    const char* kinds[] = {"another file", "an empty file", "the same contents", "a link to a file", "a directory", "a longer file"};
    setCase("run " + std::to_string(k) + ": settings " + sn + (hs ? " (already in the output directory)" : "") + (linked ? " (a link)" : "") + ", particles " + pn + (none ? " (an empty file)" : "") + (hp ? " (already in the output directory)" : "") + (hs || hp ? std::string(", ") + kinds[kind] : ""));
    int rc = program("mps", {"-s", (in / sn).string(), "-o", out.string() + (r.p(0.3) ? "/" : "")}, "", d.p);
    if (hs || hp) {
        if (rc == 0 || rc >= 1000) fail("a file of that name is already in the output directory, but the program ended with " + std::to_string(rc));
        if (kind == 4) { if ((hs && !(stdfs::is_directory(out / sn) && stdfs::is_empty(out / sn))) || (hp && !(stdfs::is_directory(out / pn) && stdfs::is_empty(out / pn)))) fail("what was in the output directory under that name was changed"); }
        else {
        if (hs && slurp(out / sn) != os) fail("the settings file in the output directory was changed");
        if (hp && slurp(out / pn) != op) fail("the particle file in the output directory was changed");
        }
    } else {
        if (rc != 0 && !none) fail("the program ended with " + std::to_string(rc));
        for (auto& n : {sn, pn}) {
            if (!stdfs::exists(stdfs::symlink_status(out / n))) fail(n + " was not copied into the output directory");
            if (!stdfs::is_regular_file(stdfs::symlink_status(out / n)) || stdfs::hard_link_count(out / n) != 1) fail(n + " in the output directory is no file of its own");
        }
        if (slurp(out / sn) != st) fail("the settings file was not copied into the output directory");
        if (slurp(out / pn) != pt) fail("the particle file was not copied into the output directory");
    }
    if (slurp(in / sn) != st || slurp(in / pn) != pt) fail("an input file was changed");
}

static void dialogue(Rng& r, uint64_t k) {
    Dir d("case"); int how = r.i(0, 4);
    bool gen = how >= 3; std::string which = r.p(0.5) ? "dambreak" : "hydrostatic";
    std::vector<std::string> ext;
    if (gen) ext = {".prof", ".vtu"};
    else { for (std::string e : {".prof", ".vtu", ".csv"}) if (r.p(0.55)) ext.push_back(e); std::shuffle(ext.begin(), ext.end(), r.g); if (ext.empty()) ext = {".csv"}; }
    bool bad = !gen && r.p(0.12);  // a request that is refused: no type at all, or one that is not known
    if (bad) { if (r.p(0.2)) ext.clear(); else { if (r.p(0.2)) ext.clear(); ext.insert(ext.begin() + r.i(0, (int) ext.size()), r.pick({".txt", ".PROF", "prof", ".vt", ".csvx", "", ".vtk", "csv"})); } }
    stdfs::path dir = gen ? d.p / "input" / which : d.p / "input" / "x";
    bool there = r.p(0.85); if (there) stdfs::create_directories(dir);
    std::map<std::string, std::string> had;
    if (there) for (std::string e : {".prof", ".vtu", ".csv"}) if (r.p(0.4)) { had[e] = r.p(0.2) ? "" : r.p(0.2) ? std::string(4000, 'w') : "earlier " + e + "\n"; spit(dir / ("input" + e), had[e]); }
    if (there) spit(dir / "settings.yml", "s");
    bool asked = false; for (auto& e : ext) asked |= had.count(e) > 0; asked &= !bad;
    std::string ans, last = r.pick({"y", "Y", "n", "N"}), all;
    int m = r.p(0.5) ? 0 : r.i(1, 3);
    for (int i = 0; i < m; i++) all += std::string(r.pick({"yes", "no", "ny", "yn", "0", "1", "Yes", "q", "nn", "yy", "-", "j"})) + "\n";
    bool none = asked && k % 20 == 3;  // the input ends without an answer: whatever the program does, nothing is overwritten
    if (none) last = "";
    else { all += last; if (r.p(0.8)) all += r.p(0.5) ? "\ny\n" : "\nn\n"; }
    std::string es; for (auto& e : ext) es += e + (had.count(e) ? "(exists) " : " ");
    setCase("dialogue " + std::to_string(k) + (gen ? " of the " + which + " generator" : "") + ": files " + es + "directory " + (there ? "exists" : "missing") + " answers: " + all);
    int rc, before = gen || r.p(0.7) ? 0 : r.i(1, 2);
    if (gen) rc = program("generate_" + which, {}, all, d.p, none ? 1 : 15);
    else rc = child([&] {
        Particles ps; for (int i = 0; i < 3; i++) ps.add(Particle(i, ParticleType::Fluid, Eigen::Vector3d(i, 0, 0), Eigen::Vector3d(0, 0, 0), 1000));
        GeneratorDialogue g;
        if (before) { stdfs::create_directories(d.p / "before"); if (before == 2) spit(d.p / "before" / "input.csv", "old"); g.generatorDialogue(d.p / "before", ps, {".csv"}); } // an earlier request, agreed to
        g.generatorDialogue(dir, ps, ext);
    }, before == 2 ? "y\n" + all : all, none ? 1 : 15);
    if (rc != 0 && !none) fail("the program ended with " + std::to_string(rc) + (rc == 1014 ? " (asked again until time ran out)" : ""));
    bool write = !bad && (!asked || last == "y" || last == "Y");
    for (std::string e : {".prof", ".vtu", ".csv"}) {
        bool want = write && std::find(ext.begin(), ext.end(), e) != ext.end();
        stdfs::path f = dir / ("input" + e); std::string w = "input" + e;
        if (!want) {
            if (had.count(e)) { if (slurp(f) != had[e]) fail(w + " was overwritten"); }
            else if (stdfs::exists(f)) fail(w + " was written");
        } else {
            if (!stdfs::exists(f)) fail(w + " was not written");
            if (had.count(e) && slurp(f) == had[e]) fail(w + " was not overwritten although the answer was " + last);
            std::string t = slurp(f); auto l = linesOf(t); size_t np = 3;   // what was written is a file of that type with the particles at time 0
            if (gen) { auto pl = linesOf(slurp(dir / "input.prof")); if (pl.size() < 3) fail("input.prof has no particles"); np = pl.size() - 2; }
            if (e == ".prof" && (l.size() != 2 + np || l[0] != "0" || l[1] != std::to_string(np))) fail(w + " is not a profile of the " + std::to_string(np) + " particles at time 0");
            if (e == ".csv" && (l.size() != 3 + np || l[0] != "0" || l[1] != std::to_string(np) || l[2].compare(0, 4, "type") != 0)) fail(w + " is not a CSV file of the " + std::to_string(np) + " particles at time 0");
            if (e == ".vtu" && (l.empty() || l[0].compare(0, 1, "<") != 0 || t.find("NumberOfPoints=\"" + std::to_string(np) + "\"") == std::string::npos)) fail(w + " is not a VTU file of the " + std::to_string(np) + " particles");
            if (e == ".vtu") { size_t a = t.find("Name=\"Time\""); a = a == std::string::npos ? a : t.find('>', a); if (a == std::string::npos || strtod(t.c_str() + a + 1, nullptr) != 0) fail(w + " is not of time 0"); }
        }
    }
    if (there && slurp(dir / "settings.yml") != "s") fail("another file was changed");
}

struct Site { int t; double x, y; };
static void layout(const std::string& which) {
    Dir d("case"); setCase("layout of the " + which + " generator");
    if (program("generate_" + which, {}, "y\ny\n", d.p)) fail("the generator did not end normally");
    std::vector<Site> want;
    auto in = [](int a, int b, int c, int e, int x, int y) { return a <= x && x <= b && c <= y && y <= e; };
    bool dam = which == "dambreak"; double l0 = dam ? 0.025 : 0.012, off = dam ? 0 : 0.5;
    for (int x = dam ? -4 : -19; x <= (dam ? 44 : 18); x++) for (int y = -4; y <= (dam ? 28 : 49); y++) {
        int t = 0;
        if (dam) {
            if (in(-4, 44, -4, 24, x, y)) t = 3;
            if (in(-2, 42, -2, 24, x, y)) t = 2;
            if (in(-4, 44, 22, 24, x, y)) t = 2;
            if (in(0, 40, 0, 24, x, y)) t = 0;
            if (in(0, 10, 0, 20, x, y)) t = 1;
        } else {
            if (in(-15, 14, 40, 49, x, y)) t = 0;
            else if (in(-15, 14, 0, 39, x, y)) t = 1;
            else if (in(-17, 16, -2, 49, x, y)) t = 2;
            else if (in(-19, 18, -4, 49, x, y)) t = 3;
        }
        if (t) want.push_back({t, (x + off) * l0, (y + off) * l0});
    }
    auto t = words(slurp(d.p / "input" / which / "input.prof"));
    if (t.size() < 2) fail("no particles");
    size_t n = (size_t) toNum(t[1], "number of particles");
    if (t.size() != 2 + 7 * n) fail("the profile does not hold the particles it announces");
    if (toNum(t[0], "time") != 0) fail("start time is " + t[0]);
    std::vector<bool> used(want.size(), false);
    for (size_t i = 0; i < n; i++) {
        double q[7]; for (int k = 0; k < 7; k++) q[k] = toNum(t[2 + 7 * i + k], "particle " + std::to_string(i));
        std::string p = "particle " + std::to_string(i) + " of type " + shown(q[0]) + " at (" + shown(q[1]) + "," + shown(q[2]) + "," + shown(q[3]) + ")";
        int hit = -1;
        for (size_t j = 0; j < want.size(); j++) if (std::fabs(want[j].x - q[1]) < 1e-3 * l0 && std::fabs(want[j].y - q[2]) < 1e-3 * l0) hit = (int) j;
        if (hit < 0 || std::fabs(q[3]) > 1e-3 * l0) fail(p + " lies on no site that gets a particle");
        if (used[hit]) fail(p + ": its site is used twice");
        used[hit] = true;
        if (want[hit].t != (int) q[0]) fail(p + " should have type " + std::to_string(want[hit].t));
        if (q[4] != 0 || q[5] != 0 || q[6] != 0) fail(p + " is not at rest");
    }
    for (size_t j = 0; j < want.size(); j++) if (!used[j]) fail("no particle at (" + shown(want[j].x) + "," + shown(want[j].y) + ") where one of type " + std::to_string(want[j].t) + " belongs");
    std::string v = slurp(d.p / "input" / which / "input.vtu");
    if (programExists("dump_" + which)) {
        if (program("dump_" + which, {}, "", d.p)) fail("the generator did not end normally");
        auto h = linesOf(slurp(d.p / "handed"));
        for (size_t i = 0; i < h.size(); i++) {
            auto w = words(h[i]); std::string p = "particle " + std::to_string(i) + " handed to the exporter: ";
            if (std::stol(w[0]) != (long) i) fail(p + "id " + w[0]);
            if (toNum(w[1], p) != 1000) fail(p + "density " + w[1]);
            if (w[2] != "0") fail(p + "fluid type " + w[2]);
            for (int q = 3; q < 6; q++) if (toNum(w[q], p) != 0) fail(p + "is not at rest");
        }
        if (h.size() != n) fail("the particles handed over are not the ones written");
    }
    if (v.find("NumberOfPoints=\"" + std::to_string(n) + "\"") == std::string::npos) fail("the VTU file does not hold the same number of particles");
}

int main(int argc, char** argv) {
    init(); std::string pid = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long n = atol(argv[3]);
    if (pid == "C24") { layout("dambreak"); layout("hydrostatic"); std::cout << "PASS both layouts" << std::endl; return 0; }
    for (long k = 0; k < n; k++) { Rng r(seed * 1000003 + k); if (k % 3 == 0) copying(r, k); else dialogue(r, k); }
    std::cout << "PASS " << n << " runs" << std::endl; return 0;
}
