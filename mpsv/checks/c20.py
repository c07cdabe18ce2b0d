"""C20: every setting comes from its own key of the settings file."""
from .. import terms as tm, iolib
from ..exec import LV
from ..check import Missing
from ..terms import ZERO, ONE, num, TRUE, FALSE

HARNESS = "h_io"
SOURCES = "all"
LINK = ["-lyaml-cpp"]
CASES = {"quick": 6000, "thorough": 20000}


def verify(c):
    with c.section("Loader::loadSettingYaml"):
        ex = c.executor()
        path = tm.const("settingPath", "S")
        _, st, v = c.run("Loader::loadSettingYaml", "Loader", ex=ex, args=[path])
        s = ex.materialize(st, v, c.rec("Settings"))
        root = tm.app("yaml", (path,), iolib.node_sort())
        key = lambda k, *ix: (lambda n: iolib.yaml_index(ex, st, iolib.yaml_index(ex, st, root, tm.strc(k)), num(ix[0])) if ix else n)(iolib.yaml_index(ex, st, root, tm.strc(k)))
        R = lambda k, *ix: iolib.yaml_as(key(k, *ix), "R")
        I = lambda k: iolib.yaml_as(key(k), "I")
        opt = lambda k, so, d: tm.ite(iolib.yaml_has(key(k)), iolib.yaml_as(key(k), so), d)
        hy = list(st.pc)
        done = set()

        def field(name, sort, want, *rel):
            p = tuple(name.split(".")) + rel
            got = ex.read_leaf(st, s, p, sort)
            done.add(p)
            c.eq("settings." + ".".join(p), got, want, hy)

        for k in ("particleDistance", "dt", "endTime", "outputPeriod", "cflCondition", "defaultDensity", "kinematicViscosity",
                  "compressibility", "relaxationCoefficientForPressure", "soundSpeed", "coefficientOfRestitution"):
            field(k, "R", R(k))
        field("dim", "I", I("dim"))
        field("numPhysicalCores", "I", I("numPhysicalCores"))
        field("surfaceDetection_numberDensity_threshold", "R", R("surfaceDetection-numberDensity-threshold"))
        field("surfaceDetection_particleDistribution", "B", iolib.yaml_as(key("surfaceDetection-particleDistribution"), "B"))
        field("surfaceDetection_particleDistribution_threshold", "R", R("surfaceDetection-particleDistribution-threshold"))
        field("pressureCalculationMethod", "S", iolib.yaml_as(key("pressureCalculationMethod"), "S"))
        field("xyzInput", "B", opt("xyz-input", "B", TRUE))
        field("gNorm", "R", opt("gravity-norm", "R", ZERO))
        field("gAngle", "R", opt("gravity-angle", "R", ZERO))
        field("outputVtkInBinary", "B", opt("outputVtkInBinary", "B", FALSE))
        for a in range(3):
            field("gravity", "R", R("gravity", a), str(a))
        l0 = R("particleDistance")
        field("collisionDistance", "R", tm.mul(R("collisionDistanceRatio"), l0))
        res = []
        for n in ("NumberDensity", "Gradient", "Laplacian"):
            r = tm.mul(R("radiusRatioFor" + n), l0)
            field("re_for" + n, "R", r)
            res.append(r)
        rm = ex.read_leaf(st, s, ("reMax",), "R")
        done.add(("reMax",))
        for r, n in zip(res, ("number density", "gradient", "Laplacian")):
            c.prove(f"search radius covers the {n} radius", tm.le(r, rm), hy)
        c.prove("search radius is one of the effective radii", tm.or_(*[tm.eq(r, rm) for r in res]), hy)
        for i, a in enumerate("xyz"):
            lo, hi = R("domainMin", i), R("domainMax", i)
            field(f"domain.{a}Min", "R", lo)
            field(f"domain.{a}Max", "R", hi)
            field(f"domain.{a}Length", "R", tm.sub(hi, lo))
        want = iolib.S("weakly_canonical", iolib.join(iolib.S("parent_path", path), iolib.yaml_as(key("particlesPath"), "S")))
        field("particlesPath", "S", want)
        left = [p for p, _ in ex.leaves(c.rec("Settings")) if p not in done]
        c.fact("every member of Settings is specified", not left, str(left)) if not left else c.undecided("every member of Settings is specified", str(left))
        c.fact("nothing is written", iolib.log(ex, st) is tm.NIL, tm.show(iolib.log(ex, st)))
        c.fact("always returns", not ex.exits, str(ex.exits)[:300])
