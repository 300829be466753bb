"""Builds the SDK of /repo's working tree, plus one harness, with one sanitizer
set. Writes a ninja file per variant under <root>/.build/<variant>; header
dependencies are tracked, so a rebuild only redoes what changed."""
import glob, os, subprocess, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ["-std=c++17", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w",
          "-fno-elide-type", "-pthread"]
VARIANTS = {
    # run-time monitors compiled into the real code
    "asan": dict(cxx="clang++", flags=["-O0", "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread"]),
    "plain": dict(cxx="clang++", flags=["-O1"]),
    "cov": dict(cxx="clang++", flags=["-O0", "-fprofile-instr-generate", "-fcoverage-mapping"]),
}

SERVICES = {"event_manager": "EventManager", "link_registry": "LinkRegistry", "logger": "Logger",
            "resolver": "Resolver", "scheduler": "Scheduler", "time_keeper": "TimeKeeper"}
SIMULATOR_UNITS = {"FactoryCollection.cpp", "Simulator.cpp", "StorageReader.cpp", "StorageWriter.cpp"}


class BuildError(Exception):
    pass


def rel(pattern):
    return sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, pattern)))


def libraries():
    """name -> (sources, libraries it links); the layout of the project's own CMakeLists.txt"""
    xs = rel("src/Xsmp/*.cpp")
    base = os.path.basename
    cdk = rel("src/Smp/*.cpp") + [s for s in xs if base(s) not in SIMULATOR_UNITS | {"LibraryHelper.cpp"}]
    libs = {"xsmp_cdk": (cdk, [])}
    for pkg, cls in SERVICES.items():
        libs["xsmp_" + pkg] = (["src-gen/Xsmp/Services/Xsmp%sGen.cpp" % cls, "src-gen/xsmp_%s.cpp" % pkg,
                                "src-gen/xsmp_%s.pkg.cpp" % pkg, "src/Xsmp/Services/Xsmp%s.cpp" % cls], ["xsmp_cdk"])
    libs["xsmp_services"] = (["src/xsmp_services.cpp", "src/xsmp_services.pkg.cpp"],
                             ["xsmp_cdk"] + ["xsmp_" + p for p in SERVICES])
    libs["xsmp_simulator"] = ([s for s in xs if base(s) in SIMULATOR_UNITS | {"LibraryHelper.cpp"}] +
                              rel("src/Xsmp/Publication/*.cpp"), ["xsmp_cdk"])
    libs["xsmp_tests"] = (rel("src-gen/Xsmp/Tests/*.cpp") + rel("src-gen/Xsmp/Tests/Types/*.cpp") +
                          rel("src/Xsmp/Tests/*.cpp") + ["src-gen/xsmp_tests.cpp", "src-gen/xsmp_tests.pkg.cpp"], ["xsmp_cdk"])
    return libs


FULL = ["xsmp_simulator", "xsmp_services", "xsmp_tests"]


def q(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(variant, targets, jobs=None, verbose=False):
    """targets: dict exe -> dict(src=[absolute or verif-relative], repo_src=[repo-relative objects],
    libs=[library names], defs=[...], gtest=bool). Returns the directory holding the binaries."""
    v = VARIANTS[variant]
    d = os.path.join(OUT, variant)
    os.makedirs(os.path.join(d, "bin"), exist_ok=True)
    flags = [f for f in COMMON if f != "-fno-elide-type"] + v["flags"]
    inc = ["-I" + os.path.join(VERIF, "smp/include"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
           "-I" + os.path.join(REPO, "src-gen"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness/pybind"), "-I" + os.path.join(REPO, "tests"),
           "-idirafter", "/usr/include/python3.12"]
    L = ["ninja_required_version = 1.5", "rule cxx", "  command = %s %s $defs %s -MD -MF $out.d -c $in -o $out" % (v["cxx"], " ".join(flags), " ".join(inc)),
         "  depfile = $out.d", "  deps = gcc",
         "rule so", "  command = %s %s -shared -o $out $in $libs -Wl,-rpath,'$$ORIGIN'" % (v["cxx"], " ".join(flags)),
         "rule exe", "  command = %s %s -rdynamic -o $out $in $libs -ldl -Wl,-rpath,'$$ORIGIN'" % (v["cxx"], " ".join(flags))]
    done, objs, want = set(), set(), []

    def obj(src, defs=()):
        full = src if os.path.isabs(src) else os.path.join(REPO, src)
        o = "obj/" + ("h" + full if os.path.isabs(src) else src).replace("/", "_") + ("_" + "_".join(defs) if defs else "") + ".o"
        if o not in objs:
            objs.add(o)
            L.append("build %s: cxx %s" % (q(o), q(full)))
            if defs:
                L.append("  defs = " + " ".join("-D" + x for x in defs))
        return o
    libs = libraries()

    def closure(names):
        out = []
        for n in names:
            for m in [n] + closure(libs[n][1]):
                if m not in out:
                    out.append(m)
        return out

    def so(name):
        if name in done:
            return
        done.add(name)
        srcs, deps = libs[name]
        for x in deps:
            so(x)
        o = [obj(s) for s in srcs]
        L.append("build bin/lib%s.so: so %s | %s" % (name, " ".join(q(x) for x in o), " ".join("bin/lib%s.so" % x for x in deps)))
        L.append("  libs = -Lbin " + " ".join("-l" + x for x in deps))
    for exe, t in targets.items():
        deps = closure(t.get("libs", []))
        for x in deps:
            so(x)
        o = [obj(s if os.path.isabs(s) else os.path.join(VERIF, s), t.get("defs", ())) for s in t["src"]]
        o += [obj(s) for s in t.get("repo_src", [])]
        if t.get("so"):
            L.append("build bin/%s: so %s | %s" % (exe, " ".join(map(q, o)), " ".join("bin/lib%s.so" % x for x in deps)))
        else:
            L.append("build bin/%s: exe %s | %s" % (exe, " ".join(map(q, o)), " ".join("bin/lib%s.so" % x for x in deps)))
        L.append("  libs = -Lbin -Wl,--no-as-needed " + " ".join("-l" + x for x in deps) + " " + t.get("ldflags", "") + (" -lgtest_main -lgtest" if t.get("gtest") else ""))
        want.append("bin/" + exe)
    open(os.path.join(d, "build.ninja"), "w").write("\n".join(L) + "\n")
    cmd = ["ninja", "-C", d] + (["-j%d" % jobs] if jobs else []) + want
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    if verbose:
        print(r.stdout[-400:])
    return os.path.join(d, "bin")
