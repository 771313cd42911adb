#!/usr/bin/env python3
"""Builds the library under test (from /repo's working tree) together with a harness.

    build.py VARIANT TARGET...

Everything is written below /verif/.build (or $VERIF_BUILD); nothing in /repo or
/opt/vp is touched. The build is incremental (ninja with depfiles) and locked.
Variants:
    asan    AddressSanitizer + UndefinedBehaviorSanitizer (gcc), fatal reports
    tsan    ThreadSanitizer (gcc)
    py      shared library and Python extensions with ASan
"""
import fcntl, glob, os, subprocess, sys, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
COMPAT = "/opt/vp/compat"

SAN = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer -O1 -g1",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer -O1 -g1 -DVERIF_TSAN -Wno-tsan",
    "py": "-fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=all -fno-omit-frame-pointer -O1 -g1 -fPIC",
}
LIBS = ("-labsl_strings -lfmt -lprotobuf -ltbb -lz -lopencv_imgcodecs -lopencv_imgproc -lopencv_core "
        "-labsl_throw_delegate -labsl_raw_logging_internal -labsl_strings_internal -labsl_base -latomic -ldl -lpthread")


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-20000:])
        raise SystemExit(2)
    return p.stdout


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def update(src, dst):
    with open(src, "rb") as f:
        data = f.read()
    try:
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)


def generate(gen):
    """Generates the sources that the repository's own build generates."""
    stage = os.path.join(gen, "natsort-stage")
    os.makedirs(stage, exist_ok=True)
    for f in glob.glob(REPO + "/third-party/natsort/*"):
        with open(f, "rb") as i, open(os.path.join(stage, os.path.basename(f)), "wb") as o:
            o.write(i.read())
    with open(os.path.join(stage, "strnatcmp.h.patch")) as i:
        run(["patch", "-s", "-N"], stdin=i, cwd=stage)
    for f in ("strnatcmp.c", "strnatcmp.h"):
        update(os.path.join(stage, f), os.path.join(gen, "natsort", f))
    pb = os.path.join(gen, "pb-stage")
    os.makedirs(pb, exist_ok=True)
    src = REPO + "/src/mlio/detail/protobuf"
    run(["protoc", "--cpp_out", ":" + pb, "-I", src, src + "/recordio_protobuf.proto"])
    for f in glob.glob(pb + "/*"):
        update(f, os.path.join(gen, "src/mlio/detail/protobuf", os.path.basename(f)))


def ninja_file(variant, out, gen):
    san = SAN[variant]
    defs = "-DMLIO_COMPILE_LIB -DMLIO_BUILD_IMAGE_READER -DMLIO_VERIF -DFMT_SHARED -DFMT_DEPRECATED_OSTREAM -D_GLIBCXX_ASSERTIONS"
    if variant != "py":
        defs += " -DMLIO_STATIC_LIB"
    inc = (f"-I{REPO}/include -I{REPO}/src -isystem {gen}/src -isystem {gen}/natsort "
           f"-isystem {COMPAT}/include -isystem /usr/include/opencv4 -isystem {REPO}/third-party/dlpack/include")
    L = ["ninja_required_version = 1.5",
         f"flags = -std=c++17 {san} {defs} {inc} -pthread -w", "xflags = ",
         "rule cxx\n  command = g++ $flags $xflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out",
         f"rule cxx_plain\n  command = g++ -std=c++17 {san} -w -c $in -o $out\n  description = CXX $out",
         f"rule cc\n  command = gcc {san} -I{gen}/natsort -w -c $in -o $out\n  description = CC $out",
         f"rule link\n  command = g++ {san} -fuse-ld=gold -pthread -o $out $in {LIBS}\n  description = LINK $out",
         f"rule solink\n  command = g++ {san} -shared -Wl,-rpath,'$$ORIGIN':'$$ORIGIN/..' -pthread -o $out $in $xl {LIBS}\n  description = SOLINK $out"]
    objs, heavy, rest = [], [], []
    srcs = sorted(glob.glob(REPO + "/src/mlio/**/*.cc", recursive=True))
    srcs += sorted(glob.glob(gen + "/src/mlio/detail/protobuf/*.cc"))
    # The slow ones first.
    srcs.sort(key=lambda p: -os.path.getsize(p))
    for s in srcs:
        base = gen if s.startswith(gen) else REPO
        o = "lib/" + os.path.relpath(s, base).replace("/", "_") + ".o"
        objs.append(o)
        rest.append(f"build {o}: cxx {s}")
    rest.append(f"build lib/strnatcmp.o: cc {gen}/natsort/strnatcmp.c")
    rest.append(f"build lib/compat.o: cxx_plain {COMPAT}/absl_string_view.cc")
    objs += ["lib/strnatcmp.o", "lib/compat.o"]
    if variant == "py":
        ext = sysconfig.get_config_var("EXT_SUFFIX")
        pyinc = "-isystem " + sysconfig.get_paths()["include"]
        pb = next((p for p in ("/usr/include", "/usr/lib/python3/dist-packages/pybind11/include") if os.path.exists(p + "/pybind11/pybind11.h")), "/usr/include")
        if pb != "/usr/include":
            pyinc += " -isystem " + pb
        rest.append(f"build mlio/libmlio.so: solink {' '.join(objs)}\n  xl = -Wl,-soname,libmlio.so")
        P = REPO + "/src/mlio-py/mlio"
        core = sorted(glob.glob(P + "/core/*.cc"), key=lambda p: -os.path.getsize(p))
        ins = sorted(glob.glob(P + "/contrib/insights/*.cc")) + sorted(glob.glob(P + "/contrib/insights/hll/*.cc"))
        # pybind11 multiplies the dimensions of a shape without regard to overflows.
        for name, lst, x in (("mlio/_core" + ext, core, "-fno-sanitize=signed-integer-overflow"), ("mlio/contrib/insights" + ext, ins, f" -isystem {P}/contrib/insights/hll -I{P}/contrib/insights")):
            po = []
            for s in lst:
                o = "py/" + os.path.relpath(s, P).replace("/", "_") + ".o"
                po.append(o)
                heavy.append(f"build {o}: cxx {s}\n  xflags = {pyinc} -O0 -DNDEBUG -fvisibility=hidden -I{REPO}/src/mlio-py {x}")
            rest.append(f"build {name}: solink {' '.join(po)} | mlio/libmlio.so\n  xl = -Lmlio -l:libmlio.so")
        rest.append(f"build python: phony mlio/_core{ext} mlio/contrib/insights{ext}")
    else:
        com = []
        # The S3 sources once more, for C32: with S3 support, on a stand-in for the AWS SDK.
        fake = f"-I{VERIF}/harness/fakeaws -DMLIO_BUILD_S3"
        s3 = {}
        for s in srcs:
            with open(s, errors="replace") as f:
                if "MLIO_BUILD_S3" in f.read():
                    o = "lib/" + os.path.relpath(s, gen if s.startswith(gen) else REPO).replace("/", "_") + ".o"
                    s3[o] = "s3/" + os.path.basename(o)
                    rest.append(f"build {s3[o]}: cxx {s}\n  xflags = {fake}")
        # The Arrow integration, for C33: on a stand-in for Apache Arrow.
        A = REPO + "/src/mlio-py/mlio/integ/arrow"
        farrow = f"-I{VERIF}/harness/fakearrow -I{A}"
        arrow = []
        for s in sorted(glob.glob(A + "/*.cc")):
            if os.path.basename(s) != "module.cc":
                arrow.append("arrow/" + os.path.basename(s) + ".o")
                rest.append(f"build {arrow[-1]}: cxx {s}\n  xflags = {farrow}")
        for s in sorted(glob.glob(VERIF + "/harness/*.cc")):
            b = os.path.basename(s)[:-3]
            o = f"h/{b}.o"
            heavy.append(f"build {o}: cxx {s}\n  xflags = -I{VERIF}/harness" + (" " + fake if b == "C32" else "") + (" " + farrow if b == "C33" else ""))
            if b.startswith("lib_"):
                com.append(o)
        for s in sorted(glob.glob(VERIF + "/harness/*.cc")):
            b = os.path.basename(s)[:-3]
            if not b.startswith("lib_"):
                lib = [s3.get(o, o) for o in objs] if b == "C32" else objs + arrow if b == "C33" else objs
                rest.append(f"build {b}: link h/{b}.o {' '.join(com)} {' '.join(lib)}")
    text = "\n".join(L + heavy + rest) + "\n"
    write_if_changed(os.path.join(out, "build.ninja"), text)


def copy_python(out):
    src = REPO + "/src/mlio-py/mlio"
    keep = set()
    for p in glob.glob(src + "/**/*.py", recursive=True):
        d = os.path.join(out, "mlio", os.path.relpath(p, src))
        keep.add(d)
        update(p, d)
    for d in glob.glob(out + "/mlio/**/*.py", recursive=True):
        if d not in keep:
            os.unlink(d)
    write_if_changed(out + "/mlio-0.9.0.dist-info/METADATA", "Metadata-Version: 2.1\nName: mlio\nVersion: 0.9.0\n")


def build(variant, targets):
    out = os.path.join(BUILD, variant)
    gen = os.path.join(BUILD, "gen-" + variant)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        generate(gen)
        ninja_file(variant, out, gen)
        env = dict(os.environ, LC_ALL="C.UTF-8")
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "CPATH"):
            env.pop(k, None)
        run(["ninja", "-C", out, "-j", str(max(os.cpu_count() or 4, 2)), *targets], env=env)
        if variant == "py":
            copy_python(out)
    return out


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
