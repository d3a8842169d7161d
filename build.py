#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree (all of src/, not only the part the stock build
compiles here), together with the virtual MPI, the explorer and one check program.
usage: build.py VARIANT CHECK [CHECK...]      VARIANT: dbg | rel | asan
"""
import fcntl, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
BD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
FLAGS = {
    "dbg": ("-O1 -g1", 1),
    "rel": ("-O1 -g1", 0),
    "asan": ("-O1 -g1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr,nonnull-attribute,pointer-overflow,shift -fno-sanitize-recover=all -fno-omit-frame-pointer", 1),
}
SKIP = ("t8_with_vtk", "t8_cad/", "geometry_cad", "mesh_deformation")

def gen(variant, checks):
    opt, debug = FLAGS[variant]
    bdir = os.path.join(BD, variant)
    os.makedirs(bdir, exist_ok=True)
    srcs = []
    for root, _, fs in os.walk(os.path.join(R, "src")):
        for x in fs:
            p = os.path.join(root, x)
            if x.endswith((".c", ".cxx")) and not any(s in p for s in SKIP):
                srcs.append(p)
    D = ("-DT8_CC=\\\"gcc\\\" -DT8_CFLAGS=\\\"\\\" -DT8_CMAKE_BUILD -DT8_CXX=\\\"g++\\\" -DT8_CXXFLAGS=\\\"\\\" "
         f"-DT8_ENABLE_DEBUG={debug} -DT8_ENABLE_MPI=1 -DT8_ENABLE_MPIIO=1 -DT8_LDFLAGS=\\\"\\\" -DT8_LIBS=\\\"\\\" "
         "-DT8_PACKAGE_STRING=\\\"t8\\\" -DT8_TEST_LEVEL_INT=0 -DT8_VERSION=\\\"4.0.0\\\" -DT8_VERSION_MAJOR=4 "
         "-DT8_VERSION_MINOR=0 -DT8_VERSION_PATCH=0 -DT8_VERSION_POINT=4.0.0 -DOMPI_SKIP_MPICXX")
    if debug == 0:
        D = D.replace("-DT8_ENABLE_DEBUG=0", "-DT8_ENABLE_DEBUG=0 -DNDEBUG")
    L = []
    L.append(f"flags = {opt} -fPIC -I{V}/shim/include -I{R}/src -I{R} -I{V} "
             f"-isystem /usr/lib/x86_64-linux-gnu/openmpi/include {D} -w")
    san = "-fsanitize=address,undefined" if variant == "asan" else ""
    L.append("rule cxx\n command = g++ -std=gnu++20 -MMD -MF $out.d $flags -c $in -o $out\n depfile=$out.d\n deps=gcc")
    L.append("rule cc\n command = gcc -std=gnu11 -MMD -MF $out.d $flags -c $in -o $out\n depfile=$out.d\n deps=gcc")
    L.append("rule ar\n command = rm -f $out && ar rcs $out $in")
    L.append(f"rule link\n command = g++ -no-pie {san} -o $out $in -Wl,--wrap=sc_abort_verbose -Wl,--wrap=sc_abort_verbosef -Wl,--wrap=sc_malloc -Wl,--wrap=sc_calloc -Wl,--wrap=sc_realloc -Wl,--wrap=sc_strdup -Wl,--wrap=sc_free "
             "-l:libp4est.a -l:libsc.a -lz -lpthread -ldl -lm")
    objs = []
    for s in sorted(srcs):
        o = "obj/" + os.path.relpath(s, R).replace("/", "_") + ".o"
        objs.append(o)
        L.append(f"build {o}: {'cc' if s.endswith('.c') else 'cxx'} {s}")
    L.append("build libt8.a: ar " + " ".join(objs))
    fw = []
    for s in ("mc/mc.cxx", "vmpi/vmpi.cxx", "vmpi/syms.c", "hx/hx.cxx"):
        o = "obj/fw_" + s.replace("/", "_") + ".o"
        fw.append(o)
        L.append(f"build {o}: {'cc' if s.endswith('.c') else 'cxx'} {V}/{s}")
    for c in checks:
        L.append(f"build obj/{c}.o: cxx {V}/checks/{c}.cxx")
        L.append(f"build {c}: link obj/{c}.o {' '.join(fw)} libt8.a")
    txt = "\n".join(L) + "\n"
    f = os.path.join(bdir, "build.ninja")
    old = open(f).read() if os.path.exists(f) else None
    if old != txt:
        open(f, "w").write(txt)
    return bdir

def all_checks():
    return sorted(f[:-4] for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".cxx"))

def build(variant, targets):
    os.makedirs(os.path.join(BD), exist_ok=True)
    with open(os.path.join(BD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bdir = gen(variant, all_checks())
        r = subprocess.run(["ninja", "-C", bdir] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            lines = [l for l in r.stdout.splitlines() if not l.startswith("[")]
            sys.stderr.write("\n".join(lines[-60:]) + "\n")
        return r.returncode, bdir

if __name__ == "__main__":
    rc, _ = build(sys.argv[1], sys.argv[2:])
    sys.exit(2 if rc else 0)
