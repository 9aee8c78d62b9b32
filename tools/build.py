#!/usr/bin/env python3
"""Builds libtvm (from /repo's working tree) and the conformance drivers of /verif.

usage: build.py [--san] driver...     (no driver: all of them)

Everything goes to /verif/build/<flavour> (git-ignored); ninja keeps it incremental.
The list of library sources is read from /repo/src/CMakeLists.txt (TVM_SOURCES), minus the
one file that needs a vendor QP solver, as the repository's own offline build does.
"""
import os, re, subprocess, sys, fcntl

REPO = os.environ.get("TVM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sources():
    txt = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"set\(TVM_SOURCES(.*?)\)", txt, re.S)
    lst = [s for s in m.group(1).split() if s.endswith(".cpp")]
    return [s for s in lst if not s.endswith("defaultLeastSquareSolver.cpp")]


def drivers():
    d = os.path.join(VERIF, "drivers")
    return sorted(f[:-4] for f in os.listdir(d) if f.endswith(".cpp"))


def includes():
    return f"-I{REPO}/include -I{REPO}/src -I{REPO}/3rd-party -I{VERIF}/drivers -I{VERIF}/drivers/gen -isystem /usr/include/eigen3"


def compile_flags(san):
    flags = "-std=c++17 -w -fPIC -DEIGEN_RUNTIME_NO_MALLOC -DTVM_EXPORTS -UNDEBUG"
    return flags + (" -g1 -O0 -fsanitize=address,undefined -fno-sanitize=null,pointer-overflow,nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer" if san else " -O0 -g0")


def flags(san):
    return compile_flags(san) + " " + includes()


def build(want, san=False, extra=None):
    """extra: (name, [sources], header) additional program, whose sources use a precompiled header"""
    flavour = "san" if san else "dbg"
    out = os.path.join(VERIF, "build", flavour)
    os.makedirs(out, exist_ok=True)
    inc, flags = includes(), compile_flags(san)
    ld = "-fsanitize=address,undefined" if san else ""
    cxx = "ccache g++" if os.environ.get("VERIF_CCACHE") else "g++"
    n = [f"cxx = {cxx}", "rule cc\n  command = $cxx -MD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule ar\n  command = rm -f $out && ar rcs $out $in",
         "rule link\n  command = g++ -fuse-ld=lld $ld -o $out $in -lpthread"]
    objs = []
    for s in sources():
        o = "lib/" + s.replace("/", "_")[:-4] + ".o"
        objs.append(o)
        n.append(f"build {o}: cc {REPO}/src/{s}\n  flags = {flags} {inc}")
    n.append("build libtvm.a: ar " + " ".join(objs))
    for d in drivers():
        n.append(f"build drv/{d}.o: cc {VERIF}/drivers/{d}.cpp\n  flags = {flags} {inc}")
        n.append(f"build {d}: link drv/{d}.o libtvm.a\n  ld = {ld}")
    if extra:
        name, srcs, hdr = extra
        h = os.path.join(VERIF, "drivers/progs", hdr)
        n.append(f"build pch/{hdr}.gch: cc {h}\n  flags = {flags} {inc} -x c++-header")
        xs = []
        for s in srcs:
            o = "progs/" + os.path.basename(s)[:-4] + ".o"
            n.append(f"build {o}: cc {s} | pch/{hdr}.gch\n  flags = -include {out}/pch/{hdr} {flags} {inc} -I{VERIF}/drivers/progs")
            xs.append(o)
        os.makedirs(os.path.join(out, "pch"), exist_ok=True)
        p = os.path.join(out, "pch", hdr)
        if not os.path.exists(p):
            open(p, "w").write(f'#include "{h}"\n')
        n.append(f"build {name}: link " + " ".join(xs) + f" libtvm.a\n  ld = {ld}")
    txt = "\n".join(n) + "\n"
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    p = os.path.join(out, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    targets = want or drivers()
    r = subprocess.run(["ninja", "-C", out] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lock.close()
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    san = "--san" in a
    a = [x for x in a if not x.startswith("--")]
    print(build(a, san))
