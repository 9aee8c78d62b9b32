"""C15: affine expressions and relations (spec/Affine.tla).

The expressions come from the specification as trees; each tree becomes a C++ function written with the operators of the
library (numbers are taken from arguments, so that a tree is replayed with several sets of numbers)."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
import build as builder
import mbv

OPS = dict(eq="({f} == {r})", eqr="({r} == {f})", ge="({f} >= {r})", le="({f} <= {r})", ger="({r} >= {f})", ler="({r} <= {f})",
           lmu="({r} <= {f} <= {q})", uml="({r} >= {f} >= {q})")


class Program:
    """C++ text of a tree, and the numbers it takes in the order of its text."""

    def __init__(self, c):
        self.M, self.V, self.S, self.used, self.lets = [], [], [], [], []
        e, var = self.expr(c["e"])
        n = c["n"]
        fun = f"std::make_shared<tvm::function::IdentityFunction>({e})" if var else f"std::make_shared<BLF>({e})"
        if n == "fn":
            body = f"return made({fun});"
        else:
            r = self.rhs(c["r"])
            q = self.rhs(c["q"]) if n in ("lmu", "uml") else ""
            if c["on"] == "expr":
                f, pre = e, ""
            else:
                ty = dict(blf=None, lin="std::shared_ptr<tvm::function::abstract::LinearFunction>", fun="tvm::FunctionPtr")[c["on"]]
                pre, f = f"{ty or 'auto'} f = {fun};\n  ", "f"
            body = pre + "return made(" + OPS[n].format(f=f, r=r, q=q) + ");"
        self.text = "\n  ".join(self.lets + [body])

    def slot(self, lst, nm, v):
        lst.append(v)
        return f"d.{nm}[{len(lst) - 1}]"

    def mat(self, e):
        k = e["k"]
        if k == "m":
            return self.slot(self.M, "M", e["v"])
        if k == "mi":
            return f"Eigen::MatrixXd::Identity({e['r']}, {e['c']})"
        if k in ("mm", "ma", "mb"):
            l = self.mat(e["l"])
            return f"({l} {dict(mm='*', ma='+', mb='-')[k]} {self.mat(e['o'])})"
        if k == "mt":
            return self.mat(e["e"]) + ".transpose()"
        if k == "ms":
            s = self.slot(self.S, "S", e["s"])
            return f"({s} * {self.mat(e['e'])})"
        if k == "mn":
            return f"(-{self.mat(e['e'])})"
        if k == "md":
            v = self.slot(self.V, "V", e["v"])
            return f"({v}.asDiagonal() * {self.mat(e['e'])})"
        raise mbv.CheckError("unknown matrix " + k)

    def vec(self, e):
        k = e["k"]
        if k == "v":
            return self.slot(self.V, "V", e["v"])
        if k == "vc":
            return self.slot(self.V, "V", [e["s"]] * (e["n"] + 1)) + f".head({e['n']})"
        if k in ("va", "vb"):
            l = self.vec(e["l"])
            return f"({l} {'+' if k == 'va' else '-'} {self.vec(e['o'])})"
        if k == "vs":
            s = self.slot(self.S, "S", e["s"])
            return f"({s} * {self.vec(e['e'])})"
        if k == "vn":
            return f"(-{self.vec(e['e'])})"
        if k == "vp":
            l = self.mat(e["l"])
            return f"({l} * {self.vec(e['o'])})"
        raise mbv.CheckError("unknown vector " + k)

    def rhs(self, e):
        return self.slot(self.S, "S", e["s"]) if e["k"] == "num" else self.vec(e)

    def expr(self, e):
        """(text, is it a variable)"""
        k = e["k"]
        if k == "x":
            self.used.append(e["p"])
            return (f"tmp(v.x[{e['p']}])" if e["t"] else f"v.x[{e['p']}]"), True
        if k == "neg":
            return f"(-{self.expr(e['e'])[0]})", False
        if k == "scl":
            s = self.slot(self.S, "S", e["s"])
            return f"({s} * {self.expr(e['e'])[0]})", False
        if k == "mul":
            m = self.mat(e["l"])
            return f"({m} * {self.expr(e['e'])[0]})", False
        if k in ("add", "sub"):
            l = self.expr(e["l"])[0]
            return f"({l} {'+' if k == 'add' else '-'} {self.expr(e['o'])[0]})", False
        if k in ("vadd", "vsub"):
            v = self.vec(e["v"])
            return f"({v} {'+' if k == 'vadd' else '-'} {self.expr(e['e'])[0]})", False
        if k in ("addv", "subv"):
            x = self.expr(e["e"])[0]
            return f"({x} {'+' if k == 'addv' else '-'} {self.vec(e['v'])})", False
        if k == "let":
            x, var = self.expr(e["e"])
            n = f"e{len(self.lets)}"
            self.lets.append(f"auto {n} = {x};")
            return n, var
        raise mbv.CheckError("unknown expression " + k)


def source(items):
    return '#include "affine.h"\n' + "".join(f"static Made p{k}(const D & d, const X & v)\n{{\n  {x}\n}}\nstatic Reg r{k}({k}, p{k});\n" for x, k in items)


def refused(d, items, n):
    """The programs that the compiler refuses: Eigen does not support every product of its own expressions."""
    flags = f"-include {builder.VERIF}/build/dbg/pch/affine.h " + builder.flags(False)

    def one(x):
        p = os.path.join(d, f"one{x[1]}.cc")
        open(p, "w").write(source([x]))
        r = subprocess.run(f"g++ {flags} -I{builder.VERIF}/drivers/progs -fsyntax-only -x c++ {p}", shell=True, capture_output=True)
        os.remove(p)
        return r.returncode != 0
    def fails(f):
        p = os.path.join(d, f"aff{f}.cpp")
        return subprocess.run(f"g++ {flags} -I{builder.VERIF}/drivers/progs -fsyntax-only {p}", shell=True, capture_output=True).returncode != 0
    with ThreadPoolExecutor(mbv.NCPU) as ex:
        bad = list(ex.map(fails, range(n)))
        items = [x for f in range(n) if bad[f] for x in items[f::n]]
        return {x[1] for x, bad in zip(items, ex.map(one, items)) if bad}


def prepare(ck, traces, san):
    texts = {}
    for t in traces:
        for c in t["c"]:
            if c["op"] == "make":
                p = Program(c)
                c["prog"] = texts.setdefault(p.text, len(texts))
                c["M"], c["V"], c["S"], c["used"] = p.M, p.V, p.S, sorted(set(p.used))
    d = os.path.join(builder.VERIF, "build", "work", "affine" + ("-san" if san else ""))
    os.makedirs(d, exist_ok=True)
    items = sorted(texts.items(), key=lambda x: -len(x[0]))
    n = max(1, min(len(items), mbv.NCPU * (6 if ck.thorough else 1)))

    def make():
        srcs = [os.path.join(builder.VERIF, "drivers/progs/affine.cpp")]
        for f in range(n):
            s, p = source(items[f::n]), os.path.join(d, f"aff{f}.cpp")
            if not os.path.exists(p) or open(p).read() != s:
                open(p, "w").write(s)
            srcs.append(p)
        ck._built["affine", san] = os.path.join(builder.build(["affine"], san, ("affine", srcs, "affine.h")), "affine")
    try:
        make()
    except SystemExit:
        bad = refused(d, items, n)
        if not bad or len(bad) * 10 > len(items):
            raise
        ck.notes.append(f"{len(bad)} programs that do not compile are left out")
        traces[:] = [t for t in traces if not any(c.get("prog") in bad for c in t["c"])]
        items = [x for x in items if x[1] not in bad]
        make()
    ck.notes.append(f"{len(items)} different programs")


def run(ck):
    tr = ck.sim_traces("AffineGen", "AffineSim.cfg", num=ck.q(160, 1600), depth=40)
    prepare(ck, tr, False)
    ck.conform("affine", tr, "AffineTrace", "AffineTrace.cfg", label="random expressions")
    if ck.thorough and not ck.violations:
        few = tr[::4]
        prepare(ck, few, True)
        ck.conform("affine", few, "AffineTrace", "AffineTrace.cfg", label="random expressions, sanitizers", san=True)
