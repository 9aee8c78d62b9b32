"""Random catalogs for the specification Subst: variables, tasks, substitutions with a known rank, points."""
import itertools, json, random
from fractions import Fraction


def rank(M):
    M = [[Fraction(x) for x in r] for r in M]
    r = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c] / M[r][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
    return r


def nullspace(M, n):
    """Integer basis of the vectors v with M v = 0."""
    M = [[Fraction(x) for x in r] for r in M]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        f = M[r][c]
        M[r] = [a / f for a in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    res = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fraction(0)] * n
        v[c] = Fraction(1)
        for i, p in enumerate(piv):
            v[p] = -M[i][c]
        d = 1
        for x in v:
            d = d * x.denominator // __import__("math").gcd(d, x.denominator)
        v = [int(x * d) for x in v]
        if max(map(abs, v)) <= 12:
            res.append(v)
    return res


class Cat:
    def __init__(self, rng, kind):
        self.rng = rng
        self.dims = [rng.choice([1, 2, 2, 3, 3]) for _ in range(rng.choice([3, 3, 4, 4, 5]))]
        self.off = [sum(self.dims[:k]) for k in range(len(self.dims))]
        self.N = sum(self.dims)
        # the parts of each variable that can be substituted, or used in a task
        self.parts = []
        for v, d in enumerate(self.dims):
            c = rng.randrange(1, d) if d > 1 and rng.random() < 0.35 else 0
            self.parts.append([(v, 0, c), (v, c, d - c)] if c else [(v, 0, d)])
        self.tasks, self.subs = [], []
        self.chain, self.used = False, []

    def row(self, n):
        return [self.rng.choice([-2, -1, -1, 0, 0, 1, 1, 2]) for _ in range(n)]

    def block(self, m, n, k):
        rng = self.rng
        if k in ("id", "mid"):
            return [[(1 if k == "id" else -1) if i == j else 0 for j in range(n)] for i in range(m)]
        if k == "diag":
            return [[rng.choice([1, -1, 2, -2]) if i == j else 0 for j in range(n)] for i in range(m)]
        return [self.row(n) for _ in range(m)]

    def dense(self, t, s=1):
        """Rows of a task on all columns, when its scale is s (which does not apply to the constant blocks)."""
        m = len(t["b"])
        A = [[0] * self.N for _ in range(m)]
        for b in t["bl"]:
            for i in range(m):
                for j in range(b["len"]):
                    A[i][self.off[b["v"]] + b["off"] + j] += (1 if b["cst"] else s) * b["M"][i][j]
        return A

    def cols(self, xs):
        return [self.off[v] + o + j for (v, o, n) in xs for j in range(n)]

    def touches(self, t, x):
        return any(b["v"] == x[0] and b["off"] < x[1] + x[2] and x[1] < b["off"] + b["len"] for b in t["bl"])

    def mk(self, t, bl, m, p=0, **kw):
        lo = [self.rng.randint(-3, 3) for _ in range(m)]
        r = dict(ve=0, t=t, d=0, kp=0, bl=bl, b=[0] * m, lo=lo, hi=[x + self.rng.randint(1, 5) for x in lo], p=p, w=0, aw=[])
        r.update(kw)
        for b in bl:
            b["cst"] = b["p"] in ("id", "mid") or self.rng.random() < 0.25  # the identity is always constant
        return r

    def others(self, banned, n):
        """Blocks of other variables: whole, or one of their parts."""
        rng = self.rng
        c = [v for v in range(len(self.dims)) if v not in banned]
        rng.shuffle(c)
        if self.chain: # prefer the variables of the other substitutions
            c.sort(key=lambda v: v not in self.used)
            n += 1
        res = []
        for v in c[:n]:
            ps = self.parts[v]
            whole = v not in self.wholeonly and (len(ps) == 1 or rng.random() < 0.5) or v in self.wholeonly
            res.append((v, 0, self.dims[v]) if whole else rng.choice(ps))
        return res

    def substitution(self, xs):
        """A substitution of the variables xs, or None."""
        rng = self.rng
        n = sum(x[2] for x in xs)
        kind = rng.choice(["id", "mid", "diag", "full", "full", "full", "def", "rows"])
        if len(xs) > 1 and kind in ("id", "mid", "diag", "rows"):
            kind = "full"
        calc = dict(k="auto", nnz=[], zero=[])
        nc = 1
        if kind in ("id", "mid", "diag"):
            m, r = n, n
        elif kind == "rows":
            idx = list(range(n))
            rng.shuffle(idx)
            a = rng.randint(1, n)
            nnz = sorted(idx[:a])
            zero = sorted(rng.sample(idx[a:], rng.randint(0, min(1, n - a))))
            m, r = len(nnz) + len(zero), len(nnz)
            calc = dict(k="rows", nnz=nnz, zero=zero)
            if not zero and nnz == list(range(nnz[0], nnz[0] + len(nnz))) and rng.random() < 0.5:
                calc["k"] = "range"
        elif kind == "def":
            m = rng.randint(1, n)
            r = rng.randint(1 if m > 1 else 0, m)
            if r == 0:
                r = 1
        else:
            m = r = rng.randint(1, max(1, n - 1) if self.chain and rng.random() < 0.8 else n)
        if m > 1 and kind in ("full", "def") and rng.random() < 0.35:
            nc = 2
        # matrix in front of xs
        if kind in ("id", "mid", "diag"):
            A = self.block(m, n, kind)
        elif kind == "rows":
            pres = sorted(calc["nnz"] + calc["zero"])
            A = [[rng.choice([1, -1, 2]) if j == q and q in calc["nnz"] else 0 for j in range(n)] for q in pres]
        else:
            B = [self.row(n) for _ in range(r)]
            A = B + [[sum(c * b[j] for c, b in zip(cs, B)) for j in range(n)] for cs in ([rng.choice([-1, 0, 1, 2]) for _ in range(r)] for _ in range(m - r))]
            rng.shuffle(A)
            if max(abs(x) for q in A for x in q) > 5:
                return None
        if rank(A) != r:
            return None
        cut = rng.randint(1, m - 1) if nc == 2 else m
        tt = []
        oth = self.others({x[0] for x in xs if x[1] == 0 and x[2] == self.dims[x[0]] or True}, rng.choice([0, 1, 1, 2, 2]))
        for lo, hi in ((0, cut), (cut, m)):
            if lo == hi:
                continue
            bl, c0 = [], 0
            for x in xs:
                blk = [q[c0:c0 + x[2]] for q in A[lo:hi]]
                c0 += x[2]
                if nc == 2 and all(e == 0 for q in blk for e in q) and rng.random() < 0.7 and len(xs) > 1:
                    continue
                bl.append(dict(v=x[0], off=x[1], len=x[2], p=kind if kind in ("id", "mid", "diag") else "none", M=blk))
            # a constraint on the whole variable when a part of it is substituted
            for x in xs:
                if x[2] < self.dims[x[0]] and rng.random() < 0.6 and len(xs) == 1 and kind == "full" and bl:
                    d = self.dims[x[0]]
                    M = [[0] * d for _ in range(hi - lo)]
                    for i in range(hi - lo):
                        for j in range(d):
                            M[i][j] = bl[0]["M"][i][j - x[1]] if x[1] <= j < x[1] + x[2] else rng.choice([-1, 0, 1])
                    bl[0] = dict(v=x[0], off=0, len=d, p="none", M=M)
            if not bl:
                return None
            for y in oth:
                if rng.random() < 0.85:
                    bl.append(dict(v=y[0], off=y[1], len=y[2], p="none", M=[self.row(y[2]) for _ in range(hi - lo)]))
            rng.shuffle(bl)
            tt.append(self.mk("eq", bl, hi - lo))
        return tt, dict(x=[list(x) for x in xs], rank=r if (r != m or rng.random() < 0.3) else -1, calc=calc), A

    def groups(self, act):
        """Strongly connected components of the substitutions act."""
        dep = {i: {j for j in act if j != i and any(self.touches(self.tasks[t], x) for t in self.subs[i]["c"] for x in map(tuple, self.subs[j]["x"]))} for i in act}
        reach = {}
        for i in act:
            seen, todo = set(), [i]
            while todo:
                for k in dep[todo.pop()]:
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            reach[i] = seen
        res, done = [], set()
        for i in act:
            if i not in done:
                g = {i} | {j for j in act if j in reach[i] and i in reach[j]}
                done |= g
                res.append(sorted(g))
        return res

    def scalable(self, t):
        """CanScale of the specification, for the tasks whose scale matters to the rank."""
        return any(b["cst"] for b in t["bl"]) and all(b["cst"] or b["p"] in ("none", "diag") for b in t["bl"]) and not all(b["cst"] for b in t["bl"])

    def valid(self):
        """The rank of every group that a subset of the substitutions can make is the one that is expected by tvm."""
        for k in range(1, len(self.subs) + 1):
            for act in itertools.combinations(range(len(self.subs)), k):
                for g in self.groups(act):
                    ts = [t for s in g for t in self.subs[s]["c"]]
                    scales = list(itertools.product(*[(1, -1, 2, -2) if self.scalable(self.tasks[t]) else (1,) for t in ts]))
                    if len(scales) > 64:
                        return False
                    xs = [tuple(x) for s in g for x in self.subs[s]["x"]]
                    c = self.cols(xs)
                    ranks = {rank([[r[j] for j in c] for t, s in zip(ts, sc) for r in self.dense(self.tasks[t], s)]) for sc in scales}
                    if len(ranks) > 1:
                        return False
                    R = ranks.pop()
                    if len(g) == 1:
                        want = self.r[g[0]]
                    else:
                        want = 0
                        for s in g:
                            ri = self.r[s]
                            for s2 in g:
                                if s2 != s:
                                    for x in map(tuple, self.subs[s2]["x"]):
                                        mi = sum(len(self.tasks[t]["b"]) for t in self.subs[s]["c"] if any(b["v"] == x[0] and b["off"] <= x[1] and x[1] + x[2] <= b["off"] + b["len"] for b in self.tasks[t]["bl"]))
                                        ri += min(mi, x[2])
                            want += min(ri, sum(len(self.tasks[t]["b"]) for t in self.subs[s]["c"]))
                    if R != want or want > len(c):
                        return False
        return True


def catalog(rng, kind=0):
    while True:
        c = Cat(rng, kind)
        nv = len(c.dims)
        order = list(range(nv))
        rng.shuffle(order)
        c.r = []
        # variables substituted as a whole must not be used by parts
        todo, pool = [], []
        for v in order[:max(1, nv - 1)]:
            for q in c.parts[v]:
                pool.append(q)
        rng.shuffle(pool)
        c.chain = rng.random() < 0.35
        n = 3 if c.chain else rng.choice([1, 1, 2, 2, 3])
        while pool and len(todo) < n:
            xs = [pool.pop()]
            if pool and rng.random() < 0.25:
                xs.append(pool.pop())
            todo.append(xs)
        c.wholeonly = {x[0] for xs in todo for x in xs if len(c.parts[x[0]]) == 1}
        ok = True
        for xs in todo:
            s = c.substitution(xs)
            if s is None:
                ok = False
                break
            tt, sub, A = s
            c.used += [x[0] for x in xs]
            sub["c"] = list(range(len(c.tasks), len(c.tasks) + len(tt)))
            c.tasks += tt
            c.r.append(rank(A))
            c.subs.append(sub)
            # every variable is in a constraint and every constraint has a variable
            if not all(any(any(b["v"] == x[0] and b["off"] <= x[1] and x[1] + x[2] <= b["off"] + b["len"] for b in t["bl"]) for t in tt) for x in xs) \
               or not all(any(any(b["v"] == x[0] and b["off"] <= x[1] and x[1] + x[2] <= b["off"] + b["len"] for x in xs) for b in t["bl"]) for t in tt):
                ok = False
                break
        if not ok or not c.valid():
            continue
        c.chain = False
        # other tasks
        for _ in range(rng.randint(2, 5)):
            k = rng.choice(["obj", "obj", "eq", "in", "in", "bound", "bound"])
            if k == "bound":
                y = c.others(set(), 1)[0]
                pr = rng.choice(["id", "mid", "diag"])
                c.tasks.append(c.mk(rng.choice(["ge", "le", "ds", "ds"]), [dict(v=y[0], off=y[1], len=y[2], p=pr, M=c.block(y[2], y[2], pr))], y[2]))
                continue
            ys = c.others(set(), rng.choice([1, 2, 2, 3]))
            m = rng.choice([1, 2, 2, 3])
            bl = [dict(v=y[0], off=y[1], len=y[2], p="none", M=[c.row(y[2]) for _ in range(m)]) for y in ys]
            for b in bl:
                if b["len"] == m and rng.random() < 0.3:
                    b["p"] = rng.choice(["id", "mid", "diag"])
                    b["M"] = c.block(m, m, b["p"])
            if k == "obj":
                c.tasks.append(c.mk("eq", bl, m, p=1, w=rng.choice([0, 0, 1, 4]), aw=[rng.choice([1, 4]) for _ in range(m)] if rng.random() < 0.3 else []))
            else:
                c.tasks.append(c.mk("eq" if k == "eq" else rng.choice(["ge", "le", "ds"]), bl, m))
        sub = [r for s in c.subs for t in s["c"] for r in c.dense(c.tasks[t])]
        eqs = [r for t in c.tasks if t["t"] == "eq" and t["p"] == 0 for r in c.dense(t)]
        dirs = [[0] * c.N]
        for M in (sub, eqs):
            for v in nullspace(M, c.N):
                for _ in range(2):
                    dirs.append([rng.choice([-1, 1]) * x for x in v])
            ns = nullspace(M, c.N)
            for _ in range(3):
                if ns:
                    cs = [rng.choice([-1, 0, 1]) for _ in ns]
                    dirs.append([sum(a * v[j] for a, v in zip(cs, ns)) for j in range(c.N)])
        dirs = [d for d in dirs if max(map(abs, d)) <= 20]
        for _ in range(4):
            d = [0] * c.N
            d[rng.randrange(c.N)] = rng.choice([-1, 1])
            dirs.append(d)
        base = [[rng.randint(-2, 2) for _ in range(c.N)] for _ in range(3)]
        kinds = rng.sample([0, 0, 0, 1], rng.choice([1, 1, 2]))
        return dict(dims=c.dims, tasks=c.tasks, subs=c.subs, dirs=dirs, base=base,
                    schemes=[dict(kind=k, v=rng.choice([0, 1, 2]) if k == 0 else rng.choice([0, 1]), damp=1 if rng.random() < 0.25 else 0) for k in kinds])


def write(path, n, seed, **kw):
    rng = random.Random(seed)
    with open(path, "w") as f:
        for _ in range(n):
            f.write(json.dumps(catalog(rng, **kw)) + "\n")
    return path


if __name__ == "__main__":
    import collections
    rng = random.Random(1)
    cs = [catalog(rng) for _ in range(300)]
    print(collections.Counter(len(c["subs"]) for c in cs), collections.Counter(sum(c["dims"]) for c in cs))
    print(collections.Counter(s["calc"]["k"] for c in cs for s in c["subs"]), collections.Counter(s["rank"] for c in cs for s in c["subs"]))
    print(collections.Counter((len(s["c"]), len(s["x"])) for c in cs for s in c["subs"]))
