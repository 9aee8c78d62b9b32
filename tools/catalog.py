"""Random catalogs (variables, tasks, schemes) for the control problem specifications."""
import json, random


def matrix(rng, rows, cols, p):
    if p in ("id", "mid"):
        s = 1 if p == "id" else -1
        return [[s if i == j else 0 for j in range(cols)] for i in range(rows)]
    if p == "mult":
        s = rng.choice([2, -2, 4])
        return [[s if i == j else 0 for j in range(cols)] for i in range(rows)]
    if p in ("diag", "pd", "nd"):
        ch = {"diag": [1, -1, 2, -2, 4, -4], "pd": [1, 2, 4], "nd": [-1, -2, -4]}[p]
        return [[rng.choice(ch) if i == j else 0 for j in range(cols)] for i in range(rows)]
    if p == "dsing":
        return [[rng.choice([0, 1, -2]) if i == j else 0 for j in range(cols)] for i in range(rows)]
    m = []
    for i in range(rows):
        k = rng.random()
        if k < 0.15:
            r = [0] * cols
            r[rng.randrange(cols)] = rng.choice([1, -1, 2, -2, 4])
        elif k < 0.2:
            r = [0] * cols
        else:
            r = [rng.choice([-2, -1, 0, 1, 1, 2, 3]) for _ in range(cols)]
        m.append(r)
    return m


def task(rng, dims, kps=(0, 0, 0, 1, 2), maxp=2, aw=True, pz=0.55, bad=0.06, ve=0.0, kind=0, **_):
    nb = rng.choice([1, 1, 1, 2, 2, 3])
    parts = []
    for v, d in enumerate(dims):
        k = rng.random()
        if d == 1 or k < 0.55:
            parts.append((v, 0, d))
        else:
            c = rng.randrange(1, d)
            parts += [(v, 0, c), (v, c, d - c)]
    rng.shuffle(parts)
    parts = parts[:nb]
    kp = rng.choice(kps)
    d = 0 if kp else rng.choice([0, 1])
    p = 0 if rng.random() < pz else rng.randint(1, maxp)
    t = "eq" if p > 0 and not kind and rng.random() >= bad else rng.choice(["eq", "ge", "le", "ds"])
    bound = len(parts) == 1 and rng.random() < 0.75
    rows = parts[0][2] if bound else rng.choice([1, 2, 2, 3])
    bl = []
    for (v, o, n) in parts:
        if bound:
            pr = rng.choice(["id", "mid", "diag", "pd", "nd", "mult", "id", "dsing", "none"])
        elif rows == n and rng.random() < 0.5:
            pr = rng.choice(["id", "mid", "diag", "mult", "dsing"])
        else:
            pr = "none"
        M = matrix(rng, rows, n, pr)
        bl.append(dict(v=v, off=o, len=n, p=pr, M=M, alts=[] if pr in ("id", "mid") else [M] + [matrix(rng, rows, n, pr) for _ in range(2)]))
    lo = [rng.randint(-3, 3) for _ in range(rows)]
    hi = [x + rng.randint(1, 5) for x in lo]
    v = rng.choice([1, 2]) if rng.random() < ve else 0
    return dict(ve=v, t=t, d=d, kp=kp, bl=bl, b=[rng.randint(-2, 2) for _ in range(rows)], lo=lo, hi=hi, p=p,
                w=rng.choice([0, 0, 1, 4, 9]) if p or kind else 0, aw=[rng.choice([1, 4, 9]) for _ in range(rows)] if (aw and (p or kind) and rng.random() < 0.4) else [])


def catalog(rng, **kw):
    dims = rng.choice([[2, 3], [3, 2], [1, 3], [2, 2, 1], [4], [3, 3]])
    nt = rng.randint(4, 7)
    return dict(fail=kw.get('fail', 8), dims=dims, np=rng.choice([1, 1, 2]), schemes=[dict(kind=kw.get("kind", 0), v=v, damp=1 if rng.random() < 0.3 else 0) for v in rng.sample([0, 1, 2], rng.choice([1, 1, 2]))],
                tasks=[task(rng, dims, **kw) for _ in range(nt)])


def write(path, n, seed, **kw):
    rng = random.Random(seed)
    with open(path, "w") as f:
        for _ in range(n):
            f.write(json.dumps(catalog(rng, **kw)) + "\n")
    return path
