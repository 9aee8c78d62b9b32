"""Model-based verification library: TLC runs, generation of command sequences from the
specifications, replay on the real code by the C++ drivers, validation of the recorded traces."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder

SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, samples=[], models=[], batches=[])
        self.assumptions = []
        self.violations = []
        self.notes = []
        self.nrun = 0
        self._built = {}

    thorough = property(lambda s: s.tier == "thorough")

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, args=(), workers=None, timeout=800, heap="6g", tag=None):
        """Runs TLC on spec/<module>.tla with spec/<cfg>."""
        if tag is None:
            self.nrun += 1
            tag = self.nrun
        meta = os.path.join(self.work, f"tlc{tag}")
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", TLAJAR, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU), "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        out = os.path.join(self.work, f"tlc{tag}.out")
        t = time.time()
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        txt = open(out, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return dict(rc=rc, out=txt, file=out, generated=gen, distinct=dis, wall=round(time.time() - t, 2))

    def model(self, module, cfg, **kw):
        """Exhaustive model checking of the specification itself (its invariants and properties)."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise CheckError(f"model checking of {module}/{cfg} failed (rc={r['rc']}):\n" + r["out"][-3000:])
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["models"].append(dict(spec=module, cfg=cfg, distinct=r["distinct"], generated=r["generated"], wall_s=r["wall"], exhaustive=True))
        return r

    @staticmethod
    def _lines(txt, tag):
        res = []
        pre = '"' + tag + " "
        for l in txt.splitlines():
            if l.startswith(pre) and l.endswith('"'):
                res.append(json.loads(l)[len(tag) + 1:])
        return res

    def graph_traces(self, module, cfg, env=None, maxlen=40, limit=None, **kw):
        """Command sequences that together take every transition of the (finite) model.
        The model's ACTION_CONSTRAINT prints lines 'TR' [src, cmd, dst, cfg]."""
        r = self.tlc(module, cfg, env=env, workers=1, **kw)
        if r["rc"] != 0:
            raise CheckError(f"generation {module}/{cfg} failed:\n" + r["out"][-3000:])
        trans = [json.loads(x) for x in self._lines(r["out"], "TR")]
        inits = [json.loads(x) for x in self._lines(r["out"], "IN")]
        key = lambda s: json.dumps(s, sort_keys=True)
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        succ = {}
        seen = set()
        for s, c, d in trans:
            k = (key(s), key(c), key(d))
            if k in seen:
                continue
            seen.add(k)
            succ.setdefault(k[0], []).append((c, k[2]))
        rng = random.Random(self.seed)
        traces = []
        for ini in inits:
            root = key(ini)
            traces += [(ini, t) for t in cover(succ, root, maxlen, rng, limit)]
        self.cov["models"].append(dict(spec=module, cfg=cfg, distinct=r["distinct"], generated=r["generated"], wall_s=r["wall"], exhaustive=True, transitions_covered=len(seen)))
        res = [dict(cfg=(i.get("cfg", 0) if isinstance(i, dict) else 0), c=t) for i, t in traces]
        if limit and len(res) > limit:
            rng.shuffle(res)
            res = res[:limit]
        return res

    def sim_traces(self, module, cfg, num, depth, env=None, parallel=None, **kw):
        """Random behaviours of the model (its Done step prints 'GEN' [cfg, cmds]); several TLC in parallel."""
        parallel = parallel or min(NCPU, max(1, num // 50))
        per = (num + parallel - 1) // parallel

        def one(k):
            return self.tlc(module, cfg, env=env, workers=1, heap="2g",
                            args=["-simulate", f"num={per}", "-depth", str(depth + 5), "-seed", str(self.seed * 1000 + k)], **kw)
        with ThreadPoolExecutor(parallel) as ex:
            rs = []
            for k in range(parallel):
                rs.append(ex.submit(one, k))
                time.sleep(0.01)
            rs = [x.result() for x in rs]
        res, seen = [], set()
        for r in rs:
            if r["rc"] != 0:
                raise CheckError(f"simulation {module}/{cfg} failed (rc={r['rc']}):\n" + r["out"][-3000:])
            m = re.findall(r"([\d,]+) states checked", r["out"])
            n = int(m[-1].replace(",", "")) if m else 0
            self.cov["transitions"] += n
            for l in self._lines(r["out"], "GEN"):
                if l not in seen:
                    seen.add(l)
                    x = json.loads(l)
                    res.append(dict(cfg=x[0], c=x[1]))
        if not res:
            raise CheckError("simulation produced no behaviour")
        self.cov["models"].append(dict(spec=module, cfg=cfg, simulated_behaviours=len(res), exhaustive=False, wall_s=max(r["wall"] for r in rs)))
        return res

    def list_traces(self, module, cfg, env=None, limit=None, **kw):
        """Every behaviour of an enumeration (its steps print 'GEN' [cfg, cmds])."""
        r = self.tlc(module, cfg, env=env, workers=1, **kw)
        if r["rc"] != 0:
            raise CheckError(f"generation {module}/{cfg} failed:\n" + r["out"][-3000:])
        res = [json.loads(x) for x in dict.fromkeys(self._lines(r["out"], "GEN"))]
        res = [dict(cfg=x[0], c=x[1]) for x in res]
        if limit and len(res) > limit:
            random.Random(self.seed).shuffle(res)
            res = res[:limit]
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["models"].append(dict(spec=module, cfg=cfg, distinct=r["distinct"], generated=r["generated"], wall_s=r["wall"], exhaustive=limit is None, enumerated_behaviours=len(res)))
        return res

    # -------------------------------------------------------------- drivers
    def exe(self, driver, san=False):
        k = (driver, san)
        if k not in self._built:
            self._built[k] = os.path.join(builder.build([driver], san), driver)
        return self._built[k]

    def record(self, driver, traces, san=False, env=None, jobs=None, timeout=600):
        """Replays the command sequences on the real code; returns what was observed."""
        exe = self.exe(driver, san)
        for k, t in enumerate(traces):
            t["id"] = k + 1
        self.nrun += 1
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        e.update(env or {})
        jobs = min(jobs or NCPU, max(1, len(traces) // 4))
        chunks = [traces[i::jobs] for i in range(jobs)]

        def one(k):
            fi, fo = os.path.join(self.work, f"in{self.nrun}.{k}"), os.path.join(self.work, f"out{self.nrun}.{k}")
            with open(fi, "w") as f:
                for t in chunks[k]:
                    f.write(json.dumps(dict(id=t["id"], cfg=t.get("cfg", 0), c=t["c"])) + "\n")
            with open(fo + ".err", "w") as err:
                try:
                    r = subprocess.run([exe, fi, fo], stdout=err, stderr=err, env=e, timeout=timeout)
                except subprocess.TimeoutExpired:
                    raise CheckError(f"driver {driver} timed out")
            if r.returncode != 0:
                raise CheckError(f"driver {driver} failed rc={r.returncode}: " + open(fo + ".err", errors="replace").read()[-2000:])
            rec = [json.loads(l) for l in open(fo)]
            if len(rec) != len(chunks[k]):
                raise CheckError(f"driver {driver} wrote {len(rec)} traces of {len(chunks[k])}")
            return rec
        with ThreadPoolExecutor(jobs) as ex:
            rec = [x for l in ex.map(one, range(jobs)) for x in l]
        rec.sort(key=lambda x: x["id"])
        return rec

    # ----------------------------------------------------------- validation
    def validate(self, tracespec, cfg, rec, env=None, timeout=800):
        """TLC checks that every recorded trace is a behaviour of the specification.
        Returns None or dict(tid, i, what, text) for the first trace it rejects."""
        for t in rec:
            if "crash" in t:
                return dict(tid=t["id"], i=len(t["e"]) + 1, what="crash: " + t["crash"], text="")
        # shards of similar sizes: TLC evaluates the constants (reading the traces is one) once per worker, one after
        # the other, so that several processes with a single worker are faster than one with several
        order = sorted(range(len(rec)), key=lambda k: -len(rec[k]["e"]))
        n = max(1, min(NCPU, len(rec), sum(len(t["e"]) + 1 for t in rec) // 1500))
        shards = [sorted(order[k::n]) for k in range(n)]

        def run(k):
            f = os.path.join(self.work, f"traces{self.nrun}-{k}.ndjson")
            with open(f, "w") as o:
                for x in shards[k]:
                    o.write(json.dumps(rec[x]) + "\n")
            r = self.tlc(tracespec, cfg, env=dict(env or {}, TRACES=f), timeout=timeout, workers=1, heap="6g" if n == 1 else "3g", tag=f"{self.nrun}-{k}")
            if r["rc"] == 0:
                os.remove(f)
            return r
        self.nrun += 1
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(run, range(n)))
        for k, r in enumerate(rs):
            if r["rc"] == 0:
                want = sum(len(rec[x]["e"]) + 1 for x in shards[k])
                if r["distinct"] < want:
                    raise CheckError(f"trace validation visited {r['distinct']} states, expected {want}\n" + r["out"][-2000:])
                self.cov["states"] += r["distinct"]
                self.cov["transitions"] += r["generated"]
                continue
            if r["rc"] in (11, 12, 13, 75, 76) or "is violated" in r["out"] or "Deadlock reached" in r["out"]:
                tid = re.findall(r"/\\ tid = (\d+)", r["out"])
                i = re.findall(r"/\\ i = (\d+)", r["out"])
                m = re.search(r"Invariant (\w+) is violated", r["out"])
                what = "observation differs from the specification (" + m.group(1) + ")" if m else "command not allowed by the specification" if "Deadlock" in r["out"] else "property violated" if r["rc"] < 70 else "what was recorded is outside the domain of the specification: " + " ".join(re.findall(r"^Error: .*(?:\n.*){0,4}", r["out"], re.M)[:2])[:800]
                last = r["out"].rfind("\nState ")
                if tid and i:
                    return dict(tid=rec[shards[k][int(tid[-1]) - 1]]["id"], i=int(i[-1]) + (1 if "Deadlock" in r["out"] else 0), what=what, text=r["out"][last:last + 6000])
            raise CheckError(f"TLC failed on {tracespec} (rc={r['rc']}):\n" + r["out"][-4000:])
        return None

    def conform(self, driver, traces, tracespec, cfg, san=False, env=None, tlcenv=None, label="", quiet=False):
        """Records the traces on the real code and validates them; a rejection is confirmed by repeating it."""
        if not traces:
            raise CheckError("no trace to check")
        t = time.time()
        rec = self.record(driver, traces, san, env)
        bad = self.validate(tracespec, cfg, rec, tlcenv)
        n = 0
        while bad:
            # repeat on the single trace
            one = [dict(traces[bad["tid"] - 1])]
            rec1 = self.record(driver, one, san, env)
            bad1 = self.validate(tracespec, cfg, rec1, tlcenv)
            if bad1:
                self.report(driver, san, tracespec, cfg, one[0], rec1[0], bad1, label)
                return False
            n += 1
            self.notes.append(f"rejection of {label} trace {bad['tid']} was not repeatable")
            if n > 3:
                raise CheckError("non repeatable rejections")
            rec = self.record(driver, traces, san, env)
            bad = self.validate(tracespec, cfg, rec, tlcenv)
        self.cov["traces_validated_against_impl"] += len(rec)
        self.cov["events_validated"] += sum(len(x["e"]) for x in rec)
        self.cov["batches"].append(dict(label=label, driver=driver, san=san, traces=len(rec), events=sum(len(x["e"]) for x in rec),
                                        exceptions=sum(1 for x in rec for y in x["e"] if isinstance(y["r"], dict) and "exc" in y["r"]), wall_s=round(time.time() - t, 2)))
        if len(self.cov["samples"]) < 4:
            s = json.dumps(max(rec[:20], key=lambda x: len(x["e"])))
            self.cov["samples"].append(json.loads(s) if len(s) < 6000 else s[:6000])
        return True

    def report(self, driver, san, tracespec, cfg, trace, rec, bad, label):
        h = hashlib.sha1(json.dumps(trace["c"]).encode()).hexdigest()[:10]
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{h}.json")
        ev = rec["e"][bad["i"] - 1] if 0 < bad["i"] <= len(rec["e"]) else None
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, label=label, driver=driver, san=san, tracespec=tracespec, cfg=cfg, step=bad["i"], what=bad["what"],
                           trace=trace, event=ev, tlc=bad["text"], recorded=rec), f, indent=1)
        self.violations.append((p, bad["what"]))
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        print(f"  {label}: step {bad['i']}: {bad['what']}")
        print("  command: " + json.dumps(trace["c"][bad["i"] - 1] if 0 < bad["i"] <= len(trace["c"]) else None)[:500])
        if ev:
            print("  observed: " + json.dumps(dict(r=ev["r"], s=ev["s"], what=ev.get("what", "")))[:1500])
        print("  " + bad["text"].strip()[:3000].replace("\n", "\n  "), flush=True)

    # -------------------------------------------------------------- evidence
    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            os.environ.get("MBV_KEEP") or shutil.rmtree(self.work, ignore_errors=True)
            c = self.cov
            print(f"OK property={self.pid} tier={self.tier} states={c['states']} transitions={c['transitions']} "
                  f"traces={c['traces_validated_against_impl']} events={c['events_validated']} wall={ev['wall_s']}s")
        return 1 if self.violations else 0


def cover(succ, root, maxlen, rng, limit=None):
    """Walks from root that together take every edge reachable from it (or the first `limit` of them, each
    reaching an untaken edge by a shortest path and then extended greedily, through a bounded local search)."""
    from collections import deque
    ids = {root: 0}
    names = [root]
    par, out = [None], []
    dq = deque([root])
    while dq:                                  # numbering, shortest-path tree, adjacency
        x = dq.popleft()
        l = []
        for c, d in succ.get(x, ()):
            if d not in ids:
                ids[d] = len(names)
                names.append(d)
                par.append((ids[x], c))
                dq.append(d)
            l.append((c, ids[d]))
        out.append(l)
    left = [list(l) for l in out]
    for l in left:
        rng.shuffle(l)
    todo = [k for k in range(len(out)) for _ in left[k]]
    rng.shuffle(todo)
    walks = []
    while todo:
        if limit and len(walks) >= limit:
            break
        s = todo.pop()
        if not left[s]:
            continue
        path, x = [], s
        while par[x] is not None:
            path.append(par[x][1])
            x = par[x][0]
        walk = path[::-1]
        first = True
        while first or len(walk) < maxlen:
            first = False
            if left[s]:
                c, d = left[s].pop()
                walk.append(c)
                s = d
                continue
            prev, dq, tgt = {s: None}, deque([s]), None
            while dq and len(prev) < 300:
                x = dq.popleft()
                if left[x]:
                    tgt = x
                    break
                for c, d in out[x]:
                    if d not in prev:
                        prev[d] = (x, c)
                        dq.append(d)
            if tgt is None:
                break
            p, x = [], tgt
            while prev[x] is not None:
                p.append(prev[x][1])
                x = prev[x][0]
            if len(walk) + len(p) >= maxlen:
                break
            walk += p[::-1]
            s = tgt
        walks.append(walk)
    return walks
