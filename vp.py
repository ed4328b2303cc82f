#!/usr/bin/env python3
"""Driver:  check.py <PROPERTY> [--tier quick|thorough] [--seed N]      (see DESIGN.md)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the machinery failed.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("GAPP_SRC", "/repo/src")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class ToolError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for top in (SRC, HARN):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def prune_builds(keep):
    if not os.path.isdir(BUILD): return
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    for d in ds[:-3]:
        if os.path.basename(d) != keep: shutil.rmtree(d, ignore_errors=True)

def compile_one(job):
    src, obj, flags, cxx = job
    if os.path.exists(obj): return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([cxx, "-c", src, "-o", tmp] + flags)
    if r.returncode: return "%s\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, obj); return None

BASE = ["-std=c++20", "-O1", "-g0", "-w", "-I" + SRC, "-I" + HARN]

def build(harness, lib=True, flags=(), cxx="g++", defs=(), out=None):
    """Compiles harness/<harness>.cpp (and the library) from the current sources; returns the program's path."""
    key = tree_hash(); d = os.path.join(BUILD, key); os.makedirs(d, exist_ok=True); os.utime(d); prune_builds(key)
    fl = BASE + list(flags)
    fk = hashlib.sha256(" ".join([cxx] + fl).encode()).hexdigest()[:8]
    prog = os.path.join(d, "%s-%s" % (out or harness, hashlib.sha256(" ".join([cxx] + fl + list(defs)).encode()).hexdigest()[:8]))
    if os.path.exists(prog): return prog
    jobs = []; objs = []
    if lib:
        for s in sorted(glob.glob(SRC + "/**/*.cpp", recursive=True)):
            o = os.path.join(d, "lib-%s-%s.o" % (fk, os.path.relpath(s, SRC).replace("/", "_")))
            jobs.append((s, o, fl, cxx)); objs.append(o)
    ho = prog + ".o"; jobs.insert(0, (os.path.join(HARN, harness + ".cpp"), ho, fl + list(defs), cxx))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs: raise ToolError("compilation failed: " + errs[0])
    r = sh([cxx, "-o", prog + ".tmp", ho] + objs + list(flags) + ["-lpthread"])
    if r.returncode: raise ToolError("link failed: " + r.stdout[-4000:])
    os.rename(prog + ".tmp", prog)
    return prog

# ------------------------------------------------------------------ running harnesses
def run_range(prog, base, a, b, out, timeout, env=None, total=None):
    """Runs scenarios [a,b), restarting after every scenario that killed the process."""
    k = a; deaths = 0
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", **(env or {}))
    while k < b and (total is None or total[0] < 24):   # enough evidence: the recorded deaths are judged by the specification
        before = os.path.getsize(out) if os.path.exists(out) else 0
        try:
            r = subprocess.run([prog] + base + ["--run", str(k), str(b), "--out", out], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, env=e)
            rc = r.returncode; err = r.stderr.decode(errors="replace")[-600:]
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s exceeded %ds in [%d,%d)" % (os.path.basename(prog), timeout, k, b))
        last = k - 1
        if os.path.exists(out):
            with open(out, "rb") as f:
                f.seek(before); data = f.read()
            if data and not data.endswith(b"\n"):     # died while writing: drop the partial line
                cut = data.rfind(b"\n") + 1
                with open(out, "r+b") as f: f.truncate(before + cut)
                data = data[:cut]
            for ln in data.splitlines(): last = int(re.match(rb'\{"id":(\d+)', ln).group(1))
        if rc == 0: return deaths
        deaths += 1
        if total is not None: total[0] += 1
        if rc == 99: raise ToolError("harness could not write its trace")
        if rc == 97 and last >= k: k = last + 1       # the line of the fatal scenario was written
        else:                                         # killed without a chance to report (e.g. SIGKILL, sanitizer exit)
            bad = last + 1
            with open(out, "a") as f:
                f.write('{"id":%d,"cfg":{"lost":true},"ev":[{"op":"crash","sig":%d}]}\n' % (bad, rc))
            None if deaths > 1 else sys.stderr.write("harness died at %d rc=%d %s\n" % (bad, rc, err[-120:].replace("\n", " ")))
            k = bad + 1
        if deaths >= 12: return deaths
    return deaths

def run_harness(prog, work, tier, seed, ops=None, timeout=600, extra=(), env=None, procs=NCPU, ids=None, tag="t"):
    base = ["--seed", str(seed), "--tier", tier] + (["--ops", ops] if ops else []) + list(extra)
    if ids is None:
        r = subprocess.run([prog] + base + ["--count"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise ToolError("harness --count failed: " + r.stderr[-500:])
        n = int(r.stdout); step = max(1, min((n + procs * 4 - 1) // (procs * 4), 2000))
        ranges = [(i, min(i + step, n)) for i in range(0, n, step)]
    else:
        ranges = [(i, i + 1) for i in ids]
    outs = [os.path.join(work, "%s.%d.part" % (tag, i)) for i in range(len(ranges))]
    total = [0]
    with cf.ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(run_range, prog, base, a, b, o, timeout, env, total) for (a, b), o in zip(ranges, outs)]
        for f in fs: f.result()
    res = os.path.join(work, tag + ".ndjson")
    with open(res, "wb") as w:
        for o in outs:
            if os.path.exists(o): w.write(open(o, "rb").read()); os.remove(o)
    return res

# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, workers=NCPU, timeout=800, args=(), heap="6g", deadlock=False):
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + ([] if deadlock else ["-deadlock"]) + list(args) + [module + ".tla"]
        e = dict(os.environ); e.update({"PROGRESS": "0", "TRACE": "", "TIER": "quick"}); e.update(env or {})
        try: r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        except subprocess.TimeoutExpired: raise ToolError("TLC %s timed out after %ds" % (module, timeout))
    finally: shutil.rmtree(meta, ignore_errors=True)
    out = re.sub(r"(?m)^(Parsing file|Semantic processing|Linting|TLC2 Version|Running breadth|\s*$).*\n", "", r.stdout)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return r.returncode, out, gen, dist

def model(module, cfg=None, timeout=800, **kw):
    """An exhaustive check of the design; any error is an error of the specification, not of the code."""
    rc, out, gen, dist = tlc(module, cfg, timeout=timeout, **kw)
    if rc != 0 or "Model checking completed. No error" not in out and "simulation" not in " ".join(kw.get("args", ())):
        raise ToolError("model %s/%s: rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
    return {"module": module, "cfg": cfg or module, "states": dist, "transitions": gen}, out

def gen_ops(module, cfg, work, timeout=600, env=None, limit=None, seed=1, workers=1):
    """Behaviours printed by TLC as PrintT(<<"GEN", ToJson(hist)>>) -> one line of operations per behaviour."""
    rc, out, gen, dist = tlc(module, cfg, workers=workers, timeout=timeout, env=env)
    if rc != 0: raise ToolError("generation %s: rc=%d\n%s" % (module, rc, out[-3000:]))
    hs = re.findall(r'<<"GEN", "(.*)">>', out)
    if workers > 1: hs.sort()
    path = os.path.join(work, cfg + ".ops"); n = 0
    if limit and len(hs) > limit:
        step = len(hs) / limit; off = (seed * 0.37) % 1
        hs = [hs[int((i + off) * step)] for i in range(limit)]
    with open(path, "w") as f:
        for h in hs:
            h = json.loads(h.replace('\\"', '"').replace("\\\\", "\\"))
            f.write(";".join(" ".join(str(int(t)) if isinstance(t, bool) else str(t) for t in flat(op)) for op in h) + "\n"); n += 1
    return path, n, {"module": module, "cfg": cfg, "states": dist, "transitions": gen}

def flat(x):
    for t in x:
        if isinstance(t, list): yield from flat(t)
        else: yield t

def outside(out):
    """TLC could not evaluate the specification on the recorded values (a value of a kind or size that it does not admit)."""
    return bool(re.search(r"Attempted to|Overflow when|was not in the domain|CHOOSE x|The first argument|The second argument|evaluating an expression", out)) and "OutOfMemory" not in out and "semantic analysis failed" not in out

def validate(module, cfg, trace, timeout=800, heap="8g", env=None, split=None, maxlines=None):
    """Returns (number of scenarios, rejected line indices, states, transitions)."""
    lines = open(trace, "rb").read().split(b"\n"); lines = [l for l in lines if l]
    if not lines: raise ToolError("empty trace")
    size = sum(map(len, lines))
    split = split or (1 if size < 400000 else min(8, 2 + size // 1500000))
    # balance by size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i])); parts = [[] for _ in range(split)]; load = [0] * split
    for i in order:
        j = load.index(min(load)); parts[j].append(i); load[j] += len(lines[i]) + 50
    for p in parts: p.sort()
    parts = [p for p in parts if p]
    def run(j, idx):
        fn = "%s.v%d" % (trace, j)
        with open(fn, "wb") as f: f.write(b"\n".join(lines[i] for i in idx) + b"\n")
        rc, out, gen, dist = tlc(module, cfg, env=dict(env or {}, TRACE=fn), workers=max(1, NCPU // len(parts)), timeout=timeout,
                                 heap="%dm" % max(1500, 20000 // len(parts)))
        os.remove(fn)
        if rc != 0 or "Model checking completed. No error" not in out:
            if not outside(out): return None, out, gen, dist
            if len(idx) == 1: return list(idx), out, gen, dist
            h = len(idx) // 2                             # find one scenario whose events are outside the specification's domain
            for half in (idx[:h], idx[h:]):
                r = run(j, half)
                if r[0] is None or r[0]: return r
            return None, out, gen, dist
        acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
        return [idx[k - 1] for k in range(1, len(idx) + 1) if k not in acc], out, gen, dist
    def one(j): return run(j, parts[j])
    with cf.ThreadPoolExecutor(len(parts)) as ex: rs = list(ex.map(one, range(len(parts))))
    rej = []; g = s = 0
    for r, out, gen, dist in rs:
        if r is None: raise ToolError("trace validation %s failed:\n%s" % (module, out[-1500:]))
        rej += r; g += gen; s += dist
    return lines, sorted(rej), s, g

def locate(module, cfg, line, work, env=None):
    """Validates one line alone; returns None if accepted, else (failing event index, event)."""
    fn = os.path.join(work, "one.ndjson"); open(fn, "wb").write(line + b"\n")
    e = dict(env or {}, TRACE=fn, PROGRESS="1")
    rc, out, _, _ = tlc(module, cfg, env=e, workers=1)
    if rc != 0 and not outside(out): raise ToolError("re-validation failed:\n" + out[-1500:])
    if re.search(r'<<"ACCEPT", 1>>', out): return None
    at = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)]
    k = max(at) if at else 1
    sc = json.loads(line); evs = sc["ev"]
    return k, (evs[k - 1] if k <= len(evs) else {"op": "end-of-trace"}), sc

# ------------------------------------------------------------------ findings
def known_findings():
    r = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) match=/(.*)/ :: (.*)", l.strip())
            if m: r.append(m.groups())
    return r

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.models = []; self.nscen = 0; self.nev = 0; self.samples = []; self.viol = []; self.known = {}
        self.states = 0; self.trans = 0; self.suites = []; self.crash = 0; self.ops_seen = {}
    @property
    def quick(self): return self.tier == "quick"
    def model(self, module, cfg=None, **kw):
        m, out = model(module, cfg, **kw); self.models.append(m); self.states += m["states"]; self.trans += m["transitions"]; return out
    def gen(self, module, cfg, **kw):
        p, n, m = gen_ops(module, cfg, self.work, seed=self.seed, **kw); m["behaviours"] = n
        self.models.append(m); self.states += m["states"]; self.trans += m["transitions"]
        if n == 0: raise ToolError("no behaviours generated by " + cfg)
        return p
    def suite(self, name, prog, trace_spec, cfg=None, ops=None, deterministic=True, env=None, henv=None, extra=(), timeout=600, procs=NCPU, need=()):
        """Run the harness, validate every scenario, confirm every rejection."""
        if len(self.viol) >= 3: return
        cfg = cfg or trace_spec
        t = run_harness(prog, self.work, self.tier, self.seed, ops, timeout, extra, henv, procs, tag=name)
        lines, rej, s, g = validate(trace_spec, cfg, t, env=env)
        self.states += s; self.trans += g; self.nscen += len(lines)
        ne = 0
        for l in lines:
            for o in re.findall(rb'"op":"(\w+)"', l): self.ops_seen[o.decode()] = self.ops_seen.get(o.decode(), 0) + 1; ne += 1
        self.nev += ne
        for o in need if not rej else ():
            if not self.ops_seen.get(o): raise ToolError("vacuous: no event '%s' in suite %s" % (o, name))
        if len(self.samples) < 6:
            l = min(lines, key=len) if not self.samples else lines[len(lines) // 2]
            self.samples.append(name + ": " + l.decode(errors="replace")[:700])
        self.suites.append({"suite": name, "scenarios": len(lines), "events": ne, "rejected": len(rej)})
        done = 0
        for i in rej:
            if done >= 5 or len(self.viol) >= 3: break
            r = locate(trace_spec, cfg, lines[i], self.work, env)
            if r is None: raise ToolError("rejection of scenario %d of %s was not repeatable" % (i, name))
            k, evt, sc = r; again = None
            for _ in range(1 if deterministic else 3):
                t2 = run_harness(prog, self.work, self.tier, self.seed, ops, timeout, extra, henv, 1, ids=[sc["id"]], tag="re")
                l2 = [l for l in open(t2, "rb").read().split(b"\n") if l]
                again = locate(trace_spec, cfg, l2[0], self.work, env) if l2 else None
                if again: break
            if again is None and deterministic:
                sys.stderr.write("scenario %s/%d was rejected once and accepted when run again\n" % (name, sc["id"]))
                if evt.get("op") == "hang": continue      # overload of the machine
                again = r; 
            if again is None: again = r                    # schedule dependent: the recorded trace is the evidence
            k, evt, sc = again; done += 1
            sig = "%s cfg=%s event=%s" % (name, json.dumps(sc["cfg"], sort_keys=True), json.dumps(evt)[:300])
            kf = next((t for p, rx, t in known_findings() if p == self.pid and re.search(rx, sig)), None)
            if kf: self.known.setdefault(kf, sig); done -= 1; continue
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            rp = os.path.join("replays", "%s-%s-%d.json" % (self.pid, name, sc["id"]))
            json.dump({"property": self.pid, "suite": name, "program": os.path.basename(prog), "args": ["--seed", str(self.seed), "--tier", self.tier] + list(extra) + ["--run", str(sc["id"]), str(sc["id"] + 1)],
                       "spec": trace_spec, "failing_event_index": k, "failing_event": evt, "scenario": sc}, open(os.path.join(ROOT, rp), "w"), indent=1)
            self.viol.append((rp, sig))
    def finish(self, level, t0, assumptions=()):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.nscen,
                           "events_validated": self.nev, "models": self.models, "suites": self.suites,
                           "events_by_kind": dict(sorted(self.ops_seen.items())), "samples": self.samples},
              "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for rp, sig in self.viol: print("VIOLATION property=%s replay=%s" % (self.pid, rp)); print("   ", sig[:600])
        print("%s %s: %d scenarios, %d events, %d states, %.1fs, violations %d" % (self.pid, self.tier, self.nscen, self.nev, self.states, time.time() - t0, len(self.viol)))
        return 1 if self.viol else 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args(); t0 = time.time()
    sys.path.insert(0, ROOT); import registry
    c = Check(a.pid, a.tier, a.seed)
    try:
        level, assumptions = registry.RUN[a.pid](c)
        rc = c.finish(level, t0, assumptions)
    except ToolError as e:
        if c.viol:
            rc = c.finish("model_checking", t0, ["stopped early: " + str(e)[:300]])
        else:
            print("ERROR: " + str(e)); rc = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

