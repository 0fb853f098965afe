"""Check framework.

A check binds one TLA+ specification to the code:
  1. build      /repo's working tree + shim -> libvf.so (ASan)
  2. mc         TLC model-checks the specification exhaustively within small constants (invariants = the property)
  3. gen        TLC enumerates/simulates behaviours of the specification into an ndjson file (spec -> code)
  4. drive      worker processes execute generated behaviours and seeded random behaviours on the real code,
                recording one ndjson trace per history (operation, arguments, observed results)
  5. validate   TLC checks that every recorded trace is a behaviour of the same specification (code -> spec)
"""
import os, sys, json, time, random, subprocess, importlib, traceback, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc as T
VERIF, BUILD = B.VERIF, B.BUILD

class Check:
    id = None
    variants = ["ossl"]          # library builds the traces are recorded from
    trace = None                 # Trace module name
    mc = []                      # [(module, cfg, {opts})]
    gen = []                     # [(module, cfg, {opts})]: writes ndjson behaviours to $GEN
    workers = 6
    level = "model_checking"
    assumptions = []
    const_env = {}
    tlc_timeout = 400
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
    factor = 3
    def scale(self, q, t):
        return min(q * self.factor, max(q, t)) if self.tier == "quick" else t
    def behaviours(self, api, rng, w, n, gen):
        """yield traces (dicts with 'ops'); w of n workers; gen = list of behaviours from TLC (this worker's share)"""
        raise NotImplementedError

class Crash(Exception):
    pass

def load(cid):
    sys.path.insert(0, VERIF)
    m = importlib.import_module("checks." + cid.lower())
    return m.CHECK

def worker_main(argv):
    cid, tier, seed, variant, w, n, so, outp, genp = argv[:9]
    cls = load(cid); c = cls(tier, int(seed)); w = int(w); n = int(n)
    c.variant = variant
    from . import api as A
    api = A.Api(so)
    c.api = api
    gen = []
    if genp and os.path.exists(genp):
        with open(genp) as f:
            for i, line in enumerate(f):
                if i % n == w and line.strip():
                    gen.append(json.loads(line))
    rng = random.Random("%s/%s/%s/%d" % (cid, seed, variant, w))
    cur = outp + ".cur"
    def note(s):
        with open(cur, "w") as f: f.write(s)
    c.note = note
    cnt = 0
    with open(outp, "w") as f:
        for tr in c.behaviours(api, rng, w, n, gen):
            f.write(json.dumps(tr, separators=(",", ":")) + "\n"); cnt += 1
            f.flush()
    os._exit(0)

def asan_lib():
    return subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()

def drive(cls, c, variant, so, w, n, outp, genp):
    env = dict(os.environ)
    env["LD_PRELOAD"] = os.path.realpath(asan_lib())
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:verify_asan_link_order=0"
    env["PYTHONMALLOC"] = "malloc" if False else "pymalloc"
    env["PYTHONHASHSEED"] = "0"
    cmd = [sys.executable, "-m", "vf.framework", "--worker", c.id, c.tier, str(c.seed), variant, str(w), str(n), so, outp, genp or ""]
    # a worker hangs when neither its trace nor the operation it is at changes for a while; one that is merely slow is cut off and
    # what it recorded so far is judged
    stall, limit = (150, 420) if c.tier == "quick" else (1200, 8 * 3600)
    log = open(outp + ".log", "w+b"); t0 = last = time.time(); seen = None
    p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT); rc = None
    while rc is None:
        try: rc = p.wait(timeout=.2 if time.time() - t0 < 60 else 2)
        except subprocess.TimeoutExpired:
            now = tuple((os.stat(f).st_mtime_ns, os.stat(f).st_size) if os.path.exists(f) else 0 for f in (outp, outp + ".cur"))
            if now != seen: seen, last = now, time.time()
            if time.time() - last > stall: p.kill(); p.wait(); rc = "timeout"
            elif time.time() - t0 > limit: p.kill(); p.wait(); rc = "slow"
    log.seek(0); t = log.read().decode("utf-8", "replace"); log.close()
    if rc == "slow":
        rc = 0; t = open(outp, "rb").read(); open(outp, "wb").write(t[:t.rfind(b"\n") + 1]); print("worker %s/%d was cut off after %d s" % (variant, w, limit), flush=True); t = ""
    return rc, t[-16000:]

def fail(c, kind, info):
    rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, "%s-%s.json" % (c.id, hashlib.sha1(json.dumps(info, sort_keys=True, default=str).encode()).hexdigest()[:10]))
    json.dump(dict(property=c.id, kind=kind, seed=c.seed, tier=c.tier, **info), open(p, "w"), indent=1, default=str)
    return p

def main(argv):
    t0 = time.time()
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    if "--quick" in argv: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cls = load(cid); c = cls(tier, seed); c.id = cid
    work = os.path.join(BUILD, "work", cid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    violations = []; cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0, spec_behaviours_replayed=0)
    detail = {}
    log = lambda *a: print(*a, flush=True)

    # 1. build
    sos = {}
    for v in c.variants:
        try:
            sos[v] = B.build(v)
        except B.BuildError as x:
            log("BUILD FAILED", v); log(str(x)[-3000:]); return 3
    log("[%5.1fs] built %s" % (time.time()-t0, ",".join(sos)))

    # 2/3. model checking and generation run concurrently with the drivers where possible
    ex = ThreadPoolExecutor(16)
    def run_mc(item):
        mod, cfg, o = (list(item) + [{}])[:3]
        cfgt = o.get("cfg_thorough") if tier == "thorough" and o.get("cfg_thorough") else cfg
        r = T.run(mod, cfgt, env=o.get("env"), workers=o.get("workers", 2), mem=o.get("mem", "4g"),
                  simulate=o.get("simulate"), extra=o.get("extra", ()), timeout=o.get("timeout", 400 if tier == "quick" else 7200))
        return mod, cfgt, r
    def run_gen(item, i):
        mod, cfg, o = (list(item) + [{}])[:3]
        gp = os.path.join(work, "gen%d.ndjson" % i)
        open(gp, "w").close()
        sim = o.get("simulate")
        if callable(sim): sim = sim(c)
        extra = list(o.get("extra", ()))
        if sim: extra += ["-seed", str(seed)]
        env = dict(o.get("env") or {}); env["GEN"] = gp
        r = T.run(mod, cfg, env=env, workers=1, mem=o.get("mem", "4g"), simulate=sim, extra=extra,
                  timeout=o.get("timeout", 300 if tier == "quick" else 3600))
        return mod, cfg, r, gp
    mcf = [ex.submit(run_mc, it) for it in c.mc]
    genf = [ex.submit(run_gen, it, i) for i, it in enumerate(c.gen)]
    genp = None
    if genf:
        genp = os.path.join(work, "gen.ndjson")
        seen = set()
        with open(genp, "w") as out:
            for f in genf:
                try:
                    mod, cfg, r, gp = f.result()
                except T.TLCError as x:
                    log(x); return 3
                if not r.ok and not r.rc == 0:
                    log("GENERATION FAILED %s/%s rc=%s" % (mod, cfg, r.rc)); log(r.out[-3000:]); return 3
                nb = 0
                for line in open(gp):
                    line = line.strip()
                    if not line: continue
                    if line.startswith('"'): line = json.loads(line)
                    if line in seen: continue
                    seen.add(line); out.write(line + "\n"); nb += 1
                detail.setdefault("generated", {})["%s/%s" % (mod, cfg)] = nb
                cov["spec_behaviours_replayed"] += nb
        log("[%5.1fs] generated %d behaviours" % (time.time()-t0, cov["spec_behaviours_replayed"]))

    # 4. drive
    known = load_known(cid)
    jobs = []
    for v in c.variants:
        n = c.workers if len(c.variants) == 1 else max(1, c.workers // len(c.variants))
        for w in range(n):
            jobs.append((v, w, n, os.path.join(work, "trace-%s-%d.ndjson" % (v, w))))
    def do(j):
        v, w, n, op = j
        rc, err = drive(cls, c, v, sos[v], w, n, op, genp)
        return j, rc, err
    ok = True
    err3 = None
    for j, rc, err in ex.map(do, jobs):
        v, w, n, op = j
        if rc == 0: continue
        cur = ""
        try: cur = open(op + ".cur").read()
        except OSError: pass
        asan = "AddressSanitizer" in err or rc in (99, -11, -6, -8, -4, -7)
        if asan or rc == "timeout":
            if violations: continue
            # confirm: run the same worker again
            rc2, err2 = drive(cls, c, v, sos[v], w, n, op + ".2", genp)
            if rc2 == 0:
                log("worker %s/%d ended %s once, but not when repeated: ignored" % (v, w, rc)); shutil.move(op + ".2", op); continue
            p = fail(c, "crash" if asan else "hang", dict(variant=v, worker=w, last=cur, report=err))
            log(("crash" if asan else "hang") + " of the real code (%s) during: %s" % (v, cur[:600])); log(err[-1500:])
            log("VIOLATION property=%s replay=%s" % (cid, p)); violations.append(p)
        else:
            err3 = "worker %s/%d failed rc=%s\n%s\nlast: %s" % (v, w, rc, err[-3000:], cur[:300])
    if err3 and not violations:
        log(err3); return 3
    log("[%5.1fs] drove the code" % (time.time()-t0))

    # 5. validate
    ntr = 0; nops = 0; hits = {}
    def val(j):
        v, w, n, op = j
        if not os.path.exists(op) or os.path.getsize(op) == 0: return j, None, 0, 0
        nt = no = 0
        for line in open(op):
            nt += 1; no += line.count('"o":')
        env = dict(c.const_env); env["TRACE"] = op
        return j, validate(c, op, env), nt, no
    results = list(ThreadPoolExecutor(8).map(val, jobs)) if c.trace else []
    for j, r, nt, no in results:
        if r is None: continue
        ntr += nt; nops += no
        if isinstance(r, str):
            log(r); return 3
        cov["states"] += r["distinct"]; cov["transitions"] += r["generated"]
        if r["ok"]: continue
        if violations: continue
        v, w, n, op = j
        lines = open(op).read().splitlines()
        tr = json.loads(lines[r["t"] - 1]) if r.get("t") else None
        p = fail(c, "trace rejected by the specification", dict(variant=v, worker=w, trace=tr, index=r.get("i"), tlc=r["tail"]))
        if tr:
            k = r.get("i") or 0
            log("specification rejects step %d of trace %d (%s): %s" % (k + 1, r["t"], v, json.dumps(tr["ops"][k] if k < len(tr["ops"]) else tr)[:1500]))
        else:
            log(r["tail"][-2500:])
        log("VIOLATION property=%s replay=%s" % (cid, p)); violations.append(p)
    log("[%5.1fs] validated %d traces, %d operations" % (time.time()-t0, ntr, nops))
    cov["traces_validated_against_impl"] = ntr; cov["samples"] = nops

    # model-checking results
    for f in mcf:
        try: mod, cfg, r = f.result()
        except T.TLCError as x:
            log(x); return 3
        detail.setdefault("model_checking", {})["%s/%s" % (mod, cfg)] = dict(distinct=r.distinct, generated=r.generated, depth=r.depth)
        cov["states"] += r.distinct; cov["transitions"] += r.generated
        if r.rc != 0:
            log("MODEL CHECKING of %s/%s failed rc=%s (a fault of the specification, not of the code)" % (mod, cfg, r.rc))
            log(r.out[-4000:]); return 3
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    # coverage of operation kinds, for vacuity
    ops = {}
    for j in jobs:
        if os.path.exists(j[3]):
            for line in open(j[3]):
                for o in json.loads(line)["ops"]:
                    key = str(o.get("o")); r = o.get("r", o.get("rc"))
                    if isinstance(r, (int, str, bool)): key += "=" + str(r)[:24]
                    ops[key] = ops.get(key, 0) + 1
    if len(ops) > 400: ops = dict(sorted(ops.items(), key=lambda x: -x[1])[:400])
    detail["operations"] = ops
    cov.update(detail)
    ev = dict(property=cid, tier=tier, seed=seed, level=c.level, coverage=cov, assumptions=c.assumptions or
              ["the harness records what the code did; TLC and the toolchain are trusted"], wall_s=round(time.time()-t0, 1),
              violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    log("[%5.1fs] %s %s" % (time.time()-t0, cid, "VIOLATED" if violations else "held on everything explored"))
    if not violations and "--keep" not in argv: shutil.rmtree(work, ignore_errors=True)
    return 1 if violations else 0

def load_known(cid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == cid and k.get("status") == "open"]

def validate(c, path, env):
    import re
    try:
        r = T.run(c.trace, "Trace.cfg" if not getattr(c, "trace_cfg", None) else c.trace_cfg, env=env, workers=1, mem="3g",
                  timeout=c.tlc_timeout if c.tier == "quick" else 7200)
    except T.TLCError as x:
        return str(x)
    if r.rc == 0:
        return dict(ok=True, distinct=r.distinct, generated=r.generated)
    if r.parseerror or "OutOfMemory" in r.out or "StackOverflow" in r.out:
        return "TLC failed: rc=%s\n%s" % (r.rc, r.out[-3000:])
    # the last printed state gives the trace and position
    ts = re.findall(r"/\\ tno = (\d+)", r.out) or re.findall(r"\btno = (\d+)", r.out)
    is_ = re.findall(r"/\\ pos = (\d+)", r.out)
    return dict(ok=False, distinct=r.distinct, generated=r.generated, t=int(ts[-1]) if ts else None,
                i=max(0, int(is_[-1]) - 1) if is_ else 0, tail=r.out[-4000:])

if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker_main(sys.argv[2:])
    else:
        sys.exit(main(sys.argv[1:]))
