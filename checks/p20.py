import ctypes, itertools, json, os, random, signal, sys, threading
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
T = "nostr_config"
F = ["nip44_min_plaintext_size", "nip44_max_plaintext_size", "max_sessions", "session_timeout_secs", "max_permissions", "max_content_size", "max_tags", "max_tag_values", "relay_connect_timeout_ms", "relay_response_timeout_ms", "encryption_default_nip", "secure_memory_lock", "debug_mode"]
ENV = ["NIP44_MIN_SIZE", "NIP44_MAX_SIZE", "MAX_SESSIONS", "SESSION_TIMEOUT", "MAX_PERMISSIONS", "MAX_CONTENT_SIZE", "MAX_TAGS", "MAX_TAG_VALUES", "RELAY_CONNECT_TIMEOUT", "RELAY_RESPONSE_TIMEOUT", "ENCRYPTION_DEFAULT", "SECURE_MEMORY_LOCK", "DEBUG"]
DEF = [1, 65535, 100, 3600, 32, 65536, 100, 50, 30000, 10000, 44, 0, 0]
RANGE = [(1, 65535), (1, 65535), (1, 10000), (60, 86400), (1, 1000), (1024, 1048576), (1, 1000), (1, 1000), (1000, 300000), (1000, 300000), None, None, None]
CB = ctypes.CFUNCTYPE(None, P, P, P)
def rec(c): return [dict(h=v >> 16, l=v & 65535) for v in c[:10]] + list(c[10:])
def vals(r): return [v["h"] << 16 | v["l"] for v in r[:10]] + list(r[10:])

class CHECK(Check):
    id = "P20"
    variants = ["ossl"]
    trace = "T_Config"
    mc = [("MC_Config", "MC_Config.cfg", {"workers": 2})]
    gen = [("MC_Config", "Gen_Config.cfg", {"simulate": lambda c: "num=%d" % c.scale(200, 4000), "extra": ("-depth", "20")})]
    assumptions = ["each history runs in a process of its own, since the configuration cannot be taken back", "environment texts start with a digit, a letter or a sign '-'; other forms strtoul tolerates (blanks, '+') are not used"]

    def behaviours(self, api, rng, w, n, gen):
        for t in self.all(rng, gen):
            yield t
            if t["ops"] == [dict(o="hang")]: return        # one is enough: each costs its time limit
    def all(self, rng, gen):
        self.rng = rng; self.cbs = [CB(lambda a, b, u: self.on(a, b, u)) for _ in range(2)]
        rng.shuffle(gen)
        for g in gen[:self.scale(150, 4000)]: yield self.child(lambda: self.history(g))
        yield self.child(lambda: self.history([dict(o="defaults"), dict(o="null")]))
        for i in range(self.scale(90, 2500)): yield self.child(lambda: self.history(self.plan()))
        for i in range(self.scale(12, 300)): yield self.child(self.race)
        for i in range(self.scale(20, 300)): yield self.child(self.initrace)
    def child(self, f):
        seed = self.rng.random(); r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r); signal.alarm(40)
            try:
                self.rng = random.Random(seed); out = json.dumps(f()).encode()
                with os.fdopen(w, "wb") as h: h.write(out)
                os._exit(0)
            except BaseException:
                import traceback; traceback.print_exc(); sys.stderr.flush(); os._exit(77)
        os.close(w)
        with os.fdopen(r, "rb") as h: t = h.read()
        st = os.waitpid(pid, 0)[1]
        if st == 0: return json.loads(t)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM: return dict(ops=[dict(o="hang")])
        os._exit(99 if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 99 else 77)
    # ---- the library
    def put(self, c):
        b = self.api.new(T, 0xA5); p = ctypes.addressof(b)
        for f, v in zip(F, c): self.api.set(p, T, f, v)
        return b
    def get(self, p): return [self.api.get(p, T, f) for f in F[:10]] + [self.api.get(p, T, f, True) for f in F[10:]]
    def cur(self):
        p = self.api.ptr("nostr_config_get_current"); return [rec(self.get(p))] if p else []
    def on(self, a, b, u):
        try:
            o, n = rec(self.get(a)), rec(self.get(b))
            self.told.append(dict(old=o, new=n, n=u or 0))
            if len(self.told) == 1 and self.acts:
                for x in self.acts: self.call(x); self.done.append(x)
            if rec(self.get(a)) != o or rec(self.get(b)) != n: self.told.append(dict(old=o, new=n, n=-1))     # changed during the notification
        except BaseException as x: self.err = x
    def call(self, o):
        a = self.api
        if o["o"] == "current": o["cfg"] = self.cur()
        elif o["o"] == "update": o["r"] = a.call("nostr_config_update", self.put(vals(o["c"])))
        elif o["o"] == "setcb": o["r"] = a.call("nostr_config_set_callback", self.cbs[o["n"] % 2] if o["n"] else None, P(o["n"]))
    def setenv(self, env):
        for k, e in zip(ENV, env):
            if e: os.putenv(b"NOSTR_" + k.encode(), bytes(e[0]))
            else: os.unsetenv("NOSTR_" + k)
    def history(self, plan):
        api = self.api; out = []; self.err = None
        for o in plan:
            o = {k: v for k, v in o.items() if k not in ("r", "cfg", "told", "seen", "other", "after", "out")}; k = o["o"]; self.note(json.dumps(o)[:3000])
            if k == "defaults":
                b = api.new(T, 0x5A); r = api.call("nostr_config_get_defaults", b); o["out"] = rec(self.get(ctypes.addressof(b))) if r == 0 else []
            elif k == "null":
                rs = {api.call("nostr_config_" + f, None) for f in ("get_defaults", "load_env", "validate", "update")}; o["r"] = 11 if rs == {11} else max(rs - {11})
            elif k == "validate":
                b = self.put(vals(o["c"])); c0 = b.raw; o["r"] = api.call("nostr_config_validate", b)
                if b.raw != c0: o["r"] = -1
            elif k == "env":
                self.setenv(o["env"]); b = self.put(vals(o["c"])); o["r"] = api.call("nostr_config_load_env", b); o["out"] = rec(self.get(ctypes.addressof(b)))
            elif k == "init": o["r"] = api.call("nostr_init_with_config", self.put(vals(o["c"])))
            elif k == "initenv": self.setenv(o["env"]); o["r"] = api.call("nostr_init_with_config", None)
            elif k == "start": o["r"] = api.call("nostr_init")
            elif k == "stop": api.lib.nostr_cleanup(); o["r"] = 0
            elif k in ("current", "setcb"): self.call(o)
            elif k == "update":
                self.told = []; self.done = []; self.acts = [{a: b for a, b in x.items() if a not in ("r", "cfg")} for x in o.get("acts", [])]
                self.call(o); o["acts"] = self.done; o["told"] = self.told
            elif k == "held":
                p = api.ptr("nostr_config_get_current")
                if not p: continue
                o["seen"] = rec(self.get(p)); self.told = []; self.acts = []
                def other(): o["r"] = api.call("nostr_config_update", self.put(vals(o["c"]))); o["other"] = (self.cur() or [[]])[0]
                t = threading.Thread(target=other); t.start(); t.join(); o["after"] = rec(self.get(p))
            elif k == "limits": self.limits(o)
            out.append(o)
            if self.err: raise self.err
        return dict(ops=out)
    def limits(self, o):
        a = self.api; ev = '{"id":"%s","pubkey":"%s","sig":"%s","created_at":1,"kind":1,"tags":[%s],"content":"%s"}'
        h = ("0" * 64, "1" * 64, "2" * 128)
        def ok(tags, n):
            rc, e = a.ev_parse((ev % (h + (",".join(['["t"]'] * tags), "x" * n))).encode())
            if e: a.ev_free(e)
            return rc == 0
        o["content"] = ok(0, o["len"]); o["tags"] = ok(o["count"], 1)
        e = a.ev_new(); o["added"] = sum(a.ev_add(e, [b"t"]) == 0 for _ in range(o["count"])); a.ev_free(e)
        e = a.ev_new(); o["tag"] = a.ev_add(e, [b"v"] * o["values"]) == 0; a.ev_free(e)
    # ---- random plans
    def field(self, i):
        rng = self.rng
        if i == 10: return rng.choice((4, 44, 4, 44, 4, 44, 0, 5, 43, 45, -4, 17, 1 << 30))
        if i > 10: return rng.choice((0, 1, 0, 1, 0, 1, 2, -1, 255, 256, -2147483648))
        lo, hi = RANGE[i]; r = rng.random()
        return rng.choice((lo, hi, lo + 1, hi - 1)) if r < .45 else rng.choice((lo - 1, hi + 1, 0, 0xffffffff, 0x80000000, 65536, hi + 65536)) if r < .6 else rng.randrange(lo, hi + 1)
    def cfg(self, bad=.3):
        rng = self.rng; c = list(DEF)
        for i in range(13):
            if rng.random() < .3: c[i] = self.field(i)
        if rng.random() > bad:
            for i in range(13):
                if RANGE[i] and not RANGE[i][0] <= c[i] <= RANGE[i][1]: c[i] = rng.randrange(RANGE[i][0], min(RANGE[i][1], 5000) + 1)
            if c[1] < c[0]: c[0], c[1] = c[1], c[0]
            if c[10] not in (4, 44): c[10] = 4
            for i in (11, 12): c[i] = int(c[i] in (0, 1) and c[i])
        return c
    def env(self, calm=False):
        rng = self.rng; out = [[] for _ in range(13)]
        for i in range(13):
            if rng.random() < .35:
                r = rng.random(); v = self.cfg(0)[i] if calm or r < .5 else self.field(i)
                t = str(v) if r < .7 or calm and r < .9 else "0" * rng.randrange(1, 5) + str(abs(v)) if r < .75 else rng.choice(("", "abc", "12a", "4294967295", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "2147483647", "2147483648", "-2147483648", "-2147483649", "-1", "-0", "-", "--5", "5 ", "1.5", "1e3", "0x10", "9" * 40, "-" + "9" * 30, "-4294967295", "100 ", "100\n", "44,4"))
                out[i] = [B(t.encode())]
        return out
    def plan(self):
        rng = self.rng
        def act():
            r = rng.random(); return dict(o="current") if r < .4 else dict(o="update", c=rec(self.cfg())) if r < .8 else dict(o="setcb", n=rng.choice((0, 5, 6)))
        out = []
        for _ in range(rng.choice((6, 12, 24))):
            r = rng.random(); r = r if _ > 2 else r * .6
            if r < .1: out.append(dict(o="validate", c=rec(self.cfg(.9))))
            elif r < .25: out.append(dict(o="env", c=rec(self.cfg()), env=self.env()))
            elif r < .37: out.append(dict(o="init", c=rec(self.cfg())))
            elif r < .47: out.append(dict(o="initenv", env=self.env(rng.random() < .8)))
            elif r < .52: out.append(dict(o=rng.choice(("start", "stop", "defaults", "null"))))
            elif r < .62: out.append(dict(o="current"))
            elif r < .70: out.append(dict(o="setcb", n=rng.choice((0, 1, 2, 3))))
            elif r < .90:
                out.append(dict(o="update", c=rec(self.cfg()), acts=[act() for _ in range(rng.choice((0, 0, 1, 2)))]))
                if rng.random() < .6: out.append(dict(o="current"))
            elif r < .94: out.append(dict(o="held", c=rec(self.cfg())))
            else:
                p = self.near = [x for x in out if x["o"] in ("init", "update")][-1:] ; c = vals(p[0]["c"]) if p else DEF
                nr = lambda v, hi: max(1, min(hi, v + rng.choice((-1, 0, 1))))
                out.append(dict(o="limits", len=nr(c[5], 1 << 20), count=nr(c[6], 1001), values=nr(c[7], 1001)))
        return out
    # ---- threads
    def race(self):
        api = self.api; rng = self.rng; num = itertools.count(2); base = self.cfg(0); base[2] = 1
        out = self.history([dict(o="init", c=rec(base)), dict(o="setcb", n=1)])["ops"]
        K = rng.choice((2, 3)); M = rng.choice((3, 8, 20)); cfgs = [base]
        for i in range(K * M): c = self.cfg(0); c[2] = i + 2; cfgs.append(c)
        idx = {tuple(c): i + 1 for i, c in enumerate(cfgs)}; pos = itertools.count(1); told = []; up = []; rd = []; bad = []
        def hit(a, b, u):
            try: told.append(dict(old=idx.get(tuple(self.get(a)), 0), new=idx.get(tuple(self.get(b)), -len(told))))
            except BaseException as x: self.err = x
        self.on = hit; api.lib.vf_lock_jitter(2, ctypes.c_uint64(rng.randrange(1 << 30)))
        bufs = [self.put(c) for c in cfgs]; fn = api.lib.nostr_config_update; gc = api.fn("nostr_config_get_current", P)
        def upd(k):
            for i in range(k * M + 1, k * M + M + 1):
                p = next(pos); r = fn(bufs[i]); q = next(pos)
                if r == 0: up.append({"to": i + 1, "from": p, "done": q})
                else: bad.append(r)
        alive = [1]
        def read():
            n = 0
            while alive and n < 40:
                p = next(pos); x = gc(); c = idx.get(tuple(self.get(x)), 0) if x else 0; rd.append({"c": c, "from": p, "done": next(pos)}); n += 1
        ts = [threading.Thread(target=upd, args=(k,)) for k in range(K)]; rs = [threading.Thread(target=read) for _ in range(2)]
        for t in ts + rs: t.start()
        for t in ts: t.join()
        alive.clear()
        for t in rs: t.join()
        api.lib.vf_lock_jitter(0, ctypes.c_uint64(0))
        if self.err: raise self.err
        return dict(ops=out + [dict(o="race", cfgs=[rec(c) for c in cfgs], told=told, up=up, rd=rd, failed=len(bad)), dict(o="current", cfg=self.cur())])
    def initrace(self):
        api = self.api; rng = self.rng; K = rng.choice((2, 3, 5)); cs = [self.cfg(0) for _ in range(K)]; rs = [None] * K; seen = [None] * K
        for i, c in enumerate(cs): c[2] = i + 1
        bufs = [self.put(c) for c in cs]; bar = threading.Barrier(K); api.lib.vf_lock_jitter(2, ctypes.c_uint64(rng.randrange(1 << 30))); fn = api.lib.nostr_init_with_config
        def go(i): bar.wait(); rs[i] = fn(bufs[i]); seen[i] = (self.cur() or [[]])[0]
        ts = [threading.Thread(target=go, args=(i,)) for i in range(K)]
        for t in ts: t.start()
        for t in ts: t.join()
        api.lib.vf_lock_jitter(0, ctypes.c_uint64(0))
        return dict(ops=[dict(o="initrace", cs=[rec(c) for c in cs], rs=rs, seen=seen), dict(o="current", cfg=self.cur())])
