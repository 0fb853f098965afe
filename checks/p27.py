import ctypes, re, struct
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
BASE = 1700000000
FAR = 10 ** 9
METHODS = [b"pay_invoice", b"*", b"get_balance", b"pay_invoice ", b"pay", b"", b"m" * 300, b"**", b"PAY_INVOICE", "zahle\u00e9".encode()]
EDGE = [0, 1, 2, 5, 1000, 9999999, 10 ** 7, 10 ** 14 - 1, 10 ** 14, (1 << 31) - 1, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]
def amount(n): return [n // 10 ** 14, n // 10 ** 7 % 10 ** 7, n % 10 ** 7]

class CHECK(Check):
    id = "P27"
    workers = 12
    variants = ["full", "fullmbed"]
    trace = "T_Sessions"
    mc = [("MC_Sessions", "MC_Sessions.cfg", {"workers": 3})]
    gen = [("MC_Sessions", "Gen_Sessions.cfg", {"simulate": lambda c: "num=%d" % c.scale(300, 20000), "extra": ("-depth", "15")})]
    assumptions = ["the clock is the harness's and does not run backwards", "a connection is not used after its session was destroyed or has expired (the header leaves it to the session)",
                   "overlapping calls are judged by whether some order of them explains every answer; schedules are sampled with random delays at the library's own locks"]

    def behaviours(self, api, rng, w, n, gen):
        self.rng = rng; self.now = BASE; self.cap = (3, 1, 2, 100, 5, 3, 2, 11)[w % 8]
        if w % 8 != 3:
            c = api.new("nostr_config"); api.call("nostr_config_get_defaults", c); api.set(ctypes.addressof(c), "nostr_config", "max_sessions", self.cap); api.call("nostr_init_with_config", c)
        else: api.call("nostr_init")
        self.config = w % 8 != 3
        for g in gen[:self.scale(60, 3000)]: yield self.run(self.follow(g))
        for _ in range(self.scale(250, 8000)): yield self.run(self.plan())
        for _ in range(self.scale(120, 5000)): yield self.run(self.overlap())
    # ---- plans
    def follow(self, g):
        ops = []
        if self.config: ops.append(("limits", 60, 2))
        for o in g:
            if o["o"] == "create": ops.append(("create", True))
            elif o["o"] == "add": ops.append(("add", o["i"] - 1, b"*" if o["m"] == "*" else b"pay", o["l"], o["v"]))
            elif o["o"] == "check": ops.append(("check", o["i"] - 1, b"pay" if o["m"] == "pay" else b"list", o["a"]))
            elif o["o"] == "extend": ops.append(("extend", o["i"] - 1, 1))
            elif o["o"] == "destroy": ops.append(("destroy", o["i"] - 1))
            else: ops.append(("tick", o["d"] if o["d"] < 3 else 58 + o["d"]))
        return ops
    def amt(self, lim):
        rng = self.rng; r = rng.random()
        if r < .4: return rng.choice(EDGE)
        if r < .8 and lim: return max(0, min((1 << 64) - 1, rng.choice((lim, lim // 2, lim // 3 + 1, lim - 1, lim + 1, (1 << 64) - lim, (1 << 64) - 1 - lim // 2))))
        return rng.randrange(2000)
    def plan(self):
        rng = self.rng; ops = []; lim = rng.choice(EDGE); ms = rng.sample(METHODS, 3) + [b"*", b"pay_invoice"]
        if self.config and rng.random() < .6: ops.append(("limits", rng.choice((60, 61, 3600, 86400)), rng.choice((1, 2, 3, 32, 1000))))
        for _ in range(rng.randrange(4, 26)):
            r = rng.random(); i = rng.choice((0, 0, 1, 2, 3, -1, "bad"))
            if rng.random() < .9 and i == "bad": i = 0
            if r < .16 or not any(o[0] == "create" for o in ops): ops += [("create", rng.random() < .93)] * rng.choice((1, 1, 1, 1, 2, 4, 12))
            elif r < .36: ops.append(("add", i, rng.choice(ms), rng.choice((0, lim, lim, self.amt(lim))), rng.choice((0, 1, 2, 10, 60, 3600, 86400, 0x7fffffff, 0xffffffff))))
            elif r < .7: ops += [("check", i, rng.choice(ms), self.amt(lim))] * rng.choice((1, 1, 2, 3))
            elif r < .78: ops.append(("get", i, rng.random() < .5))
            elif r < .83: ops.append(("extend", i, rng.choice((0, 1, 59, 60, 3600, 0x7fffffff, 0xffffffff))))
            elif r < .88: ops.append(("destroy", i))
            elif r < .9: ops.append(("null", rng.randrange(9)))
            elif r < .92 and self.config: ops.append(("limits", rng.choice((60, 90, 86400)), rng.choice((1, 2, 40))))
            else: ops.append(("tick", rng.choice((1, 1, 1, 2, 9, 10, 11, 59, 60, 61, 62, 3599, 3600, 3601, 86400, 86401, 200000))))
        return ops
    def overlap(self):
        rng = self.rng; ops = [("create", True)] * rng.choice((1, 2)); lim = rng.choice((5, 1000, (1 << 64) - 1))
        if self.config: ops.insert(0, ("limits", 60, rng.choice((1, 2, 32))))
        for i in range(2): ops.append(("add", i, rng.choice((b"*", b"pay")), lim, rng.choice((1, 60))))
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .7: ops.append(("tick", rng.choice((1, 1, 2, 60, 61))))
            th = rng.choice((2, 2, 3, 3)); k = rng.choice((1, 2, 2)) if th == 3 else rng.choice((1, 2, 3)); one = rng.random() < .4; par = []
            for j in range(th):
                seq = []
                for _ in range(k):
                    r = rng.random(); i = rng.choice((0, 0, 0, 1))
                    if r < .45 or one and r < .7: seq.append(("check", i, b"pay", rng.choice((lim // 2 + 1, lim // 3, lim, 1))))
                    elif r < .6: seq.append(("create", True))
                    elif r < .7: seq.append(("destroy", i))
                    elif r < .8: seq.append(("add", i, rng.choice((b"pay", b"x")), lim, 60))
                    elif r < .9: seq.append(("extend", i, rng.choice((1, 60))))
                    else: seq.append(("get", i, False))
                par.append(seq)
            ops.append(("par", par)); ops += [("check", 0, b"pay", 1), ("get", 0, True), ("get", 1, True)]
        return ops
    # ---- running
    def uri(self, good):
        rng = self.rng; sk = rng.choice(self.sks); svc = rng.choice(self.pks); r = rng.randrange(6)
        q = ["relay=" + rng.choice(("wss%3A%2F%2Frelay.example", "wss://r.example/x", "wss%3a%2f%2f" + "h" * 300))] * rng.choice((1, 1, 2, 5, 9)) + ["secret=" + sk.hex()]
        if rng.random() < .3: q.append("lud16=me%40example.com")
        if rng.random() < .2: q.append(rng.choice(("x=1", "x", "secretx=1")))
        rng.shuffle(q); pre = "nostr+walletconnect://"; h = svc.hex()
        if not good:
            if r == 0: q = [x for x in q if not x.startswith("secret=")]
            elif r == 1: q = [x for x in q if not x.startswith("relay=")]
            elif r == 2: h = rng.choice((h[:-1], h + "0", "zz" + h[2:], ""))
            elif r == 3: pre = rng.choice(("nostr+walletconnect:/", "nostrwalletconnect://", "", "NOSTR+walletconnect://"))
            elif r == 4: q = [x if not x.startswith("secret=") else rng.choice((x[:-1], x + "00", x[:-1] + "g")) for x in q]
            else: return rng.choice((b"", b"nostr+walletconnect://", b"?", (pre + h).encode()))
        return (pre + h + "?" + "&".join(q)).encode(), self.api.o_pub(sk), svc
    def run(self, plan):
        api = self.api; rng = self.rng; self.ids = []; self.out = []; self.note("%r" % (plan,))
        self.sks = [bytes(x) for x in G.seckeys(rng, 3)]; self.pks = [api.o_pub(bytes(x)) for x in G.seckeys(rng, 3)]
        self.now += 10; self.t0 = self.now; api.time_set(self.now); self.keep = []
        self.limits = (3600, 32)
        if self.config: self.setlimits(3600, 32)
        self.out.append(dict(o="start", cap=self.cap, timeout=3600, maxp=32))
        for o in plan:
            if o[0] == "tick": self.now += o[1]; api.time_set(self.now)
            elif o[0] == "limits": self.out.append(dict(o="limits", timeout=o[1], maxp=o[2], r=self.setlimits(o[1], o[2])))
            elif o[0] == "par": self.par(o[1])
            elif o[0] == "null": self.out.append(dict(o="null", r=self.nulls(o[1])))
            else: self.one(o)
        for i in self.ids: api.call("nostr_nip47_session_destroy", i)
        return {"ops": self.out}
    def setlimits(self, timeout, maxp):
        api = self.api; c = api.new("nostr_config"); p = ctypes.addressof(c); api.call("nostr_config_get_defaults", c); api.set(p, "nostr_config", "max_sessions", self.cap)
        api.set(p, "nostr_config", "session_timeout_secs", timeout); api.set(p, "nostr_config", "max_permissions", maxp); return api.call("nostr_config_update", c)
    def sid(self, i):
        """the i-th id given out; or one that was not"""
        rng = self.rng
        if i == "bad" or not self.ids:
            x = rng.choice(self.ids) if self.ids and rng.random() < .9 else b"%064x" % rng.getrandbits(256)
            if not self.ids: return x
            j = rng.randrange(64); y = x[:j] + (b"%x" % ((int(x[j:j + 1], 16) + 1) % 16)) + x[j + 1:]
            return rng.choice((x[:-1], x[:32], x[:1], b"", x + b"0", x + x, y, x.upper() if x.upper() != x else x[:-1], b"0" * 64))
        return self.ids[i % len(self.ids)] if i >= 0 else self.ids[-1]
    def nulls(self, k):
        api = self.api; c = api.call; i = self.ids[-1] if self.ids else b"0" * 64; v = ctypes.c_void_p(); u = ctypes.c_uint64
        return (lambda: c("nostr_nip47_session_create", P(0), ctypes.byref(v)), lambda: c("nostr_nip47_session_create", self.uri(True)[0], P(0)), lambda: c("nostr_nip47_session_add_permission", P(0), b"*", u(0), 0),
                lambda: c("nostr_nip47_session_add_permission", i, P(0), u(0), 0), lambda: c("nostr_nip47_session_check_permission", P(0), b"*", u(0)), lambda: c("nostr_nip47_session_check_permission", i, P(0), u(0)),
                lambda: c("nostr_nip47_session_get_connection", i, P(0)), lambda: c("nostr_nip47_session_get_connection", P(0), ctypes.byref(v)), lambda: c("nostr_nip47_session_destroy", P(0)))[k]()
    def prepare(self, o):
        """-> (record, function name, integer arguments)"""
        t = self.now - self.t0; rng = self.rng; A = lambda b: self.buf(b)
        if o[0] == "create":
            u = self.uri(o[1]); good = o[1]; u = u if isinstance(u, tuple) else (u, b"", b""); out = ctypes.create_string_buffer(8); self.keep.append(out)
            return dict(o="create", good=good, t=t, svc=u[2].hex(), own=(u[1] or b"").hex(), id="", form=False, left=False, inj=0), "nostr_nip47_session_create", [A(u[0]), ctypes.addressof(out)], out
        i = self.sid(o[1]); d = dict(id=i.decode(), t=t)
        if o[0] == "add": return dict(d, o="add", m=o[2].decode(), lim=amount(o[3]), iv=min(o[4], FAR), inj=0), "nostr_nip47_session_add_permission", [A(i), A(o[2]), o[3], o[4]], None
        if o[0] == "check": return dict(d, o="check", m=o[2].decode(), a=amount(o[3])), "nostr_nip47_session_check_permission", [A(i), A(o[2]), o[3]], None
        if o[0] == "extend": return dict(d, o="extend", secs=min(o[2], FAR)), "nostr_nip47_session_extend", [A(i), o[2]], None
        if o[0] == "destroy": return dict(d, o="destroy"), "nostr_nip47_session_destroy", [A(i)], None
        out = ctypes.create_string_buffer(8); self.keep.append(out)
        return dict(d, o="get", conn="", seen=False, own="", svc=""), "nostr_nip47_session_get_connection", [A(i), ctypes.addressof(out)], out
    def buf(self, b):
        x = ctypes.create_string_buffer(b); self.keep.append(x); return ctypes.addressof(x)
    def finish(self, d, out, r):
        d["r"] = r; v = int.from_bytes(out.raw[:8], "little") if out else 0
        if d["o"] == "create":
            if r == 0 and v:
                s = self.api.takestr(v); d["id"] = s.decode("latin1"); d["form"] = bool(re.fullmatch(rb"[0-9a-f]{64}", s)); self.ids.append(s)
            else: d["left"] = v != 0; d["form"] = False
        if d["o"] == "get": d["conn"] = "%x" % v if r == 0 and v else ""
        return d
    def one(self, o):
        api = self.api; rng = self.rng; d, f, a, out = self.prepare(o); r = rng.random(); inj = 0; fault = ""
        if o[0] in ("create", "add") and r < .2:
            fault = rng.choice(("oom", "oom", "from", "rng"))
            if fault == "rng": api.rng_fail(1)
            elif fault == "oom": api.lib.vf_oom_arm(ctypes.c_long(rng.randrange(1, 9)))
            else: api.lib.vf_oom_arm_from(ctypes.c_long(rng.randrange(1, 8)))
        q = api.call(f, *[P(x) if k == 0 or (k == 1 and o[0] not in ("extend",)) else ctypes.c_uint64(x) for k, x in enumerate(a)])
        if fault == "rng": inj = 1 if api.call("vf_rng_calls", res=ctypes.c_long) >= 1 else 0; api.rng_real()
        elif fault: inj = api.call("vf_oom_disarm", res=ctypes.c_long)
        if "inj" in d: d["inj"] = inj
        if fault == "rng" and inj: d["form"] = False
        self.finish(d, out, q)
        if fault == "rng" and inj: d["form"] = False
        if d["o"] == "get" and q == 0 and o[2] and d["conn"]: self.look(int(d["conn"], 16), d)
        self.out.append(d)
    def look(self, conn, d):
        """whose connection it is: the keys in a request made with it"""
        api = self.api; e = ctypes.c_void_p()
        if api.call("nostr_nip47_create_request_event", ctypes.byref(e), P(conn), b"get_info", b"{}", 1) or not e.value: d["seen"] = True; return
        v = api.ev_read(e.value); d["seen"] = True; d["own"] = v["pubkey"].hex(); d["svc"] = next((t[1].decode("latin1") for t in v["tags"] if len(t) > 1 and t[0] == b"p"), ""); api.ev_free(e.value)
    def par(self, threads):
        api = self.api; rng = self.rng; calls = []; S = struct.Struct("<Q5QqiI")
        for k, seq in enumerate(threads):
            for o in seq:
                x = self.prepare(o); calls.append((k,) + x)
        mem = ctypes.create_string_buffer(b"".join(S.pack(ctypes.cast(api.lib[c[2]], P).value, *(c[3] + [0] * (5 - len(c[3]))), -7, c[0], 0) for c in calls))
        api.lib.vf_lock_jitter(rng.choice((1, 2, 2)), ctypes.c_uint64(rng.randrange(1 << 30)))
        api.lib.vf_par(mem, len(calls), len(threads)); api.lib.vf_lock_jitter(0, ctypes.c_uint64(0))
        per = [[] for _ in threads]
        for j, c in enumerate(calls):
            r = struct.unpack_from("<q", mem, j * S.size + 48)[0]; r = r if r < 1 << 31 else -1; per[c[0]].append(self.finish(c[1], c[4], r))
        self.out.append(dict(o="par", threads=per))
