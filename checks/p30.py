import ctypes, json
from decimal import Decimal
from vf.framework import Check
from vf import gen as G, jsongen as J
from vf.api import P, B
I = "nostr_relay_info_t"; LI = "nostr_relay_limitation_t"; RT = "nostr_relay_retention_t"; FT = "nostr_relay_fee_t"
TEXTS = ["name", "description", "banner", "icon", "pubkey", "self", "contact", "software", "version", "privacy_policy", "terms_of_service", "posting_policy", "payments_url"]
L32 = ["max_message_length", "max_subscriptions", "max_filters", "max_limit", "max_subid_length", "max_event_tags", "max_content_length", "min_pow_difficulty", "default_limit"]
L64 = ["created_at_lower_limit", "created_at_upper_limit"]
FLAGS = ["auth_required", "payment_required", "restricted_writes"]; LISTS = ["relay_countries", "language_tags", "tags"]
def field(k): return "self_pubkey" if k == "self" else k
def num(v):
    assert type(v) in (int, Decimal), v
    assert v == int(v); return str(int(v))
def text(v): assert type(v) is str; return B(v.encode("utf8", "surrogateescape"))

class CHECK(Check):
    id = "P30"
    variants = ["ossl"]
    trace = "T_RelayInfo"
    mc = [("MC_RelayInfo", "MC_RelayInfo.cfg", {"workers": 3})]
    gen = [("MC_RelayInfo", "Gen_RelayInfo.cfg", {"simulate": lambda c: "num=%d" % c.scale(3, 100), "extra": ("-depth", "14")})]
    assumptions = ["memory suffices while printing a document"]

    def behaviours(self, api, rng, w, n, gen):
        self.rng = rng; rng.shuffle(gen); api.lib.vf_oom_hook_cjson()
        for g in gen[:self.scale(300, 6000)]: yield self.run(self.mix(g))
        for _ in range(self.scale(200, 9000)): yield self.run(self.plan())
    # ---- plans
    def mix(self, g):
        out = [dict(o="init")]
        for o in g:
            o = {k: v for k, v in o.items() if k not in ("r", "oom")}
            if o["o"] == "text": o["v"] = [B(x.encode()) for x in o["v"]]
            if o["o"] == "list": o["v"] = [B(x.encode()) for x in o["v"]]
            if o["o"] == "fees":
                for f in ("adm", "sub", "pub"): o[f] = [dict(x, unit=[B(u.encode()) for u in x["unit"]]) for x in o[f]]
            out.append(o)
            if self.rng.random() < .4: out.append(self.show())
        return out + [self.show(), dict(o="limitation")]
    def show(self): return dict(o=self.rng.choice(("info", "info", "limitation")))
    def t(self, cap=60): return B(J.utext(self.rng, cap).encode("utf8", "surrogateescape"))
    def i32(self): return str(self.rng.choice((0, 1, -1, 7, 500, 65535, 65536, 2147483647, -2147483648, self.rng.randrange(1 << 31))))
    def big(self, neg=True):
        r = self.rng; v = r.choice((0, 1, 60, 3600, 2147483648, 4294967295, 4294967296, 10 ** 15, 10 ** 15 - 1, 123456789012345, 2 ** 53, 2 ** 53 - 1, 2 ** 53 + 1, 10 ** 15 + 1, 10 ** 18 + 1, 2 ** 63 - 1, 2 ** 63 - 1 if neg else 2 ** 64 - 1, r.randrange(2 ** 53), r.randrange(2 ** 63))); return str(-v if neg and r.random() < .3 else v)
    def kinds(self): return [self.i32() for _ in range(self.rng.choice((0, 1, 2, 5, 40)))]
    def fee(self, what):
        rng = self.rng; return dict(amount=self.big(False), unit=[self.t(12)] if rng.random() < .8 else [], period=rng.choice(("0", "1", "2628003", "4294967295", "2147483648")), kinds=self.kinds() if what == "pub" else [])
    def plan(self):
        rng = self.rng; out = [dict(o="init")] if rng.random() < .85 else []
        for _ in range(rng.choice((5, 15, 40))):
            r = rng.random()
            if r < .25: out.append(dict(o="text", k=rng.choice(TEXTS), v=[self.t(rng.choice((10, 60, 2000)))] if rng.random() < .85 else []))
            elif r < .4: k = rng.choice(L32 + L64); out.append(dict(o="limit", k=k, v=self.big() if k in L64 else self.i32()))
            elif r < .46: out.append(dict(o="flag", k=rng.choice(FLAGS), v=rng.random() < .6))
            elif r < .54: out.append(dict(o="list", k=rng.choice(LISTS), v=[self.t(12) for _ in range(rng.choice((0, 1, 2, 5)))]))
            elif r < .62: out.append(dict(o="ret", v=[dict(kinds=self.kinds(), time=self.big(), count=self.i32()) for _ in range(rng.choice((0, 1, 2, 4)))]))
            elif r < .7: out.append(dict(o="fees", **{f: [self.fee(f) for _ in range(rng.choice((0, 1, 2)))] for f in ("adm", "sub", "pub")}))
            elif r < .76: out.append(dict(o="setnips", v=self.kinds(), _oom=rng.random() < .1))
            elif r < .84: out += [dict(o="addnip", v=self.i32(), _oom=rng.random() < .1) for _ in range(rng.choice((1, 3, 20)))]
            elif r < .87: out.append(dict(o=rng.choice(("free", "init", "limits", "null"))))
            out.append(self.show())
        return out
    # ---- the library
    def arr(self, n, sz): return self.api.ptr("vf_malloc", ctypes.c_size_t(max(1, n * sz))) if n else 0
    def put(self, p, T, f, v): self.api.set(p, T, f, v)
    def cs(self, b):
        p = self.api.ptr("vf_malloc", ctypes.c_size_t(len(b) + 1)); self.api.wr(p, bytes(b) + b"\0"); return p
    def ints(self, v):
        p = self.arr(len(v), 4)
        for i, x in enumerate(v): self.api.wr(p + 4 * i, (int(x) & 0xffffffff).to_bytes(4, "little"))
        return p
    def drop(self, what):
        """release what the library would: arrays, kinds and units"""
        api = self.api; ip = self.ip
        def fr(p): p and api.free(p)
        if what == "ret":
            p = api.get(ip, I, "retention")
            for i in range(api.get(ip, I, "retention_count")): fr(api.get(p + i * api.size(RT), RT, "kinds"))
            fr(p); self.put(ip, I, "retention", 0); self.put(ip, I, "retention_count", 0)
        elif what in LISTS: fr(api.get(ip, I, what)); self.put(ip, I, what, 0); self.put(ip, I, what + "_count", 0)
        else:
            for f in ("admission", "subscription", "publication"):
                p = api.get(ip, I, "fees." + f)
                for i in range(api.get(ip, I, "fees.%s_count" % f)):
                    q = p + i * api.size(FT); fr(api.get(q, FT, "unit")); fr(api.get(q, FT, "kinds"))
                fr(p); self.put(ip, I, "fees." + f, 0); self.put(ip, I, "fees.%s_count" % f, 0)
    def fees(self, f, xs):
        api = self.api; p = self.arr(len(xs), api.size(FT))
        for i, x in enumerate(xs):
            q = p + i * api.size(FT); api.wr(q, bytes(api.size(FT))); self.put(q, FT, "amount", int(x["amount"])); self.put(q, FT, "unit", self.cs(x["unit"][0]) if x["unit"] else 0)
            self.put(q, FT, "period", int(x["period"])); self.put(q, FT, "kinds", self.ints(x["kinds"])); self.put(q, FT, "kinds_count", len(x["kinds"]))
        self.put(self.ip, I, "fees." + f, p); self.put(self.ip, I, "fees.%s_count" % f, len(xs))
    # ---- reading a document back, strictly
    def read(self, t):
        def pairs(ps):
            d = dict(ps); assert len(d) == len(ps), "a member twice"; return d
        return json.loads(t.decode("utf8", "surrogateescape"), object_pairs_hook=pairs, parse_float=Decimal, strict=True)
    def take(self, d, k, f): return [f(d.pop(k))] if k in d else []
    def each(self, f):
        def g(v): assert type(v) is list; return [f(x) for x in v]
        return g
    def done(self, d): assert not d, "extra " + str(d)
    def lims(self, v):
        d = dict(v); r = dict(n={k: self.take(d, k, num) for k in L32 + L64}, flag={k: d.pop(k) for k in FLAGS}); assert all(type(x) is bool for x in r["flag"].values()); self.done(d); return r
    def retention(self, v):
        d = dict(v); r = dict(kinds=self.take(d, "kinds", self.each(num)), time=self.take(d, "time", num), count=self.take(d, "count", num)); self.done(d); return r
    def feedoc(self, kind):
        def g(v):
            d = dict(v); r = dict(amount=num(d.pop("amount")), unit=self.take(d, "unit", text))
            if kind == "subscription": r["period"] = self.take(d, "period", num)
            if kind == "publication": r["kinds"] = self.take(d, "kinds", self.each(num))
            self.done(d); return r
        return g
    def feesdoc(self, v): d = dict(v); r = {k: self.take(d, k, self.each(self.feedoc(k))) for k in ("admission", "subscription", "publication")}; self.done(d); return r
    def infodoc(self, v):
        d = dict(v); r = dict(text={k: self.take(d, k, text) for k in TEXTS}, supported_nips=self.each(num)(d.pop("supported_nips")), limitation=self.lims(d.pop("limitation")), retention=self.take(d, "retention", self.each(self.retention)),
                              list={k: self.take(d, k, self.each(text)) for k in LISTS}, fees=self.take(d, "fees", self.feesdoc)); self.done(d); return r
    def run(self, plan):
        api = self.api; buf = api.new(I); self.ip = ip = ctypes.addressof(buf); lp = api.addr(ip, I, "limitation"); out = []; self.strs = []
        self.rng.random()
        for o in plan:
            o = dict(o); k = o["o"]; self.note(str(o)[:2000]); oom = o.pop("_oom", False)
            if k == "init": api.call("nostr_relay_info_free", buf); ctypes.memset(ip, 0xA5, api.size(I)); api.lib.nostr_relay_info_init(buf)
            elif k == "free": api.lib.nostr_relay_info_free(buf)
            elif k == "limits": ctypes.memset(lp, 0xA5, api.size(LI)); api.lib.nostr_relay_limitation_init(P(lp))
            elif k == "text": s = [self.cs(o["v"][0])] if o["v"] else []; self.strs += s; self.put(ip, I, field(o["k"]), s[0] if s else 0)
            elif k == "limit": self.put(lp, LI, o["k"], int(o["v"]))
            elif k == "flag": self.put(lp, LI, o["k"], int(o["v"]))
            elif k == "list":
                self.drop(o["k"]); n = len(o["v"]); p = self.arr(n, 8)
                for i, x in enumerate(o["v"]): s = self.cs(x); self.strs.append(s); api.wr(p + 8 * i, s.to_bytes(8, "little"))
                self.put(ip, I, o["k"], p); self.put(ip, I, o["k"] + "_count", n)
            elif k == "ret":
                self.drop("ret"); n = len(o["v"]); p = self.arr(n, api.size(RT))
                for i, x in enumerate(o["v"]):
                    q = p + i * api.size(RT); api.wr(q, bytes(api.size(RT))); self.put(q, RT, "kinds", self.ints(x["kinds"])); self.put(q, RT, "kinds_count", len(x["kinds"])); self.put(q, RT, "time", int(x["time"])); self.put(q, RT, "count", int(x["count"]))
                self.put(ip, I, "retention", p); self.put(ip, I, "retention_count", n)
            elif k == "fees":
                self.drop("fees")
                for f, s in (("admission", "adm"), ("subscription", "sub"), ("publication", "pub")): self.fees(f, o[s])
            elif k == "setnips":
                p = self.ints(o["v"]); o["oom"] = oom
                if oom: api.lib.vf_oom_arm(ctypes.c_long(1))
                o["r"] = api.call("nostr_relay_info_set_nips", buf, P(p or None), ctypes.c_size_t(len(o["v"]))); api.lib.vf_oom_disarm()
                if p: ctypes.memset(p, 0xEE, 4 * len(o["v"])); api.free(p)
            elif k == "addnip":
                o["oom"] = oom
                if oom: api.lib.vf_oom_arm(ctypes.c_long(1))
                o["r"] = api.call("nostr_relay_info_add_nip", buf, int(o["v"])); api.lib.vf_oom_disarm()
            elif k == "null":
                n = ctypes.c_size_t(0); b = ctypes.create_string_buffer(10); z = ctypes.c_size_t
                rs = [api.call("nostr_relay_info_serialize", None, b, z(10), ctypes.byref(n)), api.call("nostr_relay_info_serialize", buf, None, z(10), ctypes.byref(n)), api.call("nostr_relay_info_serialize", buf, b, z(0), ctypes.byref(n)),
                      api.call("nostr_relay_limitation_serialize", None, b, z(10), ctypes.byref(n)), api.call("nostr_relay_info_set_nips", None, None, z(0)), api.call("nostr_relay_info_add_nip", None, 1)]
                o["r"] = min(rs)
            else:
                fn, q = ("nostr_relay_info_serialize", ip) if k == "info" else ("nostr_relay_limitation_serialize", lp)
                if not hasattr(self, "big_"): self.big_ = ctypes.create_string_buffer(1 << 20)
                ln = ctypes.c_size_t(0); r = api.call(fn, P(q), self.big_, ctypes.c_size_t(1 << 20), ctypes.byref(ln)); full = len(self.big_.value)
                for n in (1 << 20, *self.rng.sample((full, full + 1, max(1, full - 1), 1, max(1, full // 2)), 2)):
                    p = api.ptr("vf_malloc", ctypes.c_size_t(n)) if n < 1 << 20 else ctypes.addressof(self.big_); ln = ctypes.c_size_t(12345678)
                    x = dict(o=k, n=n, full=full, r=api.call(fn, P(q), P(p), ctypes.c_size_t(n), self.rng.choice((ctypes.byref(ln), ctypes.byref(ln), None)) if False else ctypes.byref(ln)), len=ln.value)
                    if x["r"] == 0:
                        t = api.rd(p, n if n < 1 << 20 else full + 1); x["well"] = False; x["doc"] = []
                        try: x["doc"] = (self.infodoc if k == "info" else self.lims)(self.read(t[:t.index(b"\0")])); x["well"] = True
                        except (AssertionError, ValueError, KeyError, AttributeError, TypeError) as e: x["why"] = str(e)[:200]
                    if n < 1 << 20: api.free(p)
                    out.append(x)
                continue
            out.append(o)
        api.lib.nostr_relay_info_free(buf); n = ctypes.c_size_t(0)
        for s in self.strs: api.free(s)
        return dict(ops=out)
