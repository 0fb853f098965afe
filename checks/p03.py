import ctypes, json
from vf.framework import Check
from vf import gen as G
from vf.api import P, L, B, BIG
RC = {0: "OK", 16: "BUFFER_TOO_SMALL"}

def jnum(n): return dict(BIG(n), int=True)

class CHECK(Check):
    id = "P03"
    variants = ["ossl"]
    trace = "T_EventJson"
    mc = [("MC_EventJson", "MC_EventJson.cfg", {"workers": 2})]
    gen = [("MC_EventJson", "Gen_EventJson.cfg", {})]
    assumptions = ["strings contain no NUL (U+0000); |created_at| <= 2^53",
                   "objects whose fields are missing or have another JSON type, and tags that are not non-empty arrays of strings, are outside the property (the parser is lenient there)"]

    def behaviours(self, api, rng, w, n, gen):
        N = self.scale(220, 5000)
        for g in gen:
            s = g[0]["src"]
            src = dict(id=b"0" * 64, pubkey=b"f" * 64, sig=b"a" * 128, kind=self.num(s["kind"]), created_at=self.num(s["created_at"]),
                       tags=[["".join(map(chr, v)) for v in t] for t in s["tags"]], content="".join(map(chr, s["content"])))
            yield {"ops": [self.parse(src, rng, rng.randrange(2))]}
        for i in range(N): yield self.run(rng, None, i)
        cfg = api.new("nostr_config"); cp = ctypes.addressof(cfg)
        api.call("nostr_config_get_defaults", P(cp)); api.call("nostr_init_with_config", P(cp))
        for i in range(N):
            yield self.run(rng, (rng.choice((1, 2, 5, 20, 1000)), rng.choice((1024, 1025, 2000, 65535, 1048576))), i)

    def num(self, n): return int(("-" if n["neg"] else "") + "".join(map(str, n["d"]))) if n["int"] else float(("-" if n["neg"] else "") + "".join(map(str, n["d"])) + ".5")

    # ----- text rendering with arbitrary formatting
    def ws(self, rng): return "".join(rng.choice(" \n\t\r") for _ in range(rng.randrange(0, 3))) if rng.random() < .2 else ""
    def rs(self, s, rng, style):
        out = '"'
        for ch in s:
            o = ord(ch)
            r = rng.random()
            if ch in '"\\' : out += "\\" + ch if r < .7 else "\\u%04x" % o
            elif ch in "\b\f\n\r\t": out += {"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}[ch] if r < .7 else "\\u%04X" % o
            elif o < 32: out += "\\u%04x" % o
            elif ch == "/" and r < .5: out += "\\/"
            elif r < style:
                if o > 0xffff: out += "\\u%04x\\u%04x" % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))
                else: out += "\\u%04x" % o
            else: out += ch
        return out + '"'
    def render(self, src, rng):
        style = rng.choice((0, 0, 0.05, 0.5)); w = lambda: self.ws(rng)
        R = lambda s: self.rs(s, rng, style)
        f = [("id", R(src["id"].decode("latin1"))), ("pubkey", R(src["pubkey"].decode("latin1"))), ("sig", R(src["sig"].decode("latin1"))),
             ("kind", str(src["kind"])), ("created_at", str(src["created_at"])), ("content", R(src["content"])),
             ("tags", "[" + w() + (w() + "," + w()).join("[" + w() + (w() + "," + w()).join(R(v) for v in t) + w() + "]" for t in src["tags"]) + w() + "]")]
        if rng.random() < .7: rng.shuffle(f)
        if rng.random() < .2: f.insert(rng.randrange(len(f) + 1), (rng.choice(("extra", "ID", "relay", "seen")), rng.choice(("null", "[1,{}]", "\"x\"", "1e3"))))
        # (a differently cased duplicate of a field is another field)
        return w() + "{" + ",".join(w() + '"%s"' % k + w() + ":" + w() + v + w() for k, v in f) + "}" + w()

    def src(self, rng, valid=True):
        def us(cap):
            t = G.text(rng, cap).decode("utf8", "ignore").replace("\0", "")
            if rng.random() < .2: t += rng.choice(("é", "𝄞", "\u2028", "日本", "\uffff", "\x7f"))
            return t
        hx = lambda n: G.hexs(rng, n) if rng.random() < .9 else bytes(rng.choice(b"0123456789abcdefABCDEF") for _ in range(n))
        s = dict(id=hx(64), pubkey=hx(64), sig=hx(128), kind=G.integer(rng, 0, 65535), created_at=G.integer(rng, -2 ** 53, 2 ** 53) if rng.random() < .4 else rng.randrange(0, 2 ** 33),
                 content=us(300) if rng.random() < .9 else us(3000), tags=[[us(20) for _ in range(rng.randrange(1, 5))] for _ in range(G.size(rng, 25))])
        if not valid:
            k = rng.randrange(4)
            if k < 2:
                f = rng.choice(("id", "pubkey", "sig")); h = s[f]; m = rng.randrange(8); i = rng.randrange(len(h)); ie = i & ~1
                s[f] = [h[:-1], h + b"0", h[:i] + b"g" + h[i + 1:], h[:i] + b" " + h[i + 1:], h[:ie] + b"+" + h[ie + 1:], h[:ie] + b"-" + h[ie + 1:], b"", h[:ie] + b"0x" + h[ie + 2:]][m]
            elif k == 2: s["kind"] = rng.choice((-1, 65536, 65537, 70000, 2 ** 31, 2 ** 32 + 1, -65535, 2 ** 40, 1.5))
            else: s["created_at"] = rng.choice((1.5, 1700000000.25, -0.5))
        return s

    def parse(self, src, rng, via):
        api = self.api
        txt = self.render(src, rng).encode("utf8"); self.note(repr(txt)[:3000])
        p = ctypes.c_void_p(0x1)
        if via == 0: rc = api.call("nostr_event_from_json", txt, ctypes.byref(p))
        else:       # a buffer of exactly json_len bytes
            b = api.ptr("vf_malloc", ctypes.c_size_t(len(txt))); api.wr(b, txt)
            rc = api.call("nostr_event_parse", P(b), ctypes.c_size_t(len(txt)), ctypes.byref(p)); api.free(b)
        def num(x): return jnum(x) if isinstance(x, int) else dict(BIG(int(x)), int=False)
        o = dict(o="parse", r=rc, null=not p.value, src=dict(id=B(src["id"]), pubkey=B(src["pubkey"]), sig=B(src["sig"]), kind=num(src["kind"]),
                 created_at=num(src["created_at"]), tags=[[B(v.encode()) for v in t] for t in src["tags"]], content=B(src["content"].encode())))
        if rc == 0:
            o["ev"] = self.evrec(p.value); o["_e"] = p.value
        return self.strip(o)
    def strip(self, o):
        e = o.pop("_e", 0); self.last = e
        return o
    def evrec(self, e):
        d = self.api.ev_read(e)
        return dict(id=B(d["id"].hex().encode()), pubkey=B(d["pubkey"].hex().encode()), sig=B(d["sig"].hex().encode()), kind=BIG(d["kind"]),
                    created_at=BIG(d["created_at"]), tags=[[B(v) for v in t] for t in d["tags"]], content=B(d["content"] or b""))

    def prints(self, e, rng):
        api = self.api; out = []
        pj = ctypes.c_void_p(0); rc = api.call("nostr_event_to_json", P(e), ctypes.byref(pj))
        txt = api.takestr(pj.value)
        o = dict(o="print", r=rc, ev=self.evrec(e))
        try:
            j = json.loads(txt.decode("latin1"))
            lb = lambda s: B(s.encode("latin1"))
            assert set(j) == {"id", "pubkey", "sig", "kind", "created_at", "tags", "content"} and type(j["kind"]) is int and type(j["created_at"]) is int
            o["src"] = dict(id=lb(j["id"]), pubkey=lb(j["pubkey"]), sig=lb(j["sig"]), kind=jnum(j["kind"]), created_at=jnum(j["created_at"]),
                            tags=[[lb(v) for v in t] for t in j["tags"]], content=lb(j["content"]))
        except Exception as x:
            o["r"] = "unreadable: " + str(x)[:100]
        out.append(o)
        if isinstance(o["r"], int):
            ln = len(txt)
            for n in (ln + 1, ln, max(1, ln - 1), 1, rng.randrange(1, ln + 50)):
                if rng.random() < .5: continue
                b = api.ptr("vf_malloc", ctypes.c_size_t(n)); ctypes.memset(b, 0xEE, n); k = ctypes.c_size_t(0)
                rc = api.call("nostr_event_serialize", P(e), P(b), ctypes.c_size_t(n), ctypes.byref(k))
                out.append(dict(o="printbuf", n=n, full=ln, len=k.value, r=RC.get(rc, str(rc)), same=rc == 0 and api.rd(b, n)[:ln + 1] == txt + b"\0"))
                api.free(b)
        return out

    def run(self, rng, lim, i):
        api = self.api; out = []
        mt = mc = mv = None
        if lim:
            cfg = api.new("nostr_config"); cp = ctypes.addressof(cfg); api.call("nostr_config_get_defaults", P(cp))
            mt, mc = lim; mv = rng.choice((1, 2, 3, 5, 50, 1000))
            api.set(cp, "nostr_config", "max_tags", mt); api.set(cp, "nostr_config", "max_content_size", mc); api.set(cp, "nostr_config", "max_tag_values", mv)
            out.append(dict(o="config", maxTags=mt, maxContent=mc, maxValues=mv, r=api.call("nostr_config_update", P(cp))))
        for _ in range(4):
            s = self.src(rng, rng.random() < .7)
            if mc and rng.random() < .4 and mc < 5000: s["content"] = "x" * (mc + rng.choice((-1, 0, 1)))
            if mt and rng.random() < .5 and mt < 50: s["tags"] = [["t", str(k)] for k in range(mt + rng.choice((-1, 0, 1)))]
            self.last = 0
            o = self.parse(s, rng, rng.randrange(2)); out.append(o); e = self.last
            if e:
                out += self.prints(e, rng)
                api.ev_free(e)
            if rng.random() < .5: out.append(self.garbage(s, rng))
        # an event built through the API, printed, and parsed back
        tags = [t[:mv or 1000] for t in G.tags(rng, 10, 4, 40)][: (mt or 1000)]
        e = api.ev_build(dict(kind=G.integer(rng, 0, 65535), created_at=G.integer(rng, -2 ** 53, 2 ** 53), tags=tags, content=G.text(rng, 400, utf8=False)[:1000],
                              id=bytes(rng.randrange(256) for _ in range(32)), pubkey=bytes(rng.randrange(256) for _ in range(32)), sig=bytes(rng.randrange(256) for _ in range(64))))
        pr = self.prints(e, rng); out += pr
        if "src" in pr[0]:
            pj = ctypes.c_void_p(0); api.call("nostr_event_to_json", P(e), ctypes.byref(pj)); txt = api.takestr(pj.value)
            p = ctypes.c_void_p(0x1); rc = api.call("nostr_event_from_json", txt, ctypes.byref(p))
            o = dict(o="parse", r=rc, null=not p.value, src=pr[0]["src"])
            if rc == 0: o["ev"] = self.evrec(p.value); api.ev_free(p.value)
            out.append(o)
        api.ev_free(e)
        return {"ops": out}

    def garbage(self, s, rng):
        api = self.api; t = self.render(s, rng).strip().encode("utf8"); k = rng.randrange(6); n = None
        if k == 0: t = t[:rng.randrange(0, len(t))]
        elif k == 1: n = rng.randrange(1, len(t))
        elif k == 2: t = rng.choice((b"", b" ", b"nul", b"{", b"}", b"[", b"\"", b"{\"id\":}", b"{'id':1}", b"\xff\xfe", b"{\"a\" 1}"))
        elif k == 3: i = t.index(b":"); t = t[:i] + t[i + 1:]
        elif k == 4: t = t[:-1] + b"]"
        else: t = b"[" + t + b"}"
        p = ctypes.c_void_p(0x1); self.note("garbage %r %r" % (n, t[:2000]))
        if n is not None:
            b = api.ptr("vf_malloc", ctypes.c_size_t(max(1, n))); api.wr(b, t[:n])
            rc = api.call("nostr_event_parse", P(b), ctypes.c_size_t(n), ctypes.byref(p)); api.free(b)
        else:
            rc = api.call("nostr_event_from_json", t, ctypes.byref(p))
        return dict(o="garbage", r=rc, null=not p.value)
