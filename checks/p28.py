import base64, ctypes, hashlib, json
from vf.framework import Check
from vf import gen as G, seal as S, jsongen as J
from vf.api import P, B, BIG
NOW = 1700000000
DEAD = 0xdead0
def h(t): return hashlib.sha1(t if isinstance(t, bytes) else t.encode("utf8", "surrogateescape")).hexdigest()[:16]
def U(b): return b.decode("utf8", "surrogateescape")
def eid(d): return hashlib.sha256(json.dumps([0, d["pubkey"], d["created_at"], d["kind"], d["tags"], d["content"]], separators=(",", ":"), ensure_ascii=False).encode("utf8", "surrogateescape")).hexdigest()
def plain(ck, t):
    """the plaintext of a NIP-44 text, or None"""
    p = S.b64(t)
    if p is None or len(p) < 99 or p[0] != 2: return None
    n, ct, mac = p[1:33], p[33:-32], p[-32:]; k, c, hk = S.expand(ck, n)
    if S.H(hk, n + ct) != mac: return None
    b = S.chacha20(k, c, ct); u = int.from_bytes(b[:2], "big")
    return b[2:2 + u] if u and len(b) == 2 + S.padded(u) else None
NORUMOR = dict(parsed=False, kind=0, at=BIG(0), tags=[], text="", key="", idok=False, signed=False, unsigned=False)
NOSEAL = dict(parsed=False, kind=0, tags=[], age=0, key="", valid=False, open=False, rumor=NORUMOR)

class CHECK(Check):
    id = "P28"
    workers = 12
    variants = ["full", "fullmbed"]
    trace = "T_GiftWrap"
    mc = [("MC_GiftWrap", "MC_GiftWrap.cfg", {"workers": 3})]
    gen = [("MC_GiftWrap", "Gen_GiftWrap.cfg", {"simulate": lambda c: "num=%d" % c.scale(120, 6000), "extra": ("-depth", "8")})]
    assumptions = ["noscrypt is not installed here: the library is built with a stand-in for its interface over libsecp256k1 and OpenSSL (shim/noscrypt_shim.c)",
                   "the reader of seals and wraps is NIP-44 v2 in vf/seal.py, Python's JSON and libsecp256k1 directly; NIP-44 itself is decided by P31, the JSON of events by P01 and P02",
                   "the signature, id and tags of the wrap itself, and tags of the seal, are not looked at by the reader"]

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init"); self.rng = rng; api.lib.vf_oom_hook_cjson()
        for g in gen[:self.scale(40, 1500)]: yield self.run(self.follow(g))
        for _ in range(self.scale(90, 3500)): yield self.run(self.plan())
    def follow(self, g):
        n = {"A": 0, "B": 1, "M": 2}; ops = []
        for o in g:
            if o["o"] == "send": ops.append(("send", n[o["a"]], n[o["b"]]) if self.rng.random() < .5 else ("wrap", n[o["a"]], n[o["b"]]))
            elif o["o"] == "forge": ops.append(("forge", dict(x=n[o["x"]], y=n[o["y"]], b=n[o["b"]])))
            elif o["o"] == "repack": ops.append(("repack", n[o["b"]]))
            elif o["o"] == "forward": ops.append(("forge", dict(x=0, y=2, b=n[o["b"]], signed=True)))
            else: ops.append(("open", n[o["b"]], o["via"], None))
        return ops
    def plan(self):
        rng = self.rng; ops = []; k = lambda: rng.randrange(3)
        for _ in range(rng.randrange(3, 12)):
            r = rng.random()
            if r < .25: ops.append(("send", k(), k()))
            elif r < .4: ops.append(("wrap", k(), k()))
            elif r < .55: ops.append(("stages", k(), k(), rng.choice((17, 59)), rng.choice((17, 59))))
            elif r < .85:
                f = dict(x=k(), y=2, b=k())
                for what, p in (("signed", .3), ("named", .1), ("kind", .1), ("wkind", .07), ("sealid", .07), ("sealsig", .1), ("json", .07), ("rjson", .07), ("other", .05), ("wsig", .1), ("nosig", .5), ("noid", .1), ("badrid", .1)):
                    if rng.random() < p: f[what] = True
                if rng.random() < .4: f["x"] = 2
                ops.append(("forge", f))
            elif r < .9: ops.append(("repack", k()))
            elif r < .93: ops.append(("restart",))
            elif r < .95: ops.append(("null", rng.randrange(12)))
            for _ in range(rng.choice((0, 1, 1, 2))): ops.append(("open", "right" if rng.random() < .85 else k(), rng.choice((17, 59)), rng.choice((None, None, None, "alter", "key", "kind"))))
        return ops
    # ---- reading what came out
    def ck(self, sk, pk):
        x = ctypes.create_string_buffer(32); return S.conv(x.raw[:32]) if self.api.lib.vo_ecdh_x(sk, pk, x) else None
    def valid(self, d):
        try: return eid(d) == d["id"] and self.api.o_verify(bytes.fromhex(d["pubkey"]), bytes.fromhex(d["id"]), bytes.fromhex(d["sig"]))
        except Exception: return False
    def obj(self, t):
        """an event object, or None"""
        try: d = json.loads(U(t))
        except ValueError: return None
        ok = isinstance(d, dict) and isinstance(d.get("kind"), int) and 0 <= d["kind"] < 65536 and isinstance(d.get("created_at"), int) and isinstance(d.get("pubkey"), str) and len(d["pubkey"]) == 64 and isinstance(d.get("content"), str) and isinstance(d.get("tags"), list) and all(isinstance(v, str) for t in d["tags"] for v in t)
        return d if ok else None
    def rumor(self, t):
        d = self.obj(t)
        if not d: return NORUMOR
        return dict(parsed=True, kind=d["kind"], at=BIG(d["created_at"]), tags=[[h(v) if len(v) > 64 else L1(v) for v in t] for t in d["tags"]], text=h(d["content"]), key=d["pubkey"], idok=d.get("id") == eid(d), signed=self.valid(d), unsigned=not d.get("sig", "").strip("0"))
    def age(self, at):
        a = NOW - at; return a if -10 ** 8 < a < 10 ** 8 else -10 ** 8
    def sealrec(self, d, sk):
        """the seal as the holder of sk reads it"""
        if d is None: return NOSEAL
        ck = self.ck(sk, bytes.fromhex(d["pubkey"])); t = plain(ck, d["content"].encode("utf8", "surrogateescape")) if ck else None
        return dict(parsed=True, kind=d["kind"], tags=d["tags"], age=self.age(d["created_at"]), key=d["pubkey"], valid=self.valid(d), open=t is not None, rumor=self.rumor(t) if t is not None else NORUMOR)
    def wraprec(self, d, sk):
        ck = self.ck(sk, bytes.fromhex(d["pubkey"])); t = plain(ck, d["content"].encode("utf8", "surrogateescape")) if ck else None
        return dict(kind=d["kind"], tags=[[L1(v) for v in t_] for t_ in d["tags"]], age=self.age(d["created_at"]), key=d["pubkey"], valid=self.valid(d), open=t is not None, seal=self.sealrec(self.obj(t), sk) if t is not None else NOSEAL)
    def dict_(self, e):
        v = self.api.ev_read(e)
        return dict(id=v["id"].hex(), pubkey=v["pubkey"].hex(), sig=v["sig"].hex(), kind=v["kind"], created_at=v["created_at"], tags=[[U(x) for x in t] for t in v["tags"]], content=U(v["content"] or b""))
    # ---- running
    def text(self):
        rng = self.rng; r = rng.random()
        if r < .04: return "t" * rng.choice((16000, 40000, 40400, 40480, 40700, 41000, 65000, 70000))
        return J.utext(rng, 200).replace("\0", "")
    def call(self, f, *args):
        """the call, perhaps with memory or randomness failing"""
        api = self.api; rng = self.rng; r = rng.random(); inj = 0; norand = False; out = ctypes.c_void_p(DEAD)
        if r < .1: api.lib.vf_oom_arm(ctypes.c_long(rng.choice((rng.randrange(1, 12), rng.randrange(1, 80)))))
        elif r < .13: api.lib.vf_oom_arm_from(ctypes.c_long(rng.randrange(1, 60)))
        elif r < .2: at = rng.choice((1, 2, 3, 4, 5, 6, 7)); api.rng_fail(at)
        a = [ctypes.byref(out) if x is OUT else x for x in args]
        q = api.call(f, *a)
        if r < .13: inj = api.call("vf_oom_disarm", res=ctypes.c_long)
        elif r < .2: norand = api.call("vf_rng_calls", res=ctypes.c_long) >= at; inj = int(norand); api.rng_real()
        left = q != 0 and out.value not in (None, DEAD)
        return q, (out.value if q == 0 else None), dict(r=q, inj=inj, norand=norand, left=left)
    def key(self, i):
        """(secret, public) of a person, rarely not a key at all"""
        sk, pk = self.sk[i], self.pk[i]; r = self.rng.random()
        if r < .01: return self.rng.choice((bytes(32), b"\xff" * 32)), pk, False
        return sk, pk, True
    def pub(self, i):
        if self.rng.random() < .01: return self.rng.choice((bytes(32), b"\xff" * 32, (5).to_bytes(32, "big"))), False
        return self.pk[i], True
    def size(self, e):
        p = ctypes.c_void_p(); r = self.api.call("nostr_event_to_json", P(e), ctypes.byref(p)); n = len(self.api.takestr(p.value)) if r == 0 and p.value else 0; return n
    def mk(self, kind, at, tags, text, key): 
        return self.api.ev_build(dict(kind=kind, created_at=at, tags=[[v.encode("utf8", "surrogateescape") for v in t] for t in tags], content=text.encode("utf8", "surrogateescape"), pubkey=key))
    def sign(self, d, sk):
        d["id"] = eid(d); d["sig"] = self.api.o_sign(sk, bytes.fromhex(d["id"])).hex(); return d
    def event(self, key, sk=None):
        rng = self.rng
        d = dict(pubkey=key.hex(), kind=rng.choice((14, 1, 15, 30023, 0, 65535)), created_at=rng.choice((NOW, 0, 1, 1600000000, 2 ** 33)), tags=[[J.utext(rng, 20) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice((0, 0, 1, 3)))], content=self.text())
        d["id"] = eid(d); d["sig"] = "0" * 128
        return self.sign(d, sk) if sk else d
    def load(self, d): return self.api.ev_build(dict(kind=d["kind"], created_at=d["created_at"], tags=[[v.encode("utf8", "surrogateescape") for v in t] for t in d["tags"]], content=d["content"].encode("utf8", "surrogateescape"), pubkey=bytes.fromhex(d["pubkey"]), id=bytes.fromhex(d["id"]), sig=bytes.fromhex(d["sig"])))
    def forge(self, f):
        """a wrap with the faults named in f, made outside the library"""
        rng = self.rng; m = self.sk[2]; b = self.pk[f["b"]]
        r = self.event(self.pk[f["x"]], self.sk[f["x"]] if f.get("signed") or rng.random() < .1 else None)
        if f.get("badrid"): r["id"] = h("x").ljust(64, "0")
        j = {k: v for k, v in r.items() if not (k == "sig" and f.get("nosig") and not f.get("signed")) and not (k == "id" and f.get("noid"))}
        t = json.dumps(j, ensure_ascii=rng.random() < .5).encode("utf8", "surrogateescape") if not f.get("rjson") else rng.choice((b"{", b"x", b'{"kind":14', b"[]x"))
        ck = self.ck(m, self.pk[(f["b"] + 1) % 3] if f.get("other") else b); n = rng.randbytes
        enc = lambda c, t: S.seal44(c, n(32), t).decode() if len(t) < 65536 else ""
        s = dict(pubkey=self.pk[f["y"]].hex(), kind=rng.choice((1, 14, 1059, 12)) if f.get("kind") else 13, created_at=rng.choice((0, 1, NOW + 99999, 2 ** 33)) if rng.random() < .15 else NOW - rng.randrange(172800), tags=[["x"] if rng.random() < .5 else [rng.choice(("p", "e", "relay", "")), b.hex()] for _ in range(rng.choice((1, 3)))] if rng.random() < .35 else [], content=enc(ck, t))
        self.sign(s, m)
        if f.get("named"): s["pubkey"] = self.pk[rng.randrange(2)].hex()
        if f.get("sealid"): s["created_at"] += 1
        if f.get("sealsig"): s["sig"] = (lambda x, i: x[:i] + "%x" % (int(x[i], 16) ^ 1) + x[i + 1:])(s["sig"], rng.randrange(128))
        t = json.dumps(s).encode() if not f.get("json") else rng.choice((b"{", b"", b"13", b"null")) or b"x"
        e = bytes(G.seckeys(rng, 1)[0]); w = dict(pubkey=self.api.o_pub(e).hex(), kind=rng.choice((1, 13, 1060, 1058)) if f.get("wkind") else 1059, created_at=NOW - rng.randrange(172800), tags=[["p", b.hex()]], content=enc(self.ck(e, b), t)); self.sign(w, e)
        if f.get("wsig"): w["sig"] = "0" * 128
        return w
    def give(self, e, to, extra=None):
        self.wire.append((self.dict_(e), to))
    def run(self, plan):
        api = self.api; rng = self.rng; self.note("%r" % (plan,)); api.time_set(NOW)
        sk = [bytes(x) for x in G.seckeys(rng, 3)]; self.sk = sk; self.pk = [api.o_pub(x) for x in sk]; self.wire = []; out = []
        api.lib.vf_heap_on(1)
        for o in plan:
            f = o[0]
            if f == "restart": api.call("nostr_cleanup", res=None); out.append(dict(o="restart"))
            elif f == "null": out.append(dict(o="null", r=self.nulls(o[1])))
            elif f == "forge": self.wire.append((self.forge(o[1]), o[1]["b"]))
            elif f == "repack":
                mine = [x for x in self.wire if x[1] == 2]
                if mine:
                    d = rng.choice(mine)[0]; t = plain(self.ck(sk[2], bytes.fromhex(d["pubkey"])), d["content"].encode("utf8", "surrogateescape")); e = bytes(G.seckeys(rng, 1)[0])
                    if t: self.wire.append((self.sign(dict(pubkey=api.o_pub(e).hex(), kind=1059, created_at=NOW, tags=[["p", self.pk[o[1]].hex()]], content=S.seal44(self.ck(e, self.pk[o[1]]), rng.randbytes(32), t).decode()), e), o[1]))
            elif f == "send": out.append(self.send(o[1], o[2]))
            elif f == "wrap": out.append(self.wrap(o[1], o[2]))
            elif f == "stages": self.stages(o, out)
            elif f == "open" and self.wire: out.append(self.open(o))
        api.call("nostr_cleanup", res=None); out.append(dict(o="end", live=api.call("vf_heap_live", res=ctypes.c_long))); api.lib.vf_heap_on(0); api.call("nostr_init")
        return {"ops": out}
    def send(self, a, b):
        api = self.api; rng = self.rng; s, spk, k1 = self.key(a); p, k2 = self.pub(b); t = self.text()
        sub = rng.choice((None, None, "", "Re: lunch", "none?", J.utext(rng, 30))); rep = rng.choice((None, None, bytes(32), rng.randbytes(32))); at = rng.choice((0, 0, 1, NOW, 1600000000, 2 ** 33, NOW - 5))
        tags = [["p", p.hex()]] + ([["subject", sub]] if sub is not None else []) + ([["e", rep.hex()]] if rep else []); e = self.mk(14, at or NOW, tags, t, self.pk[a]); n = self.size(e); api.ev_free(e)
        enc = lambda x: x.encode("utf8", "surrogateescape") if x is not None else None
        q, w, d = self.call("nostr_nip17_send_dm", OUT, enc(t), buf(s), buf(p), enc(sub) if sub is not None else P(0), buf(rep) if rep else P(0), ctypes.c_int64(at))
        d.update(o="send", to=p.hex(), subject=L1(sub) if sub is not None else "none", reply=rep.hex() if rep else "none", at=BIG(at or NOW), text=h(t), size=n, keys=k1 and k2); d["from"] = self.pk[a].hex()
        return self.made(d, w, b)
    def made(self, d, w, b):
        if w:
            v = self.dict_(w); d["d"] = self.wraprec(v, self.sk[b]); self.wire.append((v, b)); self.api.ev_free(w)
        return d
    def wrap(self, a, b):
        api = self.api; s, spk, k1 = self.key(a); p, k2 = self.pub(b); ev = self.event(self.pk[a] if self.rng.random() < .8 else self.pk[(a + 1) % 3], self.sk[a] if self.rng.random() < .5 else None)
        e = self.load(ev); n = self.size(e); q, w, d = self.call("nostr_nip59_wrap_event", OUT, P(e), buf(s), buf(p)); api.ev_free(e)
        d.update(o="wrap", to=p.hex(), size=n, keys=k1 and k2, ev=self.rumor(json.dumps(ev).encode("utf8", "surrogateescape"))); d["from"] = self.pk[a].hex()
        return self.made(d, w, b)
    def stages(self, o, out):
        api = self.api; rng = self.rng; _, a, b, v, x = o; t = self.text(); kind = rng.choice((14, 15, 1, 0, 65535)); at = rng.choice((0, 1, 1600000000, NOW + 5))
        enc = t.encode("utf8", "surrogateescape"); none = v == 59 and rng.random() < .1
        q, r, d = self.call("nostr_nip%d_create_rumor" % v, OUT, kind, buf(self.pk[a]), enc if not none else P(0), *([ctypes.c_int64(at)] if v == 17 else []))
        d.update(o="rumor", kind=kind, at=BIG(at if v == 17 and at else NOW), text=h("" if none else t), key=self.pk[a].hex())
        if r: d["d"] = self.rumor(json.dumps(self.dict_(r)).encode("utf8", "surrogateescape"))
        out.append(d)
        if not r: return
        n = self.size(r); rec = d["d"]; s, spk, k1 = self.key(a); p, k2 = self.pub(b)
        q, e, d = self.call("nostr_nip%d_create_seal" % x, OUT, P(r), buf(s), buf(p)); api.ev_free(r)
        d.update(o="seal", size=n, keys=k1 and k2, ev=rec); d["from"] = self.pk[a].hex()
        if e: d["d"] = dict(seal=self.sealrec(self.dict_(e), self.sk[b]))
        out.append(d)
        if not e: return
        n = self.size(e); rec = d["d"]["seal"]
        for again in range(rng.choice((1, 1, 2, 3))):
            z = b if not again or rng.random() < .6 else rng.randrange(3)
            p, k2 = self.pub(z); y = rng.choice((17, 59)); extra = [rng.choice(("relay", "x", "", "p", "expiration", "1700000000")) for _ in range(rng.choice((0, 2, 4)))] if y == 59 else []
            arr = (ctypes.c_char_p * max(1, len(extra)))(*[v.encode() for v in extra])
            q, w, d = self.call("nostr_nip%d_create_gift_wrap" % y, OUT, P(e), buf(p), *([arr if extra else P(0), ctypes.c_size_t(len(extra))] if y == 59 else []))
            mine = rec if z == b else self.sealrec(self.dict_(e), self.sk[z])
            d.update(o="gift", to=p.hex(), size=n, keys=k2, seal=mine, extra=extra); d["from"] = self.pk[a].hex()
            out.append(self.made(d, w, z))
        api.ev_free(e)
    def open(self, o):
        api = self.api; rng = self.rng; d, to = self.wire[-1] if rng.random() < .6 else rng.choice(self.wire); who = to if o[1] == "right" else o[1]; d = dict(d)
        if o[3] == "alter" and d["content"]:
            p = S.b64(d["content"].encode("utf8", "surrogateescape"))
            if p: p = bytearray(p); p[rng.randrange(len(p))] ^= 1 << rng.randrange(8); d["content"] = base64.b64encode(bytes(p)).decode()
        elif o[3] == "key": d["pubkey"] = self.pk[rng.randrange(3)].hex()
        elif o[3] == "kind": d["kind"] = rng.choice((1, 13, 14, 1060))
        rec = self.wraprec(d, self.sk[who]); e = self.load(d); asked = rng.random() < .8; ab = ctypes.create_string_buffer(b"\xaa" * 32, 32)
        if rng.random() < .02: api.ev_set(e, "content", 0) if False else None
        q, r, x = self.call("nostr_nip17_unwrap_dm" if o[2] == 17 else "nostr_nip59_unwrap_event", P(e), buf(self.sk[who]), OUT, ab if asked else P(0)); api.ev_free(e)
        x.update(o="open", via=o[2], d=rec, got=NORUMOR, asked=asked, author=ab.raw[:32].hex())
        if r: x["got"] = self.rumor(json.dumps(self.dict_(r)).encode("utf8", "surrogateescape")); api.ev_free(r)
        return x
    def nulls(self, k):
        c = self.api.call; s = buf(self.sk[0]); p = buf(self.pk[1]); o = ctypes.c_void_p(); O = ctypes.byref(o); e = self.api.ev_new(); self.api.ev_content(e, b"x"); N = P(0); E = P(e)
        r = (lambda: c("nostr_nip17_send_dm", N, b"x", s, p, N, N, ctypes.c_int64(0)), lambda: c("nostr_nip17_send_dm", O, N, s, p, N, N, ctypes.c_int64(0)), lambda: c("nostr_nip17_send_dm", O, b"x", N, p, N, N, ctypes.c_int64(0)), lambda: c("nostr_nip17_send_dm", O, b"x", s, N, N, N, ctypes.c_int64(0)),
             lambda: c("nostr_nip59_wrap_event", O, N, s, p), lambda: c("nostr_nip59_wrap_event", N, E, s, p), lambda: c("nostr_nip17_unwrap_dm", N, s, O, N), lambda: c("nostr_nip59_unwrap_event", E, N, O, N),
             lambda: c("nostr_nip59_create_seal", O, N, s, p), lambda: c("nostr_nip17_create_seal", O, E, s, N), lambda: c("nostr_nip17_create_gift_wrap", O, E, N), lambda: c("nostr_nip59_create_gift_wrap", O, N, p, N, ctypes.c_size_t(0)))[k]()
        self.api.ev_free(e); return r
def L1(v): return v.encode("utf8", "surrogateescape").decode("latin1")
OUT = object()
def buf(b): return ctypes.create_string_buffer(b, len(b))
