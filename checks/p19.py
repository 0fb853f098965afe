import ctypes, json
from vf.framework import Check
from vf import gen as G, jsongen as J
from vf.api import P, B, BIG
CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

def bech32(hrp, data):
    def poly(v):
        c = 1
        for x in v:
            t = c >> 25; c = (c & 0x1ffffff) << 5 ^ x
            for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)): c ^= g if t >> i & 1 else 0
        return c
    acc = bits = 0; d = []
    for b in data:
        acc = acc << 8 | b; bits += 8
        while bits >= 5: bits -= 5; d.append(acc >> bits & 31)
    if bits: d.append(acc << (5 - bits) & 31)
    e = [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]; p = poly(e + d + [0] * 6) ^ 1
    return (hrp + "1" + "".join(CH[x] for x in d + [p >> 5 * (5 - i) & 31 for i in range(6)])).encode()

class CHECK(Check):
    id = "P19"
    variants = ["ossl"]
    trace = "T_Zap"
    mc = [("MC_Zap", "MC_Zap.cfg", {"workers": 3})]
    gen = [("MC_Zap", "Gen_Zap.cfg", {})]
    assumptions = ["signatures are unforgeable; the request is compared by id; the invoice's own signature and payment hash are outside the library"]

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init"); rng.shuffle(gen); self.keys = [(k, api.o_pub(k)) for k in G.seckeys(rng, 3)]; api.time_set(1700000000)
        for g in gen[:self.scale(250, 5000)]:
            ops = []
            for x in g: ops.append(("verify", dict(inv=[bytes(v) for v in x["inv"]], q=[bytes(v) for v in x["q"]], d=x["d"], sv=x["sv"], sg=x["sg"], kind=x["kind"], rkind=x["rkind"])))
            yield self.run(ops, rng)
        for _ in range(self.scale(220, 5000)):
            yield self.run([rng.choice((self.req, self.par, self.ver, self.ver, self.lnu))(rng) for _ in range(rng.choice((1, 3, 6)))], rng)
    def amount(self, rng): return 0 if rng.random() < .08 else rng.choice((1, 9, 10, 21000, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64), rng.randrange(10 ** 7), rng.randrange(2 ** 40), 10 ** rng.randrange(19)))
    def off(self, rng, a): return min(2 ** 64 - 1, max(0, rng.choice((a - 1, a + 1, a - 10, a + 10, a - a % 1000, a + 999 - (a - 1) % 1000, a // 1000, a * 1000, a ^ 2 ** 32, a ^ 2 ** 63, a % 2 ** 32, a * 2, 0, 1000, a ^ 1 << rng.randrange(64)))))
    def invoice(self, rng, want=None):
        if want is not None and rng.random() < .85:   # an invoice for exactly this many millisats
            c = [(want, "p", 10, 1)] + [(want, m, 1, u) for m, u in (("n", 100), ("u", 10 ** 5), ("m", 10 ** 8), ("", 10 ** 11)) if want % u == 0]
            v, m, mul, u = rng.choice(c); s = "%d%s" % (v * mul // u, m)
        else:
            r = rng.random()
            if r < .15: s = ""
            else: s = "%d" % rng.choice((0, 1, 2, 5, 20, 21, 210, 2500, 1000000, rng.randrange(10 ** 6), 184467440, 184467441, 184467440737, 184467440738, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 210, 18446744073709551620, 10 ** 25)) + rng.choice(("", "m", "u", "n", "p", "p", "x", "mm", "M", "U"))
            if r < .2: s = rng.choice(("-5u", " 5u", "+5u", "u", "0x5u", "5.0u", "rt50n"))
        data = "".join(rng.choice(CH) for _ in range(rng.choice((6, 7, 50)))) 
        if rng.random() < .8: data = rng.choice("pq") + data
        t = "lnbc" + s + "1" + data; r = rng.random()
        if r < .05: t = rng.choice((t[:rng.randrange(len(t))], t.replace("1", "", 1), t.replace("lnbc", "lntb"), "lnbc", "lnbc1", "", "1", t.replace("lnbc", "lnb"), t.upper(), "lightning:" + t))
        return t.encode()
    def req(self, rng):
        rel = [b"wss://r%d" % i if rng.random() < .8 else G.text(rng, 60) for i in range(rng.choice((0, 1, 2, 3, 13, 14, 15, 16, 17, 30, 100, 300)))]
        return ("request", self.amount(rng), None if rng.random() < .4 else G.text(rng, 100), G.text(rng, 200), rel)
    def par(self, rng):
        tags = []
        for _ in range(rng.randrange(0, 7)):
            k = rng.random()
            if k < .35: tags.append([b"bolt11", self.invoice(rng)])
            elif k < .55: tags.append([b"preimage", rng.choice((G.hexs(rng, 64), G.text(rng, 80), b"", b"a" * 65, b"a" * 63, b"a" * 200))])
            elif k < .75: tags.append("desc")
            else: tags.append([rng.choice((b"p", b"e", b"bolt1", b"bolt11x", b"Bolt11", b"amount", b"bolt11", b"description", b"preimage"))] + [G.text(rng, 20)] * rng.randrange(0, 3))
        return ("parse", tags, rng.choice((9735,) * 12 + (9734, 0)), {k: rng.random() < .75 for k in ("amount", "bolt11", "preimage", "request")})
    def ver(self, rng):
        a = self.amount(rng) if rng.random() < .9 else None; q = [] if a is None else [b"%d" % a if rng.random() < .93 else rng.choice((b"", b"x", b"-5", b" 21000", b"21000x", b"%d" % 2 ** 64, b"007"))]
        inv = [] if rng.random() < .1 else [self.invoice(rng, a if rng.random() < .7 else (None if a is None else self.off(rng, a)) if rng.random() < .7 else None)]
        one = lambda p: rng.random() < p
        return ("verify", dict(inv=inv, q=q, d="same" if one(.85) else rng.choice(("other", "bad", "none", "claims")), sv=one(.9), sg=one(.9), kind=9735 if one(.95) else 9734, rkind=9734 if one(.95) else 9735))
    def lnu(self, rng):
        u = bech32("lnurl", bytes(rng.randrange(256) for _ in range(rng.choice((1, 5, 20, 40, 48, 49, 50, 60))))); real = True
        if rng.random() < .6:
            real = False; p = rng.randrange(len(u) + 1)
            u = rng.choice((u[:p], u + b"1", b"lnurl" + b"x" * rng.choice((20, 26, 27, 28, 60, 75)) + b"1" + b"q" * 7, u[1:], u.upper(), b"lnurl1" + b"q" * rng.choice((0, 1, 2, 5, 6, 7, 84, 85)), b"lnurl", b"lnurlx1qqqqqqq", u.replace(b"1", b""), u[:p] + b"1" + u[p:], b""))
        return ("lnurl", u, real)
    def mkreq(self, rng, q, kind=9734):
        api = self.api; sk, pk = rng.choice(self.keys); e = api.ev_new(); api.ev_set(e, "kind", kind); api.ev_set(e, "created_at", rng.randrange(2 ** 31)); api.ev_content(e, G.text(rng, 30))
        for _ in range(rng.choice((0, 0, 1, 1, 3))): api.ev_add(e, rng.choice(([b"amount"], [b"Amount", b"9"], [b"p", G.hexs(rng)], [b"relays", b"wss://r"], [b"lnurl", b"lnurl1x"], [b"e", G.hexs(rng)], [b"a", b"30023:x:y"])))
        for v in q: api.ev_add(e, [b"amount", v])
        if q and rng.random() < .2:
            api.ev_add(e, [b"amount", rng.choice((b"77", b"0", b"%d" % self.amount(rng)))])
        api.call("nostr_event_sign", P(e), ctypes.create_string_buffer(sk, 32)); return e
    def js(self, e):
        p = P(); r = self.api.call("nostr_event_to_json", P(e), ctypes.byref(p)); return self.api.takestr(p.value)
    def evd(self, e): d = self.api.ev_read(e); return dict(kind=d["kind"], id=B(d["id"]), pubkey=B(d["pubkey"]), tags=[[B(x) for x in t] for t in d["tags"]], content=B(d["content"] or b""))
    NOEV = dict(kind=0, id=[], pubkey=[], tags=[], content=[])
    def desc(self, rng, bad=None):
        e = self.mkreq(rng, [b"5"]); t = self.js(e); ev = self.evd(e); self.api.ev_free(e); ok = True
        if bad if bad is not None else rng.random() < .3: ok = False; t = rng.choice((b"", b"x", t[:-1], t[:rng.randrange(len(t))], b"[]", b"null", b'"' + t + b'"', t.replace(b'9734', b'-1')))
        return t, dict(ok=ok, ev=ev if ok else self.NOEV, id=ev["id"] if ok else [])
    def run(self, ops, rng):
        api = self.api; out = []; api.lib.vf_oom_hook_cjson()
        for op in ops:
            n = op[0]; self.note("%r" % (op,)); z = lambda b: b.replace(b"\0", b"")
            oom = rng.randrange(1, 25) if rng.random() < .08 else 0
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if n == "request":
                _, amt, lnurl, text, rel = op; lnurl = None if lnurl is None else z(lnurl); text = z(text); rel = [z(x) for x in rel]; pk = ctypes.create_string_buffer(rng.choice(self.keys)[1], 32); ep = P(0x1234)
                a = (ctypes.c_char_p * max(1, len(rel)))(*rel); arm()
                r = api.call("nostr_zap_create_request", ctypes.byref(ep), ctypes.c_uint64(amt), pk, lnurl, text if text or rng.random() < .5 else None, a, ctypes.c_size_t(len(rel))); m = dis()
                o = dict(o=n, amount=BIG(amt), recipient=B(pk.raw[:32]), lnurl=[] if lnurl is None else [B(lnurl)], text=B(text), relays=[B(x) for x in rel], r=r, oom=m, left=bool(r and ep.value and ep.value != 0x1234), kind=0, tags=[], content=[])
                if r == 0:
                    d = self.evd(ep.value); o.update(kind=d["kind"], tags=d["tags"], content=d["content"]); api.ev_free(ep.value)
                out.append(o)
            elif n == "parse":
                _, tags, kind, want = op; first = True; de = dict(ok=False, ev=self.NOEV, id=[]); tt = []
                for t in tags:
                    if t == "desc": txt, dd = self.desc(rng); t = [b"description", txt]
                    elif t[0] == b"description" and len(t) >= 2: dd = dict(ok=False, ev=self.NOEV, id=[]); t = [t[0], b"bad" + t[1]]
                    tt.append([z(x) for x in t])
                    if t[0] == b"description" and len(t) >= 2 and first: first = False; de = dd
                e = api.ev_new(); api.ev_set(e, "kind", kind)
                for t in tt: api.ev_add(e, t)
                am = ctypes.c_uint64(77); bp = P(0x1234); pre = ctypes.create_string_buffer(b"\xaa" * 65, 65); rp = P(0x1234)
                R = lambda k, v: ctypes.byref(v) if want[k] else None
                arm(); r = api.call("nostr_zap_parse_receipt", P(e), R("amount", am), R("bolt11", bp), pre if want["preimage"] else None, R("request", rp)); m = dis()
                o = dict(o=n, kind=kind, tags=[[B(x) for x in t] for t in tt], want=want, desc=de, r=r, oom=m, amount=BIG(am.value), bolt11=[], preimage=[], request=[])
                if want["bolt11"] and bp.value not in (None, 0x1234): o["bolt11"] = [B(api.takestr(bp.value))]
                if want["request"] and rp.value not in (None, 0x1234): o["request"] = [self.evd(rp.value)]; api.ev_free(rp.value)
                if r == 0 and want["preimage"]: o["preimage"] = B(pre.value)
                out.append(o); api.ev_free(e)
            elif n == "verify":
                x = op[1]; q = self.mkreq(rng, x["q"], x["rkind"]); qd = self.evd(q); sk, pk = self.keys[0]
                de = dict(ok=True, ev=qd, id=qd["id"]); txt = self.js(q)
                if x["d"] in ("other", "bad"): txt, de = self.desc(rng, x["d"] == "bad")
                if x["d"] == "claims":   # the same text with one digit of the id altered
                    i = bytearray(txt); k = txt.index(bytes(qd["id"]).hex().encode()) + rng.randrange(64); i[k] = ord("0") if i[k] != ord("0") else ord("1"); txt = bytes(i); de = dict(ok=True, ev=qd, id=[300])
                tags = ([[b"bolt11", x["inv"][0]]] if x["inv"] else []) + ([] if x["d"] == "none" else [[b"description", txt]]) + [[b"p", b"x"]][:rng.randrange(2)]
                if rng.random() < .1 and x["inv"]: tags.append([b"bolt11", b"lnbc770n1p"])
                if rng.random() < .5:
                    for t in rng.sample([[b"preimage", G.hexs(rng)], [b"P", self.keys[2][1].hex().encode()], [b"p", self.keys[1][1].hex().encode()], [b"e", G.hexs(rng)], [b"a", b"30023:" + G.hexs(rng) + b":x"], [b"amount", b"%d" % self.amount(rng)], [b"preimage", b""], [b"relays", b"wss://r"], [b"k", b"1"]], rng.randrange(1, 5)): tags.insert(rng.randrange(len(tags) + 1), t)
                rng.random() < .3 and tags.insert(0, [b"bolt11"]); 
                e = api.ev_new(); api.ev_set(e, "kind", x["kind"]); api.ev_content(e, b"")
                for t in tags: api.ev_add(e, [z(v) for v in t])
                api.call("nostr_event_sign", P(e), ctypes.create_string_buffer(sk, 32)); sigok = True
                if not x["sg"]:
                    sigok = False; k = rng.random()
                    if k < .4: s = bytearray(api.ev_getb(e, "sig")); s[rng.randrange(64)] ^= 1 << rng.randrange(8); api.ev_set(e, "sig", bytes(s))
                    elif k < .6: api.ev_set(e, "created_at", api.ev_get(e, "created_at") ^ 1)
                    elif k < .8: api.ev_content(e, b"x")
                    else: api.ev_set(e, "sig", bytes(64))
                srv = pk.hex().encode()
                if not x["sv"]: srv = rng.choice((self.keys[1][1].hex().encode(), srv[:-1], srv + b"0", b"", srv[:-1] + (b"0" if srv[-1:] != b"0" else b"1"), (b"0" if srv[:1] != b"0" else b"1") + srv[1:]))
                tt = [[B(v) for v in t] for t in api.ev_tags(e)]; arm(); r = api.call("nostr_zap_verify", P(e), P(q), srv); m = dis()
                out.append(dict(o=n, kind=x["kind"], rkind=x["rkind"], author=B(pk), server=B(srv), rid=qd["id"], sigok=sigok, tags=tt, rtags=qd["tags"], desc=de, r=r, oom=m)); api.ev_free(e); api.ev_free(q)
            else:
                out.append(dict(o=n, text=B(op[1]), real=op[2], r=api.call("nostr_zap_validate_lnurl", op[1], None, None)))
        return {"ops": out}
