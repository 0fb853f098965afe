import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
from checks.p19 import bech32
SIZES = (-1, 0, 1, 2, 10, 64, 65, 66, 100, 300)

class CHECK(Check):
    id = "P29"
    variants = ["ossl"]
    trace = "T_Repost"
    mc = [("MC_Repost", "MC_Repost.cfg", {"workers": 3})]
    gen = [("MC_Repost", "Gen_Repost.cfg", {"simulate": lambda c: "num=%d" % c.scale(60, 2000), "extra": ("-depth", "12")})]
    assumptions = ["entities in contents are written by an independent bech32 encoder; a mention is followed by a character that cannot belong to it"]

    def behaviours(self, api, rng, w, n, gen):
        api.lib.vf_oom_hook_cjson()
        if rng.random() < .5: api.call("nostr_init")
        rng.shuffle(gen); self.rng = rng
        for g in gen[:self.scale(300, 10000)]: yield self.run(self.mix(g))
        for _ in range(self.scale(170, 8000)): yield self.run(self.plan())
    # ---- plans
    def mix(self, g):
        out = []
        for o in g:
            o = dict(o); o.pop("r", None); out.append(o)
            if self.rng.random() < .5: out.append(self.ask())
        return out + [self.ask(), self.ask()]
    def ask(self):
        rng = self.rng
        return rng.choice((dict(o="like"), dict(o="dislike"), dict(o="dump"))) if rng.random() < .3 else dict(o="parse", what=rng.choice(("repost", "reaction")), n=dict(id=rng.choice(SIZES), pk=rng.choice(SIZES), text=rng.choice(SIZES)), wantk=rng.random() < .8)
    def idt(self, bad=.12):
        rng = self.rng; h = G.hexs(rng)
        if rng.random() < .2: h = h.upper()
        return h if rng.random() > bad else rng.choice((b"", h[:-1], h + b"0", h[:63] + b"g", b" " + h[1:], h[:30] + b"\xff" + h[31:], b"0x" + h[2:], h + b" "))
    def kind(self): return self.rng.choice((0, 1, 1, 2, 6, 7, 16, 9999, 30023, 32768, 65535, self.rng.randrange(65536)))
    def text(self, cap=60): return G.text(self.rng, cap).replace(b"\0", b"")
    def opt(self, f, p=.6): return [B(f())] if self.rng.random() < p else []
    def repost(self): return dict(o="repost", id=B(self.idt()), pk=B(self.idt()), relay=B(self.relay()), k=self.kind(), d=self.opt(lambda: self.text(300), .4), json=self.opt(lambda: self.text(400)))
    def reaction(self): return dict(o="reaction", id=B(self.idt()), pk=B(self.idt()), relay=self.opt(self.relay), k=self.kind(), content=self.opt(lambda: self.rng.choice((b"+", b"-", b"", b"\xf0\x9f\x94\xa5", b":soapbox:", self.text())), .8))
    def relay(self): return self.rng.choice((b"", b"wss://r.example", b"wss://r.example/" + b"p" * self.rng.choice((1, 50, 230, 300)), self.text()))
    def tag(self):
        rng = self.rng; n = rng.choice((b"e", b"e", b"p", b"p", b"k", b"k", b"a", b"q", b"E", b"", b"ee"))
        v = rng.choice((b"%d" % self.kind(), b"65536", b"-1", b"+5", b" 5", b"5 ", b"007", b"", b"4294967297", b"-18446744073709551615", b"18446744073709551616", b"99999999999999999999999", b"1x", b"x", b"0x1", b"1e3")) if n == b"k" else self.idt() if rng.random() < .8 else self.text()
        return dict(o="tag", v=[B(x) for x in [n, v, self.relay(), self.text(20)][:rng.choice((1, 2, 2, 3, 3, 4))]])
    def mention(self):
        rng = self.rng; by = lambda n: bytes(rng.randrange(256) for _ in range(n)); r = rng.random(); m = dict(what="other")
        rel = lambda: [rng.choice((b"wss://r.example", b"ws://h:7777/x", b"wss://" + b"h" * rng.choice((1, 100, 249)))) for _ in range(rng.choice((0, 1, 1, 2, 3, 16)))]
        if r < .35: i = by(32); m = dict(what="note", id=B(i)); t = bech32("note", i)
        elif r < .65:
            i = by(32); rs = [x for x in rel() if x]; a = by(32) if rng.random() < .5 else None
            m = dict(what="nevent", id=B(i), relays=[B(x) for x in rs], author=[B(a)] if a else [])
            t = bech32("nevent", b"\0\x20" + i + b"".join(bytes([1, len(x)]) + x for x in rs) + (b"\2\x20" + a if a else b"") + (b"\3\4" + by(4) if rng.random() < .4 else b""))
        elif r < .9:
            pk = by(32); rs = [x for x in rel() if x]; k = self.kind(); d = rng.choice((b"", b"x", b":", b"a" * 255, self.text(255)[:255], self.text(40)))
            m = dict(what="naddr", k=k, pk=B(pk), ident=B(d), relays=[B(x) for x in rs])
            t = bech32("naddr", bytes([0, len(d)]) + d + b"".join(bytes([1, len(x)]) + x for x in rs) + b"\2\x20" + pk + b"\3\4" + k.to_bytes(4, "big"))
        else: t = rng.choice((bech32("npub", by(32)), bech32("nsec", by(32)), bech32("nprofile", b"\0\x20" + by(32)), bech32("note", by(31)), bech32("nevent", b"\1\1x"), b"note1", b"nevent1qq", b"naddr1"))
        if rng.random() < .12:
            k = rng.randrange(t.index(b"1") + 1, len(t)) if not t.endswith(b"1") else 0; c = rng.choice(b"qpzry9x8gf2tvdw0s3jn54khce6mua7l")
            if c != t[k]: m = dict(what="other"); t = t[:k] + bytes([c]) + t[k + 1:]
        return dict(m, t=B(b"nostr:" + t))
    def quote(self):
        rng = self.rng; ps = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 6))):
            # an entity behind a broken one needs no separator: its colon ends the broken one
            if not (ps and ps[-1]["what"] == "other" and rng.random() < .5): ps.append(dict(what="text", t=B(rng.choice((b" ", b"\n", b". ", b"#", b"-", b"\xc3\xa9", b"(", b"Nostr:", b", nostr:", b" nostr: ", b" nostr:x ", b" note1q nostr", b" " + self.plain(), b"/" + self.plain(), b" nostr:nostr:nost", b" NOSTR:")))))
            ps.append(self.mention())
        ps.append(dict(what="text", t=B(rng.choice((b"", b"", b" end", b".", b"\n" + self.plain(), b" nostr:", b" nostr:note1")))))
        return ps
    def plain(self): return bytes(c for c in self.text(80) if c not in b"1")      # no entity can start here
    def plan(self):
        rng = self.rng; out = [dict(o="new", kind=rng.choice((1, 6, 7, 16, 7, 6, 65535)))]
        for _ in range(rng.choice((6, 12))):
            r = rng.random()
            if r < .15: out.append(dict(self.repost()))
            elif r < .3: out.append(dict(self.reaction()))
            elif r < .38: out.append(dict(o="new", kind=rng.choice((1, 6, 7, 16))))
            elif r < .6: out.append(self.tag())
            elif r < .66: out.append(dict(o="content", t=B(rng.choice((b"+", b"-", b"", b"++", b"+ ", self.text())))))
            elif r < .72: out.append(dict(o="null", which=rng.randrange(8)))
            elif r < .78: a = rng.choice((self.repost, self.reaction))(); out.append(dict(o="oom", a=dict(a, id=B(G.hexs(rng)), pk=B(G.hexs(rng))), at=rng.randrange(1, 12)))
            elif r < .9: ps = self.quote(); out += [dict(o="content", t=[c for p in ps for c in p["t"]]), dict(o="quote", ps=ps)]
            out.append(self.ask())
        return out
    # ---- the library
    def ev(self, e):
        d = self.api.ev_read(e); return dict(kind=d["kind"], content=B(d["content"] or b""), tags=[[B(v) for v in t] for t in d["tags"]])
    def create(self, o, pp):
        a = self.api; by = lambda x: bytes(x); op = lambda x: bytes(x[0]) if x else None
        if o["o"] == "repost": return a.call("nostr_repost_create", ctypes.byref(pp), by(o["id"]), by(o["pk"]), by(o["relay"]), o["k"], op(o["d"]), op(o["json"]))
        return a.call("nostr_reaction_create", ctypes.byref(pp), op(o["content"]), by(o["id"]), by(o["pk"]), op(o["relay"]), o["k"])
    def run(self, plan):
        api = self.api; out = []; e = api.ev_new(); api.ev_set(e, "kind", 0); rng = self.rng
        for o in plan:
            o = dict(o); k = o["o"]; self.note(str(o)[:3000])
            if k == "new":
                api.ev_free(e); e = api.ev_new(); api.ev_set(e, "kind", o["kind"])
            elif k == "content":
                if api.ev_content(e, bytes(o["t"])) != 0: o["t"] = None
            elif k == "tag": 
                if api.ev_add(e, [bytes(x) for x in o["v"]]) != 0: o["v"] = None
            elif k in ("repost", "reaction"):
                pp = P(0); o["r"] = self.create(o, pp); o["null"] = not pp.value; o["ev"] = []
                if pp.value: api.ev_free(e); e = pp.value; o["ev"] = self.ev(e)
            elif k == "oom":
                pp = P(0); api.lib.vf_oom_arm(ctypes.c_long(o.pop("at"))); o["r"] = self.create(o["a"], pp); api.lib.vf_oom_disarm(); o["null"] = not pp.value
                if pp.value: o["ev"] = self.ev(pp.value); api.ev_free(pp.value)
            elif k == "null":
                h = b"a" * 64; pp = P(0); i = o["which"]; v = ctypes.c_int(0)
                o["r"] = (lambda: api.call("nostr_repost_create", None, h, h, b"", 1, None, None), lambda: api.call("nostr_repost_create", ctypes.byref(pp), None, h, b"", 1, None, None),
                          lambda: api.call("nostr_repost_create", ctypes.byref(pp), h, None, b"", 1, None, None), lambda: api.call("nostr_repost_create", ctypes.byref(pp), h, h, None, 1, None, None),
                          lambda: api.call("nostr_reaction_create", ctypes.byref(pp), b"+", None, h, None, 1), lambda: api.call("nostr_reaction_create", ctypes.byref(pp), b"+", h, None, None, 1),
                          lambda: api.call("nostr_reaction_is_like", P(e), None), lambda: api.call("nostr_quote_tags_from_content", None))[i](); o["null"] = not pp.value
            elif k == "parse":
                n = o["n"]; bufs = {f: api.ptr("vf_malloc", ctypes.c_size_t(max(1, n[f]))) if n[f] >= 0 else 0 for f in n}; kk = ctypes.c_uint16(0xBEEF); kp = ctypes.byref(kk) if o["wantk"] else None
                for f in n:
                    if n[f] > 0: api.wr(bufs[f], b"\xEE" * n[f])
                z = lambda f: (P(bufs[f] or None), ctypes.c_size_t(max(0, n[f])))
                o["r"] = api.call("nostr_repost_parse", P(e), *z("id"), *z("pk"), *z("text"), kp) if o["what"] == "repost" else api.call("nostr_reaction_parse", P(e), *z("text"), *z("id"), *z("pk"), kp)
                for f in n:
                    t = api.rd(bufs[f], n[f]) if n[f] > 0 else b""; o[f] = ([B(t[:t.index(b"\0")])] if b"\0" in t else [[0]]) if n[f] > 0 and o["r"] == 0 else []
                    if bufs[f]: api.free(bufs[f])
                o["k"] = [kk.value] if o["wantk"] and o["r"] == 0 else []
            elif k in ("like", "dislike"):
                v = ctypes.c_int(77); o["r"] = api.call("nostr_reaction_is_" + k, P(e), ctypes.byref(v)); o["v"] = v.value == 1 if v.value in (0, 1) else 7
            elif k == "quote":
                o["r"] = api.call("nostr_quote_tags_from_content", P(e)); o["ev"] = self.ev(e)
            elif k == "dump": o["ev"] = self.ev(e)
            out.append(o)
        api.ev_free(e)
        return dict(ops=out)
