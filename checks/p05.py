import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, L, B, BIG
T = ["regular", "replaceable", "ephemeral", "addressable"]

class CHECK(Check):
    id = "P05"
    variants = ["ossl"]
    trace = "T_RelayStore"
    mc = [("MC_RelayStore", "MC_RelayStore.cfg", {"workers": 2})]
    gen = [("MC_RelayStore", "Gen_RelayStore.cfg", {"simulate": lambda c: "num=%d" % c.scale(60, 1500)})]
    assumptions = ["the store is a minimal relay written in the harness on top of the library's classification, d value and comparison"]

    def behaviours(self, api, rng, w, n, gen):
        yield {"ops": self.kinds(rng, w, n)}
        for g in gen: yield self.store([self.fromspec(x["ev"]) for x in g], rng)
        for _ in range(self.scale(150, 4000)): yield self.store(self.randevs(rng), rng)
        for _ in range(self.scale(60, 2000)): yield {"ops": [self.cmp(rng) for _ in range(25)]}

    # every kind, as maximal runs of equal answers
    def typ(self, k):
        api = self.api; c = ctypes.c_int32(k)
        t = T[api.call("nostr_kind_get_type", c)] if 0 <= api.call("nostr_kind_get_type", c) < 4 else "?"
        flags = [bool(api.call("nostr_kind_is_" + x, c, res=ctypes.c_bool)) for x in T]
        return t if flags == [x == t for x in T] else "inconsistent"
    def kinds(self, rng, w, n):
        lo, hi = -2000, 120000
        a = lo + (hi - lo) * w // n; b = lo + (hi - lo) * (w + 1) // n
        runs = []
        for k in range(a, b):
            t = self.typ(k)
            if runs and runs[-1]["t"] == t: runs[-1]["hi"] = k
            else: runs.append({"lo": k, "hi": k, "t": t})
        pts = [G.integer(rng, -2 ** 31, 2 ** 31 - 1) for _ in range(self.scale(3000, 100000))] + [x + y * 65536 for x in (0, 3, 4, 10000, 15000, 20000, 30000, 39999) for y in (-2, -1, 1, 2, 5)]
        one = {}
        for k in pts: one.setdefault(self.typ(k), []).append(k)
        ops = [{"o": "kinds", "runs": runs}]
        for k in pts: runs2 = {"lo": k, "hi": k, "t": self.typ(k)}; ops[-1]["runs"].append(runs2)
        return ops

    def fromspec(self, e):
        nid = e["id"]; return dict(kind=e["kind"], at=int("".join(map(str, e["at"]["d"]))), id=bytes(nid * 32), author={"a": b"\xaa", "b": b"\xbb"}[e["author"]] * 32,
                                   tags=[[x.encode() for x in t] for t in e["tags"]])
    def ids(self, rng):
        r = rng.random()
        base = bytearray(rng.choice((0x00, 0x7f, 0x80, 0xff)) for _ in range(32)) if r < .4 else bytearray(32) if r < .6 else bytearray(rng.randrange(256) for _ in range(32))
        return base
    def near(self, b, rng):
        b = bytearray(b); i = rng.choice((0, 31, rng.randrange(32))); b[i] = rng.choice((0, 127, 128, 255, (b[i] + 1) % 256)); return bytes(b)
    def at(self, rng): return rng.choice((0, 1, 1700000000, G.integer(rng, -2 ** 63, 2 ** 63 - 1), 2 ** 31, -2 ** 31, 2 ** 32 + 1, 2 ** 63 - 1, -2 ** 63))
    def randevs(self, rng):
        base = bytes(self.ids(rng)); ats = [self.at(rng) for _ in range(3)]; ats += [ats[0] + d for d in (1, 2 ** 32, -1) if abs(ats[0] + d) < 2 ** 63]
        ks = rng.sample((0, 3, 1, 10000, 19999, 20000, 29999, 30000, 39999, 40000, 9999, 5, 65535), 3); out = []
        ds = [G.text(rng, 20).replace(b"\0", b"") for _ in range(2)] + [b""]
        for i in range(rng.randrange(3, 14)):
            tags = []
            for _ in range(rng.randrange(0, 4)):
                r = rng.random()
                tags.append([b"d"] if r < .15 else [b"d", rng.choice(ds)] if r < .5 else [b"d", rng.choice(ds), b"z"] if r < .6 else [rng.choice((b"e", b"dd", b"D", b"")), rng.choice(ds)])
            out.append(dict(kind=rng.choice(ks), at=rng.choice(ats), id=self.near(base, rng), author=bytes([rng.choice((1, 2))]) * 32, tags=tags))
        # ids must identify events
        seen = {}; res = []
        for e in out:
            if e["id"] in seen: e = seen[e["id"]]
            seen[e["id"]] = e; res.append(e)
        return res

    def rec(self, e): return dict(kind=e["kind"], at=BIG(e["at"]), id=B(e["id"]), author=e["author"].hex(), tags=[[L(x) for x in t] for t in e["tags"]])
    def store(self, evs, rng):
        api = self.api; ops = [{"o": "empty"}]; st = []; made = []
        for e in evs:
            p = api.ev_build(dict(kind=e["kind"], created_at=e["at"], id=e["id"], pubkey=e["author"], tags=e["tags"], content=b"")); made.append(p)
            t = self.typ(api.ev_get(p, "kind"))
            if t == "regular":
                if not any(x[0]["id"] == e["id"] for x in st): st.append((e, p))
            elif t in ("replaceable", "addressable"):
                d = api.ptr("nostr_event_get_d_tag", P(p)); d = (api.cstr(d) if d else b"") if t == "addressable" else None
                cmp = "nostr_event_compare_addressable" if t == "addressable" else "nostr_event_compare_replaceable"
                keep = True; new = []
                for x, q in st:
                    dq = api.ptr("nostr_event_get_d_tag", P(q)); dq = (api.cstr(dq) if dq else b"") if t == "addressable" else None
                    if x["author"] == e["author"] and x["kind"] == e["kind"] and dq == d:
                        if api.call(cmp, P(p), P(q)) == 1: continue
                        keep = False
                    new.append((x, q))
                st = new + ([(e, p)] if keep else [])
            ops.append({"o": "arrive", "ev": self.rec(e), "ids": [B(x["id"]) for x, _ in st]})
        for p in made: api.ev_free(p)
        return {"ops": ops}
    def cmp(self, rng):
        api = self.api; i = bytes(self.ids(rng)); t = self.at(rng)
        a = dict(kind=0, at=t, id=i, author=b"\1" * 32, tags=[]); b = dict(kind=0, at=rng.choice((t, t, self.at(rng), max(-2 ** 63, t - 1), min(2 ** 63 - 1, t + 1))), id=rng.choice((i, self.near(i, rng), self.near(i, rng), bytes(self.ids(rng)))), author=b"\1" * 32, tags=[])
        pa, pb = [api.ev_build(dict(kind=x["kind"], created_at=x["at"], id=x["id"], pubkey=x["author"], content=b"")) for x in (a, b)]
        f = "nostr_event_compare_" + rng.choice(("replaceable", "addressable"))
        r, r2 = api.call(f, P(pa), P(pb)), api.call(f, P(pb), P(pa)); api.ev_free(pa); api.ev_free(pb)
        return {"o": "cmp", "a": self.rec(a), "b": self.rec(b), "r": r, "r2": r2}
