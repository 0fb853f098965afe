import ctypes, json
from vf.framework import Check
from vf import gen as G, filters as F, jsongen as J
from vf.api import P, L, B, BIG
CB = ctypes.CFUNCTYPE(ctypes.c_bool, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p)

class CHECK(Check):
    id = "P06"
    variants = ["ossl"]
    trace = "T_Subs"
    mc = [("MC_Subs", "MC_Subs.cfg", {"workers": 2})]
    gen = [("MC_Subs", "Gen_Subs.cfg", {"simulate": lambda c: "num=%d" % c.scale(12, 400)})]
    assumptions = ["since/until are not negative; filter members have their proper JSON types; a single-letter tag member with an empty list may mean either"]

    def behaviours(self, api, rng, w, n, gen):
        for g in gen:
            ops = []
            for x in g:
                if x["o"] == "req": ops.append(("req", x["sub"], [self.ff(f) for f in x["filters"]]))
                elif x["o"] == "close": ops.append(("close", x["sub"]))
                else: ops.append(("event", self.fe(x["ev"])))
            yield self.run(ops, rng)
        for i in range(self.scale(320, 7000)): yield self.run(self.rand(rng, i), rng)

    def num(self, n): return int("".join(map(str, n["d"])))
    def ff(self, f): return dict(f, since=self.num(f["since"]), until=self.num(f["until"]), g=[(x["n"], x["v"]) for x in f["g"]], e=[(x * 32)[:64] for x in f["e"]], p=["ab" * 32 if x == "x" else x for x in f["p"]])
    def fe(self, e):
        m = lambda t: ["e", "ab" * 32] if t[:1] == ["e"] else ["p", "ab" * 32] if t == ["p", "x"] else t
        return dict(id=bytes.fromhex(e["id"] * 32), pubkey=bytes.fromhex(e["pubkey"] * 32), kind=e["kind"], created_at=self.num(e["at"]), tags=[[v.encode() for v in m(t)] for t in e["tags"]])

    def rand(self, rng, i):
        pool = [bytearray(rng.randrange(256) for _ in range(32)) for _ in range(2)]
        def key():
            b = bytearray(rng.choice(pool))
            if rng.random() < .5:
                j = rng.choice((0, 31, 1, rng.randrange(32))); b[j] ^= rng.choice((1, 16, 0x80))
            return bytes(b)
        times = [G.integer(rng, 0, 2 ** 53 - 1) for _ in range(2)]; times += [max(1, t + d) for t in times for d in (-1, 1) if t + d < 2 ** 53]
        vals = [J.utext(rng, 40) for _ in range(2)] + ["", "a", "A"]
        base = "".join(rng.choice("abz/:.") for _ in range(rng.choice((1, 15, 31, 63, 64, 127, 128, 255, 256, 300)))); vals += [base, base + "x", base[:-1], base[:-1] + "y"]
        vals = rng.sample(vals, 5); names = rng.sample("tTdDaArkqgEPzZ", 3)
        kinds = rng.sample((0, 1, 3, 255, 256, 65535, 30023, 20000), 3)
        def prefix():
            h = key().hex(); return h if rng.random() < .3 else h[:rng.choice((1, 2, 63, rng.randrange(1, 65)))]
        def some(g, p, m=4): return [g() for _ in range(rng.randrange(1, m))] if rng.random() < p else []
        odd = lambda: rng.choice((lambda h: h + rng.choice("0af"), lambda h: h.upper(), lambda h: "", lambda h: h + h, lambda h: h[:63] + "g", lambda h: " " + h[:9]))(key().hex())
        def filt(direct=False):
            p = rng.choice((.1, .3, .6))
            f = dict(F.EMPTY, ids=some(prefix, p), authors=some(prefix, p), kinds=some(lambda: rng.choice(kinds + [-1, 65536, 65537, 2 ** 31 - 1, -65535]), p), e=some(lambda: key().hex(), p / 2), p=some(lambda: key().hex(), p / 2),
                     since=rng.choice(times) if rng.random() < p else 0, until=rng.choice(times) if rng.random() < p else 0, limit=rng.choice((0, 0, 1, 500)), search=rng.choice(("", "", "", "needle")))
            f["g"] = [(nm, [rng.choice(vals) for _ in range(rng.choice((0, 1, 1, 2, 3)))]) for nm in rng.sample(names, rng.randrange(0, 3))] if rng.random() < p else []
            if direct and rng.random() < .4:
                m = rng.choice(("ids", "authors", "e", "p")); f[m] = [odd() for _ in range(rng.randrange(1, 3))] + (f[m] if rng.random() < .3 else [])
            if rng.random() < .05: f["kinds"] = list(range(1000, 1000 + rng.choice((255, 256)))); f["kinds"][-1] = kinds[0]
            if rng.random() < .05: f["ids"] = ["%02x" % (x % 256) for x in range(255)] + [key().hex()]
            return f
        def ev():
            tags = []
            for _ in range(G.size(rng, 12)):
                r = rng.random()
                tags.append([rng.choice(("e", "p")), key().hex()] if r < .4 else [rng.choice(names)] if r < .5 else [rng.choice(names), rng.choice(vals)] if r < .9 else [rng.choice(names), "no", rng.choice(vals)])
            if rng.random() < .08: tags = [[rng.choice(names + ["e"]), "filler%d" % k] for k in range(rng.choice((255, 256, 257, 400)))] + tags
            if rng.random() < .3: rng.shuffle(tags)
            return dict(id=key(), pubkey=key(), kind=rng.choice(kinds), created_at=rng.choice(times), tags=[[v.encode("utf8") for v in t] for t in tags])
        ops = []
        for _ in range(rng.randrange(4, 16)):
            r = rng.random()
            if r < .4 or not ops: ops.append(("req", rng.choice(("s1", "s2", "x" * 64, "a b")), [filt() for _ in range(rng.choice((0, 1, 1, 2, 3, 10)))]))
            elif r < .48: ops.append(("close", rng.choice(("s1", "s2"))))
            elif r < .6: ops.append(("search", [filt(True) for _ in range(rng.choice((1, 1, 2, 4)))], ev()))
            else: ops.append(("event", ev()))
        if i % 16 == 3:   # an event with very many tags of the name asked for: the answer lies deep in the list
            nm = rng.choice(names + ["e", "p"]); v = key().hex() if nm in "ep" else rng.choice(vals); f = dict(F.EMPTY)
            if nm in "ep": f[nm] = [key().hex(), v]
            else: f["g"] = [(nm, [v])]
            e = ev(); e["tags"] = [[nm.encode(), b"filler%d" % k] for k in range(rng.choice((254, 255, 256, 257, 300)))] + [[nm.encode(), v.encode("utf8")]] + e["tags"]
            ops += [("req", "deep", [f]), ("event", e)]
        return ops

    def evrec(self, e): return dict(id=e["id"].hex(), pubkey=e["pubkey"].hex(), kind=e["kind"], at=BIG(e["created_at"]), tags=[[L(v) for v in t] for t in e["tags"]])
    def run(self, ops, rng):
        api = self.api; out = []; subs = {}
        for op in ops:
            self.note(str(op)[:3000])
            if op[0] == "req":
                txt = J.render(["REQ", op[1]] + [F.obj(f, rng) for f in op[2]], rng).encode("utf8")
                m = api.new("nostr_client_msg_t", 0xAA); rc = api.call("nostr_client_msg_parse", txt, ctypes.c_size_t(len(txt)), m)
                if rc == 0:
                    if op[1] in subs: api.call("nostr_client_msg_free", subs[op[1]])
                    subs[op[1]] = m
                out.append(dict(o="req", sub=op[1], filters=[F.spec(f) for f in op[2]], r=rc))
            elif op[0] == "close":
                txt = json.dumps(["CLOSE", op[1]]).encode()
                m = api.new("nostr_client_msg_t", 0xAA); rc = api.call("nostr_client_msg_parse", txt, ctypes.c_size_t(len(txt)), m)
                k = L(api.cstr(api.ptr("nostr_client_msg_get_subscription_id", m))) if rc == 0 else None
                if k in subs: api.call("nostr_client_msg_free", subs.pop(k))
                out.append(dict(o="close", sub=op[1], r=rc))
            elif op[0] == "event":
                e = api.ev_build(op[1]); to = []
                for k, m in subs.items():
                    n = ctypes.c_size_t(0); fp = api.ptr("nostr_client_msg_get_filters", m, ctypes.byref(n))
                    if rng.random() < .5: hit = bool(api.call("nostr_filters_match", P(fp or None), n, P(e), res=ctypes.c_bool))
                    else: hit = any([bool(api.call("nostr_filter_matches", P(fp + i * api.size("nostr_filter_t")), P(e), res=ctypes.c_bool)) for i in range(n.value)])
                    if hit: to.append(k)
                api.ev_free(e)
                out.append(dict(o="event", ev=self.evrec(op[1]), to=to))
            else:
                fs, ev = op[1:]; fs = [dict(f, search=f["search"] and "needle%d" % i) for i, f in enumerate(fs)]
                sz = api.size("nostr_filter_t"); buf = ctypes.create_string_buffer(sz * len(fs)); ok = True; ans = [rng.random() < .5 for _ in fs]
                for i, f in enumerate(fs):
                    txt = J.render(F.obj(f, rng), rng).encode("utf8")
                    ok &= api.call("nostr_filter_parse", txt, ctypes.c_size_t(len(txt)), P(ctypes.addressof(buf) + i * sz)) == 0
                if not ok: out.append(dict(o="filter refused")); continue
                e = api.ev_build(ev); usecb = rng.random() < .7
                def f(q, evp, ud):
                    q = q.decode("latin1"); return ud == 77 and evp == e and q.startswith("needle") and ans[int(q[6:])]
                cb = CB(f) if usecb else CB(0)
                if len(fs) == 1: r = api.call("nostr_filter_matches_with_search", buf, P(e), cb, P(77), res=ctypes.c_bool)
                else: r = api.call("nostr_filters_match_with_search", buf, ctypes.c_size_t(len(fs)), P(e), cb, P(77), res=ctypes.c_bool)
                out.append(dict(o="search", filters=[F.spec(f) for f in fs], ev=self.evrec(ev), cb=usecb, ans=ans, r=bool(r)))
                for i in range(len(fs)): api.call("nostr_filter_free", P(ctypes.addressof(buf) + i * sz))
                api.ev_free(e)
        for m in subs.values(): api.call("nostr_client_msg_free", m)
        return {"ops": out}
