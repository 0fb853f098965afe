import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
T = "nostr_deletion_request_t"

class CHECK(Check):
    id = "P11"
    variants = ["ossl"]
    trace = "T_Deletion"
    mc = [("MC_Deletion", "MC_Deletion.cfg", {"workers": 2})]
    gen = [("MC_Deletion", "Gen_Deletion.cfg", {"simulate": lambda c: "num=%d" % c.scale(6, 200)})]
    assumptions = ["the store is a minimal relay written in the harness, which deletes exactly what the library authorises; texts without NUL"]

    def behaviours(self, api, rng, w, n, gen):
        for g in gen[:self.scale(60, 5000)]:
            yield self.run([(x["o"], dict(kind=x["ev"]["kind"], id=bytes(x["ev"]["id"]), pubkey=bytes(x["ev"]["pubkey"]), content=bytes(x["ev"]["content"]), tags=[[bytes(v) for v in t] for t in x["ev"]["tags"]])) for x in g], rng)
        for _ in range(self.scale(160, 6000)): yield self.run(self.rand(rng), rng)
    def rand(self, rng):
        pks = [bytes([rng.choice((0x11, 0xab, 0xff, 0))]) * 32, bytes(rng.randrange(256) for _ in range(32))]; pks.append(pks[1][:31] + bytes([pks[1][31] ^ 1]))
        kinds = rng.sample((0, 1, 3, 5, 10000, 19999, 20000, 29999, 30000, 30001, 30023, 39999, 40000, 65535), 4) + [30000, 30023]
        ds = [b"", b"x", b"a:b", G.text(rng, 300), b"y" * rng.choice((100, 180, 184, 185, 186, 187, 188, 200, 255, 256, 300, 1000))]
        for _ in range(3): ds += [b":".join(rng.choice((b"x", b"y", b"", b"ab", b"0")) for _ in range(rng.randrange(1, 4)))]
        ds += [G.near(rng, rng.choice(ds)) for _ in range(4)]; ds = [d.replace(b"\0", b"") for d in ds]; ds = rng.sample(ds, rng.randrange(2, 6))
        evs = []; ops = []
        for _ in range(rng.randrange(3, 12)):
            if rng.random() < .6 or not evs:
                tags = []
                r = rng.random()
                if r < .6: tags.append([b"d", rng.choice(ds)] + ([b"z"] if rng.random() < .2 else []))
                if r < .1: tags.insert(0, [b"d"])
                if r > .9: tags += [[b"d", rng.choice(ds)], [b"d", rng.choice(ds)]]
                e = dict(kind=rng.choice(kinds), id=bytes(rng.randrange(256) for _ in range(32)), pubkey=rng.choice(pks), content=b"", tags=tags); evs.append(e); ops.append(("publish", e))
            else:
                tags = []; own = rng.choice(pks)
                for _ in range(rng.randrange(0, 7)):
                    x = rng.choice(evs); d = next((t[1] for t in x["tags"] if len(t) > 1 and t[0] == b"d"), b""); k = rng.random(); own = x["pubkey"] if rng.random() < .5 else own
                    if rng.random() < .25: d = G.near(rng, d).replace(b"\0", b"")
                    if k < .35: tags.append([b"e", x["id"].hex().encode()] + ([b"wss://r"] if rng.random() < .3 else []))
                    elif k < .7: tags.append([b"a", b"%d:%s:%s" % (x["kind"], x["pubkey"].hex().encode(), d)] + ([b"wss://r"] if rng.random() < .3 else []))
                    elif k < .85:
                        tags.append(rng.choice(([b"e"], [b"a"], [b"e", x["id"].hex().upper().encode()], [b"e", x["id"].hex()[:63].encode()], [b"e", x["id"].hex().encode() + b"0"], [b"e", b""], [b"a", b""], [b"E", x["id"].hex().encode()], [b"ee", x["id"].hex().encode()],
                            [b"a", b"0%d:%s:%s" % (x["kind"], x["pubkey"].hex().encode(), d)], [b"a", b"%d:%s" % (x["kind"], x["pubkey"].hex().encode())], [b"a", b"%d:%s:%sx" % (x["kind"], x["pubkey"].hex().encode(), d)],
                            [b"a", b"%d:%s:%s" % (x["kind"], x["pubkey"].hex().upper().encode(), d)], [b"a", b"%d:%s:%s" % (x["kind"] + 1, x["pubkey"].hex().encode(), d)], [b"a", b"%d:%s:%s" % (x["kind"], x["pubkey"].hex().encode(), d[:-1])],
                            [b"a", b":%s:%s" % (x["pubkey"].hex().encode(), d)], [b"a", x["id"].hex().encode()], [b"e", b"x", x["id"].hex().encode()], [b"p", x["id"].hex().encode()])))
                    else: tags.append([b"k", b"1"])
                rq = dict(kind=5 if rng.random() < .85 else rng.choice((1, 4, 6, 30000, 1005, 65541 % 65536, 0)), id=bytes(rng.randrange(256) for _ in range(32)), pubkey=own, content=rng.choice((b"", b"reason", G.text(rng, 60))), tags=tags)
                ops.append((rng.choice(("delete",) * 5 + ("deleteoom",)), rq))
                if rng.random() < .3: evs.append(rq); ops.append(("publish", rq))
        return ops

    def rec(self, e): return dict(kind=e["kind"], id=B(e["id"]), pubkey=B(e["pubkey"]), content=B(e["content"]), tags=[[B(v) for v in t] for t in e["tags"]])
    def run(self, ops, rng):
        api = self.api; out = []; st = []; made = []
        for o, e in ops:
            p = api.ev_build(e); made.append(p)
            if o == "publish":
                if any(x[0]["id"] == e["id"] for x in st): continue
                st.append((e, p)); out.append(dict(o=o, ev=self.rec(e))); continue
            self.note(repr((o, e, [x[0] for x in st]))[:4000])
            rq = api.new(T, 0xAA); rp = ctypes.addressof(rq)
            if o == "deleteoom": api.lib.vf_oom_arm(ctypes.c_long(rng.randrange(1, 10)))
            r = api.call("nostr_deletion_parse", P(p), rq); api.lib.vf_oom_disarm()
            rs = api.get(rp, T, "reason")
            d = dict(o=o, rq=self.rec(e), isdel=bool(api.call("nostr_event_is_deletion", P(p), res=ctypes.c_bool)), r=r, p=dict(
                ids=[B(x) for x in api.strs(api.get(rp, T, "event_ids"), api.get(rp, T, "event_ids_count"))], addresses=[B(x) for x in api.strs(api.get(rp, T, "addresses"), api.get(rp, T, "addresses_count"))],
                pubkey=B(api.getb(rp, T, "pubkey").split(b"\0")[0]), reason=B(api.cstr(rs)) if rs else []))
            if o == "delete" and r == 0:
                d["held"] = []; new = []
                for x, q in st:
                    bi = bool(api.call("nostr_deletion_authorized", rq, P(q), res=ctypes.c_bool)); ba = bool(api.call("nostr_deletion_authorized_address", rq, P(q), res=ctypes.c_bool))
                    d["held"].append(dict(ev=self.rec(x), byid=bi, byaddr=ba))
                    if not (bi or ba): new.append((x, q))
                st = new
            out.append(d); api.call("nostr_deletion_free", rq)
        for p in made: api.ev_free(p)
        return {"ops": out}
