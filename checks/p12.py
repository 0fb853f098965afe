import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B, BIG
M = 2 ** 63 - 1
RT = "nostr_validation_result_t"
num = lambda n: (-1 if n["neg"] else 1) * int("".join(map(str, n["d"])))

class CHECK(Check):
    id = "P12"
    variants = ["ossl"]
    trace = "T_Freshness"
    mc = [("MC_Freshness", "MC_Freshness.cfg", {"workers": 2})]
    gen = [("MC_Freshness", "Gen_Freshness.cfg", {})]
    assumptions = ["the clock is scripted; non-negative clock; expiration texts in a form only a lenient reader takes as a number may be read either way"]

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init"); self.sk = G.seckey(rng)
        rng.shuffle(gen)
        for g in gen[:self.scale(120, 5000)]:
            ops = []
            for x in g:
                if x["o"] == "clock": ops.append(("clock", num(x["now"])))
                else: e = x["e"]; ops.append(("event", dict(at=num(e["at"]), tags=[[bytes(v) for v in t] for t in e["tags"]], id=e["id"], sig=e["sig"])))
                ops += [("ask", k) for k in ("exp", "expirednow", "full", "full")]
            yield self.run(ops, rng, small=True)
        for _ in range(self.scale(160, 5000)): yield self.run(self.rand(rng), rng)
    def expval(self, rng, now):
        r = rng.random(); n = max(0, now + rng.choice((0, 1, -1, 100, -100, 2 ** 31, -2 ** 31, 2 ** 32)))
        if r < .55: return b"%d" % n
        if r < .7: return rng.choice((b"0", b"00", b"1", b"9223372036854775807", b"9223372036854775808", b"4294967296", b"4294967295", b"2147483648", b"99999999999999999999", b"0%d" % n, b"00000000000000000000%d" % n))
        return rng.choice((b"", b"-1", b"-%d" % n, b"+%d" % n, b" %d" % n, b"%d " % n, b"%dx" % n, b"x%d" % n, b"0x%x" % n, b"%d.5" % n, b"1e9", b"never", b"-", b"+", b"%d\n" % n, b"%d,0" % n, b"--1", b"- 1"))
    def rand(self, rng):
        now = rng.choice((0, 1, 1700000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40, rng.randrange(0, 2 ** 41)))
        ops = [("clock", now)]; ne = 0
        for _ in range(rng.randrange(4, 24)):
            r = rng.random()
            if r < .25 or not ne:
                tags = []
                for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
                    k = rng.random()
                    tags.append([b"expiration"] if k < .1 else [rng.choice((b"Expiration", b"expiration ", b"exp", b"e", b"expiratio")), self.expval(rng, now)] if k < .2 else [b"expiration", self.expval(rng, now)] + ([b"x"] if k > .9 else []))
                at = rng.choice((now, now + 1, now - 1, now + 900, now + 901, 0, M, -M - 1, G.integer(rng, -2 ** 62, 2 ** 62), now + 2 ** 32, now + 2 ** 31))
                ops.append(("event", dict(at=at, tags=tags, id=rng.random() < .8, sig=rng.random() < .8))); ne += 1
            elif r < .35: now = rng.choice((now, now + 1, now + rng.randrange(0, 200), now + 2 ** 31)); ops.append(("clock", now))
            else: ops.append(("ask", rng.choice(("ts", "ts", "exp", "expired", "expirednow", "full", "full", "full", "now"))))
        return ops
    def event(self, d, rng):
        api = self.api; e = api.ev_build(dict(kind=rng.choice((0, 1, 3, 4, 5, 9999, 10000, 19999, 20000, 22242, 27235, 29999, 30000, 39999, 40000, 65535)), created_at=d["at"], tags=d["tags"], content=b"hi"))
        sk = ctypes.create_string_buffer(self.sk, 32); api.lib.vf_rng_real()
        self.signed = api.call("nostr_event_sign", P(e), sk)
        def flip(f): b = bytearray(api.ev_getb(e, f)); b[rng.choice((0, len(b) - 1, rng.randrange(len(b))))] ^= 1 << rng.randrange(8); api.ev_set(e, f, bytes(b))
        if not d["id"] and not d["sig"]: api.ev_content(e, b"tampered")
        elif not d["id"]: flip("id")
        elif not d["sig"]:
            if rng.random() < .5: flip("sig")
            else: api.ev_content(e, b"other"); api.call("nostr_event_compute_id", P(e))
        return e
    def run(self, ops, rng, small=False):
        api = self.api; out = []; evs = []; now = 0; api.time_set(0)
        for o, a in ops:
            self.note("%s %r of %r" % (o, a, ops[:20]))
            if o == "clock": now = a; api.time_set(a); out.append(dict(o="clock", now=BIG(a)))
            elif o == "event":
                evs.append((a, self.event(a, rng))); out.append(dict(o="event", e=dict(at=BIG(a["at"]), tags=[[B(v) for v in t] for t in a["tags"]], id=a["id"], sig=a["sig"])))
                if self.signed: out[-1] = dict(o="signing refused", r=self.signed); break
            else:
                if a not in ("ts", "now") and not evs: continue
                i = rng.randrange(len(evs)) if evs else 0; e = P(evs[i][1]) if evs else None; d = dict(o=a, i=i + 1)
                at0 = evs[i][0]["at"] if evs else now
                mx = rng.choice((0, 2)) if small else rng.choice((0, 1, 900, 900, -1, max(-M, min(M, at0 - now)), max(-M, min(M, at0 - now - 1)), 2 ** 31, 2 ** 32, M, M - now, -M - 1, M - now + 1 if now else 0))
                if a == "ts":
                    at = rng.choice((now + mx, now + mx + 1, now + mx - 1, now, M, -M - 1, at0)); at = max(-M - 1, min(M, at))
                    d.update(at=BIG(at), max=BIG(mx), r=bool(api.call("nostr_validate_timestamp", ctypes.c_int64(at), ctypes.c_int64(mx), res=ctypes.c_bool)))
                elif a == "exp": d["r"] = BIG(api.call("nostr_event_get_expiration", e, res=ctypes.c_int64))
                elif a == "expired":
                    t = rng.choice((now, M, 0, -1, -M, -M - 1, api.call("nostr_event_get_expiration", e, res=ctypes.c_int64), api.call("nostr_event_get_expiration", e, res=ctypes.c_int64) - 1, api.call("nostr_event_get_expiration", e, res=ctypes.c_int64) + 1)); t = min(t, M)
                    d.update(now=BIG(t), r=bool(api.call("nostr_event_is_expired", e, ctypes.c_int64(t), res=ctypes.c_bool)))
                elif a == "expirednow": d["r"] = bool(api.call("nostr_event_is_expired_now", e, res=ctypes.c_bool))
                elif a == "now": d["r"] = BIG(api.call("nostr_timestamp_now", res=ctypes.c_int64))
                elif a == "full":
                    res = api.new(RT, 0xAA); rp = ctypes.addressof(res)
                    r = api.call("nostr_event_validate_full", e, ctypes.c_int64(mx), res)
                    d.update(max=BIG(mx), r=r, valid=bool(api.get(rp, RT, "valid")), code=api.get(rp, RT, "error_code"))
                out.append(d)
        for _, e in evs: api.ev_free(e)
        return {"ops": out}
