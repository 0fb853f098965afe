import ctypes, hashlib
from vf.framework import Check
from vf import gen as G
from vf.api import P, L, B, BIG
RC = {0: "OK", 16: "BUFFER_TOO_SMALL"}

ESC = {34: b'\\"', 92: b"\\\\", 8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r"}
def quote(t): return b'"' + b"".join(ESC.get(c, b"\\u%04x" % c if c < 32 else bytes([c])) for c in t) + b'"'
def witness(d):
    """the text whose hash the id must be, proposed to the specification, which judges it too"""
    return b"[0,%s,%d,%d,[%s],%s]" % (quote(d["pubkey"].hex().encode()), d["created_at"], d["kind"],
        b",".join(b"[" + b",".join(quote(v) for v in t) + b"]" for t in d["tags"]), quote(d["content"] or b""))

class CHECK(Check):
    id = "P02"
    workers = 9
    variants = ["ossl", "mbed", "bare"]
    trace = "T_Canonical"
    mc = [("MC_Canonical", "MC_Canonical.cfg", {"workers": 2})]
    gen = [("MC_Canonical", "Gen_Canonical.cfg", {})]
    assumptions = ["strings contain no NUL byte",
                   "SHA-256 is an uninterpreted function in the specification; its values come from Python's hashlib"]

    def behaviours(self, api, rng, w, n, gen):
        step = self.scale(7, 1)
        for i, g in enumerate(gen):
            if (i + self.seed) % step: continue
            e = g[0]["ev"]
            yield self.one(dict(pubkey=bytes(e["pk"] * 32), created_at=int(("-" if e["at"]["neg"] else "") + "".join(map(str, e["at"]["d"]))),
                                kind=e["kind"], tags=[[bytes(v) for v in t] for t in e["tags"]], content=bytes(e["content"])), rng)
        # every byte value, in content and in tags
        for c in range(1, 256):
            if c % n == w:
                yield self.one(dict(pubkey=bytes(32), created_at=c, kind=c, tags=[[bytes([c])], [b"x", bytes([c, c])]], content=b"a" + bytes([c])), rng)
        for k in (70, 90, 98, 99, 100):        # many short tags: as many as an event may have
            if k % n == w: yield self.one(dict(pubkey=bytes(32), created_at=5, kind=1, tags=[[b""] * (k % 7 + 1)] * k if k > 95 else [[b""]] * k, content=b""), rng)
        if w == 0: yield self.one(dict(pubkey=bytes(32), created_at=-2 ** 63, kind=65535, tags=[[b""]] * 700, content=b"x"), rng)
        for i in range(self.scale(450, 12000)):
            big = i % 60 == 0
            yield self.one(dict(pubkey=bytes(rng.randrange(256) for _ in range(32)) if rng.random() < .8 else bytes([rng.choice((0, 255, 15, 16))]) * 32,
                                created_at=G.integer(rng, -2 ** 63, 2 ** 63 - 1) if rng.random() < .5 else rng.choice((10 ** rng.randrange(0, 19), -2 ** 63, -9 * 10 ** 18, 2 ** 63 - 1, rng.randrange(1, 9) * 10 ** rng.randrange(0, 18), -rng.randrange(1, 9) * 10 ** rng.randrange(0, 18), rng.randrange(2 ** 31, 2 ** 34))),
                                kind=G.integer(rng, 0, 65535), tags=G.tags(rng, 40 if big else 6, 5, 40), content=None if rng.random() < .03 else G.text(rng, 3000 if big else 120, utf8=False)), rng)

    def one(self, d, rng):
        api = self.api; self.note(str(d)[:3000])
        e = api.ev_build(d); out = []
        tags = [[B(v) for v in t] for t in d["tags"]]
        ev = dict(pk=B(d["pubkey"]), at=BIG(d["created_at"]), kind=d["kind"], tags=tags, content=B(d["content"] or b""))
        def canon(n):
            p = api.ptr("vf_malloc", ctypes.c_size_t(n)); ctypes.memset(p, 0xEE, n)
            ln = ctypes.c_size_t(0xffffff)
            rc = api.call("nostr_event_serialize_canonical", P(e), P(p), ctypes.c_size_t(n), ctypes.byref(ln))
            buf = api.rd(p, n); api.free(p)
            o = dict(o="canon", ev=ev, n=n, r=RC.get(rc, str(rc)), len=min(ln.value, 2 ** 30), out=[], nul=False)
            if rc == 0:
                k = buf.index(b"\0") if b"\0" in buf else n
                o["out"] = B(buf[:k]); o["nul"] = k < n
            return o
        bare = self.variant == "bare"
        full = dict(len=0, out=B(witness(d))) if bare else canon(400000 if not d["content"] or len(d["content"]) < 60000 else 1500000)
        ln = full["len"]
        if not bare: out.append(full)
        for n in [] if bare else sorted({ln, ln + 1, max(1, ln - 1), rng.randrange(1, ln + 2), 1}):
            if rng.random() < 0.25: out.append(canon(n))
        api.ev_set(e, "id", bytes(rng.randrange(256) for _ in range(32)))
        rc = api.call("nostr_event_compute_id", P(e))
        got = api.ev_getb(e, "id")
        out.append(dict(o="id", ev=ev, r=rc, out=full["out"], id=got.hex(), h=hashlib.sha256(bytes(full["out"])).hexdigest()))
        for k in range(1, rng.choice((1, 1, 8))):     # memory runs out at the k-th allocation: an error and the old id, or the right one
            api.ev_set(e, "id", bytes(32)); api.lib.vf_oom_arm(ctypes.c_long(k)); rc = api.call("nostr_event_compute_id", P(e)); m = api.lib.vf_oom_disarm()
            out.append(dict(o="lack", ev=ev, r=rc, oom=bool(m), out=full["out"], id=api.ev_getb(e, "id").hex(), h=hashlib.sha256(bytes(full["out"])).hexdigest(), old=bytes(32).hex()))
        api.call("nostr_event_compute_id", P(e))
        a = api.ev_read(e); api.call("nostr_event_compute_id", P(e)); b = api.ev_read(e)
        out.append(dict(o="again", same=(a == b and b["tags"] == d["tags"])))
        api.ev_free(e)
        return {"ops": out}
