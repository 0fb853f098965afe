import ctypes, hashlib, json
from vf.framework import Check
from vf import gen as G
from vf.api import P, B

def lz(d): return 256 - int.from_bytes(d, "big").bit_length()
def js(b):
    out = bytearray(b'"')
    for c in b:
        out += {8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 34: b'\\"', 92: b"\\\\"}.get(c) or bytes([c])
    return bytes(out + b'"')
def eid(pk, at, kind, tags, content):
    return hashlib.sha256(b'[0,"%s",%d,%d,[%s],%s]' % (pk.hex().encode(), at, kind, b",".join(b"[" + b",".join(js(v) for v in t) + b"]" for t in tags), js(content))).digest()
NOW = 1700000000

class CHECK(Check):
    id = "P14"
    workers = 12
    variants = ["ossl", "bare"]
    trace = "T_Work"
    mc = [("MC_Work", "MC_Work.cfg", {"workers": 2}), ("Mining", "Mining.cfg", {"workers": 2}), ("Mining", "Mining_none.cfg", {"workers": 2})]
    gen = [("MC_Work", "Gen_Work.cfg", {})]
    assumptions = ["a commitment that is not a plain number may be read either way; the search may give up only after nonces 0..budget-1 (start i, step 1000 per thread) with the clock standing still; schedules of the threads are those the host produces with random delays at lock operations"]

    def behaviours(self, api, rng, w, n, gen):
        for i in range(0, 256, 8):
            yield {"ops": [self.diff((1 << (255 - j)) | (rng.getrandbits(255 - j) if j < 255 else 0)) for j in range(i, i + 8)] + [self.diff(rng.getrandbits(256)), self.diff(0), self.diff(1 << (255 - i)), self.diff((1 << (256 - i)) - 1)]}
        rng.shuffle(gen)
        for g in gen[:self.scale(150, 5000)]:
            ops = []
            for x in g:
                o = x["o"]
                ops.append(("tag", [bytes(v) for v in x["t"]]) if o == "tag" else ("id", bytes(x["id"])) if o == "id" else ("nonce", int(bytes(x["n"])), x["target"]) if o == "nonce" else ("mine", x["target"], 100, 0))
                ops += [("verify", rng.choice((0, 1, 3, 4, 5, 8, 12, 9, 100)))] * 1
            yield self.run(ops, rng)
        for _ in range(self.scale(150, 4000)): yield self.run(self.rand(rng), rng)
        for _ in range(self.scale(40, 1500)): yield self.run(self.rand(rng, threads=True), rng)
    def diff(self, v):
        b = v.to_bytes(32, "big"); return dict(o="difficulty", id=list(b), r=self.api.call("nostr_nip13_calculate_difficulty", b))
    def tag(self, rng):
        k = rng.random(); num = lambda: rng.choice((b"0", b"1", b"3", b"8", b"9", b"08", b"16", b"300", b"2147483647", b"4294967296", b"4294967297", b"99999999999999999999", b"", b"x", b"8x", b"-1", b" 8", b"+9", b"0x8"))
        if k < .5: return [b"nonce", rng.choice((b"", b"0", b"123", b"x"))] + ([num()] if rng.random() < .7 else []) + ([b"more", b"still"][:rng.randrange(3)] if rng.random() < .2 else [])
        if k < .6: return [b"nonce"]
        if k < .7: return [rng.choice((b"nonc", b"nonces", b"Nonce", b"")), b"1", b"2"]
        return G.tags(rng, 1, 4, 60)[:1][0] if 0 else [rng.choice((b"e", b"p", b"t"))] + [G.text(rng, 300) for _ in range(rng.randrange(4))]
    def rand(self, rng, threads=False):
        ops = []
        for _ in range(rng.choice((0, 0, 1, 3, 20))): ops.append(("tag", self.tag(rng)))
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if threads and r < .7: ops.append(("mine", rng.choice((1, 2, 3, 4, 5, 6, 7)), rng.choice((1, 2, 5, 30, 0, 1001)), rng.choice((1, 2, 3, 4, 8, 8, 16))))
            elif r < .3: ops.append(("mine", rng.choice((-1, 0, 1, 1, 2, 3, 4, 5, 6, 8, 9)), rng.choice((1, 1, 2, 3, 8, 60, 300)), 0))
            elif r < .5: ops.append(("nonce", rng.choice((0, 1, 9, 10, 2 ** 32, 2 ** 64 - 1, 2 ** 63, G.integer(rng, 0, 2 ** 64 - 1))), rng.choice((0, -1, 1, 8, 20, 256, 1000, 2 ** 31 - 1, -2 ** 31))))
            elif r < .65: ops.append(("tag", self.tag(rng)))
            elif r < .8: ops.append(("id", bytes(rng.randrange(0, 33)) [:32].ljust(rng.randrange(0, 33), b"\0")[:32]))
            ops.append(("verify", rng.choice((-5, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 100, 255, 256, 257))))
            if rng.random() < .5: ops.append(("verifyat", rng.choice((-1, 0, 0, 1))))
        return ops
    def run(self, ops, rng):
        api = self.api; pk = bytes(rng.randrange(256) for _ in range(32)); kind = rng.choice((0, 1, 65535, 30023)); content = G.text(rng, 200).replace(b"\0", b"")
        content = bytes(c for c in content if c >= 32 or c in (8, 9, 10, 12, 13))
        e = api.ev_build(dict(kind=kind, pubkey=pk, created_at=rng.choice((0, 5, NOW)), tags=[], content=content)); api.time_set(NOW); api.time_step(0)
        out = [dict(o="new", id=list(api.ev_getb(e, "id")))]; tags = lambda: [[B(v) for v in t] for t in api.ev_tags(e)]
        for op in ops:
            o = op[0]; self.note("%r of %r" % (op, ops[:20]))
            if o == "tag":
                t = [bytes(c for c in v if c >= 32 or c in (9, 10)) for v in op[1]]
                out.append(dict(o=o, t=[B(v) for v in t], r=api.ev_add(e, t)))
            elif o == "id":
                v = op[1]; i = v + bytes([rng.randrange(1, 256)]) * (32 - len(v)); api.ev_set(e, "id", i); out.append(dict(o=o, id=list(i)))
            elif o == "nonce":
                r = api.call("nostr_nip13_add_nonce_tag", P(e), ctypes.c_uint64(op[1]), ctypes.c_int(op[2])); out.append(dict(o=o, n=B(b"%d" % op[1]), target=op[2], r=r, tags=tags(), id=list(api.ev_getb(e, "id"))))
            elif o in ("verify", "verifyat"):
                m = op[1] if o == "verify" else lz(api.ev_getb(e, "id")) + op[1]
                out.append(dict(o="verify", min=m, r=api.call("nostr_nip13_verify_pow", P(e), ctypes.c_int(m))))
            elif o == "mine":
                _, target, mx, th = op; step = 0 if rng.random() < .7 else 1
                api.time_set(NOW); api.time_step(step); before = api.ev_tags(e)
                if th:
                    api.lib.vf_lock_jitter(ctypes.c_int(rng.choice((0, 1, 1, 2))), ctypes.c_uint64(rng.getrandbits(60)))
                    r = api.call("nostr_nip13_mine_event_threaded", P(e), ctypes.c_int(target), ctypes.c_int(th), ctypes.c_uint64(mx)); api.lib.vf_lock_jitter(0, ctypes.c_uint64(0))
                else: r = api.call("nostr_nip13_mine_event", P(e), ctypes.c_int(target), ctypes.c_uint64(mx))
                t1 = NOW + 10 ** 6 if step else NOW; at = api.ev_get(e, "created_at", True); after = api.ev_tags(e)
                ix = [i for i, t in enumerate(after) if t and t[0] == b"nonce"]; best = 0
                nonce = after[ix[0]][1] if ix and len(after[ix[0]]) > 1 else b""
                if r == 9 and not step and ix:
                    tried = range(mx) if not th or self.variant == "bare" else [i + 1000 * j for i in range(th) for j in range(mx)]
                    for k in tried:
                        tt = list(after); tt[ix[0]] = [b"nonce", b"%d" % k] + after[ix[0]][2:]; best = max(best, lz(eid(pk, NOW, kind, tt, content)))
                out.append(dict(o=o, target=target, bounded=mx > 0, clocked=not step, r=r, seen=api.ev_get(e, "kind") == kind and api.ev_getb(e, "pubkey") == pk and api.ev_read(e)["content"] == content,
                    id=list(api.ev_getb(e, "id")), idok=api.ev_getb(e, "id") == eid(pk, at, kind, after, content), atok=NOW <= at <= t1, tags=tags(), nonce=B(nonce), best=best))
        api.ev_free(e); return {"ops": out}
