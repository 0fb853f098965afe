import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B

VALID = dict(hex64="nostr_validate_hex64", prefix="nostr_validate_hex_prefix", sub="nostr_validate_subscription_id", address="nostr_validate_address", indexable="nostr_tag_is_indexable")

class CHECK(Check):
    id = "P10"
    variants = ["ossl"]
    trace = "T_Codecs"
    mc = [("MC_Codecs", "MC_Codecs.cfg", {"workers": 2})]
    gen = [("MC_Codecs", "Gen_Codecs.cfg", {})]
    assumptions = ["texts without NUL"]

    def behaviours(self, api, rng, w, n, gen):
        ops = []
        for g in gen:
            s = bytes(g["s"]); ops += [self.valid(f, s) for f in VALID] + [self.decode(s, rng)]
        for i in range(0, len(ops), 200): yield {"ops": ops[i:i + 200]}
        if w == 0:
            # every byte at the places where a class of characters is decided
            for f in VALID:
                ops = [self.valid(f, bytes([c])) for c in range(1, 256)]
                ops += [self.valid(f, b"a" * i + bytes([c]) + b"a" * (63 - i)) for c in range(1, 256) for i in (0, 63)] if f in ("hex64", "prefix", "sub") else []
                ops += [self.valid(f, b"1:" + b"a" * 63 + bytes([c]) + b":") for c in range(1, 256)] + [self.valid(f, bytes([c]) + b":" + b"a" * 64 + b":x") for c in range(1, 256)] + [self.valid(f, b"1" + bytes([c]) + b"a" * 64 + b":x") for c in range(1, 256)] if f == "address" else []
                yield {"ops": ops}
            yield {"ops": [o for c in range(1, 256) for o in (self.decode(bytes([c]) + b"0", rng), self.decode(b"0" + bytes([c]), rng))]}
        for _ in range(self.scale(100, 4000)):
            ops = []
            for _ in range(40):
                r = rng.random()
                if r < .3: ops.append(self.valid(rng.choice(list(VALID)), self.text(rng)))
                elif r < .5: ops.append(self.decode(self.text(rng), rng))
                elif r < .65: ops.append(self.field(rng))
                elif r < .95: ops += self.encode(rng)
                else: ops.append(self.cmp(rng))
            yield {"ops": ops}
    def text(self, rng):
        r = rng.random(); hx = lambda n: G.hexs(rng, n)
        if r < .2: s = hx(rng.choice((0, 1, 2, 62, 63, 64, 65, 66, 128, rng.randrange(0, 70))))
        elif r < .5: s = b"%d:%s:%s" % (rng.choice((0, 1, 30000, 39999, 2 ** 40)), hx(rng.choice((64, 64, 64, 63, 65))), rng.choice((b"", b"x", b"a:b", b":", G.text(rng, 30))))
        elif r < .7: s = bytes(rng.randrange(32, 127) for _ in range(rng.choice((0, 1, 63, 64, 65, rng.randrange(1, 70)))))
        else: s = G.text(rng, 130)
        if rng.random() < .35 and s:
            i = rng.choice((0, len(s) - 1, rng.randrange(len(s)))); s = s[:i] + rng.choice((b"", b":", b"G", b"g", b"F", b"A", b"`", b"/", b"@", b" ", b"\x1f", b"\x7f", b"\x80", b"-", b"+", b"x", b"0x")) + s[i + rng.choice((0, 1)):]
        return s.replace(b"\0", b"")
    def valid(self, f, s):
        self.note("valid %s %r" % (f, s[:200]))
        api = self.api; b = api.ptr("vf_malloc", ctypes.c_size_t(len(s) + 1)); api.wr(b, s + b"\0")
        r = bool(api.call(VALID[f], P(b), res=ctypes.c_bool)); api.free(b)
        return dict(o="valid", f=f, s=B(s), r=r)
    def decode(self, s, rng):
        api = self.api; cap = max(0, len(s) // 2 + rng.choice((0, 0, 0, 1, -1, 5, -len(s) // 2))); o = api.ptr("vf_malloc", ctypes.c_size_t(max(1, cap)))
        if rng.random() < .5:
            b = api.ptr("vf_malloc", ctypes.c_size_t(max(1, len(s)))); api.wr(b, s)     # not terminated: the length is given
            r = api.call("nostr_hex_to_bytes", P(b), ctypes.c_size_t(len(s)), P(o), ctypes.c_size_t(cap)); n = len(s) // 2
        else:
            b = api.ptr("vf_malloc", ctypes.c_size_t(len(s) + 1)); api.wr(b, s + b"\0")
            r = api.call("nostr_hex_decode", P(b), P(o), ctypes.c_size_t(cap)); n = r
            if r >= 0: r = 0
        out = B(api.rd(o, n)) if r == 0 and 0 <= n <= cap else []; api.free(o); api.free(b)
        return dict(o="decode", hex=B(s), cap=cap, r=r, out=out)
    def field(self, rng):
        api = self.api; s = self.text(rng) if rng.random() < .5 else bytes(rng.choice(b"0123456789abcdefABCDEF") for _ in range(64))
        f = rng.choice(("nostr_key_from_hex", "nostr_privkey_from_hex")); o = api.ptr("vf_malloc", ctypes.c_size_t(32))
        r = api.call(f, s + b"\0", P(o)); out = B(api.rd(o, 32)) if r == 0 else []; api.free(o)
        return dict(o="field", hex=B(s), size=32, r=r, out=out)
    def encode(self, rng):
        api = self.api; f = rng.choice(("nostr_bytes_to_hex", "nostr_hex_encode", "nostr_key_to_hex", "nostr_privkey_to_hex", "nostr_event_get_id_hex", "nostr_event_get_pubkey_hex"))
        n = 32 if "to_hex" in f and f != "nostr_bytes_to_hex" or "event" in f else G.size(rng, 100)
        b = bytes(rng.choice((rng.randrange(256), 0, 15, 16, 128, 255)) for _ in range(n)); cap = 2 * n + 1
        if f in ("nostr_key_to_hex", "nostr_privkey_to_hex") and rng.random() < .4: cap = rng.choice((0, 1, 63, 64, 65, 66, 100))
        o = api.ptr("vf_malloc", ctypes.c_size_t(max(1, cap))); api.wr(o, b"\xAA" * cap); src = ctypes.create_string_buffer(b, max(1, n)); r = 0
        if f in ("nostr_bytes_to_hex", "nostr_hex_encode"): api.call(f, src, ctypes.c_size_t(n), P(o))
        elif "event" in f:
            e = api.ev_build({"id" if "id_hex" in f else "pubkey": b}); api.call(f, P(e), P(o))
            bp = api.ptr(f[:-4], P(e)); b2 = api.rd(bp, 32); api.ev_free(e)
            if b2 != b: r = 77
        else: r = api.call(f, src, P(o), ctypes.c_size_t(cap))
        t = api.rd(o, cap); api.free(o)
        if r: return [dict(o="encode", b=B(b), cap=cap, r=r, out=[])]
        z = t.find(b"\0"); t = t[:z] if z >= 0 else t + b"!"
        res = [dict(o="encode", b=B(b), cap=cap, r=0, out=B(t))]
        if rng.random() < .5:
            u = bytearray(t)
            o2 = api.ptr("vf_malloc", ctypes.c_size_t(max(1, n)))
            r = api.call("nostr_hex_to_bytes", bytes(u) + b"\0", ctypes.c_size_t(len(u)), P(o2), ctypes.c_size_t(n)); res.append(dict(o="again", r=r, out=B(api.rd(o2, n)))); api.free(o2)
        return res
    def cmp(self, rng):
        api = self.api; n = rng.choice((0, 1, 16, 32, 33, rng.randrange(1, 80))); a = bytes(rng.randrange(256) for _ in range(n)); b = bytearray(a)
        if n and rng.random() < .7: b[rng.choice((0, n - 1, rng.randrange(n)))] ^= 1 << rng.randrange(8)
        if n > 1 and rng.random() < .2: i, j = rng.sample(range(n), 2); x = rng.randrange(1, 256); b[i] ^= x; b[j] ^= x
        return dict(o="cmp", a=B(a), b=B(bytes(b)), r=api.call("nostr_constant_time_memcmp", a + b"\0", bytes(b) + b"\0", ctypes.c_size_t(n)))
