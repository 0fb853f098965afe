import base64, ctypes
from vf.framework import Check
from vf import gen as G, seal as S
from vf.api import P, B
EDGE = [1, 2, 31, 32, 33, 63, 64, 65, 96, 97, 255, 256, 257, 319, 320, 321, 383, 384, 385, 511, 512, 513, 640, 641, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 32768, 32769, 65535]
A64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

class CHECK(Check):
    id = "P31"
    workers = 12
    variants = ["full", "fullmbed"]
    trace = "T_Seal"
    mc = [("MC_Seal", "MC_Seal.cfg", {"workers": 3})]
    gen = [("MC_Seal", "Gen_Seal.cfg", {"simulate": lambda c: "num=%d" % c.scale(60, 3000), "extra": ("-depth", "9")})]
    assumptions = ["noscrypt is not installed here: the library is built with a stand-in for its interface over libsecp256k1 and OpenSSL (shim/noscrypt_shim.c)",
                   "the reader of the wire is NIP-44 v2 and NIP-04 in vf/seal.py, which reproduces the NIP's published vectors; libcrypto gives the raw ciphers",
                   "base64 spelled otherwise than canonically may be refused or read; if read, it must yield something that was sealed"]

    def behaviours(self, api, rng, w, n, gen):
        c = api.new("nostr_config"); api.call("nostr_config_get_defaults", c); api.call("nostr_init_with_config", c)
        for g in gen[:self.scale(30, 900)]: yield self.follow(g, rng)
        i = w
        while i < len(EDGE): yield self.run([("limits", 1, 65535), ("seal44", 0, 1, self.text(rng, EDGE[i])), ("open44", 1, 0, -1, None), ("foreign44", 1, 0, EDGE[i], None, None), ("open44", 0, 1, -1, None)], rng); i += n
        for _ in range(self.scale(60, 2500)): yield self.run(self.plan(rng), rng)
    def text(self, rng, n):
        r = rng.random()
        if r < .3: return bytes([rng.choice((0, 32, 97, 255))]) * n
        if r < .6: return (G.text(rng, 40) or b"x").ljust(n, b".")[:n]
        return rng.randbytes(n)
    def length(self, rng):
        r = rng.random()
        if r < .5: return min(65535, max(0, rng.choice(EDGE[:-3]) + rng.choice((0, 0, 1, -1))))
        if r < .9: return rng.randrange(1, 700)
        return rng.choice((0, 65536, 65537, 65535, 70000)) if r < .95 else rng.randrange(1, 20000)
    def change(self, rng, t):
        """an altered text"""
        r = rng.random(); t = bytearray(t); i = rng.randrange(len(t)) if t else 0
        if not t: return b"A"
        if r < .25: t[i] = rng.choice(A64)
        elif r < .5:                                   # one bit of the payload
            p = S.b64(bytes(t))
            if p:
                p = bytearray(p); j = rng.choice((rng.randrange(len(p)), rng.randrange(min(36, len(p))), len(p) - 1 - rng.randrange(min(36, len(p))))); p[j] ^= 1 << rng.randrange(8); return base64.b64encode(bytes(p))
        elif r < .6: del t[i:i + rng.choice((1, 4, 4, 64))]
        elif r < .7: t[i:i] = rng.choice((b"A", b"AAAA", b"\n", b" ", b"=", b"!", b"\xff"))
        elif r < .75: t = t[:rng.choice((0, 1, 4, 88, 128, 132, 136, 140, len(t) - 4))]
        elif r < .8: t += rng.choice((b"A", b"AAAA", b"=", b"\n", b" ", b"?iv="))
        elif r < .85: t = bytearray(b"#") + t
        elif r < .9: t = t.swapcase()
        elif r < .95: t = bytearray(t.replace(b"+", b"-").replace(b"/", b"_"))
        else: t[i] = rng.choice((10, 32, 61, 33, 35, 63, 255))
        return bytes(t).replace(b"\0", b"A")
    def plan(self, rng):
        ops = []; k = lambda: rng.randrange(3)
        if rng.random() < .25: ops.append(("limits", *rng.choice(((1, 65535), (1, 32), (2, 100), (33, 33), (300, 500), (1, 64), (16, 65535), (65535, 65535)))))
        elif rng.random() < .5: ops.append(("limits", 1, 65535))
        for _ in range(rng.randrange(2, 9)):
            r = rng.random(); a, b = k(), k()
            if rng.random() < .03: a = "bad"
            if rng.random() < .03: b = "bad"
            if r < .3: ops.append(("seal44", a, b, self.text(rng, self.length(rng))))
            elif r < .45:
                n = self.length(rng) % 65536; pad = hdr = None
                if rng.random() < .5: pad = rng.choice((n, n + 1, S.padded(n) if n else 32, (S.padded(n) if n else 32) + 32, max(n, 32), 1 << max(5, (max(1, n) - 1).bit_length()), max(0, (S.padded(n) if n else 32) - 32)))
                if rng.random() < .3: hdr = rng.choice((0, n + 1, max(0, n - 1), 65535, 33, 32))
                ops.append(("foreign44", a, b, n, pad, hdr))
            elif r < .6: ops.append(("seal04", a, b, self.text(rng, rng.choice((0, 1, 15, 16, 17, 31, 32, 33, 100, 1000))).replace(b"\0", b"z")))
            elif r < .65: ops.append(("foreign04", a, b, self.text(rng, rng.choice((0, 1, 15, 16, 17, 100)))))
            elif r < .68: ops.append(("restart",))
            elif r < .72: ops.append(("junk", rng.choice((b"", b"#", b"A", b"AAAA", b"=", b"====", b"Ag==", b"?iv=", b"AAAA?iv=", b"?iv=AAAA", b"AAAA?iv=AAAAAAAAAAAAAAAAAAAAAA==", b"AAAAAAAAAAAAAAAAAAAAAA==?iv=AAAA", b"AAAAAAAAAAAAAAAAAAAAAA==?iv=AAAAAAAAAAAAAAAAAAAAAA==", base64.b64encode(b"\2" + bytes(rng.choice((65, 95, 96, 97, 98, 99, 130)))), base64.b64encode(rng.randbytes(rng.choice((98, 99, 100, 131, 65603, 65604)))), b"A" * rng.choice((131, 132, 136, 87472, 87476, 100000)), G.text(rng, 200).replace(b"\0", b"")))))
            for _ in range(rng.choice((0, 1, 1, 2, 4))):
                x = rng.choice((k(), "other", "same", "same")); f = "open44" if r < .45 or (r > .6 and rng.random() < .5) else "open04"
                if rng.random() < .04: f = "open04" if f == "open44" else "open44"
                ops.append((f, "same" if rng.random() < .8 else k(), x if rng.random() < .4 else "same", rng.choice((-1, -1, -1, rng.randrange(20))), rng.random() < .5))
        return ops
    def follow(self, g, rng):
        n = {"A": 0, "B": 1, "M": 2}; ops = []
        for o in g:
            if o["o"] == "seal": ops.append(("seal44", n[o["a"]], n[o["b"]], self.text(rng, o["n"])))
            elif o["o"] == "own": ops.append(("foreign44", 2, n[o["b"]], rng.choice((1, 33, 300)), None, None))
            elif o["o"] == "alter": ops.append(("alter",))
            elif o["o"] == "limits": ops.append(("limits", 1, o["n"]))
            else: ops.append(("open44", n[o["b"]], n[o["a"]], rng.choice((-1, rng.randrange(20))), False))
        return self.run(ops, rng)
    def run(self, plan, rng):
        api = self.api; sk = [bytes(x) for x in G.seckeys(rng, 3)]; pk = [api.o_pub(x) for x in sk]; out = []; wire = []; self.note("%r" % [[q if not isinstance(q, bytes) or len(q) < 60 else q[:60] for q in o] for o in plan])
        def limits(lo, hi):
            c = api.new("nostr_config"); cp = ctypes.addressof(c); api.call("nostr_config_get_defaults", P(cp)); api.set(cp, "nostr_config", "nip44_min_plaintext_size", lo); api.set(cp, "nostr_config", "nip44_max_plaintext_size", hi)
            out.append(dict(o="limits", min=lo, max=hi, r=api.call("nostr_config_update", P(cp))))
        limits(1, 65535)
        sec = lambda a: sk[a] if a != "bad" else rng.choice((bytes(32), b"\xff" * 32, G.N_ORDER.to_bytes(32, "big")))
        pub = lambda b: pk[b] if b != "bad" else rng.choice((bytes(32), b"\xff" * 32, (5).to_bytes(32, "big")))
        def pair(a, b):
            x = ctypes.create_string_buffer(32); ok = bool(api.lib.vo_ecdh_x(a, b, x)); return ok, x.raw[:32]
        def go(f, a, b, args, res):
            """the call, perhaps with memory or randomness failing"""
            sb = ctypes.create_string_buffer(a, 32); pb = ctypes.create_string_buffer(b, 32); r = rng.random(); inj = 0; self.norand = False
            if r < .08: api.lib.vf_oom_arm(ctypes.c_long(rng.randrange(1, 20)))
            elif r < .1: api.lib.vf_oom_arm_from(ctypes.c_long(rng.randrange(1, 16)))
            elif r < .14: at = rng.choice((1, 1, 2)); api.rng_fail(at)
            q = api.call(f, sb, pb, *args)
            if r < .1: inj = api.call("vf_oom_disarm", res=ctypes.c_long)
            elif r < .14: inj = 1 if api.call("vf_rng_calls", res=ctypes.c_long) >= at else 0; self.norand = inj > 0; api.rng_real()
            if (sb.raw[:32], pb.raw[:32]) != (a, b): out.append(dict(o="keys changed"))
            return q, inj
        dead = 0xdead0
        if self.variant == "fullmbed":      # this build has no NIP-04
            plan = [("open44",) + tuple(o[1:]) if o[0] == "open04" else o for o in plan if o[0] not in ("seal04", "foreign04")]
        for o in plan:
            f = o[0]
            if f == "limits": limits(o[1], o[2])
            elif f == "restart": api.call("nostr_cleanup", res=None); out.append(dict(o="restart"))
            elif f == "junk": wire.append((rng.randrange(3), rng.randrange(3), o[1]))
            elif f == "alter":
                if wire: a, b, t = rng.choice(wire); wire.append((a, b, self.change(rng, t)))
            elif f in ("seal44", "seal04"):
                a, b, t = sec(o[1]), pub(o[2]), o[3]; ok, x = pair(a, b); c = ctypes.c_void_p(dead)
                q, inj = go("nostr_nip%s_encrypt" % f[4:], a, b, [t, ctypes.c_size_t(len(t)), ctypes.byref(c)] if f == "seal44" else [t, ctypes.byref(c)], 0)
                d = S.read44(b"", b""); e = S.read04(x, b""); w = b""
                if q == 0: w = api.takestr(c.value); wire.append((o[1], o[2], w)); d = S.read44(S.conv(x), w); e = S.read04(x, w)
                out.append(dict(o=f, mine=B(api.o_pub(a) or b""), theirs=B(b), keys=ok, n=len(t), h=S.tag(t), inj=inj, norand=self.norand, r=q, d=d if f == "seal44" else e))
            elif f == "foreign44":
                ok, x = pair(sec(o[1]), pub(o[2]))
                if ok:
                    p = self.text(rng, o[3]); hdr = o[5] if o[5] is not None else len(p); pad = max(len(p), o[4] if o[4] is not None else S.padded(max(1, len(p)))); body = (hdr & 65535).to_bytes(2, "big") + p + (bytes(pad - len(p)) if rng.random() < .93 else rng.randbytes(pad - len(p)))
                    out.append(dict(o="foreign44", mine=B(pk[o[1]]), theirs=B(pk[o[2]]), h=S.tag(body[2:2 + (hdr & 65535)]))) if "bad" not in o[1:3] else 0
                    wire.append((o[1], o[2], base64.b64encode(S.raw44(S.conv(x), rng.randbytes(32), body, 2 if rng.random() < .95 else rng.choice((0, 1, 3, 255))))))
            elif f == "foreign04":
                ok, x = pair(sec(o[1]), pub(o[2]))
                if ok:
                    t = S.seal04(x, rng.randbytes(16), o[3])
                    if rng.random() < .2: t = t.split(b"?")[0] + rng.choice((b"?iv=", b"?iv", b"&iv=", b"?iv= ", b"?iv=?iv=")) + base64.b64encode(rng.randbytes(rng.choice((16, 16, 15, 17, 0, 32))))
                    wire.append((o[1], o[2], t))
            elif wire:
                a0, b0, t = wire[o[3] if o[3] < 0 else o[3] % len(wire)]
                if o[4]: t = self.change(rng, t)
                m, th = (b0, a0) if rng.random() < .8 else (a0, b0)     # the receiver, or the sender reading their own message
                m = m if o[1] == "same" else o[1]; th = th if o[2] in ("same", "other") else o[2]
                a, b = sec(m), pub(th); ok, x = pair(a, b); p = ctypes.c_void_p(dead); n = ctypes.c_size_t(7)
                q, inj = go("nostr_nip%s_decrypt" % f[4:], a, b, [t, ctypes.byref(p)] + ([ctypes.byref(n)] if f == "open44" else []), 0)
                h = ""; left = False; z = -1
                if q == 0:
                    z = n.value if f == "open44" else len(api.rd(p.value, 1) and ctypes.string_at(p.value)); v = api.rd(p.value, z + 1); h = S.tag(v[:z]) if v[z:] == b"\0" else "unterminated"; api.free(p.value)
                else: left = p.value not in (None, dead)
                out.append(dict(o=f, mine=B(api.o_pub(a) or b""), theirs=B(b), keys=ok, d=S.read44(S.conv(x), t) if f == "open44" else S.read04(x, t), inj=inj, r=q, h=h, n=z, left=left))
        return {"ops": out}
