import ctypes, hashlib
from vf.framework import Check
from vf import gen as G, hd
from vf.api import P, B
from checks.p23 import enc, CH, poly
H = b"ncryptsec"
def dec(t):
    if not t.startswith(H + b"1") or any(c not in CH for c in t[10:]) or len(t) < 17: return None
    g = [CH.index(c) for c in t[10:]]
    if poly([c >> 5 for c in H] + [0] + [c & 31 for c in H] + g) != 1: return None
    g = g[:-6]; l = 5 * len(g); n = 0
    for x in g: n = n << 5 | x
    return None if l % 8 > 4 or n & ((1 << l % 8) - 1) else (n >> l % 8).to_bytes(l // 8, "big")

class CHECK(Check):
    id = "P24"
    variants = ["ossl"]
    trace = "T_Vault"
    mc = [("MC_Vault", "MC_Vault.cfg", {"workers": 3})]
    assumptions = ["scrypt is Python's hashlib, XChaCha20-Poly1305 a reference implementation in vf/hd.py", "work factors 21 and 22 (2 and 4 GB) are exercised only where no stretching takes place"]
    stretched = {}

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init")
        for logn in {0: (18,), 1: (20,)}.get(w, ()) if self.tier == "quick" else ((18, 19, 20) if w < 2 else ()):
            yield self.run([("seal", G.seckey(rng), self.pw(rng), logn, 163), ("open", "whole"), ("foreign", G.seckey(rng), self.pw(rng), logn, 1), ("open", "whole")][:4 if logn == 18 else 2], rng)
        for _ in range(self.scale(7 if w > 1 else 3, 120)): yield self.run(self.rand(rng, 5), rng)
        for _ in range(self.scale(70, 2000)): yield self.run(self.cheap(rng), rng)
    def pw(self, rng):
        r = rng.random()
        return G.text(rng, 80).replace(b"\0", b"") or b"x" if r < .5 else rng.choice((b"x", b"nostr", b"correct horse", b"\xc3\xa9\xe2\x82\xac", b"p" * 300, b"\xff\xfe", b" lead", b"trail ", b"a\nb"))
    def text(self, rng, **f):
        d = dict(ver=2, logn=16, salt=bytes(rng.randrange(256) for _ in range(16)), nonce=bytes(rng.randrange(256) for _ in range(24)), sec=rng.choice((0, 1, 2)), body=bytes(rng.randrange(256) for _ in range(48))); d.update(f)
        return enc(H, bytes((d["ver"], d["logn"])) + d["salt"] + d["nonce"] + bytes([d["sec"]]) + d["body"])
    def cheap(self, rng):
        """texts decided without stretching a password"""
        ops = []
        for _ in range(8):
            r = rng.random()
            if r < .3: t = self.text(rng, ver=rng.choice((0, 1, 2, 3, 255)), logn=G.integer(rng, 0, 255), sec=rng.choice((0, 1, 2, 3, 4, 128, 255)))
            elif r < .5: t = self.text(rng, logn=rng.choice((15, 16, 17, 18, 22, 23)), sec=rng.choice((0, 1, 2, 2, 3)))
            elif r < .6: t = enc(rng.choice((H, b"ncryptse", b"ncryptsecx", b"nsec", b"Ncryptsec", b"ncryptsec1")), b"\2\x10" + bytes(40) + b"\2" + bytes(48))
            elif r < .7: t = enc(H, b"\2\x10" + bytes(40) + b"\2" + bytes(rng.choice((0, 47, 49, 50, 60, 200))))
            else:
                t = bytearray(self.text(rng)); i = rng.randrange(len(t)); x = rng.random()
                if x < .4: t[i] = rng.choice(CH)
                elif x < .5: del t[i]
                elif x < .6: t.insert(i, rng.choice(CH))
                elif x < .7: t = t.upper()
                elif x < .8: t[i] = rng.choice(b"1bioQ \xff")
                elif x < .9: t = t[:rng.choice((0, 9, 10, 15, 16, 17, 19, 20, 160, 161))]
                else: t += rng.choice((b"q", b" ", b"\n", b"q" * 40, b"q" * 300))
                t = bytes(t)
            ops.append(("check", t)); f = self.fields(t)
            if not f or (f["logn"] == 16 and rng.random() < .02): ops.append(("unseal", t, self.pw(rng)))
            if rng.random() < .2: ops.append(("unseal", t, b""))
            if rng.random() < .15: ops.append(("seal", G.seckey(rng), b"x", rng.choice((0, 1, 15, 23, 24, 32, 64, 80, 128, 255)), 163))
        return ops
    def rand(self, rng, n):
        """sealing, and opening texts sealed by the library or by the reference, whole or altered"""
        ops = []
        for _ in range(n):
            r = rng.random(); logn = 16 if rng.random() < .85 else 17
            if self.tier != "quick" and rng.random() < .02: logn = rng.choice((18, 19))
            if r < .5: ops.append(("seal", G.seckey(rng) if rng.random() < .9 else bytes(32), self.pw(rng), logn, rng.choice((163, 163, 200, 500, 162, 0))))
            else: ops.append(("foreign", G.seckey(rng), self.pw(rng), logn, rng.choice((0, 1, 2))))
            x = rng.random()
            ops.append(("open", "whole" if x < .4 else "password" if x < .6 else "altered"))
        return ops
    def fields(self, t):
        b = dec(t)
        if b is None or len(b) != 91: return None
        return dict(ver=b[0], logn=b[1], salt=b[2:18], nonce=b[18:42], sec=b[42], ct=b[43:75], mac=b[75:]) if b[0] == 2 and 16 <= b[1] <= 22 and b[42] < 3 else None
    def key(self, pw, salt, logn):
        k = (pw, salt, logn)
        if k not in self.stretched: self.stretched[k] = hashlib.scrypt(pw, salt=salt, n=1 << logn, r=8, p=1, maxmem=min(2 ** 31 - 1, (1 << logn) * 1024 + (1 << 26)), dklen=32)
        return self.stretched[k]
    def oracle(self, t, pw):
        f = self.fields(t)
        if not f or not pw: return [], []
        x = hd.xopen(self.key(pw, f["salt"], f["logn"]), f["nonce"], bytes([f["sec"]]), f["ct"], f["mac"])
        return {k: B(v) if isinstance(v, bytes) else v for k, v in f.items()}, [B(x)] if x is not None else []
    def run(self, ops, rng):
        api = self.api; out = []; last = None
        for op in ops:
            o = op[0]; self.note("%r of %r" % (op, ops)); oom = rng.randrange(1, 6) if rng.random() < .05 else 0
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if o == "check": arm(); r = api.call("nostr_ncryptsec_validate", op[1]); m = dis(); out.append(dict(o=o, t=B(op[1]), r=r, oom=m))
            elif o == "seal":
                _, k, pw, logn, size = op; buf = ctypes.create_string_buffer(b"\xee" * max(1, size), max(1, size)); mode = "ok" if rng.random() < .85 else "dead"
                if mode == "dead": api.rng_fail(rng.choice((-1, 1, 2)))
                sk = ctypes.create_string_buffer(k, 32); arm(); r = api.call("nostr_ncryptsec_encrypt", sk, pw, ctypes.c_uint8(logn), buf, ctypes.c_size_t(size)); m = dis(); api.rng_fail(0)
                t = buf.raw.split(b"\0")[0] if r == 0 else b""; f, x = self.oracle(t, pw) if r == 0 else ([], [])
                out.append(dict(o=o, key=B(k), pw=B(pw), logn=logn, size=size, rng=mode, r=r, t=B(t), f=f, open=x, oom=m))
                last = (t, k, pw) if r == 0 else None
            elif o == "foreign":
                _, k, pw, logn, sec = op; salt = bytes(rng.randrange(256) for _ in range(16)); nonce = bytes(rng.randrange(256) for _ in range(24))
                last = (self.text(rng, logn=logn, salt=salt, nonce=nonce, sec=sec, body=hd.xseal(self.key(pw, salt, logn), nonce, bytes([sec]), k)), k, pw)
            elif o == "open":
                if not last: continue
                t, k, pw = last
                if op[1] == "password": pw = rng.choice((pw[:-1], pw + b"x", pw.swapcase(), pw[::-1], pw + b" ", b"x", pw[:64], bytes([pw[0] ^ 1]) + pw[1:])).replace(b"\0", b"") 
                elif op[1] == "altered":
                    b = bytearray(dec(t)); x = rng.random(); i = rng.choice((1,) if x < .1 else range(2, 18) if x < .2 else range(18, 42) if x < .4 else (42,) if x < .55 else range(43, 75) if x < .75 else range(75, 91))
                    b[i] = (b[i] + 1) % 3 if i == 42 else 33 - b[i] if i == 1 else b[i] ^ (1 << rng.randrange(8)); t = enc(H, bytes(b))
                out.append(self.unseal(t, pw, arm, dis, k))
            else: out.append(self.unseal(op[1], op[2], arm, dis, b""))
        return {"ops": out}
    def unseal(self, t, pw, arm, dis, k):
        api = self.api; f, x = self.oracle(t, pw); kb = ctypes.create_string_buffer(b"\xc3" * 32, 32); arm(); r = api.call("nostr_ncryptsec_decrypt", t, pw, kb); m = dis()
        return dict(o="unseal", t=B(t), pw=B(pw), r=r, key=B(kb.raw[:32]) if r == 0 else [], kept=kb.raw[:32] in (b"\xc3" * 32, bytes(32)), f=f, open=x, oom=m)
