import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
T = "nostr_keypair"

class CHECK(Check):
    id = "P21"
    variants = ["ossl", "mbed", "full"]
    trace = "T_Keys"
    mc = [("MC_Keys", "MC_Keys.cfg", {"workers": 3})]
    gen = [("MC_Keys", "Gen_Keys.cfg", {})]
    assumptions = ["the curve oracle is libsecp256k1 called independently of the library"]

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init"); rng.shuffle(gen); self.seen = set(); self.inits(api)
        for g in gen[:self.scale(150, 4000)]:
            yield self.run([("init", 1), ("init", 2), ("init", 3)] + [self.op(x) for x in g], rng)
        for _ in range(self.scale(200, 5000)): yield self.run(self.rand(rng), rng)
    def inits(self, api): self.kp = [api.new(T, 0xA5) for _ in range(3)]
    def op(self, x):
        o, i = x["o"], x["i"]
        if o == "generate": return (o, i, x["rng"])
        if o in ("fromkey",): return (o, i, bytes(x["key"]))
        if o == "fromhex": return (o, i, bytes(x["text"]))
        if o == "overwrite": return (o, i, x["private"], bytes(x["key"]))
        return (o, i)
    def key(self, rng):
        r = rng.random()
        if r < .7: return G.seckey(rng)
        if r < .9: return G.badkey(rng)
        return (G.N_ORDER + rng.choice((-1, 0, 1, 2, 1 << 64))).to_bytes(32, "big")
    def text(self, rng):
        k = self.key(rng).hex().encode(); r = rng.random()
        if r < .5: return k
        if r < .65: return k.upper()
        if r < .75: return bytes(c - 32 if 97 <= c <= 102 and rng.random() < .5 else c for c in k)
        i = rng.randrange(64)
        return rng.choice((b"", k[:-1], k + b"0", k[:-2], k + b"00", k[:i] + rng.choice((b"g", b"G", b" ", b"-", b"+", b"x", b"/", b":", b"@", b"`", b"\n")) + k[i + 1:], b"0x" + k[:62], b"0x" + k, b" " + k[:63], k + b"\n", b"nsec1" + k[:59]))
    def rand(self, rng):
        ops = [("init", i + 1) for i in range(3) if rng.random() < .97 or True]
        for _ in range(rng.choice((3, 8, 16))):
            i = rng.randrange(1, 4); r = rng.random()
            ops.append(("generate", i, rng.choice(("ok", "ok", "dead", "bad", "late"))) if r < .17 else ("fromhex", i, self.text(rng)) if r < .34 else ("fromkey", i, self.key(rng)) if r < .48
                       else ("export", i, rng.random() < .5, rng.choice((65, 65, 65, 66, 100, 64, 63, 1, 0))) if r < .6 else ("access", i) if r < .7 else ("validate", i) if r < .8
                       else ("overwrite", i, rng.random() < .5, rng.choice((G.seckey(rng), G.badkey(rng), None, None))) if r < .85 else ("destroy", i) if r < .9 else ("init", i) if r < .92
                       else ("hexkey", self.text(rng), rng.random() < .5) if r < .95 else ("keyhex", self.key(rng), rng.random() < .5, rng.choice((65, 80, 64, 32, 0))) if r < .98 else ("random", rng.choice((1, 32, 33, 1024, 1025, 5000)), rng.choice(("ok", "dead"))))
        return ops
    def run(self, ops, rng):
        api = self.api; out = []; raw = lambda i: api.rd(ctypes.addressof(self.kp[i - 1]), api.size(T)); A = lambda i: ctypes.addressof(self.kp[i - 1]); usable = {}
        curve = lambda sk: B(api.o_pub(sk) or b"")
        def post(i):   # what the object answers afterwards
            o = []
            for f in ("private", "public"):
                b = ctypes.create_string_buffer(b"\xaa" * 65, 65); r = api.call("nostr_keypair_export_%s_hex" % f, P(A(i)), b, ctypes.c_size_t(65)); o.append(dict(o="export", i=i, private=f == "private", size=65, r=r, text=B(b.value) if r == 0 else []))
            return o
        def rngset(m):
            if m == "dead": api.rng_fail(-1)
            elif m == "once": api.rng_fail(1)
            elif m == "bad": api.lib.vf_rng_script(rng.choice((bytes(32), b"\xff" * 32, G.N_ORDER.to_bytes(32, "big"))), ctypes.c_size_t(32))
            elif m == "late": api.lib.vf_rng_script(rng.choice((bytes(32), b"\xff" * 32, G.N_ORDER.to_bytes(32, "big"))) + G.seckey(rng), ctypes.c_size_t(64))
        for op in ops:
            n = op[0]; i = op[1]; self.note("%r of %r" % (op, ops)); z = lambda b: b.replace(b"\0", b"")
            if n == "init": out.append(dict(o=n, i=i, r=api.call("nostr_keypair_init", self.kp[i - 1])))
            elif n == "generate":
                m = op[2]; rngset("once" if m == "dead" and rng.random() < .4 else m); direct = rng.random() < .3
                if direct:   # nostr_key_generate, then make a key pair of it
                    a = ctypes.create_string_buffer(b"\x01" * 32, 32); b = ctypes.create_string_buffer(32); r = api.call("nostr_key_generate", a, b)
                    if r == 0 and api.call("nostr_keypair_from_private_key", self.kp[i - 1], a) == 0: api.set(A(i), T, "pubkey", b.raw[:32])
                    elif r: api.call("nostr_keypair_init", self.kp[i - 1])
                else: r = api.call("nostr_keypair_generate", self.kp[i - 1])
                api.lib.vf_rng_real(); api.rng_fail(0); sk = api.getb(A(i), T, "privkey"); pk = api.getb(A(i), T, "pubkey")
                out.append(dict(o=n, i=i, rng=m, r=r, sk=B(sk), pk=B(pk), curve=curve(sk), fresh=m != "ok" or sk not in self.seen)); out += post(i); (self.seen.add(sk) if m == "ok" else None)
            elif n == "fromhex":
                t = z(op[2]); k = bytes.fromhex(t.decode()) if len(t) == 64 and all(c in b"0123456789abcdefABCDEF" for c in t) else bytes(32)
                out.append(dict(o=n, i=i, text=B(t), curve=curve(k), r=api.call("nostr_keypair_from_private_hex", self.kp[i - 1], t))); out += post(i)
            elif n == "fromkey":
                k = op[2]; own = rng.random() < .15
                if own: api.set(A(i), T, "privkey", k)
                out.append(dict(o=n, i=i, key=B(k), curve=curve(k), r=api.call("nostr_keypair_from_private_key", self.kp[i - 1], P(A(i) + api.off(T, "privkey")) if own else ctypes.create_string_buffer(k, 32)))); out += post(i)
            elif n == "export":
                _, i, pr, sz = op; b = ctypes.create_string_buffer(b"\xaa" * max(1, sz), max(1, sz)); r = api.call("nostr_keypair_export_%s_hex" % ("private" if pr else "public"), self.kp[i - 1], b, ctypes.c_size_t(sz))
                out.append(dict(o=n, i=i, private=pr, size=sz, r=r, text=B(b.value) if r == 0 else []))
            elif n == "access":
                sp = api.ptr("nostr_keypair_private_key", self.kp[i - 1]); pp = api.ptr("nostr_keypair_public_key", self.kp[i - 1])
                out.append(dict(o=n, i=i, sk=[B(api.rd(sp, 32))] if sp else [], pk=[B(api.rd(pp, 32))] if pp else []))
            elif n == "validate": out.append(dict(o=n, i=i, r=api.call("nostr_keypair_validate", self.kp[i - 1]), curve=curve(api.getb(A(i), T, "privkey"))))
            elif n == "overwrite":
                if not api.get(A(i), T, "initialized"): continue
                f = "privkey" if op[2] else "pubkey"; k = op[3]
                if k is None: k = bytearray(api.getb(A(i), T, f)); k[rng.randrange(32)] ^= 1 << rng.randrange(8); k = bytes(k)
                api.set(A(i), T, f, k); out.append(dict(o=n, i=i, private=op[2], key=B(k))); out.append(dict(o="validate", i=i, r=api.call("nostr_keypair_validate", self.kp[i - 1]), curve=curve(api.getb(A(i), T, "privkey"))))
            elif n == "destroy":
                api.call("nostr_keypair_destroy", self.kp[i - 1], res=None); out.append(dict(o=n, i=i, wiped=api.getb(A(i), T, "privkey") == bytes(32))); out += post(i)
            elif n == "hexkey":
                t = z(op[1]); b = ctypes.create_string_buffer(32); r = api.call("nostr_privkey_from_hex" if op[2] else "nostr_key_from_hex", t, b); out.append(dict(o=n, text=B(t), r=r, key=B(b.raw[:32])))
            elif n == "keyhex":
                _, k, pr, sz = op; b = ctypes.create_string_buffer(b"\xaa" * max(1, sz), max(1, sz)); r = api.call("nostr_privkey_to_hex" if pr else "nostr_key_to_hex", ctypes.create_string_buffer(k, 32), b, ctypes.c_size_t(sz)); out.append(dict(o=n, key=B(k), size=sz, r=r, text=B(b.value) if r == 0 else []))
            else:
                _, ln, m = op; b = ctypes.create_string_buffer(ln); rngset("once" if m == "dead" and rng.random() < .4 else m); r = api.call("nostr_random_bytes", b, ctypes.c_size_t(ln)); api.lib.vf_rng_real(); api.rng_fail(0)
                c = ctypes.create_string_buffer(ln); api.call("nostr_random_bytes", c, ctypes.c_size_t(ln))
                out.append(dict(o=n, rng=m, r=r, filled=ln < 32 or (b.raw[:ln] != c.raw[:ln] and b.raw[ln - 32:ln] != bytes(32) and b.raw[:32] != bytes(32) and b.raw[ln // 2 - 16:ln // 2 + 16] != bytes(32))))
        return {"ops": out}
