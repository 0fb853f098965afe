import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B

class CHECK(Check):
    id = "P22"
    variants = ["ossl", "mbed", "full"]
    trace = "T_Ecdh"
    mc = [("MC_Ecdh", "MC_Ecdh.cfg", {"workers": 3})]
    gen = [("MC_Ecdh", "Gen_Ecdh.cfg", {})]
    assumptions = ["the x coordinate oracle is libsecp256k1 called independently of the library"]

    def behaviours(self, api, rng, w, n, gen):
        if rng.random() < .5: api.call("nostr_init")
        for g in gen[:self.scale(60, 700)]:
            k = [bytes(32)] + G.seckeys(rng, 4); yield self.run([(k[x["a"]], api.o_pub(k[x["b"]]) or bytes(32)) for x in g], rng)
        for _ in range(self.scale(120, 3000)):
            ks = G.seckeys(rng, rng.choice((2, 3))); ops = []
            if rng.random() < .3: ks.append((G.N_ORDER - int.from_bytes(ks[0], "big")).to_bytes(32, "big"))   # the same public key, other sign of y
            for _ in range(rng.choice((2, 6, 12))):
                a = rng.choice(ks) if rng.random() < .92 else G.badkey(rng); r = rng.random()
                b = api.o_pub(rng.choice(ks)) if r < .88 else rng.choice((bytes(32), b"\xff" * 32, bytes(rng.randrange(256) for _ in range(32)), (2 ** 256 - 2 ** 32 - 977).to_bytes(32, "big"), (5).to_bytes(32, "big")))
                ops.append((a, b))
            yield self.run(ops, rng)
    def run(self, ops, rng):
        api = self.api; out = []
        for a, b in ops:
            if rng.random() < .03: api.call("nostr_cleanup", res=None)   # the library starts itself again when used
            z = ctypes.create_string_buffer(b"\xaa" * 32, 32); sb = ctypes.create_string_buffer(a, 32); pb = ctypes.create_string_buffer(b, 32); self.note("%r" % ((a, b),))
            r = api.call("nostr_key_ecdh", sb, pb, z); ref = ctypes.create_string_buffer(32); ok = bool(api.lib.vo_ecdh_x(a, b, ref))
            if (sb.raw[:32], pb.raw[:32]) != (a, b): out.append(dict(o="inputs changed"))
            out.append(dict(o="ecdh", mine=B(api.o_pub(a) or b""), theirs=B(b), valid=ok, r=r, z=B(z.raw[:32]) if r == 0 else [], ref=B(ref.raw[:32])))
        return {"ops": out}
