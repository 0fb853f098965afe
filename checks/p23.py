import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
CH = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"
NAMES = [b"npub", b"nsec", b"note", b"nprofile", b"nevent", b"naddr", b"nrelay"]
ST = {b"nprofile": "nostr_nprofile", b"nevent": "nostr_nevent", b"naddr": "nostr_naddr", b"nrelay": "nostr_nrelay"}
def poly(v):
    c = 1
    for x in v:
        t = c >> 25; c = ((c & 0x1ffffff) << 5) ^ x
        for j, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)): c ^= g if t >> j & 1 else 0
    return c
def enc5(h, g, k=1):
    p = poly([c >> 5 for c in h] + [0] + [c & 31 for c in h] + g + [0] * 6) ^ k
    return h + b"1" + bytes(CH[x] for x in g + [p >> 5 * (5 - i) & 31 for i in range(6)])
def enc(h, b, k=1):
    n = int.from_bytes(b, "big"); m = (8 * len(b) + 4) // 5; n <<= 5 * m - 8 * len(b)
    return enc5(h, [n >> 5 * (m - 1 - i) & 31 for i in range(m)], k)
def tlv(t, v): return bytes((t, len(v))) + v

class CHECK(Check):
    id = "P23"
    variants = ["ossl"]
    trace = "T_Entities"
    mc = [("MC_Entities", "MC_Entities_damage.cfg", {"workers": 3}), ("MC_Entities", "MC_Entities_write.cfg", {"workers": 3})]
    gen = [("MC_Entities", "Gen_Entities.cfg", {})]
    assumptions = ["texts without NUL", "relay arrays hold at most NOSTR_URI_MAX_RELAYS entries"]

    def behaviours(self, api, rng, w, n, gen):
        rng.shuffle(gen)
        k = self.scale(100, 4000)
        for i in range(0, min(len(gen), 8 * k), 8): yield self.run([("read", bytes(g["h"]), bytes(g["t"]), rng.random() < .3) for g in gen[i:i + 8]], rng)
        for _ in range(self.scale(130, 4000)): yield self.run(self.rand(rng), rng)
    def url(self, rng):
        r = rng.random()
        if r < .6: return rng.choice((b"wss://", b"ws://")) + bytes(rng.choice(b"abcxyz0189.-/:?=&%_~") for _ in range(rng.choice((1, 2, 8, 20, 60))))
        if r < .78: n = rng.choice((0, 1, 242, 248, 249, 250, 251, 252)); return rng.choice((b"wss://", b"ws://")) + b"h" * n
        return rng.choice((b"", b"ws://", b"wss://", b"wss:/", b"http://relay.example", b"WSS://relay.example", b"wss://a b", b"wss://\x7f", b"wss://\xc3\xa9", b"wss://a\t", b" wss://a", b"wss://~!", b"relay.example", b"x" * 255, b"x" * 300))
    def relays(self, rng): return [self.url(rng) for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 5, 15, 16) if rng.random() < .6 else (0, 1, 2)))] if rng.random() < .95 else [b"wss://" + b"h" * 249] * 16
    def key(self, rng): return bytes(rng.randrange(256) for _ in range(32)) if rng.random() < .8 else rng.choice((bytes(32), b"\xff" * 32, b"\x00" * 31 + b"\x01", b"\x80" + bytes(31)))
    def ident(self, rng):
        r = rng.random()
        return b"" if r < .2 else G.text(rng, 60) if r < .7 else b"d" * rng.choice((254, 255, 253, 128, 127))
    def value(self, h, rng):
        if h in ST:
            sp = self.ident(rng)[:255] if h == b"naddr" else (self.url(rng)[:255]) if h == b"nrelay" else self.key(rng)
            a = self.key(rng) if h == b"naddr" or (h == b"nevent" and rng.random() < .5) else None
            k = G.integer(rng, 0, 2 ** 32 - 1) if h == b"naddr" or (h == b"nevent" and rng.random() < .5) else None
            return (sp, [] if h == b"nrelay" else self.relays(rng), a, k)
        return (self.key(rng), [], None, None)
    def bytes_of(self, h, v, rng):
        sp, rel, a, k = v
        if h not in ST: return sp
        if h in ST and rng.random() < .08: a = bytes(rng.randrange(256) for _ in range(rng.choice((0, 4, 31, 33, 33, 64, 255))))   # an author of the wrong length
        if h in ST and rng.random() < .03: sp = (sp + bytes(rng.randrange(256) for _ in range(rng.choice((1, 32)))))[:255]
        p = [tlv(0, sp)] + [tlv(1, u) for u in rel if len(u) < 256] + ([tlv(2, a)] if a is not None else []) + ([tlv(3, k.to_bytes(4, "big"))] if k is not None else [])
        r = rng.random()
        if r < .3: rng.shuffle(p)
        if r < .25: p.insert(rng.randrange(len(p) + 1), tlv(rng.choice((4, 5, 200, 255, 1)), bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 4, 32, 255))))))
        if .25 < r < .35 and len(p) > 1: p.pop(rng.randrange(len(p)))
        if .35 < r < .4: p += [tlv(1, b"wss://more%d" % i) for i in range(rng.choice((1, 15, 16, 17, 30)))]
        if .4 < r < .44: p.append(rng.choice(p))
        if .44 < r < .47: p.append(bytes((rng.randrange(5), rng.choice((1, 2, 32, 255)))))
        if .47 < r < .5: return b"".join(p)[:rng.randrange(1, len(b"".join(p)) + 1)]
        if .5 < r < .53: p.append(tlv(rng.choice((2, 3)), bytes(rng.choice((0, 3, 5, 31, 33)))))
        return b"".join(p)
    def damage(self, t, rng):
        r = rng.random(); i = rng.randrange(len(t)) if t else 0
        if not t: return b"1"
        if r < .35: return t[:i] + bytes([rng.choice(CH)]) + t[i + 1:]
        if r < .5: j = rng.randrange(len(t)); u = bytearray(t); u[i], u[j] = u[j], u[i]; return bytes(u)
        if r < .6: return t[:i] + t[i + 1:]
        if r < .7: return t[:i] + bytes([rng.choice(CH + b"1")]) + t[i:]
        if r < .75: return t + rng.choice((b"q", b" ", b"\n", b"qqqqqq", b"1", b"?x"))
        if r < .8: return t.upper()
        if r < .85: return t[:i] + t[i:i + 1].upper() + t[i + 1:]
        if r < .93: return t[:i] + bytes([rng.choice(b"bio1 -_\xff\x01BIO0")]) + t[i + 1:]
        return t[:i]
    def text(self, h, rng):
        v = self.value(h, rng); b = self.bytes_of(h, v, rng); r = rng.random()
        if r < .06 and h not in ST: b = rng.choice((b[:31], b + b"\0", b"", b[:16], b + b[:1]))
        if r > .95: t = enc(h, b, rng.choice((0x2bc830a3, 0, 2)))
        elif r > .9:
            n = int.from_bytes(b, "big"); m = (8 * len(b) + 4) // 5; n <<= 5 * m - 8 * len(b); g = [n >> 5 * (m - 1 - i) & 31 for i in range(m)]
            t = enc5(h, rng.choice((g + [0], g[:-1] + [g[-1] ^ 1] if g else g, g + [0, 0], g + [rng.randrange(32)])))
        else: t = enc(h, b)
        if rng.random() < .3: t = self.damage(t, rng)
        return t.replace(b"\0", b"")
    def rand(self, rng):
        ops = []
        for _ in range(rng.choice((2, 5, 9))):
            h = rng.choice(NAMES); r = rng.random(); uri = rng.random() < .4
            if r < .05:      # as long as bech32 strings get, with short prefixes; prefixes that hold the separator
                q = rng.choice((b"npub", b"nsec", b"note", b"a", b"ab", b"abc")); n = 90 - len(q) - 1 - rng.choice((0, 0, 0, 1, 2, 3, -1)); g = [rng.randrange(32) for _ in range(n - 6)]
                t = enc5(q, g) if rng.random() < .6 else q + b"1" + bytes(rng.choice(b"qpzry9x8gf2tvdw0s3jn54khce6mua7l") for _ in range(n))
                ops.append(("read", q, t, uri) if q in NAMES else ("readkey", t))
            elif r < .08: q = rng.choice(NAMES); ops.append(("read", q, enc(q + b"1" + rng.choice((b"", b"q", b"1", b"xyz", q)), self.key(rng)), rng.random() < .8))
            elif r < .4: ops.append(("write", h, self.value(h, rng), uri, rng.choice((None, None, None, None, 0, -1, 1, -7, -20, "tiny"))))
            elif r < .8: ops.append(("read", h, self.text(h if rng.random() < .9 else rng.choice(NAMES), rng), uri))
            elif r < .9:
                p = rng.choice((b"npub", b"note", b"nsec", b"x", b"a1b", b"1", b"", b"p" * rng.choice((30, 31, 32, 40, 41, 42, 43, 83, 200)), b"npub1", b"ab\x7e", b"~", b"AB", b"h h"))
                ops.append(("writekey", p, self.key(rng), rng.choice((None, None, None, -1, 1, 0, -30))))
            else:
                p = rng.choice((b"npub", b"npub", b"a", b"q1q", b"p" * rng.choice((25, 31, 32)), b"npub1", b"x" * 40)); t = enc(p, rng.choice((self.key(rng), self.key(rng), self.key(rng)[:31], self.key(rng) + b"\x01", b"")))
                ops.append(("readkey", (self.damage(t, rng) if rng.random() < .5 else t).replace(b"\0", b"")))
        return ops
    # --- access to the C structures
    def fill(self, h, at, v, keep):
        api = self.api; sp, rel, a, k = v; T = ST.get(h)
        if not T: api.wr(at, sp); return
        f = {b"nprofile": "pubkey", b"nevent": "id", b"naddr": "identifier", b"nrelay": "url"}[h]
        n = api.lay[T][f][1]; api.set(at, T, f, sp + b"\0" * (n - len(sp)))
        if h == b"nrelay": return
        bufs = [ctypes.create_string_buffer(u, len(u) + 1) for u in rel]; keep += bufs
        api.wr(api.addr(at, T, "relays"), b"".join(ctypes.addressof(b).to_bytes(8, "little") for b in bufs)); api.set(at, T, "relay_count", len(rel))
        if h == b"nevent":
            api.set(at, T, "has_author", a is not None); api.set(at, T, "has_kind", k is not None)
            api.set(at, T, "author", a if a is not None else b"\x5a" * 32); api.set(at, T, "kind", k if k is not None else 77)
        if h == b"naddr": api.set(at, T, "pubkey", a); api.set(at, T, "kind", k)
    def show(self, h, at):
        api = self.api; T = ST.get(h); be = lambda k: B(k.to_bytes(4, "big"))
        if not T: return dict(special=B(api.rd(at, 32)), relays=[], author=[], kind=[])
        f = {b"nprofile": "pubkey", b"nevent": "id", b"naddr": "identifier", b"nrelay": "url"}[h]; sp = api.getb(at, T, f)
        if h in (b"naddr", b"nrelay"): sp = sp.split(b"\0")[0] if b"\0" in sp else sp + b"?unterminated"
        rel = [] if h == b"nrelay" else [B(x or b"") for x in api.strs(api.addr(at, T, "relays"), min(16, api.get(at, T, "relay_count")))]
        if h != b"nrelay" and api.get(at, T, "relay_count") > 16: rel.append([])
        a = [B(api.getb(at, T, "author"))] if h == b"nevent" and api.get(at, T, "has_author") else [B(api.getb(at, T, "pubkey"))] if h == b"naddr" else []
        k = [be(api.get(at, T, "kind"))] if (h == b"nevent" and api.get(at, T, "has_kind")) or h == b"naddr" else []
        return dict(special=B(sp), relays=rel, author=a, kind=k)
    def val(self, v): return dict(special=B(v[0]), relays=[B(u) for u in v[1]], author=[] if v[2] is None else [B(v[2])], kind=[] if v[3] is None else [B(v[3].to_bytes(4, "big"))])
    def room(self, h, v):
        n = 32 if h not in ST else (2 + len(v[0])) + sum(2 + len(u) for u in v[1] if len(u) < 256) + (34 if v[2] is not None else 0) + (6 if v[3] is not None else 0)
        return len(h) + 8 + (8 * n + 4) // 5
    def run(self, ops, rng):
        api = self.api; out = []; issued = []
        for op in ops:
            o = op[0]; self.note("%r of %r" % (op, ops)); oom = rng.randrange(1, 20) if rng.random() < .06 else 0; m = False; keep = []
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if o == "write":
                _, h, v, uri, d = op; v = (v[0].replace(b"\0", b"") if h in (b"naddr", b"nrelay") else v[0],) + tuple(v[1:])
                sz = (self.room(h, v) + 40 if d is None else rng.randrange(0, 14) if d == "tiny" else max(0, self.room(h, v) + d)) + (6 if uri else 0)
                buf = ctypes.create_string_buffer(b"\xee" * max(1, sz), max(1, sz))
                if uri:
                    u = api.new("nostr_uri"); api.set(ctypes.addressof(u), "nostr_uri", "type", NAMES.index(h)); at = api.addr(ctypes.addressof(u), "nostr_uri", "data"); self.fill(h, at, v, keep)
                    arm(); r = api.call("nostr_uri_encode", u, buf, ctypes.c_size_t(sz)); m = dis()
                else:
                    u = api.new(ST.get(h, "nostr_keypair")); at = ctypes.addressof(u); self.fill(h, at, v, keep); arm()
                    if h == b"npub": r = api.call("nostr_key_to_bech32", P(at), b"npub", buf, ctypes.c_size_t(sz))
                    else: r = api.call({b"nsec": "nostr_privkey_to_bech32", b"note": "nostr_event_id_to_bech32"}.get(h) or "nostr_%s_encode" % h.decode(), P(at), buf, ctypes.c_size_t(sz))
                    m = dis()
                t = buf.value if r == 0 and b"\0" in buf.raw else b""
                if r == 0: issued.append((h, t[6:] if uri else t))
                out.append(dict(o="writeuri" if uri else "write", h=B(h), v=self.val(v), size=sz, r=r, t=B(t), oom=m))
                if r == 0 and rng.random() < .8:   # read it back, as it is or damaged
                    t = t[6:] if uri else t
                    if rng.random() < .25: t = self.damage(t, rng).replace(b"\0", b"")
                    out.append(self.read(h, t, rng.random() < .4, 0, out, rng))
            elif o == "read": out.append(self.read(op[1], op[2], op[3], oom, out, rng))
            elif o == "writekey":
                _, p, k, d = op; sz = max(0, len(p) + 60 + (20 if d is None else d)); buf = ctypes.create_string_buffer(b"\xee" * max(1, sz), max(1, sz))
                arm(); r = api.call("nostr_key_to_bech32", ctypes.create_string_buffer(k, 32), p, buf, ctypes.c_size_t(sz)); m = dis()
                out.append(dict(o=o, h=B(p), v=B(k), size=sz, r=r, t=B(buf.value) if r == 0 else [], oom=m))
                if r == 0: out.append(self.readkey(buf.value, 0))
            else: out.append(self.readkey(op[1], oom))
        return {"ops": out}
    def readkey(self, t, oom):
        api = self.api; k = ctypes.create_string_buffer(b"\x33" * 32, 32)
        if oom: api.lib.vf_oom_arm(ctypes.c_long(oom))
        r = api.call("nostr_key_from_bech32", t, k); m = bool(oom and api.lib.vf_oom_disarm()); return dict(o="readkey", t=B(t), r=r, v=B(k.raw[:32]), oom=m)
    def read(self, h, t, uri, oom, out, rng):
        api = self.api; arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
        none = dict(special=[], relays=[], author=[], kind=[])
        if uri:
            x = rng.random(); full = (b"nostr:" if x < .9 else rng.choice((b"", b"nostr", b"Nostr:", b"nostr://", b" nostr:", b"web+nostr:"))) + t
            u = api.new("nostr_uri", 0x77); at = ctypes.addressof(u); arm(); r = api.call("nostr_uri_parse", full, u); m = dis(); ty = api.get(at, "nostr_uri", "type"); hh = NAMES[ty] if ty < 7 else b""
            d = api.addr(at, "nostr_uri", "data"); v = self.show(hh, d) if r == 0 and ty < 7 else dict(none, relays=self.show(hh, d)["relays"]) if hh in ST else none
            api.call("nostr_uri_free", u, res=None)
            if r == 0: out.append(dict(o="dispose", wiped=not any(api.getb(at, "nostr_uri", "data")))); out[-1], o2 = dict(o="readuri", t=B(full), h=B(hh), r=r, v=v, oom=m), out[-1]; return o2
            return dict(o="readuri", t=B(full), h=B(hh), r=r, v=v, oom=m)
        if h in ST:
            u = api.new(ST[h], 0x77); at = ctypes.addressof(u); arm(); r = api.call("nostr_%s_decode" % h.decode(), t, u); m = dis()
            v = self.show(h, at) if r == 0 else dict(none, relays=self.show(h, at)["relays"])
            if h != b"nrelay": api.call("nostr_%s_free" % h.decode(), u, res=None)
        else:
            u = ctypes.create_string_buffer(b"\x77" * 32, 32); at = ctypes.addressof(u); arm()
            r = api.call({b"npub": "nostr_key_from_bech32", b"nsec": "nostr_privkey_from_bech32", b"note": "nostr_event_id_from_bech32"}[h], t, u); m = dis()
            if h == b"npub": return dict(o="readkey", t=B(t), r=r, v=B(u.raw[:32]), oom=m)
            v = self.show(h, at) if r == 0 else none
        return dict(o="read", h=B(h), t=B(t), r=r, v=v, oom=m)
