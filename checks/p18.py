import ctypes, re
from vf.framework import Check
from vf import gen as G, jsongen as J
from vf.api import P, B

class Esc(bytes): "a relay URL the document writes with \\u escapes"
class CHECK(Check):
    id = "P18"
    variants = ["ossl"]
    trace = "T_Nip05"
    mc = [("MC_Nip05", "MC_Nip05.cfg", {"workers": 3})]
    gen = [("MC_Nip05", "Gen_Nip05.cfg", {})]
    assumptions = ["names and keys in documents are written without unnecessary escapes; a relay URL written with \\u escapes may be left out of the answer but never changed; the document is a JSON object or any verdict is allowed (no crash)"]

    def behaviours(self, api, rng, w, n, gen):
        self.cb = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p, ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_size_t), ctypes.c_void_p)(self.http)
        rng.shuffle(gen); api.call("nostr_init")
        for g in gen[:self.scale(150, 4000)]:
            ops = []
            for x in g:
                if x["o"] == "serve":
                    d = x["doc"]; f = lambda m, fn: None if not m else ("other" if not m[0]["obj"] else [fn(e) for e in m[0]["e"]])
                    ops.append(("serve", f(d["names"], lambda e: (bytes(e["k"]), bytes(e["v"]) if e["str"] else 5)), f(d["relays"], lambda e: (bytes(e["k"]), [bytes(u) for u in e["urls"]]))))
                else: ops.append(("verify", bytes(x["id"]), bytes(x["expected"]), True, 0))
            yield self.run(ops, rng)
        for _ in range(self.scale(150, 5000)): yield self.run(self.rand(rng), rng)
    NAMES = [b"bob", b"Bob", b"_", b"alice", b"bo", b"bobb", b"b.o-b_1", b"names", b"relays"]
    def name(self, rng):
        r = rng.random()
        if r < .8: return rng.choice(self.NAMES)
        if r < .9: return bytes(rng.choice(b"abcXYZ019-_.") for _ in range(rng.choice((1, 2, 63, 64, 65, 70))))
        return rng.choice((b"", b"a b", b"a+b", b'a"b', b"a\\b", b"\xc3\xa9", b"a@b", b"a:b", b"{", b"b,"))
    def key(self, rng): 
        r = rng.random()
        if r < .55: return rng.choice(self.keys)
        if r < .7: return rng.choice(self.keys).upper()
        if r < .8: k = bytearray(rng.choice(self.keys)); k[rng.choice((0, 63, rng.randrange(64)))] = rng.choice(b"gGzx/:@` "); return bytes(k)
        return rng.choice((b"", self.keys[0][:63], self.keys[0] + b"a", self.keys[0][:32], b"0x" + self.keys[0][:62]))
    def url(self, rng):
        r = rng.random()
        if r < .07: return Esc(rng.choice((b"wss://relay.example", b"ws://a", b"wss://a/b", b"http://x")))
        r = rng.random()
        if r < .6: return rng.choice((b"wss://relay.example", b"ws://a", b"wss://[::1]:8080/x", b"wss://a/b?c=d,e", b"wss://", b"ws://", b"wss://a]b", b"wss://{a}", b'wss://q"x', b"wss://b\\c", b"wss://b\\\\", b"wss://\\", b'wss://\\"'))
        if r < .8: return rng.choice((b"", b"x", b"http://a", b"https://relay", b"wss:/a", b" wss://a", b"WSS://a", b"wss", b"ws:/a", b"[wss://a]"))
        return b"wss://" + re.sub(rb"\\+u", b"u", bytes(c for c in G.text(rng, 100) if 32 <= c < 127))
    def rand(self, rng):
        self.keys = [G.hexs(rng, 64) for _ in range(3)]; ops = []
        if rng.random() < .1: self.keys[1] = self.keys[0][:63] + (b"a" if self.keys[0][63:] != b"a" else b"b")
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            r = rng.random()
            if r < .9:
                nm = [(self.name(rng), self.key(rng) if rng.random() < .93 else rng.choice((5, None, True, [b"bob"], {b"bob": self.keys[1]}, {}))) for _ in range(rng.randrange(0, 7))]
                if rng.random() < .85:   # usually no duplicate names
                    nm = list({k: (k, v) for k, v in nm}.values())
                rl = [(rng.choice(self.keys) if rng.random() < .85 else self.name(rng), [self.url(rng) for _ in range(rng.choice((0, 1, 2, 3, 5, 20)))]) for _ in range(rng.randrange(0, 4))]
                if r < .06:      # a name whose key has about as many relays as an answer may hold
                    nm = [(b"bob", self.keys[0])] + [x for x in nm if x[0] != b"bob"]; nu = rng.choice((99, 100, 101, 101, 102, 130)); rl = [(self.keys[0], [b"wss://r%d" % i if rng.random() < .97 else self.url(rng) for i in range(nu)])] + rl[:1]
                rl = list({k: (k, v) for k, v in rl}.values())
                ops.append(("serve", "other" if .06 < r < .09 else None if .09 < r < .13 else nm, "other" if .13 < r < .16 else None if .16 < r < .26 else rl))
            else: ops.append(("junk",))
            for _ in range(rng.choice((2, 4, 6))):
                r = rng.random()
                if r < .4: ops.append(("look", self.name(rng), rng.random() < .8))
                elif r < .7: ops.append(("verify", self.ident(rng), self.key(rng), rng.random() < .8, rng.choice((0,) * 12 + (7, 10, 9))))
                elif r < .85: ops.append(("parse", self.ident(rng), rng.choice((65, 64, 300, 2, 3, 4, 5)), rng.choice((257, 300, 256, 4, 8, 9, 10, 20))))
                else: ops.append(("url", self.name(rng) if rng.random() < .8 else b"n" * rng.choice((64, 65)), self.dom(rng) if rng.random() < .9 else b"d" * rng.choice((256, 257)), rng.choice((-1, 0, 1, 0, 50))))
        return ops
    def dom(self, rng):
        r = rng.random()
        if r < .75: return rng.choice((b"example.com", b"Example.COM", b"a.b", b"sub.domain-1.example"))
        if r < .85: return b"a" * rng.choice((250, 252, 253, 254, 255)) + b".co"
        return rng.choice((b"", b".", b"a", b"a.", b".a", b"a..b", b"a_b.c", b"a.b:80", b"a.b/c", b"a@b.c", b"a b.c", b"..", b"\xc3\xa9.c"))
    def ident(self, rng):
        r = rng.random()
        if r < .93: return self.name(rng) + b"@" + self.dom(rng)
        return rng.choice((b"", b"bob", b"@", b"bob@@a.b", b"@a.b", b"a.b"))
    def doc(self, nm, rl, rng):
        st = lambda v: v.decode("utf8") if isinstance(v, bytes) else v
        body = []; s0 = lambda s, sl=False: J.Raw('"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("/", "\\/" if sl else "/") + '"')
        sl = rng.random() < .3
        def esc(u): i = rng.randrange(len(u)); return J.Raw('"' + "".join("\\u%04x" % c if j == i or rng.random() < .1 else chr(c) for j, c in enumerate(u)) + '"')
        def val(v):
            if isinstance(v, bytes): return s0(v.decode("utf8"))
            if isinstance(v, list): return [val(x) for x in v]
            if isinstance(v, dict): return obj([(k, val(x)) for k, x in v.items()])
            return v
        def obj(its): return J.Raw(J.ws(rng) + "{" + J.ws(rng) + ",".join(J.ws(rng) + s0(st(k)) + J.ws(rng) + ":" + J.ws(rng) + J.render(v, rng, 0) + J.ws(rng) for k, v in its) + "}" + J.ws(rng))
        other = lambda: rng.choice((5, None, [val(b"bob"), val(self.k0)], val(b"bob"), True))
        if nm is not None: body.append((b"names", other() if nm == "other" else obj([(k, val(v)) for k, v in nm])))
        if rl is not None: body.append((b"relays", other() if rl == "other" else obj([(k, [esc(u) if isinstance(u, Esc) else s0(u.decode("utf8"), sl) for u in us]) for k, us in rl])))
        k1 = self.k0
        for _ in range(rng.choice((0, 0, 1, 2))):
            body.append((rng.choice((b"x", b"name", b"Names", b"meta", b"Relays", b"bob", b'q"')), rng.choice((lambda: obj([(b"names", obj([(b"bob", val(k1))]))]), lambda: obj([(b"bob", val(k1)), (b"relays", obj([(k1, [val(b"wss://evil")])]))]), lambda: val(b'"names":{"bob":"%s"}' % k1), lambda: [obj([(b"names", 1)]), val(b"names")], lambda: val(b"names"), lambda: val(b"}{"), lambda: val(b"a\\"), lambda: J.Raw("-1.5e3"), lambda: [[val(b"]")], obj([])], lambda: J.Raw("null")))()))
        rng.shuffle(body)
        return str(obj(body)).encode("utf8")
    def http(self, url, resp, n, ud):
        self.asked.append(url); a, err, pad = self.answer
        if a is not None:
            m = self.api.lib.vf_malloc; m.restype = ctypes.c_void_p; q = m(ctypes.c_size_t(max(1, len(a) + len(pad)))); ctypes.memmove(q, a + pad, len(a) + len(pad)); resp[0] = q; n[0] = len(a)
        return err
    def relays(self, rp, rc):
        out = [B(x) for x in self.api.strs(rp.value, rc.value)] if rp.value and rc.value else []
        if rp.value: self.api.call("nostr_nip05_free_relays", rp, rc, res=None)
        return out
    def run(self, ops, rng):
        api = self.api; out = []; cur = b""; self.k0 = self.keys[0] if hasattr(self, "keys") else b"a" * 64
        for op in ops:
            n = op[0]; self.note("%r" % (op,)); z = lambda b: b.replace(b"\0", b"")
            oom = rng.randrange(1, 8) if rng.random() < .06 else 0
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if n == "serve":
                nm, rl = op[1:]; cur = self.doc(nm, rl, rng); e = lambda m, fn: [] if m is None else [dict(obj=False, e=[])] if m == "other" else [dict(obj=True, e=[fn(x) for x in m])]
                out.append(dict(o=n, doc=dict(ok=True, names=e(nm, lambda x: dict(k=B(x[0]), str=isinstance(x[1], bytes), v=B(x[1]) if isinstance(x[1], bytes) else [])), relays=e(rl, lambda x: dict(k=B(x[0]), urls=[B(u) for u in x[1]], esc=[isinstance(u, Esc) for u in x[1]])))))
            elif n == "junk":
                cur = self.doc([(b"bob", self.k0)], [(self.k0, [b"wss://a"])], rng); k = rng.randrange(len(cur)); c = rng.random()
                if c < .6: cur = cur[:k]
                else: cur = cur[:k] + rng.choice((b'"', b"\\", b"{", b"}", b"[", b"]", b",", b":", b"\\u00")) + cur[k + rng.randrange(2):]
                if rng.random() < .1: cur = rng.choice((b"", b"{", b'"', b'{"', b'{"names', b'{"names":', b'{"names":{', b'{"names":{"bob":"', b"[]", b"5", b'{"names":{"bob":' + b"[" * 500))
                out.append(dict(o="serve", doc=dict(ok=False, names=[], relays=[])))
            elif n == "look":
                q, want = z(op[1]), op[2]; pk = ctypes.create_string_buffer(b"\xaa" * 65, 65); rp = P(1234 if want else 0); rc = ctypes.c_size_t(77)
                arm(); r = api.call("nostr_nip05_parse_response", ctypes.create_string_buffer(cur), q, pk, ctypes.c_size_t(65), ctypes.byref(rp) if want else None, ctypes.byref(rc) if want else None); m = dis()
                if r == 0 and pk.raw[64:] != b"\0": out.append(dict(o="unterminated key")); break
                out.append(dict(o=n, name=B(q), want=want, r=r, pk=B(pk.raw[:64]) if r == 0 else [], relays=self.relays(rp, rc) if want else [], oom=m))
            elif n == "verify":
                _, idn, exp, want, err = op; idn, exp = z(idn), z(exp); rp = P(1234 if want else 0); rc = ctypes.c_size_t(77)
                nothing = rng.random() < .03; pad = b"" if rng.random() < .5 else rng.choice((b"\0", b'","bob":"' + self.k0 + b'"}}', b"}" * 20))
                big = 0 if rng.random() < .97 or not cur else rng.choice((1 << 20, (1 << 20) - 1, (1 << 20) + 1))   # the longest document a client takes is 1 MiB
                self.asked = []; self.answer = (None if nothing and rng.random() < .5 else b"" if nothing else cur + b" " * (big - len(cur)), err, pad)
                arm(); r = api.call("nostr_nip05_verify", idn, exp, self.cb, None, ctypes.byref(rp) if want else None, ctypes.byref(rc) if want else None); m = dis()
                out.append(dict(o=n, id=B(idn), expected=B(exp), want=want, http=err, nothing=nothing or cur == b"", asked=[B(u) for u in self.asked], r=r, relays=self.relays(rp, rc) if want else [], oom=m or big > 1 << 20))
            elif n == "parse":
                _, idn, ns, ds = op; idn = z(idn); a = ctypes.create_string_buffer(b"\xaa" * ns, ns); b = ctypes.create_string_buffer(b"\xaa" * ds, ds)
                r = api.call("nostr_nip05_parse", idn, a, ctypes.c_size_t(ns), b, ctypes.c_size_t(ds))
                out.append(dict(o=n, id=B(idn), nsize=ns, dsize=ds, r=r, name=B(a.value) if r == 0 else [], domain=B(b.value) if r == 0 else []))
            elif n == "url":
                _, nm, dm, extra = op; nm, dm = z(nm), z(dm); sz = 38 + len(nm) + len(dm) + extra; u = ctypes.create_string_buffer(b"\xaa" * sz, sz)
                r = api.call("nostr_nip05_build_url", nm, dm, u, ctypes.c_size_t(sz)); out.append(dict(o=n, name=B(nm), domain=B(dm), size=sz, r=r, url=B(u.value) if r == 0 else []))
        return {"ops": out}
