import ctypes, json
from vf.framework import Check
from vf import gen as G, jsongen as J, seal as S
from vf.api import P, B
T = "nostr_list"; I = "nostr_list_item"; NOW = 1700000000
FN = dict(p="pubkey", e="event", t="hashtag", word="word", relay="relay", a="reference", group="group", emoji="emoji")

class CHECK(Check):
    id = "P17"
    workers = 9
    variants = ["ossl", "full", "fullmbed"]
    trace = "T_Lists"
    mc = [("MC_Lists", "MC_Lists.cfg", {"workers": 3})]
    gen = [("MC_Lists", "Gen_Lists.cfg", {})]
    assumptions = ["texts without NUL; sealing and opening (NIP-44) are P31's"]

    def behaviours(self, api, rng, w, n, gen):
        rng.shuffle(gen); api.time_set(NOW); api.call("nostr_init"); self.keys = G.seckeys(rng, 2)
        for g in gen[:self.scale(100, 4000)]:
            ops = [("create", g["kind"])]; opt = lambda x: bytes(x[0]) if x else None
            for x in g["ops"]:
                ops.append(("add", x["k"], bytes(x["value"]), opt(x["relay"]), opt(x["pet"]), x["private"]) if x["o"] == "add" else ("remove", x["i"]) if x["o"] == "remove" else ("set", x["f"], opt(x["v"])) if x["o"] == "set" else ("cycle", True))
            yield self.run(ops + [("cycle", True)], rng)
        for _ in range(self.scale(110, 3000)): yield self.run(self.rand(rng), rng)
        if w < self.scale(1, 4): yield self.run([("create", 30000)] + [("add", "t", b"%d" % i, None, None, False) for i in range(4098)] + [("remove", 1), ("add", "word", b"x", None, None, False), ("cycle", True)], rng, quiet=True)
    def text(self, rng):
        r = rng.random()
        if r < .3: return rng.choice((b"", b"x", b"nostr", b'q"uote', b"back\\slash", b"\\u0041", b"\n\r\t", b"\x01\x1f\x7f", b"\b\f", b"]", b"[\"", b",", "é€😀".encode(), b"\\", b'"', b'\\"'))
        if r < .9: return G.text(rng, rng.choice((20, 200)))
        return b"y" * rng.choice((63, 64, 255, 256, 511, 512, 1022, 1023, 1024, 3000))
    def rand(self, rng):
        ops = [("create", rng.choice((10000, 10001, 3, 0, 30000, 30003, 39999, 40000, 29999, 65535)))]; priv = rng.choice((0, 0, .4))
        opt = lambda: None if rng.random() < .4 else self.text(rng)
        for _ in range(rng.choice((2, 5, 12, 30))):
            r = rng.random()
            if r < .55:
                k = rng.choice(list(FN)); v = (G.hexs(rng, 64) if k in "pe" and rng.random() < .9 else self.text(rng))
                rel = opt() if k in ("p", "e", "a") else (self.text(rng) if k in ("group", "emoji") else None); pet = opt() if k in ("p", "group") else None
                ops.append(("add", k, v, rel, pet, rng.random() < priv))
            elif r < .7: ops.append(("remove", rng.choice((1, 1, 2, 3, 8, 9, rng.randrange(1, 12)))))
            elif r < .85: ops.append(("set", rng.choice(("d", "title", "description", "image")), opt()))
            elif r < .95: ops.append(("cycle", rng.random() < .8))
            elif r < .975: ops.append(("from", rng.choice((10000, 30000, 1)), [self.tag(rng) for _ in range(rng.randrange(8))]))
            else: ops.append(("foreign", rng.choice((10000, 30000, 1)), [self.tag(rng) for _ in range(rng.randrange(4))], [self.row(rng) for _ in range(rng.choice((0, 1, 3, 8)))]))
        return ops + [("cycle", rng.random() < .7)]
    def row(self, rng):
        u = lambda cap=60: (J.utext(rng, cap) if rng.random() < .6 else self.text(rng).decode("utf8", "ignore").replace("\0", "")).encode()
        return [rng.choice((b"p", b"e", b"t", b"word", b"relay", b"x", b"", u(), b"t" * 63, b"t" * 64, b"t" * 300))] + [u(rng.choice((10, 60, 400))) for _ in range(rng.choice((0, 1, 1, 1, 2, 3, 4, 6)))]
    def ck(self):
        x = ctypes.create_string_buffer(32); self.api.lib.vo_ecdh_x(bytes(self.keys[0]), self.api.o_pub(self.keys[0]), x); return S.conv(x.raw[:32])
    def rows(self, text):
        """the rows sealed in an event's content"""
        if not text: return []
        try: v = json.loads((S.open44(self.ck(), text) or b"?").decode("utf8", "surrogateescape"))
        except ValueError: return "unreadable"
        return [[B(x.encode("utf8", "surrogateescape")) for x in r] for r in v] if isinstance(v, list) and all(isinstance(r, list) and all(isinstance(x, str) for x in r) for r in v) else "not rows"
    def tag(self, rng): return [rng.choice((b"d", b"title", b"description", b"image", b"p", b"e", b"x", b"", b"D", b"titles"))] + [self.text(rng) for _ in range(rng.choice((0, 1, 1, 1, 2, 3, 4)))]
    def run(self, ops, rng, quiet=False):
        api = self.api; out = []; lp = P(); o = lambda v: [] if v is None else [B(v)]; z = lambda v: None if v is None else v.replace(b"\0", b"")
        now = rng.choice((NOW, 0, 2 ** 31 + 5, 2 ** 32 + 7, 4102444800)); api.time_set(now)
        kp = api.new("nostr_keypair"); key = self.keys[0]; api.call("nostr_keypair_from_private_key", kp, ctypes.create_string_buffer(key, 32)); full = self.variant != "ossl"
        for k, op in enumerate(ops):
            if not quiet: self.note("%r of %r" % (op, ops[:30]))
            n = op[0]; oom = rng.randrange(1, 12) if rng.random() < .06 and not quiet else 0
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if n == "create": r = api.call("nostr_list_create", ctypes.byref(lp), ctypes.c_uint16(op[1])); out.append(dict(o=n, kind=op[1], r=r))
            elif n == "add":
                _, kk, v, rel, pet, pr = op; v, rel, pet = z(v), z(rel), z(pet)
                if full and rng.random() < .3: pr = not pr
                a = [v] + ([rel] if kk in ("p", "e", "a", "group", "emoji") else []) + ([pet] if kk in ("p", "group") else [])
                arm(); r = api.call("nostr_list_add_" + FN[kk], lp, *a, ctypes.c_bool(pr)); m = dis()
                out.append(dict(o=n, k=kk, value=B(v), relay=o(rel), pet=o(pet), private=pr, r=r, oom=m))
            elif n == "remove": out.append(dict(o=n, i=op[1], r=api.call("nostr_list_remove", lp, ctypes.c_size_t(op[1] - 1))))
            elif n == "set":
                v = z(op[2]); arm(); r = api.call("nostr_list_set_" + ("d_tag" if op[1] == "d" else op[1]), lp, v); m = dis(); out.append(dict(o=n, f=op[1], v=o(v), r=r, oom=m))
            elif n in ("cycle", "from", "foreign"):
                own = n == "cycle"; alien = False; rows = []
                if own:
                    ep = P(); usekey = op[1]; arm(); r = api.call("nostr_list_to_event", lp, kp if usekey else None, ctypes.byref(ep)); m = dis(); e = ep.value or 0
                    d = api.ev_read(e) if r == 0 else dict(kind=0, tags=[], content=b"", created_at=now)
                    if r and e: out.append(dict(o="to left an event", r=r)); break
                    out.append(dict(o="to", r=r, oom=m, key=usekey, canseal=full, kind=d["kind"], tags=[[B(x) for x in t] for t in d["tags"]], atok=d["created_at"] == now, clear=d["content"] == b"", sealed=self.rows(d["content"]) if r == 0 else [],
                                    toobig=len(out) > 0 and self.big(lp)))
                    if r: continue
                    rk = rng.random() < .75; k2 = kp
                    if full and rk and rng.random() < .15 and d["content"]:
                        alien = True; k2 = api.new("nostr_keypair"); api.call("nostr_keypair_from_private_key", k2, ctypes.create_string_buffer(self.keys[1], 32))
                else:
                    e = api.ev_new(); api.ev_set(e, "kind", op[1]); rk = False; k2 = kp
                    for t in op[2]: api.ev_add(e, [z(v) for v in t])
                    api.ev_content(e, rng.choice((b"", b"whatever")))
                    if n == "foreign" and full:
                        t = J.render(op[3], rng).encode()
                        if len(t) < 65536: rows = [[B(x) for x in q] for q in op[3]]; api.ev_content(e, S.seal44(self.ck(), rng.randbytes(32), t)); rk = True
                np = P(); arm(); r = api.call("nostr_list_from_event", P(e), k2 if rk else None, ctypes.byref(np)); m = dis()
                out.append(dict(o="from", own=own, rows=rows, key=rk, alien=alien, kind=api.ev_get(e, "kind"), tags=[[B(x) for x in t] for t in api.ev_tags(e)], r=r, oom=m)); api.ev_free(e)
                if r == 0: api.call("nostr_list_free", lp); lp = np
                elif np.value: out.append(dict(o="from left a list", r=r)); break
            if not quiet or k % 1000 == 0 or k > len(ops) - 4:
                c = api.call("nostr_list_count", lp, res=ctypes.c_size_t); its = []; f = lambda q, x: o(api.cstr(api.get(q, I, x)))
                for i in range(c):
                    q = api.ptr("nostr_list_get", lp, ctypes.c_size_t(i)); its.append(dict(type=B(api.cstr(api.get(q, I, "tag_type"))), value=B(api.cstr(api.get(q, I, "value"))), relay=f(q, "relay_hint"), pet=f(q, "petname"), private=bool(api.get(q, I, "is_private"))))
                g = lambda x: o(api.cstr(api.get(lp.value, T, x)))
                out.append(dict(o="list", n=c, l=dict(kind=api.get(lp.value, T, "kind"), d=g("d_tag"), title=g("title"), description=g("description"), image=g("image"), items=its), beyond=not api.ptr("nostr_list_get", lp, ctypes.c_size_t(c)) and not api.ptr("nostr_list_get", lp, ctypes.c_size_t(2 ** 64 - 1))))
        api.call("nostr_list_free", lp); api.call("nostr_keypair_destroy", kp)
        return {"ops": out}
    def big(self, lp):
        api = self.api; n = 2
        for i in range(api.call("nostr_list_count", lp, res=ctypes.c_size_t)):
            q = api.ptr("nostr_list_get", lp, ctypes.c_size_t(i))
            if api.get(q, I, "is_private"): n += 20 + 6 * sum(len(api.cstr(api.get(q, I, x)) or b"") for x in ("tag_type", "value", "relay_hint", "petname"))
        return n > 60000
