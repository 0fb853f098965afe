import ctypes, hashlib, unicodedata
from vf.framework import Check
from vf import gen as G, hd
from vf.api import P, B
T = "nostr_hd_key"; KP = "nostr_keypair"
NODE = lambda n: dict(sk=B(n[0]), pk=B(n[1]), cc=B(n[2])) if n else []
BE = lambda i: B(i.to_bytes(4, "big"))
DIG = set(b"0123456789")

class CHECK(Check):
    id = "P25"
    variants = ["ossl", "full"]
    trace = "T_Wallet"
    mc = [("MC_Wallet", "MC_Wallet.cfg", {"workers": 3})]
    gen = [("MC_Wallet", "Gen_Wallet.cfg", {})]
    assumptions = ["one derivation step, PBKDF2 and SHA-256 are reference computations (hashlib, plain Python)", "the word list is compared with the published English list (by its digest)"]
    memo = {}

    def behaviours(self, api, rng, w, n, gen):
        if rng.random() < .5: api.call("nostr_init")
        rng.shuffle(gen); pool = [hd.master(bytes([w, i]) * 16) for i in range(3)]
        for i in range(0, min(len(gen), self.scale(800, 20000)), 8): yield self.run([("path", rng.choice(pool), bytes(g["path"])) for g in gen[i:i + 8]], rng)
        for _ in range(self.scale(45, 1500)): yield self.run(self.keys(rng), rng)
        for _ in range(self.scale(60, 2000)): yield self.run(self.phrases(rng), rng)
        for f in (b"\1", b"\7"):   # every word of the list, in one phrase or another
            for k in range(w, 171, n):
                ws = [(12 * k + j) % 2048 for j in range(11)]; v = 0
                for x in ws: v = v << 11 | x
                e = (v << 7 | rng.randrange(128)).to_bytes(16, "big"); yield self.run([("phrase", hd.phrase(e))], rng)
            break
        if w == 0: yield self.run([("words", i) for i in range(2048)], rng)
    def step(self, nd, i):
        k = (nd, i)
        if k not in self.memo: self.memo[k] = hd.child(nd[0], nd[2], i)
        return self.memo[k]
    def idx(self, rng):
        r = rng.random(); i = rng.choice((0, 1, 2, 44, 1237, 255, 256, 65535, 65536, 16777216, 0x7fffffff)) if r < .7 else rng.randrange(1 << 31)
        return i | (0x80000000 if rng.random() < .5 else 0)
    def path(self, rng):
        c = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
            i = self.idx(rng); t = str(i & 0x7fffffff).encode()
            if rng.random() < .08: t = b"0" * rng.choice((1, 3, 12)) + t
            t += rng.choice((b"'", b"h")) if i >> 31 else b""; c.append(t)
        if c and rng.random() < .3:
            k = rng.randrange(len(c)); c[k] = rng.choice((b"", b"'", b"h", b"-1", b"+1", b" 1", b"1 ", b"1''", b"1h'", b"0x10", b"1.0", b"2147483648", b"2147483648'", b"4294967295", b"4294967296", b"4294967297", b"18446744073709551616", b"18446744073709551617", b"-18446744073709551615", b"a", b"1a", b"\t1", b"1e3", b"99999999999999999999999999", b"-4294967295", b"-0", c[k] + b"x"))
        return rng.choice((b"m", b"m", b"m", b"m", b"m", b"m", b"m", b"m", b"M", b"", b"n", b"mm", b" m")) + b"".join(b"/" + t for t in c) + (rng.choice((b"", b"", b"", b"", b"", b"/", b"//", b"'", b" ")))
    def keys(self, rng):
        ops = []; sd = bytes(rng.randrange(256) for _ in range(rng.choice((16, 32, 64, 17, 63, 20)))); nd = hd.master(sd); pool = [nd]
        ops.append(("master", sd))
        if rng.random() < .3: ops.append(("master", bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 15, 65, 66, 128))))))
        for _ in range(rng.choice((2, 4))):
            r = rng.random(); p = rng.choice(pool)
            if r < .4:
                i = self.idx(rng); c = self.step(p, i); ops.append(("child", p, i))
                if c: pool.append(c)
            elif r < .85: ops.append(("path", p, self.path(rng)))
            elif r < .95: ops.append(("pair", p))
            else: ops.append(("child", (rng.choice((bytes(32), b"\xff" * 32, hd.N.to_bytes(32, "big"))), bytes(32), p[2]), self.idx(rng)))
        return ops
    def phrase(self, rng):
        e = bytes(rng.randrange(256) for _ in range(rng.choice((16, 32)))); r = rng.random()
        if r < .1: e = rng.choice((bytes(16), b"\xff" * 16, b"\x7f" * 16, b"\x80" * 32, b"\xff" * 32, bytes(32)))
        if r > .9: e = bytes(rng.randrange(256) for _ in range(rng.choice((20, 24, 28))))
        t = hd.phrase(e); ws = t.split(b" "); r = rng.random()
        if r < .5: return t
        if r < .75:
            k = rng.randrange(len(ws)); x = rng.random()
            if x < .4: ws[k] = rng.choice(hd.WORDS).encode()
            elif x < .5: j = rng.randrange(len(ws)); ws[k], ws[j] = ws[j], ws[k]
            elif x < .6: ws[k] = ws[k].upper()
            elif x < .7: ws[k] = ws[k][:4]
            elif x < .8: ws.pop(k)
            elif x < .9: ws.insert(k, rng.choice(hd.WORDS).encode())
            else: ws[k] = rng.choice((b"zzz", b"aaaa", b"bitcoin", b"abando", b"abandonn", b"zoo\xc3\xa9", b"zoo,", b"\xff"))
            return b" ".join(ws)
        if r < .85: return rng.choice((b" " + t, t + b" ", t.replace(b" ", b"  ", 1), t + b"\n", t.replace(b" ", b"\t", 1), t.replace(b" ", b"\xe3\x80\x80", 1), t.replace(b" ", b"\n")))
        if r < .95: return b" ".join(rng.choice(hd.WORDS).encode() for _ in range(rng.choice((12, 24, 12, 24, 0, 1, 11, 13, 15, 18, 23, 25, 36, 48))))
        return rng.choice((b"", b" ", b"abandon", t + b" " + t, t + b" " + ws[-1]))
    def passw(self, rng):
        r = rng.random()
        return None if r < .35 else b"" if r < .5 else b"TREZOR" if r < .6 else G.text(rng, 40).replace(b"\xff", b"") if r < .75 else rng.choice((b"\xc3\xa9", b"e\xcc\x81", "ｆｕｌｌ".encode(), "ﬁ ½ Å".encode(), b"\xff\xfe", b"x" * 500, b" ", "가각".encode()))
    def phrases(self, rng):
        ops = []
        for _ in range(5):
            r = rng.random()
            if r < .35: ops.append(("phrase", self.phrase(rng)))
            elif r < .6: ops.append(("generate", rng.choice((12, 24, 12, 24, 12, 24, 0, 1, 15, 18, 21, 23, 25, -12, 36)), rng.choice(("ok", "known", "known", "known", "dead")), rng.choice((300, 300, 220, 1, 80, 100, 200, 0, "exact", "short"))))
            elif r < .8: ops.append(("seed", self.phrase(rng), self.passw(rng)))
            else: ops.append(("account", self.phrase(rng), self.passw(rng), rng.choice((0, 0, 1, 2, 100, 0x7fffffff, 0x80000000, 0xffffffff, rng.randrange(1 << 31)))))
        return ops
    # --- what the reference says
    def said(self, t):
        ws = [hd.IDX.get(x, 2048) for x in t.split(b" ") if x]; ent = b""; h0 = 0
        if len(ws) in (12, 24) and max(ws) < 2048:
            v = 0
            for x in ws: v = v << 11 | x
            c = len(ws) // 3; ent = (v >> c).to_bytes(len(ws) * 4 // 3, "big"); h0 = hashlib.sha256(ent).digest()[0]
        return dict(words=ws[:60], ent=B(ent), h0=h0)
    def seeds(self, t, pw):
        try: p = unicodedata.normalize("NFKD", (pw or b"").decode())
        except UnicodeDecodeError: return [], False
        return [hashlib.pbkdf2_hmac("sha512", x, b"mnemonic" + p.encode(), 2048) for x in dict.fromkeys((t, b" ".join(y for y in t.split(b" ") if y)))], True
    def steps(self, nd, route):
        out = []
        for i in route:
            if not nd: break
            nd = self.step(nd, i); out.append(dict(i=BE(i), c=NODE(nd)))
        return out
    def route(self, path):
        """the child numbers a path names, for the oracle; the specification works them out for itself"""
        if path[:1] != b"m" or (len(path) > 1 and path[1:2] != b"/"): return []
        out = []
        for t in path[2:].split(b"/"):
            if not t: continue
            h = t[-1:] in (b"'", b"h"); d = t[:-1] if h else t
            if not d or not set(d) <= DIG or int(d) >= 1 << 31: return []
            out.append(int(d) | (h << 31))
        return out
    def put(self, nd):
        k = self.api.new(T); a = ctypes.addressof(k)
        for f, v in zip(("privkey", "pubkey", "chain_code"), nd): self.api.set(a, T, f, v)
        return k
    def got(self, k): a = ctypes.addressof(k); return NODE(tuple(self.api.getb(a, T, f) for f in ("privkey", "pubkey", "chain_code")))
    def run(self, ops, rng):
        api = self.api; out = []; seen = set()
        for op in ops:
            o = op[0]; self.note("%r of %r" % (op, ops[:20])); oom = rng.randrange(1, 6) if rng.random() < .05 else 0
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if rng.random() < .02: api.call("nostr_cleanup", res=None)
            if o == "master": k = api.new(T, 0x3d); r = api.call("nostr_hd_key_from_seed", ctypes.create_string_buffer(op[1], max(1, len(op[1]))), ctypes.c_size_t(len(op[1])), k); out.append(dict(o=o, seed=B(op[1]), r=r, node=self.got(k) if r == 0 else [], ref=NODE(hd.master(op[1]))))
            elif o == "child":
                k = api.new(T, 0x3d); r = api.call("nostr_hd_key_derive", self.put(op[1]), ctypes.c_uint32(op[2]), k); out.append(dict(o=o, p=NODE(op[1]), i=BE(op[2]), r=r, node=self.got(k) if r == 0 else [], ref=NODE(self.step(op[1], op[2]))))
            elif o == "path":
                pa = op[2].replace(b"\0", b""); k = api.new(T, 0x3d); src = self.put(op[1]); dst = src if rng.random() < .1 else k
                arm(); r = api.call("nostr_hd_key_derive_path", src, pa, dst); m = dis()
                out.append(dict(o=o, p=NODE(op[1]), path=B(pa), steps=self.steps(op[1], self.route(pa)), r=r, node=self.got(dst) if r == 0 else [], oom=m))
            elif o == "pair":
                k = api.new(KP, 0x11); r = api.call("nostr_hd_key_to_keypair", self.put(op[1]), k); a = ctypes.addressof(k)
                out.append(dict(o=o, p=NODE(op[1]), r=r, sk=B(api.getb(a, KP, "privkey")), pk=B(api.getb(a, KP, "pubkey")), usable=api.call("nostr_keypair_validate", k) == 0))
            elif o == "phrase": t = op[1].replace(b"\0", b""); arm(); r = api.call("nostr_mnemonic_validate", t); m = dis(); out.append(dict(o=o, r=r, oom=m, **self.said(t)))
            elif o == "words":   # one word of the list at every place but the last, which the checksum decides
                i = op[1]; v = 0
                for _ in range(11): v = v << 11 | i
                t = hd.phrase((v << 7 | i & 127).to_bytes(16, "big")); r = api.call("nostr_mnemonic_validate", t); out.append(dict(o="phrase", r=r, oom=False, **self.said(t)))
            elif o == "generate":
                _, n, mode, size = op; ent = bytes(rng.randrange(256) for _ in range(32)) if rng.random() < .8 else rng.choice((bytes(32), b"\xff" * 32, b"\x80" * 32))
                full = hd.phrase(ent[:16] if n == 12 else ent)
                if size in ("exact", "short"): size, mode = len(full) + (size == "exact"), "known"
                if mode == "known": api.lib.vf_rng_script(ent, ctypes.c_size_t(32))
                elif mode == "dead": api.rng_fail(-1)
                b = ctypes.create_string_buffer(b"\xee" * max(1, size), max(1, size)); r = api.call("nostr_mnemonic_generate", n, b, ctypes.c_size_t(size)); api.lib.vf_rng_real(); api.rng_fail(0)
                t = b.raw.split(b"\0")[0] if r == 0 else b""; x = self.said(t)
                out.append(dict(o=o, n=n, rng=mode, size=size, r=r, len=len(t) if r == 0 else len(full) if mode == "known" and n in (12, 24) else 219, want=B(ent[:16] if n == 12 else ent), fresh=mode != "ok" or t not in seen, **x)); seen.add(t)
            elif o in ("seed", "account"):
                t = op[1].replace(b"\0", b""); pw = op[2]; pw = pw if pw is None else pw.replace(b"\0", b""); refs, ok = self.seeds(t, pw)
                if o == "seed":
                    b = ctypes.create_string_buffer(64); arm(); r = api.call("nostr_mnemonic_to_seed", t, pw, b); m = dis()
                    out.append(dict(o=o, r=r, seed=B(b.raw[:64]) if r == 0 else [], refs=[B(x) for x in refs], passok=ok, oom=m, **self.said(t)))
                else:
                    k = api.new(KP, 0x11); a = ctypes.addressof(k); arm(); r = api.call("nostr_mnemonic_to_keypair", t, pw, ctypes.c_uint32(op[3]), k); m = dis(); alts = []
                    for x in refs:
                        nd = hd.master(x)
                        if nd and op[3] < 1 << 31: alts.append(dict(p=NODE(nd), steps=self.steps(nd, (0x8000002c, 0x800004d5, op[3] | 0x80000000, 0, 0))))
                    out.append(dict(o=o, r=r, acct=BE(op[3]), sk=B(api.getb(a, KP, "privkey")), pk=B(api.getb(a, KP, "pubkey")), usable=r == 0 and api.call("nostr_keypair_validate", k) == 0, alts=alts, passok=ok, oom=m, **self.said(t)))
        return {"ops": out}
