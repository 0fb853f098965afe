import ctypes, json, os
from vf.framework import Check
from vf import gen as G, build as BLD
from vf.api import P, B
RT = "nostr_validation_result_t"
OPT = [4, 5, 10, 13, 17, 18, 25, 26, 44, 46, 47, 49, 51, 57, 59, 65]
FEAT = {"relay": ("NOSTR_FEATURE_RELAY", "relay_available"), "hd-keys": ("NOSTR_FEATURE_HD_KEYS", "hd_keys_available"), "json-enhanced": ("NOSTR_FEATURE_JSON_ENHANCED", "json_enhanced_available"), "relay-protocol": ("NOSTR_FEATURE_RELAY_PROTOCOL", "relay_protocol_available")}
# one call per NIP whose answer tells whether it is there; NULL arguments are refused by those that are
DOES = {4: ("nostr_nip04_encrypt", 4), 5: ("nostr_nip05_parse", 5), 10: ("nostr_event_is_reply", 2), 13: ("nostr_nip13_verify_pow", 2), 17: ("nostr_nip17_create_rumor", 5), 18: ("nostr_repost_parse", 9), 25: ("nostr_reaction_is_like", 2),
        26: ("nostr_delegation_verify", 2), 44: ("nostr_nip44_encrypt", 5), 46: ("nostr_nip46_create_response", 4), 47: ("nostr_nip47_parse_connection_uri", 2), 49: ("nostr_ncryptsec_decrypt", 4), 51: ("nostr_list_create", 2), 57: ("nostr_zap_validate_lnurl", 3),
        59: ("nostr_nip59_create_rumor", 4), 65: ("nostr_relay_list_create", 1)}

class CHECK(Check):
    id = "P34"
    workers = 10
    variants = ["ossl", "mbed", "full", "bare", "fullmbed"]
    trace = "T_Reports"
    mc = [("MC_Reports", "MC_Reports.cfg", {"workers": 1})]
    assumptions = ["what is configured is read from the build's feature definitions; NIPs that no build can leave out (1, 2, 6, 9, 11, 19, 21, 40, 42, 45, 50) may be reported either way"]

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init"); self.rng = rng; self.sk = G.seckey(rng); d = set(BLD.VARIANTS[self.variant]["defs"])
        feats = [f for f, (m, _) in FEAT.items() if m in d] + (["threading"] if "NOSTR_FEATURE_THREADING" in d else [])
        self.built = dict(o="built", nips=[x for x in OPT if "NOSTR_FEATURE_NIP%02d" % x in d and not (x == 4 and "HAVE_MBEDTLS" in d)], feats=feats, noscrypt="NOSTR_FEATURE_CRYPTO_NOSCRYPT" in d)
        for _ in range(self.scale(60, 600)): yield dict(ops=[self.built] + self.first())
        yield dict(ops=[self.built] + [self.nip(x) for x in range(-3, 300)] + [self.does(x) for x in OPT] + [self.feature(f) for f in FEAT])
        for _ in range(self.scale(60, 3000)): yield dict(ops=[self.built] + [self.op() for _ in range(40)])
    def op(self):
        rng = self.rng; r = rng.random()
        if r < .1: return self.nip(rng.choice((rng.choice(OPT), rng.randrange(0, 120), rng.choice(OPT) + rng.choice((256, 65536, -256, 100)), -1, 2 ** 31 - 1, -2 ** 31)))
        if r < .13: return self.does(rng.choice(OPT))
        if r < .16: return self.feature(rng.choice(list(FEAT)))
        if r < .2: return dict(o="list", names=self.names(self.text("nostr_feature_list_enabled")))
        if r < .22: return dict(o="version", text=B(self.text("nostr_version")))
        if r < .24: t = self.text("nostr_feature_crypto_backend_info"); return dict(o="backend", text=B(t), noscrypt=b"noscrypt" in t)
        if r < .45:
            f, hi = rng.choice((("error", 12), ("relayerror", 19))); c = rng.choice((rng.randrange(hi + 1), rng.randrange(hi + 1), hi + 1, -1, 256, rng.randrange(20, 70000), 2 ** 31 - 1))
            return dict(o=f, code=c, text=B(self.text("nostr_error_string" if f == "error" else "nostr_relay_error_string", c)))
        if r < .75: return self.format()
        return self.judge()
    def text(self, f, *a):
        p = self.api.ptr(f, *a); return self.api.cstr(p) if p else b""
    def names(self, t): return t.decode("latin-1").split(",")
    def nip(self, n): return dict(o="nip", n=n, r=self.api.call("nostr_feature_nip_supported", n))
    def feature(self, f): return dict(o="feature", f=f, r=self.api.call("nostr_feature_" + FEAT[f][1]))
    def does(self, n):
        f, k = DOES[n]; there = self.api.has(f); self.note("does %s" % f)
        return dict(o="does", n=n, there=there, r=self.api.call(f, *[None] * k) if there else 0)
    # the first time anybody asks, several at once: in a process of its own
    def first(self):
        rng = self.rng; k = rng.choice((2, 3, 4, 6)); sp = [rng.randrange(0, 400) * rng.choice((0, 1, 1)) for _ in range(k)]; r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            out = ctypes.create_string_buffer(1024 * k)
            self.api.lib.vf_text_race(self.api.lib.nostr_feature_list_enabled, k, out, (ctypes.c_int32 * k)(*sp))
            os.write(w, json.dumps([out.raw[1024 * i:1024 * i + 1024].split(b"\0")[0].decode("latin-1") for i in range(k)]).encode()); os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as h: t = h.read()
        st = os.waitpid(pid, 0)[1]
        if st: os._exit(99 if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 99 else 77)
        return [dict(o="lists", said=[x.split(",") for x in json.loads(t)])]
    def reason(self, p): return B(self.api.getb(p, RT, "error_message").split(b"\0")[0]), B(self.api.getb(p, RT, "error_field").split(b"\0")[0])
    def write(self, res, m, f, sizes):
        rng = self.rng; api = self.api; full = 9 + len(m) + (14 + len(f) - 1 if f else 0)
        size = max(0, rng.choice(sizes(full))); b = api.ptr("vf_malloc", ctypes.c_size_t(max(1, size))); api.wr(b, b"\x55" * size)
        r = api.call("nostr_validation_error_format", res, P(b), ctypes.c_size_t(size), res=ctypes.c_size_t); t = api.rd(b, size); api.free(b)
        return dict(o="format", message=m, field=f, size=size, r=r, out=B(t.split(b"\0")[0] if b"\0" in t else t))
    def format(self):
        rng = self.rng; api = self.api; res = api.new(RT, 0x33); p = ctypes.addressof(res)
        def put(f, n):
            t = G.text(rng, n).replace(b"\0", b"")[:n - 1] if rng.random() < .6 else rng.choice((b"", b"%s%n%d", b"x" * (n - 1), b"'", b"id")); t = t[:n - 1]
            api.set(p, RT, f, t + b"\0" + b"\x41" * (n - 1 - len(t))); return B(t)
        m, f = put("error_message", 256), put("error_field", 64); self.note("format %r %r" % (m, f))
        return self.write(res, m, f, lambda n: (0, 1, 2, n - 1, n, n + 1, n + 1, n + 2, 400, rng.randrange(1, 340)))
    def judge(self):
        rng = self.rng; api = self.api; res = api.new(RT, rng.choice((0, 0xff, 0x41))); p = ctypes.addressof(res); rx = dict(o="judge", part=[])
        if rng.random() < .5:
            now = 1700000000; api.time_set(now); bad = rng.choice(("", "", "id", "sig", "created_at", "expiration"))
            e = api.ev_build(dict(kind=rng.choice((1, 30000)), created_at=now + (5000 if bad == "created_at" else 0), tags=[[b"expiration", b"%d" % (now - 10)]] if bad == "expiration" else [], content=b"x"))
            api.lib.vf_rng_real(); api.call("nostr_event_sign", P(e), ctypes.create_string_buffer(self.sk, 32))
            if bad in ("id", "sig"): b = bytearray(api.ev_getb(e, bad)); b[rng.randrange(len(b))] ^= 4; api.ev_set(e, bad, bytes(b))
            r = api.call("nostr_event_validate_full", P(e), ctypes.c_int64(900), res); api.ev_free(e); api.time_real()
            if rng.random() < .05: r = api.call("nostr_event_validate_full", None, ctypes.c_int64(900), res); bad = "?"
            # a wrong id is also a wrong signature: the id is looked at first, but either part may be named
            if bad in ("sig", "created_at", "expiration"): rx["part"] = [B(bad.encode())]
        else:
            H = "a" * 64; bad = rng.choice(("", "ids", "authors", "#e", "#p", "kinds"))
            j = {"ids": [H], "authors": [H], "#e": [H], "#p": [H], "kinds": [1]}; j = {k: v for k, v in j.items() if k == bad or rng.random() < .5}
            if bad: j[bad] = j.get(bad, []) + [rng.choice(("zz", "A" * 64, "", "b" * 65)) if bad != "kinds" else rng.choice((-1, 65536))]
            t = json.dumps(j).encode(); fl = api.new("nostr_filter_t", 0)
            if api.call("nostr_filter_parse", t, ctypes.c_size_t(len(t)), fl): return dict(o="version", text=B(self.text("nostr_version")))
            r = api.call("nostr_filter_validate", fl, res); api.call("nostr_filter_free", fl, res=None)
            # which filters are in order is P07's; here: that a refusal names the part that is not
            if r: rx["part"] = [B(bad.encode())]
            bad = "x" if r else ""
        m, f = self.reason(p); rx.update(r=r, ok=not bad, valid=bool(api.get(p, RT, "valid")), code=api.get(p, RT, "error_code"), message=m, field=f)
        return rx
