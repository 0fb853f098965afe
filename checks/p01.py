import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, L

class CHECK(Check):
    id = "P01"
    workers = 12
    variants = ["ossl", "mbed", "full", "bare"]
    trace = "T_EventAuth"
    mc = [("MC_EventAuth", "MC_EventAuth.cfg", {"workers": 2})]
    gen = [("MC_EventAuth", "Gen_EventAuth.cfg", {"simulate": lambda c: "num=%d" % c.scale(25, 400)})]
    assumptions = ["SHA-256 is collision free and BIP-340 unforgeable: hash and signature are symbolic terms in the specification"]

    def behaviours(self, api, rng, w, n, gen):
        self.keys = dict(zip(("k1", "k2", "k3"), G.seckeys(rng, 3)))
        api.call("nostr_init")
        for g in gen:
            yield self.run([{"o": "create", "e": "a", "at": "0"}, {"o": "create", "e": "b", "at": "0"}] + g, rng)
        for _ in range(self.scale(260, 6000)):
            yield self.run(self.random_ops(rng), rng)

    def random_ops(self, rng):
        if rng.random() < 0.3:
            self.keys = dict(zip(("k1", "k2", "k3"), G.seckeys(rng, 3)))
        ops = [{"o": "create", "e": x, "at": str(rng.randrange(0, 2 ** 40))} for x in "ab"]
        live = ["a", "b"]
        big = rng.random() < 0.05
        for _ in range(rng.randrange(8, 30)):
            r = rng.random(); e = rng.choice(live)
            if r < 0.12: ops.append({"o": "set", "e": e, "f": "content", "v": L(G.text(rng, 70000 if big else 300))})
            elif r < 0.16: ops.append({"o": "set", "e": e, "f": "at", "v": str(G.integer(rng, -2 ** 40, 2 ** 52))})
            elif r < 0.20: ops.append({"o": "set", "e": e, "f": "kind", "v": str(G.integer(rng, 0, 65535))})
            elif r < 0.32:
                t = G.tags(rng, 1, 5) or [[b"t", b""]]
                ops.append({"o": "addtag", "e": e, "v": [L(x) for x in t[0]]})
                if rng.random() < 0.1: ops += [{"o": "addtag", "e": e, "v": [L(G.text(rng, 60))] * rng.randrange(1, 4)} for _ in range(rng.randrange(5, 40))]
            elif r < 0.37: ops.append({"o": "edittag", "e": e})
            elif r < 0.45: ops.append({"o": "flip", "e": e, "f": rng.choice(("id", "sig", "pk")), "bit": rng.randrange(512) if rng.random() < .7 else rng.choice((0, 7, 248, 255, 256, 511))})
            elif r < 0.48: ops.append({"o": "setpk", "e": e, "k": rng.choice(list(self.keys))})
            elif r < 0.55: ops.append({"o": "copy", "e": e, "from": rng.choice(live), "f": rng.choice(("id", "sig", "pk", "content", "kind", "at"))})
            elif r < 0.61: ops.append({"o": "computeid", "e": e})
            elif r < 0.78: ops.append({"o": "sign", "e": e, "k": rng.choice(list(self.keys))})
            elif r < 0.80: ops.append({"o": "signbad", "e": e})
            elif r < 0.82: ops.append({"o": "signfail", "e": e, "k": rng.choice(list(self.keys))})
            elif r < 0.90: ops.append({"o": "json", "e": e, "d": rng.choice(("b", "c", "d")), "via": rng.randrange(3)})
            elif r < 0.95: ops.append({"o": "verify", "e": e})
            else: ops.append({"o": "validate", "e": e})
            for o in ops[-1:]:
                if o["o"] == "json" and o["d"] not in live: live.append(o["d"])
            if ops[-1]["o"] in ("sign", "json", "flip", "copy", "edittag", "signfail", "addtag", "set"):
                if rng.random() < 0.6: ops.append({"o": rng.choice(("verify", "verify", "validate")), "e": ops[-1].get("d", ops[-1]["e"])})
        for e in live: ops += [{"o": "verify", "e": e}, {"o": "validate", "e": e}]
        return ops

    CODES = {10: "ID_MISMATCH", 11: "SIG_MISMATCH", 3: "INVALID_ID", 4: "INVALID_PUBKEY", 5: "INVALID_SIG", 0: "OK",
             12: "FUTURE_EVENT", 13: "EXPIRED_EVENT"}
    def run(self, ops, rng):
        api = self.api; ev = {}; out = []
        api.time_set(2 ** 53)       # nothing is in the future; expiration is exercised elsewhere
        fld = {"id": "id", "sig": "sig", "pk": "pubkey"}
        for op in ops:
            op = dict(op); o = op["o"]; op.pop("r", None)
            self.note(str(op)[:3000])
            e = ev.get(op.get("e"))
            if o == "create":
                if e: api.ev_free(e)
                e = ev[op["e"]] = api.ev_new(); api.ev_set(e, "created_at", int(op["at"]))
            elif o == "set":
                v = op["v"]
                if op["f"] == "content": assert api.ev_content(e, v.encode("latin1")) == 0
                elif op["f"] == "at": api.ev_set(e, "created_at", int(v))
                else: api.ev_set(e, "kind", int(v))
            elif o == "addtag":
                if op["v"] and op["v"][0] in ("expiration",): op["v"][0] = "xpiration"
                op["r"] = api.ev_add(e, [x.encode("latin1") for x in op["v"]])
            elif o == "edittag":
                tags = api.ev_tags(e); cand = [(i, j) for i, t in enumerate(tags) for j, v in enumerate(t) if v and (j > 0 or v != b"xpiration")]
                if not cand: continue
                i, j = rng.choice(cand); k = rng.randrange(len(tags[i][j]))
                tp = api.ev_get(e, "tags") + i * api.size("nostr_tag")
                vp = api.get(tp, "nostr_tag", "values"); sp = api.u64(vp + 8 * j)
                b = api.rd(sp + k, 1)[0]; nb = rng.choice([x for x in (b ^ 1, b ^ 32, 34, 92, 10, 44, 97) if x not in (0, b) and x < 128])
                api.wr(sp + k, bytes([nb])); tags[i][j] = tags[i][j][:k] + bytes([nb]) + tags[i][j][k + 1:]
                op["v"] = [[L(x) for x in t] for t in tags]
            elif o == "flip":
                f = fld[op["f"]]; op["bit"] %= 512 if op["f"] == "sig" else 256
                b = bytearray(api.ev_getb(e, f)); b[op["bit"] // 8] ^= 1 << (op["bit"] % 8); api.ev_set(e, f, bytes(b))
            elif o == "setpk":
                api.ev_set(e, "pubkey", api.o_pub(self.keys[op["k"]]))
            elif o == "copy":
                s = ev[op["from"]]; f = op["f"]
                if f in fld: api.ev_set(e, fld[f], api.ev_getb(s, fld[f]))
                elif f == "content":
                    c = api.cstr(api.ev_get(s, "content")); api.ev_content(e, c if c is not None else b"")
                elif f == "kind": api.ev_set(e, "kind", api.ev_get(s, "kind"))
                else: api.ev_set(e, "created_at", api.ev_get(s, "created_at", True))
            elif o == "computeid":
                op["r"] = api.call("nostr_event_compute_id", P(e))
            elif o == "sign":
                op["r"] = api.call("nostr_event_sign", P(e), self.keys[op["k"]])
            elif o == "signbad":
                op["r"] = api.call("nostr_event_sign", P(e), G.badkey(rng))
            elif o == "signfail":
                api.rng_fail(1)
                op["r"] = api.call("nostr_event_sign", P(e), self.keys[op["k"]])
                api.rng_fail(0)
            elif o == "verify":
                op["r"] = api.call("nostr_event_verify", P(e)) == 0
            elif o == "validate":
                res = api.new("nostr_validation_result_t", rng.randrange(256))
                rc = api.call("nostr_event_validate_full", P(e), ctypes.c_int64(1000), res)
                p = ctypes.addressof(res)
                valid = api.get(p, "nostr_validation_result_t", "valid") != 0
                code = api.get(p, "nostr_validation_result_t", "error_code")
                op["r"] = rc == 0 and valid and code == 0
                if not op["r"] and (rc == 0 or valid or code == 0): op["r"] = "inconsistent"
                op["code"] = self.CODES.get(rc, str(rc))
            elif o == "json":
                via = op.pop("via", 0); d = ctypes.c_void_p(0)
                if self.variant == "bare": op["r"] = 0; d.value = api.ev_build(api.ev_read(e))   # no JSON in this build: a copy made field by field
                elif via < 2:
                    pj = ctypes.c_void_p(0); op["r"] = api.call("nostr_event_to_json", P(e), ctypes.byref(pj))
                    js = api.takestr(pj.value)
                else:
                    sz = 2000000
                    buf = ctypes.create_string_buffer(sz); n_ = ctypes.c_size_t(0)
                    op["r"] = api.call("nostr_event_serialize", P(e), buf, ctypes.c_size_t(sz), ctypes.byref(n_))
                    js = buf.raw[:n_.value]
                if op["r"] == 0 and self.variant != "bare":
                    op["r"] = api.call("nostr_event_from_json", js, ctypes.byref(d)) if via == 0 else \
                              api.call("nostr_event_parse", js, ctypes.c_size_t(len(js)), ctypes.byref(d))
                if op["r"] == 0:
                    if ev.get(op["d"]): api.ev_free(ev[op["d"]])
                    ev[op["d"]] = d.value
                else:
                    out.append(op); break
            out.append(op)
        for e in ev.values(): api.ev_free(e)
        return {"ops": out}
