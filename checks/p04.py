import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, L

class CHECK(Check):
    id = "P04"
    variants = ["ossl"]
    trace = "T_TagStore"
    mc = [("MC_TagStore", "MC_TagStore.cfg", {"workers": 2})]
    gen = [("MC_TagStore", "Gen_TagStore.cfg", {"simulate": lambda c: "num=%d" % c.scale(20, 300)})]

    def behaviours(self, api, rng, w, n, gen):
        api.lib.vf_oom_hook_cjson()
        half = self.scale(110, 3000)
        for i in range(half):                       # before any configuration is installed: no limit
            yield self.run(self.random_ops(rng, i), rng, None)
        cfg = api.new("nostr_config"); cp = ctypes.addressof(cfg)
        assert api.call("nostr_config_get_defaults", P(cp)) == 0
        assert api.call("nostr_init_with_config", P(cp)) == 0
        for g in gen:
            yield self.run([{"o": "new"}] + g, rng, (1000, 2))
        for i in range(half):
            yield self.run(self.random_ops(rng, i), rng, (G.integer(rng, 1, 1000) if rng.random() < .3 else rng.randrange(1, 30), rng.choice((1, 2, 3, 4, 5, 50, 1000))))

    def tag(self, rng, cap):
        r = rng.random()
        if r < 0.25: return [rng.choice((b"e", b"p")), (G.hexs(rng) if rng.random() < .7 else rng.choice((G.hexs(rng, 63), G.hexs(rng, 65), G.hexs(rng).upper(), G.hexs(rng, 63) + b"g", b" " + G.hexs(rng, 63)))).replace(b"\0", b"")] + [G.hexs(rng) if rng.random() < .15 else G.text(rng, 30) for _ in range(rng.choice((0, 0, 1, 2, 3, 4, 5, rng.randrange(0, 12))))]
        if r < 0.33: return [b"n" * rng.choice((15, 31, 32, 33, 63, 64, 127, 255)) + rng.choice((b"", b"a", b"b", b"n"))] + [G.text(rng, 20) for _ in range(rng.randrange(0, 3))]
        if r < 0.9: return [rng.choice((b"e", b"p", b"d", b"t", b"", b"ee", b"E")) if rng.random() < .6 else G.text(rng, cap)] + [G.text(rng, cap) for _ in range(rng.randrange(0, 4))]
        return [G.text(rng, 8) for _ in range(rng.randrange(1, 60))]

    def random_ops(self, rng, i):
        ops = [{"o": "new"}]
        cap = rng.choice((5, 20, 60, 300, 1200))
        n = rng.randrange(4, 40) if i % 10 else rng.randrange(150, 700)
        if n > 100: cap = 6
        if i % 7 == 0: n = rng.randrange(1, 12)
        if i % 60 == 11:      # more ids than a byte can count
            nm = rng.choice(("e", "p")); ops += [{"o": "add", "v": [nm, L(G.hexs(rng))]} for _ in range(rng.choice((257, 258, 300, 520)))]; n = 3
        for _ in range(n):
            if rng.random() < .12: ops.append({"o": "addbad", "how": rng.randrange(3)})
            elif rng.random() < .08: ops.append({"o": "addoom", "v": [L(x) for x in self.tag(rng, cap)], "at": rng.randrange(1, 4)})
            else: ops.append({"o": "add", "v": [L(x) for x in self.tag(rng, cap)]})
            if rng.random() < .25:
                k = rng.choice(("content", "content", "contentself", "contentoom", "contentbad", "derive")); ops.append({"o": k})
                if k in ("content", "contentoom"): ops[-1]["v"] = L(G.text(rng, cap))
            if rng.random() < (.3 if n < 100 else .02): ops.append({"o": "dump"})
        if rng.random() < .15:      # one value that alone exceeds several arena doublings
            ops.insert(rng.randrange(1, len(ops) + 1), {"o": "add", "v": ["big", "x" * rng.randrange(900, 9000)]})
        return ops

    def run(self, ops, rng, mx):
        api = self.api; out = []; e = 0
        if mx is not None:
            cfg = api.new("nostr_config"); cp = ctypes.addressof(cfg); api.call("nostr_config_get_defaults", P(cp))
            mx, mv = mx; api.set(cp, "nostr_config", "max_tags", mx); api.set(cp, "nostr_config", "max_tag_values", mv)
            out.append({"o": "config", "max": mx, "maxv": mv, "r": api.call("nostr_config_update", P(cp))})
        for op in ops:
            op = dict(op); o = op["o"]; op.pop("r", None); self.note(str(op)[:2000])
            if o == "new":
                if e: api.ev_free(e)
                e = api.ev_new()
            elif o == "add":
                op["r"] = api.ev_add(e, [x.encode("latin1") for x in op["v"]])
            elif o == "addoom":
                api.lib.vf_oom_arm(ctypes.c_long(op.pop("at", 1)))
                op["r"] = api.ev_add(e, [x.encode("latin1") for x in op["v"]])
                api.lib.vf_oom_disarm()
            elif o == "addbad":
                how = op.pop("how", 0)
                a = (ctypes.c_char_p * 3)(b"e", None, b"x") if how else (ctypes.c_char_p * 1)(b"e")
                op["r"] = api.call("nostr_event_add_tag", P(e), a, ctypes.c_size_t([0, 2, 3][how]))
            elif o in ("content", "contentoom"):
                if o == "contentoom": api.lib.vf_oom_arm(ctypes.c_long(1))
                op["r"] = api.ev_content(e, op["v"].encode("latin1")); api.lib.vf_oom_disarm()
            elif o == "contentself":
                cp = api.ev_get(e, "content")
                if not cp: continue
                op["r"] = api.call("nostr_event_set_content", P(e), P(cp))
            elif o == "contentbad": op["r"] = api.call("nostr_event_set_content", P(e), P(None))
            elif o == "derive":
                k = rng.randrange(3); b = ctypes.create_string_buffer(4000); ln = ctypes.c_size_t(0)
                if k == 0: api.call("nostr_event_compute_id", P(e))
                elif k == 1: api.call("nostr_event_sign", P(e), ctypes.create_string_buffer(bytes(31) + b"\7", 32))
                else: api.call("nostr_event_serialize_canonical", P(e), b, ctypes.c_size_t(4000), ctypes.byref(ln))
            elif o == "dump":
                op["v"] = self.dump(e)
            if o.startswith("content") or o == "derive": out.append(op); op = {"o": "text", "v": self.text(e)}
            out.append(op)
        # every accessor, on the final list
        tags = self.dump(e); out.append({"o": "dump", "v": tags})
        out += self.queries(e, tags, rng)
        out.append({"o": "dump", "v": self.dump(e)}); out.append({"o": "text", "v": self.text(e)})
        api.ev_free(e)
        return {"ops": out}

    def dump(self, e): return [[L(x) for x in t] for t in self.api.ev_tags(e)]
    def text(self, e): return self.opt(self.api.ev_get(e, "content"))
    def opt(self, p): return [L(self.api.cstr(p))] if p else []

    def queries(self, e, tags, rng):
        api = self.api; q = []
        n = api.call("nostr_event_get_tag_count", P(e), res=ctypes.c_size_t); q.append({"o": "count", "r": n})
        names = {t[0] for t in tags}; names = sorted(names)
        names = rng.sample(names, min(6, len(names))) + ["e", "p", "d", "zz", ""] + [(x[:-1] if rng.random() < .5 else x + "n") for x in names if len(x) > 12][:2]
        for nm in names:
            b = nm.encode("latin1")
            q.append({"o": "get", "name": nm, "v": self.opt(api.ptr("nostr_event_get_tag_value", P(e), b))})
            q.append({"o": "has", "name": nm, "r": bool(api.call("nostr_event_has_tag", P(e), b, res=ctypes.c_bool))})
            tp = api.ptr("nostr_event_find_tag", P(e), b)
            q.append({"o": "find", "name": nm, "v": [self.tagof(tp)] if tp else []})
            for mx in {1, 2, rng.randrange(1, 40), 2000}:
                a = (ctypes.c_void_p * mx)()
                k = api.call("nostr_event_get_tag_values", P(e), b, a, ctypes.c_size_t(mx), res=ctypes.c_size_t)
                q.append({"o": "getall", "name": nm, "max": mx, "v": [L(api.cstr(a[i])) for i in range(min(k, mx))]})
        q.append({"o": "get", "name": "d", "v": self.opt(api.ptr("nostr_event_get_d_tag", P(e)))})
        it = api.new("nostr_tag_iterator_t"); api.call("nostr_tag_iterator_init", it, P(e)); v = []
        while True:
            c = ctypes.c_size_t(77); p = api.ptr("nostr_tag_iterator_next", it, ctypes.byref(c))
            if not p or len(v) > len(tags) + 2: break
            v.append([L(x) for x in api.strs(p, c.value)])
        q.append({"o": "iter", "v": v})
        api.call("nostr_tag_iterator_init", it, P(e)); v = []; ti = api.new("nostr_tag_info_t", 0xAA); tp = ctypes.addressof(ti)
        while api.call("nostr_tag_iterator_next_info", it, ti, res=ctypes.c_bool) and len(v) < len(tags) + 2:
            c = api.get(tp, "nostr_tag_info_t", "values_count"); vp = api.get(tp, "nostr_tag_info_t", "values")
            v.append([L(api.cstr(api.get(tp, "nostr_tag_info_t", "name"))), [L(x) for x in api.strs(vp, c)] if c else []])
        q.append({"o": "iterinfo", "v": v})
        for i in {0, len(tags) - 1, len(tags), rng.randrange(len(tags) + 3), 2 ** 31 - 1}:
            if i < 0: continue
            c = ctypes.c_size_t(77); p = api.ptr("nostr_event_get_tag_at", P(e), ctypes.c_size_t(i), ctypes.byref(c))
            q.append({"o": "at", "i": i, "v": [[L(x) for x in api.strs(p, c.value)]] if p else []})
            tp = api.ptr("nostr_event_get_tag", P(e), ctypes.c_size_t(i))
            q.append({"o": "at", "i": i, "v": [self.tagof(tp)] if tp else []})
            for j in (0, 1, rng.randrange(6)):
                p = api.ptr("nostr_tag_get_value", P(tp or None), ctypes.c_size_t(j))
                q.append({"o": "value", "i": i, "j": j, "v": self.opt(p)})
            if tp:
                q.append({"o": "tagacc", "i": i, "name": self.opt(api.ptr("nostr_tag_get_name", P(tp))), "n": api.call("nostr_tag_get_value_count", P(tp), res=ctypes.c_size_t)})
        for nm in ("e", "p"):
            c = ctypes.c_size_t(77); p = api.ptr("nostr_event_get_%s_tags_binary" % nm, P(e), ctypes.byref(c))
            q.append({"o": "binary", "name": nm, "v": [api.rd(p + 32 * i, 32).hex() for i in range(c.value)] if p else []})
            if p: api.free(p)
        for nm in (b"", b"e", b"E", b"z", b"Z", b"a", b"A", b"1", b"ee", b"\xe9", b"@", b"[", b"`", b"{", bytes([rng.randrange(1, 256)])):
            r = bool(api.call("nostr_tag_is_indexable", nm, res=ctypes.c_bool))
            q.append({"o": "indexable", "one": len(nm) == 1, "letter": nm.isascii() and nm.isalpha(), "r": r})
        return q

    def tagof(self, tp):
        api = self.api
        return [L(x) for x in api.strs(api.get(tp, "nostr_tag", "values"), api.get(tp, "nostr_tag", "count"))]
