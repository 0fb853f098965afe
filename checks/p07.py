import ctypes, json
from vf.framework import Check
from vf import gen as G, filters as F, jsongen as J
from vf.api import P, L, B, BIG

class CHECK(Check):
    id = "P07"
    variants = ["ossl"]
    trace = "T_FilterJson"
    mc = [("MC_FilterJson", "MC_FilterJson.cfg", {"workers": 2})]
    gen = [("MC_FilterJson", "Gen_FilterJson.cfg", {"simulate": lambda c: "num=%d" % c.scale(60, 1500)})]
    assumptions = ["filter members have their proper JSON types (the parser skips wrongly typed ones); since and until are numbers a double holds exactly; no duplicate members; strings without NUL"]

    def behaviours(self, api, rng, w, n, gen):
        api.lib.vf_oom_hook_cjson()
        for g in gen:
            yield self.run([dict(x, src=dict(self.fs(x["src"]))) if x["o"] == "parse" else x for x in g], rng)
        for i in range(self.scale(170, 4000)): yield self.run(self.rand(rng, i), rng)
    def fs(self, f):
        num = lambda n: int("".join(map(str, n["d"])))
        return dict(f, since=num(f["since"]), until=num(f["until"]), g=[(x["n"], x["v"]) for x in f["g"]])

    def filt(self, rng):
        p = rng.choice((.2, .5, .8)); hx = lambda n: G.hexs(rng, n).decode()
        some = lambda g, mx=5: [g() for _ in range(rng.randrange(0, mx))] if rng.random() < p else []
        def pre():
            r = rng.random()
            return hx(rng.choice((1, 2, 63, 64, rng.randrange(1, 65)))) if r < .9 else rng.choice(("", hx(65), hx(10).upper(), hx(63) + "g", " " + hx(4), "0x12", J.utext(rng, 20), "G", "/", ":", "`"))
        def full(): return hx(64) if rng.random() < .93 else rng.choice((hx(63), hx(65), hx(63) + "A", hx(63) + "g", "", hx(62) + "é", hx(32)))
        def when():
            if rng.random() < .8: return G.integer(rng, -2 ** 53 + 1, 2 ** 53 - 1)
            k = rng.randrange(1, 11); return rng.choice((-1, 1)) * rng.randrange(2 ** 52, 2 ** 53) << k if rng.random() < .7 else rng.choice((2 ** 53, 2 ** 62, -2 ** 63, 10 ** 18, 2 ** 63 - 1024))
        f = dict(F.EMPTY, ids=some(pre), authors=some(pre), kinds=some(lambda: G.integer(rng, -2 ** 31, 2 ** 31 - 1)), e=some(full), p=some(full),
                 since=when() if rng.random() < p else 0, until=when() if rng.random() < p else 0,
                 limit=G.integer(rng, -2 ** 31, 2 ** 31 - 1) if rng.random() < p else 0, search=J.utext(rng, 60) if rng.random() < p / 2 else "")
        f["g"] = [(nm, some(lambda: J.utext(rng, 30))) for nm in rng.sample("tTdDaArkqgEPzZ", rng.randrange(0, 5))] if rng.random() < p else []
        r = rng.random()
        if r < .1:
            k = rng.choice(("ids", "authors", "kinds", "e", "p", "g")); n = rng.choice((255, 256, 257, 258, 300, 512))
            if k == "kinds": f[k] = list(range(n))
            elif k == "g": f["g"] = f["g"][:2] + [("m", ["v%d" % i for i in range(n)])]
            elif k in ("ids", "authors"): f[k] = ["%04x" % i for i in range(n)]
            else: f[k] = ["%064x" % i for i in range(n)]
        elif r < .2:
            k = rng.choice(("ids", "authors", "e", "p")); n = rng.choice((8, 16, 17, 20, 33, 64, 65, 100, 129)); f[k] = ["%064x" % i if k in "ep" else "%04x" % i for i in range(n)]
        elif r < .22: f["search"] = "s" * rng.choice((65535, 65536, 65537))
        for k in ("ids", "authors", "e", "p"):       # something wrong far down a list
            if len(f[k]) > 7 and rng.random() < .4: f[k][rng.choice((-1, rng.randrange(len(f[k]))))] = rng.choice((full, pre))() if rng.random() < .3 else rng.choice((hx(63) + "g", "xyz", hx(65), hx(12) + " "))
        return f
    def rand(self, rng, i):
        ops = []; live = []; nx = 0
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < .45 or not live:
                nx += 1; ops.append(dict(o=rng.choice(("parse", "parse", "parse", "parseoom")), h=str(nx), src=self.filt(rng))); live.append(str(nx)) if ops[-1]["o"] == "parse" else None
            elif r < .6: nx += 1; ops.append(dict(o="clone", h=rng.choice(live), h2=str(nx))); live.append(str(nx))
            elif r < .68: nx += 1; ops.append(dict(o="cloneoom", h=rng.choice(live), h2=str(nx)))
            elif r < .8: h = rng.choice(live); live.remove(h); ops.append(dict(o="free", h=h))
            elif r < .88: ops.append(dict(o="garbage"))
            else: ops.append(dict(o="read", h=rng.choice(live)))
        return ops

    def run(self, ops, rng):
        api = self.api; out = []; live = {}
        def fresh(): return api.new("nostr_filter_t", 0xAA)
        def rd(f): return F.read(api, ctypes.addressof(f))
        for op in ops:
            o = op["o"]; self.note(str(op)[:3000])
            if o in ("parse", "parseoom"):
                txt = J.render(F.obj(op["src"], rng), rng).encode("utf8"); f = fresh()
                b = api.ptr("vf_malloc", ctypes.c_size_t(len(txt) + 1)); api.wr(b, txt + b"\0")
                if o == "parseoom": api.lib.vf_oom_arm(ctypes.c_long(rng.randrange(1, 60)))
                if rng.random() < .5: rc = api.call("nostr_filter_parse", P(b), ctypes.c_size_t(len(txt)), f)
                else: rc = api.call("nostr_filter_parse", P(b), ctypes.c_size_t(0), f)
                api.lib.vf_oom_disarm(); api.free(b)
                out.append(dict(o=o, h=op["h"], src=F.spec(op["src"]), r=rc, f=rd(f)))
                if rc == 0: live[op["h"]] = f
                if rc == 0 and len(out[-1]["f"]["ids"]) < 300: out += self.queries(op["h"], f, rng)
            elif o == "garbage":
                t = J.render(F.obj(self.filt(rng), rng), rng).strip().encode("utf8"); f = fresh(); k = rng.randrange(5); n = 0
                if k == 0: t = t[:rng.randrange(0, len(t))]
                elif k == 1: t = rng.choice((b"", b" ", b"[]", b"5", b"\"x\"", b"null", b"true", b"{", b"{]", b"{\"ids\"}", b"[{}]", b"{\"kinds\":[1,}"))
                elif k == 2: t = t[:-1]
                elif k == 3: n = rng.randrange(1, len(t))
                else: t = b"[" + t + b"]"
                if n:
                    b = api.ptr("vf_malloc", ctypes.c_size_t(n)); api.wr(b, t[:n]); rc = api.call("nostr_filter_parse", P(b), ctypes.c_size_t(n), f); api.free(b)
                else: rc = api.call("nostr_filter_parse", t, ctypes.c_size_t(len(t)), f)
                out.append(dict(o="garbage", r=rc, f=rd(f)))
            elif o in ("clone", "cloneoom"):
                if op["h"] not in live: continue
                f = fresh()
                if o == "cloneoom": api.lib.vf_oom_arm(ctypes.c_long(rng.randrange(1, 20)))
                rc = api.call("nostr_filter_clone", f, live[op["h"]]); api.lib.vf_oom_disarm()
                out.append(dict(o=o, h=op["h"], h2=op["h2"], r=rc, f=rd(f)))
                if rc == 0:
                    live[op["h2"]] = f
                    out += self.queries(op["h2"], f, rng)
            elif o == "free":
                if op["h"] not in live: continue
                f = live.pop(op["h"]); api.call("nostr_filter_free", f); out.append(dict(o="free", h=op["h"], f=rd(f)))
            elif o == "read":
                if op["h"] in live: out.append(dict(o="read", h=op["h"], f=rd(live[op["h"]])))
        for h, f in live.items():
            out.append(dict(o="read", h=h, f=rd(f))); api.call("nostr_filter_free", f)
        return {"ops": out}

    def queries(self, h, f, rng):
        api = self.api; q = []; n = ctypes.c_size_t(99)
        for nm in ("ids", "authors", "e_tags", "p_tags"):
            p = api.ptr("nostr_filter_get_" + nm, f, ctypes.byref(n)); q.append(dict(o="acc", h=h, name=nm, v=[L(x) for x in api.strs(p, n.value)]))
        p = api.ptr("nostr_filter_get_kinds", f, ctypes.byref(n)); q.append(dict(o="acc", h=h, name="kinds", v=api.i32s(p, n.value)))
        for nm in ("since", "until"): q.append(dict(o="acc", h=h, name=nm, v=BIG(api.call("nostr_filter_get_" + nm, f, res=ctypes.c_int64))))
        q.append(dict(o="acc", h=h, name="limit", v=api.call("nostr_filter_get_limit", f, res=ctypes.c_int32)))
        p = api.ptr("nostr_filter_get_search", f); q.append(dict(o="acc", h=h, name="search", v=L(api.cstr(p)) if p else ""))
        for nm in ("has_search", "has_tag_filters"): q.append(dict(o="acc", h=h, name=nm, v=bool(api.call("nostr_filter_" + nm, f, res=ctypes.c_bool))))
        for c in "ep" + "".join(rng.sample("tTdDaArkqgEPzZm", 4)):
            p = api.ptr("nostr_filter_get_tag_values", f, ctypes.c_char(c.encode()), ctypes.byref(n)); q.append(dict(o="tagacc", h=h, name=c, v=[L(x) for x in api.strs(p, n.value)] if n.value else []))
        res = api.new("nostr_validation_result_t", 0xAA); rp = ctypes.addressof(res)
        rc = api.call("nostr_filter_validate", f, res)
        q.append(dict(o="validate", h=h, r=rc, valid=bool(api.get(rp, "nostr_validation_result_t", "valid")), field=L(api.getb(rp, "nostr_validation_result_t", "error_field").split(b"\0")[0])))
        return q
