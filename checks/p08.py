import ctypes, json
from vf.framework import Check
from vf import gen as G, filters as F, jsongen as J, evjson as EJ
from vf.api import P, L, B, BIG
from checks.p07 import CHECK as P07
TYPES = ["EVENT", "REQ", "CLOSE", "AUTH", "COUNT"]

class CHECK(Check):
    id = "P08"
    variants = ["ossl"]
    trace = "T_ClientMsg"
    mc = [("MC_ClientMsg", "MC_ClientMsg.cfg", {"workers": 2})]
    gen = [("MC_ClientMsg", "Gen_ClientMsg.cfg", {"simulate": lambda c: "num=%d" % c.scale(10, 200)})]
    assumptions = ["as for P03 and P07; elements after the last one a message needs are not judged"]

    def behaviours(self, api, rng, w, n, gen):
        api.lib.vf_oom_hook_cjson()
        p7 = P07(self.tier, self.seed)
        num = lambda n: int("".join(map(str, n["d"])))
        for g in gen[:self.scale(120, 5000)]:
            ops = []
            for x in g:
                try: sub = bytes(x["src"]["sub"]).decode("utf8")
                except UnicodeDecodeError: continue
                ops.append((x["o"], sub, [p7.fs(f) for f in x["src"]["filters"]]))
            yield self.run(ops, rng)
        for i in range(self.scale(200, 5000)):
            ops = []
            for _ in range(rng.randrange(2, 9)):
                r = rng.random()
                if r < .25: ops.append((rng.choice(("EVENT", "AUTH")), EJ.source(rng, rng.random() < .7)))
                elif r < .65: ops.append((rng.choice(("REQ", "REQ", "COUNT")), self.sub(rng), [self.filt(p7, rng) for _ in range(rng.choice((0, 1, 1, 2, 3, 9, 10, 11)))]))
                elif r < .75: ops.append(("CLOSE", self.sub(rng), []))
                elif r < .9: ops.append(("bad",))
                else: ops.append(("oom", rng.choice((("EVENT", EJ.source(rng)), ("REQ", "s1", [self.goodf(p7, rng)])))))
            yield self.run(ops, rng)
    def goodf(self, p7, rng):
        while True:
            f = p7.filt(rng)
            if all(1 <= len(x) <= 64 and set(x) <= set("0123456789abcdef") for x in f["ids"] + f["authors"]) and all(len(x) == 64 and set(x) <= set("0123456789abcdef") for x in f["e"] + f["p"]): return f
    def filt(self, p7, rng): return self.goodf(p7, rng) if rng.random() < .85 else p7.filt(rng)
    def sub(self, rng):
        r = rng.random()
        if r < .5: return rng.choice(("a", "s1", "sub:2", " ", "~"))
        if r < .8: return "".join(chr(rng.randrange(32, 127)) for _ in range(rng.choice((1, 2, 63, 64, rng.randrange(1, 65)))))
        return rng.choice(("", "x" * 65, "x" * 66, "x" * 300, "a\x1f", "\x7f", "a\n", "é", "x" * 63 + "é", "\t", "a\u0080"))

    def parse(self, txt, rng, oom=0):
        api = self.api; m = api.new("nostr_client_msg_t", 0xAA)
        b = api.ptr("vf_malloc", ctypes.c_size_t(max(1, len(txt)))); api.wr(b, txt)
        self.note(repr(txt)[:3000])
        if oom: api.lib.vf_oom_arm(ctypes.c_long(oom))
        if rng.random() < .6 and txt: rc = api.call("nostr_client_msg_parse", P(b), ctypes.c_size_t(len(txt)), m)
        else: rc = api.call("nostr_client_msg_parse", txt + b"\0", ctypes.c_size_t(0), m)
        api.lib.vf_oom_disarm(); api.free(b)
        t = api.call("nostr_client_msg_get_type", m); ep = api.ptr("nostr_client_msg_get_event", m); sp = api.ptr("nostr_client_msg_get_subscription_id", m)
        n = ctypes.c_size_t(55); fp = api.ptr("nostr_client_msg_get_filters", m, ctypes.byref(n)); sz = api.size("nostr_filter_t")
        o = dict(r=rc, type=TYPES[t] if 0 <= t < 5 else "none", hasEvent=bool(ep), hasSub=bool(sp), sub=B(api.cstr(sp)) if sp else [],
                 got=[F.read(api, fp + i * sz) for i in range(n.value)] if n.value < 100 else "count %d" % n.value)
        if ep: o["ev"] = EJ.read(api, ep)
        return o, m
    def obj(self, op, rng):
        if op[0] in ("EVENT", "AUTH"): return [op[0], EJ.obj(op[1])]
        return [op[0], op[1]] + [F.obj(f, rng) for f in op[2]]
    def run(self, ops, rng):
        api = self.api; out = []; live = {}
        for op in ops:
            o = op[0]; oom = 0
            if o == "bad": txt = self.bad(rng)
            elif o == "oom": txt = J.render(self.obj(op[1], rng), rng).encode("utf8"); oom = rng.randrange(1, 80)
            else: txt = J.render(self.obj(op, rng), rng).encode("utf8")
            d, m = self.parse(txt, rng, oom); d["o"] = o; keep = False
            if o in ("EVENT", "AUTH"): d["src"] = EJ.rec(op[1])
            elif o == "oom":
                x = op[1]
                d["src"] = dict(o=x[0], ev=EJ.rec(x[1])) if x[0] == "EVENT" else dict(o="REQ", sub=B(x[1].encode()), filters=[F.spec(f) for f in x[2]])
            elif o != "bad":
                d["src"] = dict(sub=B(op[1].encode("utf8")), filters=[F.spec(f) for f in op[2]])
                if d["r"] == 0 and d["hasSub"]:
                    k = bytes(d["sub"])
                    if o == "REQ":
                        if k in live: api.call("nostr_client_msg_free", live.pop(k))
                        live[k] = m; keep = True
                    elif o == "CLOSE" and k in live: api.call("nostr_client_msg_free", live.pop(k))
            if not keep: api.call("nostr_client_msg_free", m)
            out.append(d)
            if o != "oom": out.append(dict(o="open", subs=[B(k) for k in live]))
        for m in live.values(): api.call("nostr_client_msg_free", m)
        return {"ops": out}
    def bad(self, rng):
        k = rng.randrange(8); ev = json.dumps({"id": "0" * 64, "pubkey": "0" * 64, "sig": "0" * 128, "kind": 1, "created_at": 1, "content": "", "tags": []})
        if k == 0: return rng.choice((b"", b"{}", b"[]", b"5", b"null", b"\"REQ\"", b"[[]]", b"[1,2]", b"[null]", b"[{}]", b"{\"0\":\"REQ\"}", b"["))
        if k == 1: return json.dumps([rng.choice(("EVENT", "REQ", "CLOSE", "AUTH", "COUNT"))]).encode()
        if k == 2: return json.dumps([rng.choice(("event", "Req", "EVENTS", "REQ ", "", "EOSE", "OK", "NOTICE", "CLOSED", "RE", "COUN", "AUTHX")), "s1", {}]).encode()
        if k == 3: return json.dumps([rng.choice(("REQ", "CLOSE", "COUNT")), rng.choice((5, None, {}, [], True, ["s"])), {}]).encode()
        if k == 4: t = ('["EVENT",%s]' % ev).encode(); return t[:rng.randrange(1, len(t))]
        if k == 5: return json.dumps([rng.choice(("REQ", "COUNT")), "s1", rng.choice((5, "x", None, [], [{}], True))]).encode()
        if k == 6: return json.dumps([rng.choice(("EVENT", "AUTH")), rng.choice((5, "x", None, [], ev))]).encode()
        return ('["REQ","s1",{"kinds":[1]}' + rng.choice(("", "}}", ",", ",{", " x]", ";]", "]"[:0] + " "))).encode()
