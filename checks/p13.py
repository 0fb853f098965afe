import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, L

class CHECK(Check):
    id = "P13"
    variants = ["ossl"]
    trace = "T_Threads"
    mc = [("MC_Threads", "MC_Threads.cfg", {"workers": 2})]
    gen = [("MC_Threads", "Gen_Threads.cfg", {})]
    assumptions = ["where several e tags mix marked and unmarked forms without the mark asked for, any reading consistent with NIP-10 is accepted; texts without NUL"]
    NUL = "null"

    def behaviours(self, api, rng, w, n, gen):
        rng.shuffle(gen)
        for g in gen[:self.scale(200, 5000)]: yield self.run(g, rng)
        for _ in range(self.scale(260, 6000)): yield self.run(self.rand(rng), rng)
    def idv(self, rng):
        r = rng.random()
        return G.hexs(rng, 64).decode() if r < .7 else rng.choice(("", "1", "x" * 63, "y" * 64, "z" * 65, "w" * 200)) if r < .9 else L(G.text(rng, 90))
    def relay(self, rng): return rng.choice(("", "wss://relay.example", "wss://" + "r" * rng.choice((10, 200, 247, 248, 249, 250, 251, 300)), L(G.text(rng, 300))))
    def rand(self, rng):
        ops = []
        if rng.random() < .05: ops = [dict(o="tag", t=["e", "%d" % i, self.relay(rng)[:20]] + [rng.choice(("", "mention", "rep"))] * rng.randrange(2), q=False) for i in range(rng.choice((7, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300)))]
        for _ in range(rng.randrange(1, 9)):
            r = rng.random(); opt = lambda f: f() if rng.random() < .7 else self.NUL
            if r < .6:
                k = rng.random(); mk = rng.choice(("root", "reply", "mention", "", "Root", "roots", "rep", "root" + "x" * 12, "x" * 20, "reply" + "y" * 11))
                t = ["e"] if k < .05 else ["e", self.idv(rng)] if k < .25 else ["e", self.idv(rng), self.relay(rng)] if k < .4 else ["e", self.idv(rng), self.relay(rng), mk] + (["pk"] if rng.random() < .3 else []) if k < .9 else [rng.choice(("p", "E", "ee", "a", "")), self.idv(rng), "", rng.choice(("root", "reply"))]
                ops.append(dict(o="tag", t=t))
            elif r < .85: ops.append(dict(o="answer", root=opt(lambda: self.idv(rng)), reply=opt(lambda: self.idv(rng)), rrelay=opt(lambda: self.relay(rng)), prelay=opt(lambda: self.relay(rng)), rpk=opt(lambda: self.idv(rng)), ppk=opt(lambda: self.idv(rng))))
            else: ops.append(dict(o="mention", pk=self.idv(rng), relay=opt(lambda: self.relay(rng))))
        return ops
    def run(self, ops, rng):
        api = self.api; e = api.ev_new(); out = [dict(o="new")]; enc = lambda s: None if s == self.NUL else s.encode("latin1")
        for op in ops:
            o = op["o"]; d = dict(op); ask = d.pop("q", True); self.note(str(ops)[:3000])
            if o == "tag": d["r"] = api.ev_add(e, [enc(v) for v in op["t"]])
            elif o == "answer": d["r"] = api.call("nostr_event_add_reply_tags", P(e), *[enc(op[k]) for k in ("root", "rrelay", "rpk", "reply", "prelay", "ppk")])
            elif o == "mention": d["r"] = api.call("nostr_event_add_mention_tag", P(e), enc(op["pk"]), enc(op["relay"]))
            out.append(d)
            if not ask: continue
            for q in ("root", "reply"):
                cap = rng.choice((0, 1, 2, 20, 255, 256, 257, 400)); size = rng.choice((65, 65, 66, 100)); small = rng.random() < .1
                if small: size = rng.choice((0, 1, 64))
                b = api.ptr("vf_malloc", ctypes.c_size_t(max(1, size))); api.wr(b, b"\xAA" * size); rb = api.ptr("vf_malloc", ctypes.c_size_t(max(1, cap))); api.wr(rb, b"\xAA" * cap)
                r = api.call("nostr_event_get_%s_id" % q, P(e), P(b), ctypes.c_size_t(size), P(rb) if cap else None, ctypes.c_size_t(cap))
                it = api.rd(b, size); rt = api.rd(rb, cap); api.free(b); api.free(rb)
                if small: out.append(dict(o="small", r=r)); continue
                tx = lambda t: L(t[:t.find(b"\0")] if b"\0" in t else t + b"(no end)")
                out.append(dict(o=q, cap=cap, r=r, id=tx(it) if r == 0 else "", relay=tx(rt) if cap and r == 0 else ""))
            x = ctypes.c_int(77); r = api.call("nostr_event_is_reply", P(e), ctypes.byref(x)); out.append(dict(o="isreply", r=bool(x.value) if r == 0 and x.value in (0, 1) else "error"))
        out.append(dict(o="tags", tags=[[L(v) for v in t] for t in api.ev_tags(e)])); api.ev_free(e)
        return {"ops": out}
