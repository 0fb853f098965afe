import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B
T = "nostr_relay_list"; E = "nostr_relay_list_entry"; NOW = 1700000000

class CHECK(Check):
    id = "P16"
    variants = ["ossl"]
    trace = "T_RelayList"
    mc = [("MC_RelayList", "MC_RelayList.cfg", {"workers": 2})]
    gen = [("MC_RelayList", "Gen_RelayList.cfg", {})]
    seen = []
    assumptions = ["texts without NUL"]

    def behaviours(self, api, rng, w, n, gen):
        rng.shuffle(gen); api.time_set(NOW)
        for g in gen[:self.scale(150, 4000)]:
            yield self.run([("add", bytes(x["url"]), x["read"], x["write"]) if x["o"] == "add" else ("from", x["kind"], [[bytes(v) for v in t] for t in x["tags"]]) for x in g], rng)
        for _ in range(self.scale(90, 3000)): yield self.run(self.rand(rng), rng)
        if w < 4: yield self.run(self.big(rng), rng)
    def url(self, rng):
        if self.seen and rng.random() < .3: u = self.near(rng, rng.choice(self.seen))
        else: u = self.fresh(rng)
        self.seen = (self.seen + [u])[-12:]; return u
    def near(self, rng, u):
        k = rng.randrange(8)
        if k < 3: return u + rng.choice((b"/", b"?a", b"#a", b"?a=1", b"?a=2", b"/x", b"//", b":443", b":80", b".", b"?", b"#", b" ", b"%20"))
        if k == 3: return u[:-1]
        if k == 4: return u.upper()
        if k == 5: return (b"ws" + u[3:] if u.startswith(b"wss:") else b"wss" + u[2:]) if u.startswith(b"ws") else u
        return G.near(rng, u)
    def fresh(self, rng):
        r = rng.random()
        if r < .55: return b"wss://relay%d.example" % rng.randrange(9)
        if r < .7: return rng.choice((b"ws://", b"wss://")) + G.text(rng, 60)
        if r < .8: return b"wss://" + b"h" * rng.choice((1, 2, 2040, 2041, 2042, 2043, 2044, 3000))
        return rng.choice((b"", b"ws://", b"wss://", b"ws:/x", b"wss:/", b"WSS://x", b"http://x", b"https://x", b"ws", b" wss://x", b"wss:// x", b"wss:///x", b"wss://:80", b"ws://?x", b"wss://#x", b"ws://@x", b"ws:///", b"wss://x y", b"ws://wss://x", b"wsss://x", b"wss//x"))
    def tag(self, rng):
        if rng.random() < .85: return [b"r", self.url(rng)] + [[], [b"read"], [b"write"], [rng.choice((b"", b"Read", b"readwrite", b"write ", b"reads", b"x"))], [b"read", b"write"]][rng.randrange(5)]
        return rng.choice(([b"r"], [b"R", b"wss://a"], [b"e", b"wss://a", b"read"], [b"relay", b"wss://a"], [b"", b"wss://a"]))
    def rand(self, rng):
        ops = []; self.seen = []
        for _ in range(rng.randrange(1, 12)):
            r = rng.random()
            if r < .65: ops.append(("add", self.url(rng), rng.random() < .6, rng.random() < .6))
            elif r < .8: ops.append(("again",))
            else: ops.append(("from", rng.choice((10002, 10002, 10002, 10001, 2, 30002)), [self.tag(rng) for _ in range(rng.choice((0, 1, 3, 8, 9, 20)))]))
        return ops
    def big(self, rng):
        n = rng.choice((255, 256, 257)); ops = [("add", b"wss://r%d" % i, i % 3 != 0, i % 3 != 1) for i in range(n)] + [("add", b"wss://one.more", True, True), ("add", b"wss://r3", True, True), ("again",)]
        return ops + [("from", 10002, [[b"r", b"wss://q%d" % i] for i in range(rng.choice((256, 257, 300)))])]
    def run(self, ops, rng):
        api = self.api; now = rng.choice((NOW, 0, 2 ** 31 + 5, 2 ** 32 + 7, 4102444800)); api.time_set(now); lp = P(); r = api.call("nostr_relay_list_create", ctypes.byref(lp)); out = [dict(o="create", r=r)]; big = len(ops) > 200
        for k, op in enumerate(ops):
            self.note("%r of %r" % (op, ops[:15])); o = op[0]; oom = rng.randrange(1, 25) if rng.random() < .08 and not (big and o == "add") else 0
            arm = lambda: oom and api.lib.vf_oom_arm(ctypes.c_long(oom)); dis = lambda: bool(oom and api.lib.vf_oom_disarm())
            if o == "add":
                c = op[1].replace(b"\0", b""); arm(); r = api.call("nostr_relay_list_add", lp, c, ctypes.c_bool(op[2]), ctypes.c_bool(op[3])); m = dis()
                out.append(dict(o="add", url=B(c), read=op[2], write=op[3], r=r, oom=m))
            else:
                if o == "from":
                    e = api.ev_new(); api.ev_set(e, "kind", op[1])
                    for t in op[2]: api.ev_add(e, [v.replace(b"\0", b"") for v in t])
                else:
                    ep = P(); arm(); r = api.call("nostr_relay_list_to_event", lp, ctypes.byref(ep)); m = dis(); e = ep.value
                    if r == 0:
                        d = api.ev_read(e); out.append(dict(o="to", r=r, oom=m, kind=d["kind"], content=B(b"!" if d["content"] is None else d["content"]), atok=d["created_at"] == now, tags=[[B(v) for v in t] for t in d["tags"]]))
                    else: out.append(dict(o="to", r=r if not e else 0, oom=m, kind=0, content=[], atok=True, tags=[])); continue
                    oom = 0
                np = P(); arm(); r = api.call("nostr_relay_list_from_event", P(e), ctypes.byref(np)); m = dis()
                out.append(dict(o="from", kind=api.ev_get(e, "kind"), tags=[[B(v) for v in t] for t in api.ev_tags(e)], r=r, oom=m)); api.ev_free(e)
                if r == 0: api.call("nostr_relay_list_free", lp); lp = np
            if not big or k % 50 == 0 or k > len(ops) - 4:
                n = api.call("nostr_relay_list_count", lp, res=ctypes.c_size_t); l = []
                for i in range(n):
                    p = api.ptr("nostr_relay_list_get", lp, ctypes.c_size_t(i)); l.append(dict(url=B(api.cstr(api.get(p, E, "url"))), read=bool(api.get(p, E, "read")), write=bool(api.get(p, E, "write"))))
                out.append(dict(o="list", n=n, l=l, beyond=not api.ptr("nostr_relay_list_get", lp, ctypes.c_size_t(n)) and not api.ptr("nostr_relay_list_get", lp, ctypes.c_size_t(2 ** 64 - 1))))
                for f in ("read", "write"):
                    up = P(1); uc = ctypes.c_size_t(999); oom = rng.randrange(1, 9) if rng.random() < .1 else 0; arm(); r = api.call("nostr_relay_list_get_%s_relays" % f, lp, ctypes.byref(up), ctypes.byref(uc)); m = dis()
                    out.append(dict(o="urls", f=f, r=r, oom=m, l=[B(x) for x in api.strs(up.value, uc.value)] if r == 0 else []))
                    if r == 0: api.call("nostr_relay_list_free_urls", up, uc)
        api.call("nostr_relay_list_free", lp)
        return {"ops": out}
