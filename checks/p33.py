import ctypes, hashlib, json
from vf.framework import Check
from vf import gen as G, filters as F, jsongen as J, evjson as EJ
from vf.api import P, B
from checks.p19 import bech32
from checks import p23, p19
NOW = 1700000000
z = lambda b: None if b is None else b.replace(b"\0", b"")
def dg(x): return hashlib.sha1(json.dumps(x, default=lambda b: b.hex() if isinstance(b, (bytes, bytearray)) else str(b), sort_keys=True).encode()).hexdigest()[:16]

class CHECK(Check):
    id = "P33"
    variants = ["ossl", "full"]
    trace = "T_Heap"
    mc = [("MC_Heap", "MC_Heap.cfg", {"workers": 3})]
    gen = [("MC_Heap", "Gen_Heap.cfg", {"simulate": lambda c: "num=%d" % c.scale(60, 3000), "extra": ("-depth", "60")})]
    assumptions = ["what a call does when nothing fails is taken from the same call in a run without failures; its meaning is the other properties' business",
                   "memory of libsecp256k1 and inside OpenSSL's own objects is not counted; OpenSSL cipher and BIO objects are"]

    def behaviours(self, api, rng, w, n, gen):
        api.lib.vf_oom_hook_cjson(); api.call("nostr_init"); api.time_set(NOW); self.sk = [bytes(k) for k in G.seckeys(rng, 3)]; self.pk = [api.o_pub(k) for k in self.sk]
        self.E = p23.CHECK(self.tier, self.seed); self.E.api = api; self.Z = p19.CHECK(self.tier, self.seed); self.Z.api = api; self.Z.keys = list(zip(self.sk, self.pk))
        self.ops = {m[3:]: getattr(self, m) for m in dir(self) if m.startswith("op_") and self.usable(m[3:])}
        self.kind = {m: (f.__doc__ or "").split() for m, f in self.ops.items()}   # doc string: kind, type made/changed, types needed...
        self.makers = [m for m in self.ops if self.kind[m][0] == "make"]
        for g in gen[:self.scale(14, 800)]: yield self.run(self.follow(g, rng), rng, "some")
        names = sorted(self.ops)
        for r in range(self.scale(2, 40)):          # every call, every allocation of it failing, alone and from there on
            for i, m in enumerate(names):
                if i % n == w % n or self.tier != "quick": yield self.run(self.story(rng, m), rng, "all")
        for _ in range(self.scale(16, 900)): yield self.run(self.story(rng), rng, "some")
    def usable(self, m): return self.variant == "full" or "full" not in (getattr(self, "op_" + m).__doc__ or "").split()

    # ---- histories: a list of (operation, slot, {type: slot}, seed)
    def need(self, plan, live, t, rng):
        c = [x for x, y in live.items() if y == t]
        if c and rng.random() < .8: return rng.choice(c)
        m = rng.choice([m for m in self.makers if self.kind[m][1] == t]); return self.put(plan, live, m, rng)
    def put(self, plan, live, m, rng, x=None):
        k = [q for q in self.kind[m] if q != "full"]; uses = {}
        for t in k[2:]: uses[t] = self.need(plan, live, t, rng)
        if k[0] == "make": x = x or "x%d" % len(plan); live[x] = k[1]
        elif k[0] in ("change", "extend", "redo"): x = self.need(plan, live, k[1], rng) if x is None else x
        if m == "quotes" and rng.random() < .9: self.put(plan, live, "mentions", rng, x)
        plan.append((m, x, uses, rng.randrange(2 ** 40))); return x
    def story(self, rng, m=None):
        plan = []; live = {}; names = sorted(self.ops)
        if m:
            for _ in range(rng.randrange(3)):
                t = rng.choice([q for q in self.kind[m][1:] if q not in ("full", "-")] or ["event"]); c = [q for q in names if self.kind[q][0] == "change" and self.kind[q][1] == t]
                if c: self.put(plan, live, rng.choice(c), rng)
            self.put(plan, live, m, rng)
        else:
            for _ in range(rng.randrange(4, 16)):
                r = rng.random()
                if r < .12 and live: x = rng.choice(sorted(live)); del live[x]; plan.append(("free", x, {}, 0))
                else: self.put(plan, live, rng.choice(names), rng)
        xs = sorted(live); rng.shuffle(xs); return plan + [("free", x, {}, 0) for x in xs]
    def follow(self, g, rng):
        """a behaviour of the specification: slots and kinds of calls are its, the concrete call is drawn"""
        plan = []; live = {}; names = sorted(self.ops); slot = {}
        for o in g:
            x = slot.get(o["x"]); k = o["k"]; t = live.get(x)
            if k == "make": slot[o["x"]] = self.put(plan, live, rng.choice(self.makers), rng)
            elif k == "free" and t: del live[x]; plan.append(("free", x, {}, 0))
            else:
                c = [q for q in names if self.kind[q][0] == k and (self.kind[q][1] == t if k in ("change", "redo", "extend") else t in self.kind[q])]
                if c:
                    m = rng.choice(c); u = {}
                    for q in [q for q in self.kind[m][2:] if q != "full"]: u[q] = x if q == t and k == "ask" else self.need(plan, live, q, rng)
                    plan.append((m, x if k in ("change", "redo", "extend") else None, u, rng.randrange(2 ** 40)))
        return plan + [("free", x, {}, 0) for x in sorted(live)]

    # ---- running a history: first without failures, then with
    def run(self, plan, rng, how):
        import random
        api = self.api; self.note("%r" % (plan,)); self.world = {}; self.type = {}; ref = []; want = {}
        api.lib.vf_heap_on(1)
        def once(m, x, uses, seed, arm=None):
            self.keep = []; self.left = False; r = random.Random(seed); api.rng_det(seed); objs = {t: self.world[q] for t, q in uses.items()}
            if x in self.world: objs["x"] = self.world[x]
            self.arm = arm or (lambda: api.lib.vf_oom_arm(ctypes.c_long(0)))
            self.fails = 0; self.count = 0; self.live0 = self.keeplive = 0
            ok, val, obj = self.ops[m](r, objs)
            return ok, val, obj
        for m, x, uses, seed in plan:
            if m == "free":
                if x in self.world: self.drop(x)
                ref.append(None); continue
            if any(q not in self.world for q in uses.values()) or (x is not None and self.kind[m][0] != "make" and x not in self.world): ref.append("skip"); continue
            k = self.kind[m]; ok, val, obj = once(m, x, uses, seed); cnt = self.count
            if k[0] == "make":
                if ok: self.world[x] = obj; self.type[x] = k[1]; val = self.value(x)
            elif k[0] in ("change", "extend", "redo"): val = self.value(x)
            ref.append((ok, val, cnt))
        for x in list(self.world): self.drop(x)
        leak = api.call("vf_heap_live", res=ctypes.c_long)
        api.lib.vf_heap_on(1); out = []; self.world = {}; self.type = {}; live = lambda: api.call("vf_heap_live", res=ctypes.c_long); stop = False
        V = lambda v: v if isinstance(v, dict) else dict(tags=[], rest=v, core=v)
        for (m, x, uses, seed), w in zip(plan, ref):
            if stop: break
            if m == "free":
                if x in self.world: self.drop(x); out.append(dict(o="free", f="free", x=x, live=live()))
                continue
            if w == "skip" or any(q not in self.world for q in uses.values()) or (x is not None and self.kind[m][0] != "make" and x not in self.world): continue
            k = self.kind[m][0]; wok, wval, cnt = w; tries = []
            if cnt:
                ats = list(range(1, cnt + 1)) if how == "all" and cnt <= 60 else sorted(rng.sample(range(1, cnt + 1), min(cnt, rng.choice((0, 1, 1, 2, 3)) if how == "some" else 60)))
                for a in ats: tries.append(("vf_oom_arm" if rng.random() < .75 else "vf_oom_arm_from", a))
            if k == "extend": tries = tries[-1:] if not how == "all" else [rng.choice(tries)] if tries else []
            for t in tries + [None]:
                before = self.value(x) if k == "extend" else None
                ok, val, obj = once(m, x, uses, seed, (lambda: getattr(api.lib, t[0])(ctypes.c_long(t[1]))) if t else None)
                d = dict(o=k, f=m, x=x or "", ok=ok, inj=self.fails, want=dict(ok=wok, val=V(wval)), at=list(t) if t else [])
                if k == "make":
                    if ok: self.world[x] = obj; self.type[x] = self.kind[m][1]; d["val"] = V(self.value(x))
                    else: d["val"] = V(""); d["left"] = self.left
                    d["live"] = live()
                elif k in ("change", "extend", "redo"):
                    d["val"] = V(self.value(x)); d["live"] = live()
                else: d.update(val=V(val), live=live(), vals={q: V(self.value(q)) for q in self.world})
                out.append(d)
                if ok: break
                if k == "extend": stop = True; break
        for x in list(self.world): self.drop(x); out.append(dict(o="free", f="free", x=x, live=live()))
        out.append(dict(o="end", live=max(live(), leak))); api.lib.vf_heap_on(0)
        return {"ops": out}
    def c(self, name, *a, res=ctypes.c_int):
        """the call under test, with the failures armed"""
        self.arm(); r = self.api.call(name, *a, res=res); self.count += self.api.call("vf_oom_count", res=ctypes.c_long); self.fails += self.api.call("vf_oom_disarm", res=ctypes.c_long); return r
    def made(self, r, p): self.left = bool(r and p.value); return r == 0, "", p.value
    # ---- objects
    def value(self, x):
        api = self.api; o = self.world[x]; t = self.type[x]
        if t == "event":
            d = api.ev_read(o); tags = d.pop("tags");
            return dict(tags=[dg(q) for q in tags], rest=dg(d), core=dg([[q for q in tags if q[:1] != [b"nonce"]], d["kind"], d["content"]]))
        if t == "list":
            f = lambda q, T, n: api.cstr(api.get(q, T, n)); its = []
            for i in range(api.get(o, "nostr_list", "item_count")):
                q = api.ptr("nostr_list_get", P(o), ctypes.c_size_t(i)); its.append([f(q, "nostr_list_item", n) for n in ("tag_type", "value", "relay_hint", "petname")] + [api.get(q, "nostr_list_item", "is_private")])
            return dg([api.get(o, "nostr_list", "kind")] + [f(o, "nostr_list", n) for n in ("d_tag", "title", "description", "image")] + its)
        if t == "rlist":
            l = []
            for i in range(api.call("nostr_relay_list_count", P(o), res=ctypes.c_size_t)):
                q = api.ptr("nostr_relay_list_get", P(o), ctypes.c_size_t(i)); l.append([api.cstr(api.get(q, "nostr_relay_list_entry", "url")), api.get(q, "nostr_relay_list_entry", "read"), api.get(q, "nostr_relay_list_entry", "write")])
            return dg(l)
        if t == "filter": return dg(F.read(api, ctypes.addressof(o)))
        if t == "cmsg":
            n = ctypes.c_size_t(0); fp = api.ptr("nostr_client_msg_get_filters", o, ctypes.byref(n)); ep = api.ptr("nostr_client_msg_get_event", o); sp = api.ptr("nostr_client_msg_get_subscription_id", o)
            return dg([api.call("nostr_client_msg_get_type", o), api.ev_read(ep) if ep else 0, api.cstr(sp) if sp else 0, [F.read(api, fp + i * api.size("nostr_filter_t")) for i in range(n.value)]])
        if t == "deletion":
            T = "nostr_deletion_request_t"; q = ctypes.addressof(o); s = api.get(q, T, "reason")
            return dg([api.strs(api.get(q, T, "event_ids"), api.get(q, T, "event_ids_count")), api.strs(api.get(q, T, "addresses"), api.get(q, T, "addresses_count")), api.getb(q, T, "pubkey").split(b"\0")[0], api.cstr(s)])
        if t == "deleg":
            T = "nostr_delegation"; q = ctypes.addressof(o); s = api.get(q, T, "conditions"); return dg([api.getb(q, T, "delegator_pubkey"), api.cstr(s), api.getb(q, T, "token")])
        if t == "uri":
            q = ctypes.addressof(o); ty = api.get(q, "nostr_uri", "type"); return dg([ty, self.E.show(p23.NAMES[ty], api.addr(q, "nostr_uri", "data"))])
        if t == "info":
            q = ctypes.addressof(o); return dg(api.i32s(api.get(q, "nostr_relay_info_t", "supported_nips"), api.get(q, "nostr_relay_info_t", "supported_nips_count")))
        if t == "relay": return dg([api.cstr(api.get(o, "nostr_relay", "url")), api.get(o, "nostr_relay", "state")])
        if t == "text": return dg(api.cstr(o))
        if t == "texts": return dg(api.strs(o[0], o[1]))
        if t == "receipt": return dg([api.cstr(o[0]), {k: v for k, v in api.ev_read(o[1]).items()} if o[1] else 0, o[2]])
    def drop(self, x):
        api = self.api; o = self.world.pop(x); t = self.type.pop(x)
        if t == "event": api.ev_free(o)
        elif t == "list": api.call("nostr_list_free", P(o), res=None)
        elif t == "rlist": api.call("nostr_relay_list_free", P(o), res=None)
        elif t == "filter": api.call("nostr_filter_free", o, res=None)
        elif t == "cmsg": api.call("nostr_client_msg_free", o, res=None)
        elif t == "deletion": api.call("nostr_deletion_free", o, res=None)
        elif t == "deleg": api.call("nostr_delegation_free", o, res=None)
        elif t == "uri": api.call("nostr_uri_free", o, res=None)
        elif t == "info": api.call("nostr_relay_info_free", o, res=None)
        elif t == "relay": api.call("nostr_relay_destroy", P(o), res=None)
        elif t == "text": api.call("nostr_free", P(o), res=None)
        elif t == "texts": api.call(o[2], P(o[0] or None), ctypes.c_size_t(o[1]), res=None)
        elif t == "receipt":
            if o[0]: api.free(o[0])
            if o[1]: api.ev_free(o[1])
    # ---- inputs
    def text(self, r, cap=60): return z(G.text(r, cap))
    def url(self, r): return r.choice((b"wss://relay%d.example" % r.randrange(5), b"ws://h:7777/" + b"p" * r.choice((1, 40, 200)), b"wss://x", self.text(r)))
    def idh(self, r): return G.hexs(r) if r.random() < .9 else r.choice((b"", b"abc", G.hexs(r)[:63] + b"g"))
    def opt(self, r, f): return f(r) if r.random() < .6 else None
    def evjson(self, r):
        s = EJ.source(r, True, 80); t = J.render(EJ.obj(s), r).encode("utf8")
        if r.random() < .25: t = t[:r.randrange(len(t))] if r.random() < .5 else t.replace(b'"kind"', b'"kinds"')
        return z(t)
    def filt(self, r):
        f = dict(F.EMPTY); s = lambda n=3: [G.hexs(r).decode() for _ in range(r.randrange(n))]
        f.update(ids=s(), authors=s(), kinds=[r.randrange(40000) for _ in range(r.randrange(4))], e=s(), p=s(), since=r.choice((0, 5)), until=r.choice((0, 50)), limit=r.choice((0, 9)), search=r.choice(("", "needle")))
        f["g"] = [(nm, [J.utext(r, 20) for _ in range(r.randrange(1, 4))]) for nm in r.sample("tdaq", r.randrange(4))]
        return f
    def ftxt(self, r):
        t = J.render(F.obj(self.filt(r), r), r).encode("utf8"); q = r.random()
        if q < .1: t = t[:r.randrange(len(t))]
        elif q < .3: t = t[:-1] + r.choice((b'"kinds":["x"]}', b',"ids":[5]}', b',"#t":["a",7]}', b',"search":"a","limit":"x"}', b',"authors":["' + G.hexs(r) + b'","zz"]}', b',"#p":["x",{}],"#d":["a"]}', b',"since":"x"}'))
        return z(t)
    # ---- makers
    def op_event_create(self, r, o):
        "make event"
        p = P(); q = self.c("nostr_event_create", ctypes.byref(p)); return self.made(q, p)
    def op_event_from_json(self, r, o):
        "make event"
        p = P(); q = self.c("nostr_event_from_json", self.evjson(r), ctypes.byref(p)); return self.made(q, p)
    def op_event_parse(self, r, o):
        "make event"
        t = self.evjson(r); p = P(); q = self.c("nostr_event_parse", t, ctypes.c_size_t(len(t)), ctypes.byref(p)); return self.made(q, p)
    def op_zap_request(self, r, o):
        "make event"
        p = P(); rel = [self.url(r) for _ in range(r.choice((0, 1, 3, 20)))]; a = (ctypes.c_char_p * max(1, len(rel)))(*rel)
        q = self.c("nostr_zap_create_request", ctypes.byref(p), ctypes.c_uint64(r.randrange(10 ** 9)), ctypes.create_string_buffer(self.pk[0], 32), self.opt(r, self.text), self.opt(r, self.text), a, ctypes.c_size_t(len(rel))); return self.made(q, p)
    def op_repost(self, r, o):
        "make event"
        p = P(); q = self.c("nostr_repost_create", ctypes.byref(p), self.idh(r), self.idh(r), self.url(r), r.choice((1, 6, 30023)), self.opt(r, self.text), self.opt(r, self.text)); return self.made(q, p)
    def op_reaction(self, r, o):
        "make event"
        p = P(); q = self.c("nostr_reaction_create", ctypes.byref(p), self.opt(r, self.text), self.idh(r), self.idh(r), self.opt(r, self.url), r.choice((0, 1, 30023))); return self.made(q, p)
    def op_list_to_event(self, r, o):
        "make event list"
        p = P(); kp = self.kp(r); q = self.c("nostr_list_to_event", P(o["list"]), kp if r.random() < .5 else None, ctypes.byref(p)); return self.made(q, p)
    def op_rlist_to_event(self, r, o):
        "make event rlist"
        p = P(); q = self.c("nostr_relay_list_to_event", P(o["rlist"]), ctypes.byref(p)); return self.made(q, p)
    def op_list_create(self, r, o):
        "make list"
        p = P(); q = self.c("nostr_list_create", ctypes.byref(p), ctypes.c_uint16(r.choice((10000, 30000, 10001, 3, 30003)))); return self.made(q, p)
    def op_list_from_event(self, r, o):
        "make list"
        e = self.tmp(r, r.choice((10000, 30000, 30003, 1)), lambda: [r.choice((b"p", b"e", b"t", b"d", b"title", b"description", b"image", b"emoji", b"group", b"a", b"word", b"relay"))] + [self.text(r, 40) for _ in range(r.choice((0, 1, 1, 2, 3)))])
        p = P(); q = self.c("nostr_list_from_event", P(e), self.kp(r) if r.random() < .3 else None, ctypes.byref(p)); self.api.ev_free(e); return self.made(q, p)
    def op_rlist_create(self, r, o):
        "make rlist"
        p = P(); q = self.c("nostr_relay_list_create", ctypes.byref(p)); return self.made(q, p)
    def op_rlist_from_event(self, r, o):
        "make rlist"
        e = self.tmp(r, r.choice((10002, 10002, 10002, 1)), lambda: [b"r", self.url(r)] + r.choice(([], [b"read"], [b"write"])), r.choice((0, 2, 9, 20)))
        p = P(); q = self.c("nostr_relay_list_from_event", P(e), ctypes.byref(p)); self.api.ev_free(e); return self.made(q, p)
    def op_filter_parse(self, r, o):
        "make filter"
        t = self.ftxt(r); f = self.api.new("nostr_filter_t"); q = self.c("nostr_filter_parse", t, ctypes.c_size_t(len(t)), f); return q == 0, "", f
    def op_filter_clone(self, r, o):
        "make filter filter"
        f = self.api.new("nostr_filter_t"); q = self.c("nostr_filter_clone", f, o["filter"]); return q == 0, "", f
    def op_client_msg(self, r, o):
        "make cmsg"
        k = r.randrange(5); s = EJ.source(r, True, 40)
        t = J.render([["EVENT", EJ.obj(s)], ["AUTH", EJ.obj(s)], ["CLOSE", "sub"], ["REQ", "sub"] + [F.obj(self.filt(r), r) for _ in range(r.randrange(4))], ["COUNT", "q"] + [F.obj(self.filt(r), r) for _ in range(r.randrange(3))]][k], r).encode("utf8")
        x = r.random()
        if x < .15: t = t[:r.randrange(len(t))]
        elif x < .45 and k > 2: t = t[:-1] + r.choice((b',{"kinds":[1,"x"]}]', b',7]', b',{"ids":["' + G.hexs(r) + b'"],"#t":[3]}]', b',{"ids":["ab","zz"]}]', b',{"authors":["a"],"#p":["ab"]}]', b',{"#t":["a"],"#e":["' + G.hexs(r) + b'","x"]},{"ids":["a"]}]'))
        m = self.api.new("nostr_client_msg_t"); q = self.c("nostr_client_msg_parse", z(t), ctypes.c_size_t(len(z(t))), m); return q == 0, "", m
    def op_deletion_parse(self, r, o):
        "make deletion"
        e = self.tmp(r, r.choice((5, 5, 5, 1)), lambda: [r.choice((b"e", b"a", b"k", b"x")), r.choice((G.hexs(r), b"30023:" + G.hexs(r) + b":d" * r.choice((1, 30, 200)), b"zz"))], r.choice((0, 1, 4, 12)))
        d = self.api.new("nostr_deletion_request_t"); q = self.c("nostr_deletion_parse", P(e), d); self.api.ev_free(e); return q == 0, "", d
    def op_delegation_create(self, r, o):
        "make deleg"
        d = self.api.new("nostr_delegation"); q = self.c("nostr_delegation_create", ctypes.create_string_buffer(self.sk[0], 32), ctypes.create_string_buffer(self.pk[1], 32), r.choice((b"kind=1", b"kind=1&created_at>5", b"", b"created_at<99999&kind=7&kind=0", b"junk", b"kind=1&junk=")), d); return q == 0, "", d
    def op_delegation_get(self, r, o):
        "make deleg event"
        d = self.api.new("nostr_delegation"); q = self.c("nostr_event_get_delegation", P(o["event"]), d); return q == 0, "", d
    def op_uri_parse(self, r, o):
        "make uri"
        h = r.choice(p23.NAMES); t = self.E.text(h, r); u = self.api.new("nostr_uri"); q = self.c("nostr_uri_parse", b"nostr:" + t, u); return q == 0, "", u
    def op_info_init(self, r, o):
        "make info"
        i = self.api.new("nostr_relay_info_t"); self.api.call("nostr_relay_info_init", i, res=None); return True, "", i
    def op_relay_create(self, r, o):
        "make relay"
        p = P(); q = self.c("nostr_relay_create", ctypes.byref(p), r.choice((b"wss://a.example", b"ws://b:77/x", b"http://no", b"", b"wss://" + b"h" * 300))); return self.made(q, p)
    def op_to_json(self, r, o):
        "make text event"
        p = P(); q = self.c("nostr_event_to_json", P(o["event"]), ctypes.byref(p)); return self.made(q, p)
    def op_urls(self, r, o):
        "make texts rlist"
        p = P(); n = ctypes.c_size_t(0); q = self.c("nostr_relay_list_get_%s_relays" % r.choice(("read", "write")), P(o["rlist"]), ctypes.byref(p), ctypes.byref(n)); self.left = bool(q and p.value); return q == 0, "", (p.value or 0, n.value, "nostr_relay_list_free_urls")
    def op_nip05(self, r, o):
        "make texts"
        k = G.hexs(r).decode(); d = {"names": {"bob": k, "eve": G.hexs(r).decode()}, "relays": {k: [r.choice(("wss://a", "wss://b.example/" + "p" * 90, "http://x")) for _ in range(r.randrange(6))]}}
        if r.random() < .2: d["names"].pop("bob")
        t = json.dumps(d).encode(); t = t[:r.randrange(len(t))] if r.random() < .15 else t; b = ctypes.create_string_buffer(65); p = P(); n = ctypes.c_size_t(0)
        q = self.c("nostr_nip05_parse_response", t, b"bob", b, ctypes.c_size_t(65), ctypes.byref(p), ctypes.byref(n)); self.left = bool(q and p.value); return q == 0, "", (p.value or 0, n.value, "nostr_nip05_free_relays")
    def op_receipt(self, r, o):
        "make receipt"
        txt, _ = self.Z.desc(r, bad=r.random() < .2); tags = [[b"bolt11", self.Z.invoice(r)], [b"preimage", G.hexs(r)], [b"description", z(txt)], [b"p", G.hexs(r)]]; r.shuffle(tags); tags = tags[:r.choice((2, 3, 4, 4, 4))]
        e = self.tmp(r, 9735, lambda: tags.pop(), len(tags)); am = ctypes.c_uint64(0); bp = P(); rp = P(); pre = ctypes.create_string_buffer(65)
        q = self.c("nostr_zap_parse_receipt", P(e), ctypes.byref(am), ctypes.byref(bp), pre, ctypes.byref(rp)); self.api.ev_free(e); self.left = bool(q and (bp.value or rp.value)); return q == 0, "", (bp.value or 0, rp.value or 0, am.value)
    def kp(self, r):
        k = self.api.new("nostr_keypair"); self.api.call("nostr_keypair_from_private_key", k, ctypes.create_string_buffer(self.sk[0], 32)); return k
    def tmp(self, r, kind, tag, n=None):
        api = self.api; e = api.ev_new(); api.ev_set(e, "kind", kind); api.ev_set(e, "pubkey", self.pk[0])
        for _ in range(r.choice((0, 2, 5, 12)) if n is None else n): api.ev_add(e, tag())
        api.ev_content(e, b"some content"); return e
    # ---- changes
    def op_add_tag(self, r, o):
        "change event"
        v = [r.choice((b"e", b"p", b"t", b"d"))] + [self.text(r, r.choice((10, 80, 3000))) for _ in range(r.choice((0, 1, 1, 2, 4, 20)))]; a = (ctypes.c_char_p * len(v))(*v)
        return self.c("nostr_event_add_tag", P(o["x"]), a, ctypes.c_size_t(len(v))) == 0, "", 0
    def op_set_content(self, r, o):
        "change event"
        t = self.text(r, 300); own = self.api.ev_get(o["x"], "content")
        return self.c("nostr_event_set_content", P(o["x"]), P(own) if own and r.random() < .2 else t) == 0, "", 0
    def op_sign(self, r, o):
        "redo event"
        return self.c("nostr_event_sign", P(o["x"]), ctypes.create_string_buffer(self.sk[r.randrange(3)] if r.random() < .9 else bytes(32), 32)) == 0, "", 0
    def op_compute_id(self, r, o):
        "change event"
        return self.c("nostr_event_compute_id", P(o["x"])) == 0, "", 0
    def op_mention(self, r, o):
        "change event"
        return self.c("nostr_event_add_mention_tag", P(o["x"]), self.idh(r), self.opt(r, self.url)) == 0, "", 0
    def op_nonce(self, r, o):
        "change event"
        return self.c("nostr_nip13_add_nonce_tag", P(o["x"]), ctypes.c_uint64(r.randrange(2 ** 63)), ctypes.c_int(r.choice((1, 8, 300)))) == 0, "", 0
    def op_add_delegation(self, r, o):
        "change event deleg"
        return self.c("nostr_event_add_delegation", P(o["x"]), o["deleg"]) == 0, "", 0
    def op_reply_tags(self, r, o):
        "extend event"
        return self.c("nostr_event_add_reply_tags", P(o["x"]), self.idh(r), self.opt(r, self.url), self.opt(r, self.idh), self.opt(r, self.idh), self.opt(r, self.url), self.opt(r, self.idh)) == 0, "", 0
    def op_mentions(self, r, o):
        "change event"
        ids = [bytes(r.randrange(256) for _ in range(32)) for _ in range(r.randrange(4))]
        t = b" and ".join(b"nostr:" + (bech32("note", i) if r.random() < .6 else bech32("nevent", b"\0\x20" + i + b"\1\x07wss://x")) for i in ids) + b" end"
        return self.c("nostr_event_set_content", P(o["x"]), t) == 0, "", 0
    def op_quotes(self, r, o):
        "extend event"
        return self.c("nostr_quote_tags_from_content", P(o["x"])) == 0, "", 0
    def op_list_add(self, r, o):
        "change list"
        k = r.choice(("pubkey", "event", "hashtag", "word", "relay", "reference", "group", "emoji")); v = self.idh(r) if k in ("pubkey", "event") else self.url(r) if k == "relay" else self.text(r)
        a = [v] + ([self.opt(r, self.url)] if k in ("pubkey", "event", "reference") else [self.url(r)] if k in ("group", "emoji") else []) + ([self.opt(r, self.text)] if k in ("pubkey", "group") else [])
        return self.c("nostr_list_add_" + k, P(o["x"]), *a, ctypes.c_bool(r.random() < .2)) == 0, "", 0
    def op_list_set(self, r, o):
        "change list"
        return self.c("nostr_list_set_" + r.choice(("d_tag", "title", "description", "image")), P(o["x"]), self.opt(r, self.text)) == 0, "", 0
    def op_list_remove(self, r, o):
        "change list"
        return self.c("nostr_list_remove", P(o["x"]), ctypes.c_size_t(r.randrange(4))) == 0, "", 0
    def op_rlist_add(self, r, o):
        "change rlist"
        return self.c("nostr_relay_list_add", P(o["x"]), self.url(r), ctypes.c_bool(r.random() < .7), ctypes.c_bool(r.random() < .7)) == 0, "", 0
    def op_add_nip(self, r, o):
        "change info"
        return self.c("nostr_relay_info_add_nip", o["x"], ctypes.c_int32(r.randrange(100))) == 0, "", 0
    def op_set_nips(self, r, o):
        "change info"
        n = r.randrange(1, 9); return self.c("nostr_relay_info_set_nips", o["x"], (ctypes.c_int32 * n)(*[r.randrange(100) for _ in range(n)]), ctypes.c_size_t(n)) == 0, "", 0
    # ---- questions
    def op_verify(self, r, o):
        "ask - event"
        return self.c("nostr_event_verify", P(o["event"])) == 0, "", 0
    def op_validate(self, r, o):
        "ask - event"
        v = self.api.new("nostr_validation_result_t"); q = self.c("nostr_event_validate_full", P(o["event"]), ctypes.c_int64(900), v); return q == 0, "", 0
    def op_serialize(self, r, o):
        "ask - event"
        b = ctypes.create_string_buffer(1 << 18); n = ctypes.c_size_t(0); q = self.c(r.choice(("nostr_event_serialize", "nostr_event_serialize_canonical")), P(o["event"]), b, ctypes.c_size_t(r.choice((1 << 18, 1 << 18, 100))), ctypes.byref(n)); return q == 0, dg(b.value) if q == 0 else "", 0
    def op_ids(self, r, o):
        "ask - event"
        b = ctypes.create_string_buffer(65); c = ctypes.create_string_buffer(300); q = self.c(r.choice(("nostr_event_get_root_id", "nostr_event_get_reply_id")), P(o["event"]), b, ctypes.c_size_t(65), c, ctypes.c_size_t(300)); return q == 0, dg([b.value, c.value]) if q == 0 else "", 0
    def op_pow(self, r, o):
        "ask - event"
        return self.c("nostr_nip13_verify_pow", P(o["event"]), ctypes.c_int(r.choice((0, 1, 2)))) == 0, "", 0
    def op_parse_repost(self, r, o):
        "ask - event"
        b = [ctypes.create_string_buffer(65) for _ in range(3)]; k = ctypes.c_uint16(0); q = self.c(r.choice(("nostr_repost_parse", "nostr_reaction_parse")), P(o["event"]), b[0], ctypes.c_size_t(65), b[1], ctypes.c_size_t(65), b[2], ctypes.c_size_t(65), ctypes.byref(k))
        return q == 0, dg([x.value for x in b] + [k.value]) if q == 0 else "", 0
    def op_verify_delegation(self, r, o):
        "ask - event"
        return self.c("nostr_event_verify_delegation", P(o["event"])) == 0, "", 0
    def op_delegation_verify(self, r, o):
        "ask - deleg"
        return self.c("nostr_delegation_verify", o["deleg"], ctypes.create_string_buffer(self.pk[r.choice((1, 1, 2))], 32)) == 0, "", 0
    def op_conditions(self, r, o):
        "ask - deleg"
        return self.c("nostr_delegation_check_conditions", o["deleg"], ctypes.c_uint16(r.choice((0, 1, 7))), ctypes.c_int64(r.choice((4, 6, 99999)))) == 0, "", 0
    def op_matches(self, r, o):
        "ask - filter event"
        return True, str(bool(self.c("nostr_filter_matches", o["filter"], P(o["event"]), res=ctypes.c_bool))), 0
    def op_filter_validate(self, r, o):
        "ask - filter"
        return self.c("nostr_filter_validate", o["filter"], self.api.new("nostr_validation_result_t")) == 0, "", 0
    def op_deletes(self, r, o):
        "ask - deletion event"
        return True, str([bool(self.c(f, o["deletion"], P(o["event"]), res=ctypes.c_bool)) for f in ("nostr_deletion_authorized", "nostr_deletion_authorized_address")]), 0
    def op_uri_encode(self, r, o):
        "ask - uri"
        b = ctypes.create_string_buffer(12000); q = self.c("nostr_uri_encode", o["uri"], b, ctypes.c_size_t(r.choice((12000, 12000, 12000, 50)))); return q == 0, dg(b.value) if q == 0 else "", 0
    def op_relay_event(self, r, o):
        "ask - event"
        m = self.api.new("nostr_relay_msg_t"); self.api.call("nostr_relay_msg_event", m, b"sub", P(o["event"])); b = ctypes.create_string_buffer(1 << 18); n = ctypes.c_size_t(0)
        q = self.c("nostr_relay_msg_serialize", m, b, ctypes.c_size_t(r.choice((1 << 18, 1 << 18, 200))), ctypes.byref(n)); return q == 0, dg(b.value) if q == 0 else "", 0
    def op_info_text(self, r, o):
        "ask - info"
        b = ctypes.create_string_buffer(1 << 16); n = ctypes.c_size_t(0); q = self.c("nostr_relay_info_serialize", o["info"], b, ctypes.c_size_t(r.choice((1 << 16, 1 << 16, 40))), ctypes.byref(n)); return q == 0, dg(b.value) if q == 0 else "", 0
    def op_zap_verify(self, r, o):
        "ask - event"
        api = self.api; q = self.Z.mkreq(r, [b"210000"]); e = self.tmp(r, 9735, iter([[b"bolt11", b"lnbc2100n1pxyzxyz"], [b"description", self.Z.js(q)], [b"p", G.hexs(r)]]).__next__, 3)
        api.call("nostr_event_sign", P(e), ctypes.create_string_buffer(self.sk[0], 32)); x = self.c("nostr_zap_verify", P(e), P(q if r.random() < .8 else o["event"]), self.pk[r.choice((0, 0, 0, 1))].hex().encode()); api.ev_free(e); api.ev_free(q); return x == 0, "", 0
    def op_bech32(self, r, o):
        "ask -"
        h = r.choice((b"npub", b"nsec", b"note")); k = bytes(r.randrange(256) for _ in range(32)); b = ctypes.create_string_buffer(100); t = ctypes.create_string_buffer(40)
        if r.random() < .5: q = self.c({b"npub": "nostr_key_to_bech32"}.get(h, "nostr_event_id_to_bech32"), k, *([b"npub"] if h == b"npub" else []), b, ctypes.c_size_t(100))
        else: q = self.c({b"npub": "nostr_key_from_bech32", b"nsec": "nostr_privkey_from_bech32", b"note": "nostr_event_id_from_bech32"}[h], z(self.E.text(h, r)), t); b = t
        return q == 0, dg(b.raw) if q == 0 else "", 0
    def op_phrase(self, r, o):
        "ask -"
        b = ctypes.create_string_buffer(300); self.api.call("nostr_mnemonic_generate", 12, b, ctypes.c_size_t(300)); k = self.api.new("nostr_keypair"); s = ctypes.create_string_buffer(64); w = r.randrange(3)
        q = self.c("nostr_mnemonic_validate", b.value) if w == 0 else self.c("nostr_mnemonic_to_keypair", b.value, self.opt(r, self.text), ctypes.c_uint32(3), k) if w == 1 else self.c("nostr_hd_key_from_seed", b.raw[:32], ctypes.c_size_t(32), self.api.new("nostr_hd_key"))
        return q == 0, dg(bytes(k)) if q == 0 else "", 0
    def op_path(self, r, o):
        "ask -"
        a = self.api.new("nostr_hd_key"); b = self.api.new("nostr_hd_key"); self.api.call("nostr_hd_key_from_seed", bytes(range(32)), ctypes.c_size_t(32), a); q = self.c("nostr_hd_key_derive_path", a, r.choice((b"m/44'/1237'/0'/0/0", b"m/1/2", b"m", b"m/x", b"m/1h/2")), b); return q == 0, dg(bytes(b)) if q == 0 else "", 0
    def op_seal(self, r, o):
        "ask -"
        b = ctypes.create_string_buffer(400); q = self.c("nostr_ncryptsec_encrypt", ctypes.create_string_buffer(self.sk[0], 32), b"pass" + z(G.text(r, 8)), ctypes.c_uint8(r.choice((1, 2, 16, 70) if r.random() < .3 else (1, 2))), b, ctypes.c_size_t(r.choice((400, 400, 100))))
        if q == 0 and r.random() < .8:
            t = b.value if r.random() < .6 else b.value[:-1] + b"q"; k = ctypes.create_string_buffer(32); p = b"pass"; q = self.c("nostr_ncryptsec_decrypt", t, p, k); return q == 0, dg(k.raw) if q == 0 else "", 0
        return q == 0, dg(b.value) if q == 0 else "", 0
    def op_nip05_verify(self, r, o):
        "ask -"
        # the callback hands over a document that the caller of the library owns
        k = self.pk[0].hex(); t = json.dumps({"names": {"bob": k}, "relays": {k: ["wss://a"]}}).encode()
        b = ctypes.create_string_buffer(65); q = self.c("nostr_nip05_parse_response", t, b"bob" if r.random() < .8 else b"eve", b, ctypes.c_size_t(65), None, None); return q == 0, dg(b.value) if q == 0 else "", 0
    def op_mine(self, r, o):
        "redo event"
        return self.c("nostr_nip13_mine_event", P(o["x"]), ctypes.c_int(r.choice((1, 2))), ctypes.c_uint64(3)) == 0, "", 0
