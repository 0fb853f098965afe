import ctypes, json, re
from vf.framework import Check
from vf import gen as G, seal as S, jsongen as J
from vf.api import P, B
from checks.p28 import plain, eid, U, L1, buf, OUT
NOW = 1700000000
DEAD = 0xdead0
HEX = "0123456789abcdef"
def canon(v):
    import hashlib
    return hashlib.sha1(json.dumps(v, sort_keys=True, ensure_ascii=False).encode("utf8", "surrogateescape")).hexdigest()[:16]
def V(v):
    """a JSON value as a text that tells its type"""
    if v is None: return "z:"
    if isinstance(v, bool): return "b:%s" % str(v).lower()
    if isinstance(v, int): return "n:%d" % v
    if isinstance(v, float): return "n:%d" % v if v.is_integer() else "f:" + canon(v)
    if isinstance(v, str): return S_(v)
    return "j:" + canon(v)
def S_(t): b = t if isinstance(t, bytes) else t.encode("utf8", "surrogateescape"); return "s:" + (b.decode("latin1") if len(b) < 100 else canon(U(b)))
def W(ws): return "w:" + canon(ws)
def first(pairs):
    d = {}
    for k, v in pairs: d.setdefault(k, v)
    return d
def esc(b): return sum(2 if c in b'"\\\n\r\t' else 6 if c < 32 else 1 for c in b)
E = lambda t: t.encode("utf8", "surrogateescape") if t is not None else P(0)

class CHECK(Check):
    id = "P32"
    workers = 12
    variants = ["full", "fullmbed"]
    trace = "T_Requests"
    mc = [("MC_Requests", "MC_Requests.cfg", {"workers": 3})]
    gen = [("MC_Requests", "Gen_Requests.cfg", {"simulate": lambda c: "num=%d" % c.scale(120, 6000), "extra": ("-depth", "9")})]
    assumptions = ["noscrypt is not installed here: the library is built with a stand-in for its interface over libsecp256k1 and OpenSSL (shim/noscrypt_shim.c)",
                   "messages are read and made outside the library by NIP-44 v2 in vf/seal.py, Python's JSON and libsecp256k1; NIP-44 itself is decided by P31",
                   "numbers in messages are compared up to 10^15, beyond which cJSON prints 15 digits of them (in results up to 2^53, beyond which it keeps a double); texts hold no NUL",
                   "the relays and the lightning address of a connection cannot be read back through the interface"]

    def behaviours(self, api, rng, w, n, gen):
        self.took_ = {}; api.call("nostr_init"); self.rng = rng; self.api = api; api.lib.vf_oom_hook_cjson()
        for g in gen[:self.scale(40, 1500)]: yield self.run(self.follow(g))
        for _ in range(self.scale(110, 4500)): yield self.run([self.pick() for _ in range(rng.randrange(4, 16))])
    def follow(self, g):
        ops = []
        for o in g:
            if o["o"] == "connect": ops.append(("connect", [tuple(f) for f in o["fields"]]))
            elif o["o"] == "pay": ops.append(("pay", o["c"], o["amount"]))
            elif o["o"] == "say": ops.append(("tell", dict(W=0, X=2)[o["who"]], o["kind"]))
            elif o["o"] == "replay": ops.append(("replay",))
            else: ops.append(("hear",))
        return ops
    def pick(self): return (self.rng.choice(("connect", "connect", "request", "request", "request", "reply", "reply", "asked", "asked", "answer", "answer", "notice", "info", "params", "params", "params", "params", "result", "result", "restart", "null")),)
    # ---- tools
    def call(self, f, *args, rand=True):
        """the call, perhaps with memory or randomness failing"""
        api = self.api; rng = self.rng; r = rng.random() * (1 if rand else .6); self.inj = 0; self.norand = False; rand = rand and r > .12; n = self.took_.get(f, 30)
        if r < .09: api.lib.vf_oom_arm(ctypes.c_long(rng.choice((rng.randrange(1, n + 3), rng.randrange(max(1, n - 5), n + 3)))))
        elif r < .12: api.lib.vf_oom_arm_from(ctypes.c_long(rng.randrange(1, n + 3)))
        else:
            if rand and r < .17: at = rng.choice((1, 2, 3)); api.rng_fail(at)
            api.lib.vf_oom_arm(ctypes.c_long(0))
        q = api.call(f, *args); n = api.call("vf_oom_count", res=ctypes.c_long); x = api.call("vf_oom_disarm", res=ctypes.c_long)
        if q == 0 and r >= .12: self.took_[f] = n
        if r < .12: self.inj = x
        elif rand and r < .17: self.norand = api.call("vf_rng_calls", res=ctypes.c_long) >= at; api.rng_real()
        return q
    def rec(self, o, q, left=False, **k): return dict(o=o, r=q, inj=self.inj + int(self.norand), norand=self.norand, left=left, **k)
    def ck(self, sk, pk):
        x = ctypes.create_string_buffer(32); return S.conv(x.raw[:32]) if self.api.lib.vo_ecdh_x(sk, pk, x) else None
    def text(self, cap=60, big=.03):
        rng = self.rng
        if rng.random() < big: return "t" * rng.choice((255, 256, 300, 4000, 8100, 8192, 9000, 20000, 60000, 65400, 65500, 66000))
        return rng.choice((J.utext(rng, cap), J.utext(rng, cap), rng.choice(("get_info", "", "none", "true", "null", "12", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", '{"a":1}', "[1]", '"x"', "pay_invoice", "3e5", "-", "\x01\x1f\b\f\n\r\t\"\\/"))))
    def value(self, deep=2):
        rng = self.rng; r = rng.random()
        if r < .3: return self.text(30, .01)
        if r < .5: return rng.choice((0, 1, -1, 2 ** 31, 10 ** 14 + 1, 10 ** 15 - 1, rng.randrange(10 ** 15)))
        if r < .6: return rng.choice((True, False, None, 0.5, 1.25, -3.75))
        if not deep: return {}
        if r < .8: return [self.value(deep - 1) for _ in range(rng.randrange(4))]
        return {self.text(12, 0) + str(i): self.value(deep - 1) for i in range(rng.randrange(4))}
    def dump(self, v):
        rng = self.rng; t = json.dumps(v, ensure_ascii=rng.random() < .5, separators=rng.choice(((",", ":"), (", ", ": ")))); return rng.choice(("", "", " ", "\n\t")) + t + rng.choice(("", "", " ", "\r\n"))
    def valid(self, d):
        try: return eid(d) == d["id"] and self.api.o_verify(bytes.fromhex(d["pubkey"]), bytes.fromhex(d["id"]), bytes.fromhex(d["sig"]))
        except Exception: return False
    def body(self, t):
        """the pairs of a JSON object, or a sequence that is none"""
        try: p = json.loads(U(t), object_pairs_hook=lambda q: tuple(("pair",) + kv for kv in q) or dict())
        except ValueError: return [["not", "json"]]
        if p == {}: return []
        if not (isinstance(p, tuple)): return [["not", "an object"]]
        q = json.loads(U(t), object_pairs_hook=lambda q: Obj(q)).q
        return [[L1(k), V(strip(v))] for k, v in q]
    def read(self, e, sk, pk):
        """the event as the holder of sk reads it, from the holder of pk"""
        v = self.api.ev_read(e); d = dict(id=v["id"].hex(), pubkey=v["pubkey"].hex(), sig=v["sig"].hex(), kind=v["kind"], created_at=v["created_at"], tags=[[U(x) for x in t] for t in v["tags"]], content=U(v["content"] or b""))
        ck = self.ck(sk, pk); t = plain(ck, d["content"].encode("utf8", "surrogateescape")) if ck else None
        return dict(kind=d["kind"], key=d["pubkey"], tags=[[L1(x) for x in t_] for t_ in d["tags"]], at=d["created_at"] - NOW, valid=self.valid(d), open=t is not None, body=self.body(t) if t is not None else [])
    def event(self, kind, key, tags, content):
        return self.api.ev_build(dict(kind=kind, created_at=NOW, tags=[[v.encode("utf8", "surrogateescape") for v in t] for t in tags], content=content.encode("utf8", "surrogateescape"), pubkey=key))
    def sealed(self, a, b, t):
        """t sealed by a for b, perhaps not quite"""
        rng = self.rng; t = t.encode("utf8", "surrogateescape") if isinstance(t, str) else t
        c = S.seal44(self.ck(self.sk[a], self.pk[b]), rng.randbytes(32), t).decode()
        if rng.random() < .05: i = rng.randrange(1, len(c) - 5); c = c[:i] + ("A" if c[i] != "A" else "B") + c[i + 1:]
        elif rng.random() < .02: c = rng.choice(("", "AAAA", "abc?iv=def", "#", c[:-4]))
        return c
    # ---- running
    def run(self, plan):
        api = self.api; rng = self.rng; self.note("%r" % (plan,)); api.time_set(NOW); self.inj = 0; self.norand = False
        self.sk = [bytes(x) for x in G.seckeys(rng, 3)]; self.pk = [api.o_pub(x) for x in self.sk]; self.conns = []; self.wire = []; out = []; api.lib.vf_heap_on(1)
        for o in plan:
            x = getattr(self, "do_" + o[0])(*o[1:])
            if x: out += x if isinstance(x, list) else [x]
        for c, _, _ in self.conns: api.call("nostr_nip47_free_connection", P(c))
        api.call("nostr_cleanup", res=None); out.append(dict(o="end", live=api.call("vf_heap_live", res=ctypes.c_long))); api.lib.vf_heap_on(0); api.call("nostr_init")
        return {"ops": out}
    def do_restart(self): self.api.call("nostr_cleanup", res=None); return dict(o="restart")
    def hexkey(self, b):
        t = b.hex(); return t if self.rng.random() < .8 else "".join(c.upper() if self.rng.random() < .5 else c for c in t)
    def badkey(self, b):
        t = b.hex(); i = self.rng.randrange(0, 62)
        return self.rng.choice((t[:-1], t + "0", t[:-2], "", t[:i] + "g" + t[i + 1:], t[:i & ~1] + "+1" + t[(i & ~1) + 2:], t[:i & ~1] + " 1" + t[(i & ~1) + 2:], t[:i & ~1] + "-1" + t[(i & ~1) + 2:], t[:i & ~1] + "0x" + t[(i & ~1) + 2:], t[:-1] + "%", "%" + "3%d" % (i % 10) + t[3:]))
    def do_connect(self, fields=None):
        rng = self.rng; api = self.api; me = self.sk[1]; secrets = {"C": me, "D": self.sk[2], "none": rng.choice((bytes(32), b"\xff" * 32))}; fs = []; service = self.pk[0]; point = True
        if fields is None:
            fields = [("relay", "")] * rng.choice((1, 1, 1, 2, 6, 9, 0)) + [("secret", rng.choice(("C", "C", "C", "C", "D", "bad", "none")))] * rng.choice((1, 1, 1, 1, 2, 0)) + [("lud16", "")] * rng.choice((0, 0, 1, 2)) + [(rng.choice(("x", "Relay", "secre", "secrets", "", "relay%20")), "")] * rng.choice((0, 0, 1))
            rng.shuffle(fields)
            if rng.random() < .04: service = rng.choice(((5).to_bytes(32, "big"), b"\xff" * 32)); point = False
        key = service.hex() if rng.random() < .9 else self.hexkey(service); bad = rng.random() < .06
        if bad: key = self.badkey(service)
        scheme = rng.random() > .03; used = {}
        parts = []
        for n, c in fields:
            eq = rng.random() > .02; f = dict(eq=eq, name=n, client="")
            if n == "secret":
                if c == "bad": v = self.badkey(me); f["client"] = "bad"
                else: v = self.hexkey(secrets[c]); f["client"] = self.api.o_pub(secrets[c]).hex() if c != "none" else "none"
                if eq: used["s"] = secrets.get(c, me)
            else: v = rng.choice(("wss%3A%2F%2Frelay.example", "wss://r.example/a?b=c", "%", "%4", "%zz", "%+1", "a@b", "", "=", "x=y"))
            parts.append(n + ("=" + v if eq else "")); fs.append(f)
            if rng.random() < .05: parts.append("")
        uri = (("nostr+walletconnect://" if scheme else rng.choice(("nostr+walletconnect:", "nostrwalletconnect://", "Nostr+walletconnect://", "", "nostr+walletconnect:/"))) + key + ("?" + "&".join(parts))).encode()
        if bad and not re.fullmatch(rb"[0-9a-fA-F]{64}", uri.split(b"//", 1)[-1].split(b"?", 1)[0]): key = "bad"
        elif bad: key = "bad"
        c = ctypes.c_void_p(DEAD); q = self.call("nostr_nip47_parse_connection_uri", uri, ctypes.byref(c), rand=False)
        if q == 0: self.conns.append((c.value, used.get("s", me), service))
        return self.rec("connect", q, left=q != 0 and c.value not in (None, DEAD), scheme=scheme, service=key if key == "bad" else key.lower(), point=point, fields=fs)
    def do_pay(self, c, amount):
        a = None if amount == "none" else int(amount[2:]); x, t = self.params("pay_invoice", dict(invoice="lnbc", amount=a))
        return [x] + ([self.do_request(c, "pay_invoice", t)] if t is not None and c < len(self.conns) else [])
    def do_request(self, c=None, method=None, text=None):
        rng = self.rng; api = self.api
        if not self.conns: return self.do_connect([("relay", ""), ("secret", "C")])
        if c is None: c = rng.randrange(len(self.conns))
        conn, secret, service = self.conns[c]
        if method is None: method = self.text(30, .08)
        good = True
        if text is None:
            text = self.dump(self.value() if rng.random() < .3 else {self.text(8, .0) + str(i): self.value() for i in range(rng.randrange(4))} if rng.random() < .9 else {"x": "y" * rng.choice((8000, 8150, 8192, 9000, 65400, 65500))})
            if rng.random() < .1: text = rng.choice((text + "x", text + ',"method":"pay_invoice"', text + "}", text + "{}", "", "{", "x", '{"a"}', "[1", "'a'")); good = False
        nip44 = rng.random() < .95; e = ctypes.c_void_p(DEAD); m = E(method)
        q = self.call("nostr_nip47_create_request_event", ctypes.byref(e), P(conn), m, E(text), 1 if nip44 else 0)
        x = self.rec("request", q, left=q != 0 and e.value not in (None, DEAD), c=c, nip44=nip44, method=S_(method), params=V(json.loads(text)) if good else "bad", size=len('{"method":"","params":}') + esc(m) + len(E(text)))
        if q == 0: x["d"] = self.read(e.value, secret, service); self.wire.append((self.api.ev_read(e.value), 23194)); api.ev_free(e.value)
        return x
    def do_reply(self):
        rng = self.rng; api = self.api; keys = True; sk = self.sk[0]; pk = self.pk[1]
        if rng.random() < .02: sk = bytes(32); keys = False
        if rng.random() < .02: pk = (5).to_bytes(32, "big"); keys = False
        i = self.text(40, 0).encode("utf8", "surrogateescape")[:64].decode("utf8", "ignore") if rng.random() < .8 else "i" * rng.choice((63, 64)); err = self.text() if rng.random() < .25 else None; res = self.text() if rng.random() < .85 else None
        r = ctypes.create_string_buffer(65 + 7 + 16); eb = ctypes.create_string_buffer(E(err)) if err is not None else None; rb = ctypes.create_string_buffer(E(res)) if res is not None else None
        ib = E(i); ctypes.memmove(r, ib, len(ib)); st = Resp(ib, ctypes.cast(rb, ctypes.c_void_p) if rb else None, ctypes.cast(eb, ctypes.c_void_p) if eb else None); e = ctypes.c_void_p(DEAD)
        q = self.call("nostr_nip46_create_response", ctypes.byref(st), buf(sk), buf(pk), ctypes.byref(e))
        body = dict(id=i); body.update(error=err) if err is not None else body.update(result=res) if res is not None else None
        x = self.rec("reply", q, left=q != 0 and e.value not in (None, DEAD), keys=keys, to=pk.hex(), id=S_(i), result=S_(res) if res is not None else "none", error=S_(err) if err is not None else "none", size=2 + sum(6 + len(k) + cj(E(v)) for k, v in body.items()) - 1)
        x["from"] = self.pk[0].hex()
        if q == 0: x["d"] = self.read(e.value, self.sk[1], self.pk[0]); api.ev_free(e.value)
        return x
    def do_asked(self):
        rng = self.rng; api = self.api; d = {}; idt = ""; mt = ""; par = None
        if rng.random() < .95: d["id"] = rng.choice((self.text(30, 0), "i" * rng.choice((63, 64, 65, 66, 200))))
        if rng.random() < .95: d["method"] = rng.choice(("connect", "sign_event", "nip44_encrypt", self.text(20, 0), "m" * rng.choice((30, 31, 32, 33)), "get_public_key_and_more_of_it_an", "sign_event_but_not_really_this_is"))
        if rng.random() < .9: d["params"] = [self.text(30, .02) for _ in range(rng.randrange(4))] if rng.random() < .7 else self.value()
        if rng.random() < .05: d[rng.choice(("id", "method"))] = rng.choice((5, None, ["a"], True))
        items = list(d.items()) + [("other", self.value())] * (rng.random() < .2); rng.shuffle(items)
        if rng.random() < .1: items.append((rng.choice(("id", "method", "params", "Id", "METHOD")), "again"))
        t = "{" + ",".join(json.dumps(k) + ":" + json.dumps(v, ensure_ascii=rng.random() < .5) for k, v in items) + "}"; obj = True
        if rng.random() < .08: t = rng.choice(("{", "x", "[1]", "7", '"a"', t[:-1], "null", "[" + t + "]")); obj = False
        elif rng.random() < .1: t = " \n" + t
        g = first(items) if obj else {}
        s = lambda k: g.get(k) if isinstance(g.get(k), str) else ""
        kind = 24133 if rng.random() < .95 else rng.choice((24132, 24134, 23194, 4)); a, b = (0, 1) if rng.random() < .9 else (rng.randrange(3), rng.randrange(3))
        if len(t.encode()) > 65535: return
        content = self.sealed(a, b, t); to = b if rng.random() < .95 else rng.randrange(3); key = self.pk[a] if rng.random() < .95 else self.pk[rng.randrange(3)]
        e = self.event(kind, key, [["p", self.pk[b].hex()]], content); st = Req(); ctypes.memset(ctypes.byref(st), 0xAA, ctypes.sizeof(st))
        ck = self.ck(self.sk[to], key); opens = plain(ck, content.encode()) == t.encode("utf8", "surrogateescape")
        q = self.call("nostr_nip46_parse_request", P(e), buf(self.sk[to]), ctypes.byref(st), rand=False); api.ev_free(e)
        got = dict(id="", method="", params="none", sender=""); size = 0; left = False; psz = 0
        if q == 0:
            p = ctypes.string_at(st.params) if st.params else None; size = st.params_len; psz = len(p) if p is not None else 0
            got = dict(id=S_(st.id_), method=S_(st.method), params=V(json.loads(U(p))) if p is not None else "none", sender=bytes(st.sender).hex())
            api.call("nostr_nip46_request_free", ctypes.byref(st), res=None); left = bool(st.params)
            if left: q = -1
        else: left = bool(st.params) and st.params != 0xaaaaaaaaaaaaaaaa
        x = self.rec("asked", q, left=left, kind=kind, open=opens, object=obj, idlen=len(E(s("id"))), methodlen=len(E(s("method"))), id=S_(s("id")), method=S_(s("method")), params=V(g["params"]) if "params" in g else "none", sender=key.hex(), got=got, size=size, paramsize=psz)
        return x
    def outs(self, names, sizes=None):
        """places for what is asked for, and those left out"""
        rng = self.rng; o = {n: ctypes.c_void_p(DEAD) for n in names}; asked = [n for n in names if rng.random() < .85]; return o, asked, [ctypes.byref(o[n]) if n in asked else P(0) for n in names]
    def took(self, o, asked, q, how):
        """(what is there, whether something was left although the call failed)"""
        got = {}; left = False
        for n, p in o.items():
            if p.value == DEAD: got[n] = "kept"
            elif not p.value: got[n] = "none"
            elif q == 0: b = self.api.takestr(p.value); got[n] = how(n, b)
            else: left = True; got[n] = "left"
        return got, left
    def json_(self, b):
        try: return V(json.loads(U(b)))
        except ValueError: return "bad"
    def message(self, d):
        rng = self.rng; items = list(d.items()); rng.shuffle(items)
        if rng.random() < .1 and items: items.append((items[0][0], "again"))
        t = "{" + ",".join(json.dumps(k) + ":" + json.dumps(v, ensure_ascii=rng.random() < .5) for k, v in items) + "}"
        if rng.random() < .07: return rng.choice(("{", "x", "[1]", "7", '"a"', t[:-1], "[" + t + "]")), {}, False
        return t, first(items), True
    def do_answer(self, a=0, kind=None, notice=False, plain_text=None):
        rng = self.rng; api = self.api; d = {}; right = 23197 if notice else 23195
        tk, bk = ("notification_type", "notification") if notice else ("result_type", "result")
        if rng.random() < .9: d[tk] = self.text(20, .01) if rng.random() < .95 else rng.choice((5, None, ["x"]))
        if rng.random() < .7: d[bk] = self.value()
        if not notice and rng.random() < .4: d["error"] = {k: self.text(20, .01) if rng.random() < .9 else 5 for k in ("code", "message") if rng.random() < .9} if rng.random() < .8 else rng.choice((None, "text", 5, []))
        t, g, obj = self.message(d)
        if len(t.encode("utf8", "surrogateescape")) > 65535: return
        kind = kind or (right if rng.random() < .94 else rng.choice((23195, 23197, 23196, 23194, 13194, 24133))); to = 1; b = 1 if rng.random() < .95 else rng.randrange(3)
        content = self.sealed(a, b, t); key = self.pk[a] if rng.random() < .95 else self.pk[rng.randrange(3)]; tags = []; enc = "none"
        if rng.random() < .85: tags.append(["p", self.pk[b if rng.random() < .8 else rng.randrange(3)].hex()])
        if rng.random() < .5: tags.append(["e", rng.randbytes(32).hex()])
        if rng.random() < .5: tags.insert(rng.randrange(len(tags) + 1), ["encryption", v := rng.choice(("nip44_v2", "nip44_v2", "nip44", "nip04", "nip44_v2 nip04", "", "none"))]); enc = "nip44" if "nip44" in v else "other"
        if rng.random() < .1: tags.insert(0, [rng.choice(("encryption", "p", "x"))])
        self.wire.append((key, content, t, g, obj)); return self.hear(kind, key, tags, content, t, g, obj, enc, notice)
    def hear(self, kind, key, tags, content, t, g, obj, enc, notice):
        api = self.api; ck = self.ck(self.sk[1], key); opens = plain(ck, content.encode()) == t.encode("utf8", "surrogateescape") if ck else False; e = self.event(kind, key, tags, content)
        names = ("type", "body") if notice else ("type", "body", "code", "message"); o, asked, ptrs = self.outs(names)
        q = self.call("nostr_nip47_parse_notification_event" if notice else "nostr_nip47_parse_response_event", P(e), buf(self.sk[1]), *ptrs, rand=False); api.ev_free(e)
        got, left = self.took(o, asked, q, lambda n, b: self.json_(b) if n == "body" else S_(b))
        tk, bk = ("notification_type", "notification") if notice else ("result_type", "result"); er = g.get("error") if isinstance(g.get("error"), dict) else {}
        st = lambda v: S_(v) if isinstance(v, str) else "none"
        want = dict(type=st(g.get(tk)), body=V(g[bk]) if bk in g else "none")
        if not notice: want.update(code=st(er.get("code")), message=st(er.get("message")))
        return self.rec("notice" if notice else "answer", q, left=left, kind=kind, open=opens, object=obj, encryption=enc, asked=asked, want=want, got=got)
    def do_notice(self): return self.do_answer(notice=True)
    def do_tell(self, who, kind): return self.do_answer(a=who, kind=kind, notice=False)
    def do_replay(self):
        m = [x for x in self.wire if len(x) == 5]
        if m: k, c, t, g, obj = self.rng.choice(m); return self.hear(23195, self.pk[2], [["p", self.pk[1].hex()]], c, t, g, obj, "none", False)
    def do_hear(self):
        m = [x for x in self.wire if len(x) == 5]
        if m: k, c, t, g, obj = self.rng.choice(m); return self.hear(23195, k, [["p", self.pk[1].hex()]], c, t, g, obj, "none", False)
    def words(self): return self.rng.choice(("", " ")) + self.rng.choice((" ", " ", "  ")).join(self.rng.choice(("pay_invoice", "get_balance", "nip44_v2", "nip04", "payment_received", "é")) for _ in range(self.rng.choice((0, 1, 2, 5, 12)))) + self.rng.choice(("", "", " "))
    def do_info(self):
        rng = self.rng; api = self.api; c = self.words(); tags = []; n = e = None
        for _ in range(rng.randrange(4)):
            k = rng.choice(("notifications", "encryption", "p", "x")); v = self.words(); t = [k] if rng.random() < .1 else [k, v] + ["more"] * (rng.random() < .1); tags.append(t)
            if len(t) > 1 and k == "notifications" and n is None: n = v
            if len(t) > 1 and k == "encryption" and e is None: e = v
        kind = 13194 if rng.random() < .95 else 23194; ev = self.event(kind, self.pk[0], tags, c)
        if rng.random() < .05: api.ev_free(ev); ev = api.ev_new(); api.ev_set(ev, "kind", kind); c = ""; n = e = None
        o = {k: (ctypes.c_void_p(DEAD), ctypes.c_size_t(77)) for k in ("caps", "notes", "enc")}; asked = [k for k in o if rng.random() < .85]; a = []
        for k in o: a += [ctypes.byref(o[k][0]), ctypes.byref(o[k][1])] if k in asked else rng.choice(([P(0), P(0)], [P(0), ctypes.byref(ctypes.c_size_t(0))]))
        q = self.call("nostr_nip47_parse_info_event", P(ev), *a, rand=False); api.ev_free(ev); got = {}; left = False
        for k in o: got[k], l = self.list_(q, *o[k]); left = left or l
        w = lambda t: W(t.split(" ") if False else [x for x in t.split(" ") if x]) if t is not None else W([])
        return self.rec("info", q, left=left, kind=kind, asked=asked, want=dict(caps=w(c), notes=w(n), enc=w(e)), got=got)
    def list_(self, q, p, n):
        """a list of texts handed out, disposed of"""
        api = self.api
        if p.value == DEAD: return "kept", False
        if q != 0: return "left", p.value is not None
        if not p.value: return W([]) if n.value == 0 else "bad", False
        a = (ctypes.c_void_p * n.value).from_address(p.value) if n.value else []; w = [U(api.takestr(x)) if x else None for x in list(a)]; api.free(p.value); return W(w), False
    def amount(self): return self.rng.choice((1, 1000, 0, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 + 1, 2 ** 64 - 1, 10 ** 18 + 1, self.rng.randrange(2 ** 64)))
    def do_params(self):
        rng = self.rng; o = lambda f: f() if rng.random() < .6 else None; t = lambda: self.text(40, .02)
        f = rng.choice(("pay_invoice", "make_invoice", "list", "lookup", "keysend", "multi", "get_balance", "get_info"))
        u32 = lambda: rng.choice((0, 1, 3600, 2 ** 31, 2 ** 32 - 1)); tm = lambda: rng.choice((0, 1, NOW, 2 ** 31, 2 ** 33, 2 ** 53 + 1, -1))
        a = dict(pay_invoice=lambda: dict(invoice=t(), amount=o(self.amount)), make_invoice=lambda: dict(amount=self.amount(), description=o(t), hash=o(t), expiry=o(u32)),
             list=lambda: {"from": o(tm), "until": o(tm), "limit": o(u32), "offset": o(u32), "unpaid": o(lambda: rng.random() < .5), "type": o(t)}, lookup=lambda: dict(hash=o(t), invoice=o(t)),
             keysend=lambda: dict(amount=self.amount(), pubkey=t(), preimage=o(t), tlv=[(rng.choice(("7629169", "0", "5482373484", "9007199254740993", "18446744073709551615", "18446744073709551616", "x", "", "-1", "1a", " 1", "34349334")), rng.choice((t(), t(), t(), None)) if rng.random() < .1 else t()) for _ in range(rng.choice((0, 1, 1, 3)))], odd=rng.random() < .06),
             multi=lambda: dict(all=[(o(t), t() if rng.random() < .97 else None, self.amount()) for _ in range(rng.choice((0, 1, 2, 5)))], ids=rng.random() < .7, amounts=rng.random() < .7), get_balance=dict, get_info=dict)[f]()
        return self.params(f, a)[0]
    def params(self, f, a):
        N = P(0); o = ctypes.c_void_p(DEAD); O = ctypes.byref(o); ref = lambda T, v: ctypes.byref(T(v)) if v is not None else N; u64, u32 = ctypes.c_uint64, ctypes.c_uint32; keep = []
        s = lambda v: S_(v) if v is not None else "none"; n = lambda v: "n:%d" % v if v is not None else "none"; x = {}
        if f == "pay_invoice": args = ["create_pay_invoice_params", O, E(a["invoice"]), ref(u64, a["amount"])]; x = dict(invoice=s(a["invoice"]), amount=n(a["amount"]))
        elif f == "make_invoice": args = ["create_make_invoice_params", O, u64(a["amount"]), E(a["description"]), E(a["hash"]), ref(u32, a["expiry"])]; x = dict(amount=n(a["amount"]), description=s(a["description"]), hash=s(a["hash"]), expiry=n(a["expiry"]))
        elif f == "list": args = ["create_list_transactions_params", O, ref(ctypes.c_int64, a["from"]), ref(ctypes.c_int64, a["until"]), ref(u32, a["limit"]), ref(u32, a["offset"]), ref(ctypes.c_int, a["unpaid"]), E(a["type"])]; x = {k: n(a[k]) for k in ("from", "until", "limit", "offset")}; x.update(unpaid=V(a["unpaid"]) if a["unpaid"] is not None else "none", type=s(a["type"]))
        elif f == "lookup": args = ["create_lookup_invoice_params", O, E(a["hash"]), E(a["invoice"])]; x = dict(hash=s(a["hash"]), invoice=s(a["invoice"]))
        elif f == "keysend":
            tl = [v for t in a["tlv"] for v in t] + (["5"] if a["odd"] else []); arr = (ctypes.c_char_p * max(1, len(tl)))(*[E(v) if v is not None else None for v in tl])
            args = ["create_pay_keysend_params", O, u64(a["amount"]), E(a["pubkey"]), E(a["preimage"]), arr if tl else N, ctypes.c_size_t(len(tl))]
            x = dict(amount=n(a["amount"]), pubkey=s(a["pubkey"]), preimage=s(a["preimage"]), odd=a["odd"], tlv=[dict(type="n:" + t if re.fullmatch("[0-9]+", t) and int(t) < 2 ** 64 else "bad", value=s(v)) for t, v in a["tlv"]])
        elif f == "multi":
            q = a["all"]; k = max(1, len(q)); ids = (ctypes.c_char_p * k)(*[E(v[0]) if v[0] is not None else None for v in q]); inv = (ctypes.c_char_p * k)(*[E(v[1]) if v[1] is not None else None for v in q]); am = (u64 * k)(*[v[2] for v in q])
            args = ["create_multi_pay_invoice_params", O, ids if a["ids"] else N, inv, am if a["amounts"] else N, ctypes.c_size_t(len(q))]
            x = dict(all=[dict(id=s(v[0]) if a["ids"] else "none", invoice=s(v[1]), amount=n(v[2]) if a["amounts"] else "none") for v in q])
        else: args = ["create_%s_params" % f, O]; x = dict(none=0)
        q = self.call("nostr_nip47_" + args[0], *args[1:], rand=False); r = self.rec("params", q, f=f, a=x, left=q != 0 and o.value not in (None, DEAD)); t = None
        if q == 0:
            b = self.api.takestr(o.value); t = U(b); p = self.body(b); l = []
            try: w = json.loads(t, object_pairs_hook=Obj)
            except ValueError: w = None
            if isinstance(w, Obj):
                p = []
                for k_, v in w.q:
                    if k_ in ("tlv_records", "invoices") and isinstance(v, list) and f in ("keysend", "multi") and all(isinstance(e, Obj) for e in v): p.append([L1(k_), "list"]); l = [[[L1(k2), V(strip(v2))] for k2, v2 in e.q] for e in v]
                    else: p.append([L1(k_), V(strip(v))])
            r["d"] = dict(body=p, list=l)
        return r, t
    def do_result(self):
        rng = self.rng; api = self.api; f = rng.choice(("balance", "pay", "info")); num = lambda: rng.choice(("0", "1", "1000", str(2 ** 53), "21000000", str(rng.randrange(2 ** 53)), "9223372036854775808", "-1", "1.5", "18446744073709551616", "1e30", "1e3", '"5"', "null", "true", "4294967296", "4294967295", "800000", "-0.5"))
        tx = lambda: json.dumps(self.text(30, .01)) if rng.random() < .85 else rng.choice(("5", "null", '["a"]', "{}"))
        keys = dict(balance=["balance"], pay=["preimage", "fees_paid"], info=["alias", "color", "pubkey", "network", "block_height", "methods"])[f]; d = {}
        for k in keys:
            if rng.random() < .9: d[k] = num() if k in ("balance", "fees_paid", "block_height") else tx() if k != "methods" else "[" + ",".join(tx() for _ in range(rng.randrange(5))) + "]" if rng.random() < .9 else rng.choice(("{}", '"a"', "5"))
        items = list(d.items()) + ([("more", "{}")] if rng.random() < .2 else []); rng.shuffle(items); t = "{" + ",".join('"%s": %s' % i for i in items) + "}"; ok = True
        if rng.random() < .05: t = rng.choice(("{", "", "x", t[:-1])); ok = False; d = {}
        def whole(k, lim, absent):
            v = d.get(k)
            if v is None or v[0] in '"ntf': return absent
            from fractions import Fraction
            v = Fraction(v); return "n:%d" % v if v.denominator == 1 and 0 <= v < lim else absent
        st = lambda v: S_(json.loads(v)) if v is not None and v[0] == '"' else "none"
        if f == "balance":
            b = ctypes.c_uint64(77); q = self.call("nostr_nip47_parse_balance_response", E(t), ctypes.byref(b), rand=False); asked = ["balance"]; got = dict(balance="n:%d" % b.value); want = dict(balance=whole("balance", 2 ** 64, "none")); left = q != 0 and b.value != 77
        elif f == "pay":
            o, asked, ptrs = self.outs(("preimage",)); b = ctypes.c_uint64(77); ab = rng.random() < .85; q = self.call("nostr_nip47_parse_pay_invoice_response", E(t), *ptrs, ctypes.byref(b) if ab else P(0), rand=False)
            got, left = self.took(o, asked, q, lambda n, x: S_(x)); got["fees"] = "n:%d" % b.value if ab else "kept"; asked += ["fees"] * ab; want = dict(preimage=st(d.get("preimage")), fees=whole("fees_paid", 2 ** 64, "n:0"))
        else:
            o, asked, ptrs = self.outs(("alias", "color", "pubkey", "network")); b = ctypes.c_uint32(77); ab = rng.random() < .85; m = ctypes.c_void_p(DEAD); n = ctypes.c_size_t(77); am = rng.random() < .85
            q = self.call("nostr_nip47_parse_info_response", E(t), *ptrs, ctypes.byref(b) if ab else P(0), *((ctypes.byref(m), ctypes.byref(n)) if am else (P(0), P(0))), rand=False)
            got, left = self.took(o, asked, q, lambda n, x: S_(x)); got["height"] = "n:%d" % b.value if ab else "kept"; got["methods"], l = self.list_(q, m, n); left = left or l; asked += ["height"] * ab + ["methods"] * am
            want = {k: st(d.get(k)) for k in ("alias", "color", "pubkey", "network")}; want["height"] = whole("block_height", 2 ** 32, "n:0"); ml = json.loads(d["methods"]) if "methods" in d else []; want["methods"] = W([v for v in ml if isinstance(v, str)] if isinstance(ml, list) else [])
        return self.rec("result", q, left=left, f=f, json=ok, asked=asked, want=want, got=got)
    def do_null(self):
        c = self.api.call; k = self.rng.randrange(14); s = buf(self.sk[0]); p = buf(self.pk[1]); o = ctypes.c_void_p(); O = ctypes.byref(o); e = self.event(24133, self.pk[0], [], "x"); N = P(0); EV = P(e); st = Req(); rs = Resp(b"1", None, None)
        r = (lambda: c("nostr_nip46_parse_request", N, s, ctypes.byref(st)), lambda: c("nostr_nip46_parse_request", EV, N, ctypes.byref(st)), lambda: c("nostr_nip46_parse_request", EV, s, N), lambda: c("nostr_nip46_create_response", N, s, p, O), lambda: c("nostr_nip46_create_response", ctypes.byref(rs), N, p, O),
             lambda: c("nostr_nip46_create_response", ctypes.byref(rs), s, N, O), lambda: c("nostr_nip46_create_response", ctypes.byref(rs), s, p, N), lambda: c("nostr_nip47_parse_connection_uri", N, O), lambda: c("nostr_nip47_parse_connection_uri", b"nostr+walletconnect://", N), lambda: c("nostr_nip47_create_request_event", O, N, b"m", b"{}", 1),
             lambda: c("nostr_nip47_parse_response_event", N, s, N, N, N, N), lambda: c("nostr_nip47_parse_notification_event", N, s, N, N), lambda: c("nostr_nip47_parse_balance_response", N, O), lambda: c("nostr_nip47_create_pay_invoice_params", O, N, N))[k]()
        self.api.ev_free(e); return dict(o="null", r=r)
def cj(b):
    """the length of a text as cJSON prints it, quotes not counted"""
    return sum(2 if c in b'"\\\b\f\n\r\t' else 6 if c < 32 else 1 for c in b)
class Obj:
    def __init__(self, q): self.q = list(q)
def strip(v):
    if isinstance(v, Obj): return {k: strip(x) for k, x in v.q}
    return [strip(x) for x in v] if isinstance(v, list) else v
class Req(ctypes.Structure): _fields_ = [("id_", ctypes.c_char * 65), ("method", ctypes.c_char * 32), ("params", ctypes.c_void_p), ("params_len", ctypes.c_size_t), ("sender", ctypes.c_ubyte * 32)]
class Resp(ctypes.Structure): _fields_ = [("id_", ctypes.c_char * 65), ("result", ctypes.c_void_p), ("error", ctypes.c_void_p)]
