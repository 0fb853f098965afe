import ctypes, json
from vf.framework import Check
from vf import gen as G, jsongen as J, evjson as EJ
from vf.api import P, B, BIG

def nodup(p):
    d = dict(p)
    if len(d) != len(p): raise ValueError("duplicate member")
    return d
def enc(s): return B(s.encode("utf8", "surrogateescape")) if isinstance(s, str) else "not a string"
def num(x):
    if isinstance(x, float) and x == int(x): x = int(x)
    return BIG(x) if isinstance(x, int) and not isinstance(x, bool) else "not an integer"

class CHECK(Check):
    id = "P09"
    variants = ["ossl"]
    trace = "T_RelayMsg"
    mc = [("MC_RelayMsg", "MC_RelayMsg.cfg", {"workers": 2})]
    gen = [("MC_RelayMsg", "Gen_RelayMsg.cfg", {"simulate": lambda c: "num=%d" % c.scale(20, 400)})]
    assumptions = ["texts without NUL; |created_at| < 2^53; a longer text may be cut up to three bytes early, at a character boundary"]

    def behaviours(self, api, rng, w, n, gen):
        api.lib.vf_oom_hook_cjson()
        for g in gen[:self.scale(150, 5000)]: yield self.run(g, rng)
        for _ in range(self.scale(220, 6000)):
            ops = []
            for _ in range(rng.randrange(1, 5)):
                ops.append(dict(o="build", m=self.msg(rng)))
                for _ in range(rng.randrange(1, 6)): ops.append(dict(o=rng.choice(("write", "write", "write", "write", "writeoom")), cap=None))
            yield self.run(ops, rng)
    def sub(self, rng): return B(rng.choice((b"s1", b"", b"x" * 63, b"x" * 64, b"x" * 65, b"x" * 200, bytes(rng.randrange(32, 127) for _ in range(rng.randrange(1, 70))), "ab\"\\\n\t\x01".encode())))
    def text(self, rng):
        r = rng.random()
        if r < .5: return B(J.utext(rng, 400).encode())
        if r < .8: return B((rng.choice(("m", "é", "日", "𝄞", "\"", "\n", "\x01")) * 400).encode()[:rng.choice((126, 127, 128, 200, 252, 253, 254, 255, 256, 257, 300))])
        return B(rng.choice((b"duplicate: already have this event", b"invalid: ", b"rate-limited: slow down", b"pow: difficulty 25>=24", b"")))
    def msg(self, rng):
        t = rng.choice(("EVENT", "EVENT", "OK", "EOSE", "CLOSED", "NOTICE", "AUTH", "COUNT"))
        if t == "EVENT":
            m = dict(t=t, sub=self.sub(rng)); m["src"] = None if rng.random() < .1 else EJ.source(rng, True, cap=rng.choice((30, 300, 3000)))
            return m
        if t == "OK": return dict(t=t, id=B(G.hexs(rng, 64) if rng.random() < .9 else b"x" * 70), ok=rng.random() < .5, msg=self.text(rng))
        if t == "EOSE": return dict(t=t, sub=self.sub(rng))
        if t == "CLOSED": return dict(t=t, sub=self.sub(rng), msg=self.text(rng))
        if t == "COUNT": return dict(t=t, sub=self.sub(rng), count=BIG(rng.choice((G.integer(rng, -2 ** 63, 2 ** 63 - 1), 10 ** 15, 2 ** 31, 2 ** 32 + 5, -2 ** 62))), approx=rng.random() < .5)
        return dict(t=t, msg=self.text(rng))

    def run(self, ops, rng):
        api = self.api; out = []; ev = 0; full = None
        m = api.new("nostr_relay_msg_t", 0xAA); cs = lambda b: bytes(b) + b"\0"
        i64 = lambda n: ctypes.c_int64((-1 if n["neg"] else 1) * int("".join(map(str, n["d"]))))
        for op in ops:
            o = op["o"]
            if o == "build":
                d = dict(op["m"]); full = None; t = d["t"]; keep = []
                bb = lambda x: keep.append(ctypes.create_string_buffer(bytes(x))) or keep[-1]
                if t == "EVENT":
                    if ev: api.ev_free(ev); ev = 0
                    src = d.pop("src", None)
                    if src:
                        rc, ev = api.ev_parse(J.render(EJ.obj(src), rng).encode())
                        if not ev: out.append(dict(o="event refused", r=rc)); break
                        d["ev"] = [EJ.read(api, ev)]
                    else: d["ev"] = []
                    api.call("nostr_relay_msg_event", m, bb(d["sub"]), P(ev) if ev else None)
                elif t == "OK": api.call("nostr_relay_msg_ok", m, bb(d["id"]), ctypes.c_bool(d["ok"]), bb(d["msg"]))
                elif t == "EOSE": api.call("nostr_relay_msg_eose", m, bb(d["sub"]))
                elif t == "CLOSED": api.call("nostr_relay_msg_closed", m, bb(d["sub"]), bb(d["msg"]))
                elif t == "NOTICE": api.call("nostr_relay_msg_notice", m, bb(d["msg"]))
                elif t == "AUTH": api.call("nostr_relay_msg_auth", m, bb(d["msg"]))
                else: api.call("nostr_relay_msg_count", m, bb(d["sub"]), i64(d["count"]), ctypes.c_bool(d["approx"]))
                for b in keep: ctypes.memset(b, 0x7a, ctypes.sizeof(b))       # the message keeps its own copies
                out.append(dict(o="build", m=d))
                continue
            cap = op["cap"]
            if cap is None: cap = rng.choice((65536, 65536, 65536, rng.randrange(1, 400), 1)) if full is None else max(1, full + rng.choice((0, 1, 1, 2, -1, -full // 2, 100)))
            self.note(str(out[-1])[:2000] + " write %d" % cap)
            buf = api.ptr("vf_malloc", ctypes.c_size_t(cap)); api.wr(buf, b"\xAA" * cap); ln = ctypes.c_size_t(0xAAAAAAAA)
            if o == "writeoom": api.lib.vf_oom_arm(ctypes.c_long(rng.randrange(1, 40)))
            rc = api.call("nostr_relay_msg_serialize", m, P(buf), ctypes.c_size_t(cap), ctypes.byref(ln)); api.lib.vf_oom_disarm()
            raw = api.rd(buf, cap); api.free(buf)
            d = dict(o=o, cap=cap, r=rc, len=min(ln.value, 2 ** 31 - 1))
            if rc == 0:
                z = raw.find(b"\0"); d["terminated"] = z == ln.value; d["out"] = self.decode(raw[:z if z >= 0 else cap])
            if o == "write" and rc in (0, 16): full = ln.value
            out.append(d)
        if ev: api.ev_free(ev)
        return {"ops": out}
    def decode(self, raw):
        try: j = json.loads(raw.decode("utf8", "surrogateescape"), object_pairs_hook=nodup)
        except ValueError as x: return dict(type="not JSON", n=0, raw=B(raw[:300]))
        if not isinstance(j, list) or not j or not isinstance(j[0], str): return dict(type="not a message", n=0)
        t = j[0]; d = dict(type=t, n=len(j)); a = j[1:]
        if t == "EVENT" and len(a) == 2:
            e = a[1]; d["sub"] = enc(a[0])
            if not isinstance(e, dict) or set(e) != {"id", "pubkey", "sig", "kind", "created_at", "tags", "content"}: d["ev"] = "not an event"
            else: d["ev"] = [dict(id=enc(e["id"]), pubkey=enc(e["pubkey"]), sig=enc(e["sig"]), kind=num(e["kind"]), created_at=num(e["created_at"]),
                                 tags=[[enc(v) for v in t] for t in e["tags"]], content=enc(e["content"]))]
        elif t == "OK" and len(a) == 3: d.update(id=enc(a[0]), ok=a[1] if isinstance(a[1], bool) else "?", msg=enc(a[2]))
        elif t == "EOSE" and len(a) == 1: d.update(sub=enc(a[0]))
        elif t == "CLOSED" and len(a) == 2: d.update(sub=enc(a[0]), msg=enc(a[1]))
        elif t in ("NOTICE", "AUTH") and len(a) == 1: d.update(msg=enc(a[0]))
        elif t == "COUNT" and len(a) == 2 and isinstance(a[1], dict):
            c = a[1]; d.update(sub=enc(a[0]), count=num(c.get("count", "?")), approx=c.get("approximate", False))
            if set(c) - {"count", "approximate"}: d["n"] = 99
        else: d["n"] = 98
        return d
