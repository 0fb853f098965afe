import ctypes, hashlib, itertools, json, threading, time
from vf.framework import Check
from vf import gen as G, jsongen as J, evjson as E
from vf.api import P, B
SCB = ctypes.CFUNCTYPE(None, P, ctypes.c_int, P); MCB = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, P); ECB = ctypes.CFUNCTYPE(None, P, P)
EST, RECV, CLOSED, ERR = 3, 8, 75, 1
BASE = 1700000000
def U(b): return b.decode("utf8", "surrogateescape")
def cid(b): return json.dumps(U(b))
def can(x):
    t = json.dumps(x, sort_keys=True)
    return t if len(t) < 20000 else "sha256:" + hashlib.sha256(t.encode()).hexdigest()
BIG = (20000, 65535, 65536, 70000, 500000, 1 << 20, 3 << 20, (10 << 20) - 5000)
def evcan(d): return can([d["id"], d["pubkey"], d["created_at"], d["kind"], d["tags"], d["content"], d["sig"]])
IDS = [b"a", b"b", b"sub:1", b"\xc3\xa9", b"x" * 256]
BADIDS = [b"", b'q"', b"\\", b"a\n", b"\x01", b"x" * 257]
URLS = [("ws", "relay.example", None, "/"), ("wss", "relay.example", None, ""), ("ws", "10.0.0.1", "7777", "/"), ("wss", "nostr.example", "443", "/path/x?y=1"), ("wss", "h", "8443", ""), ("ws", "localhost", "80", "/a"), ("ws", "long" * 50 + ".example", "65535", "/" + "p" * 300), ("ws", "h", "1", "/")]
BADURLS = [("http", "h", None, "/"), ("WS", "h", None, ""), ("", "h", None, ""), ("wss", "h", "", "/"), ("ws", "h", "0", ""), ("ws", "h", "65536", ""), ("ws", "h", "80x", "/"), ("ws", "h", "-1", ""), ("wss", "h", "99999", "")]
def url(u): return ("%s://%s" % (u[0], u[1]) if u[0] else u[1]) + (":" + u[2] if u[2] is not None else "") + u[3]
def urec(u): return dict(scheme=u[0], host=u[1], colon=u[2] is not None, port=[int(c) if c in "0123456789" else 10 for c in u[2] or ""], path=u[3][1:] if u[3][:1] == "/" else u[3], hp=u[1] + (":" + u[2] if u[2] is not None else ""))
def filters(rng):
    """texts of one or more filter objects, and texts that are not"""
    f = lambda: rng.choice(({}, {"kinds": [1]}, {"authors": ["a" * 64], "limit": 10}, {"#t": [J.utext(rng, 20)], "since": 5}, {"search": '],["'}))
    if rng.random() < .75:
        fs = [f() for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        return ",".join(J.render(x, rng) for x in fs).encode("utf8"), True, can(fs)
    return rng.choice((b"", b"{", b"{}]", b'{}],["CLOSE","a"]', b"nope", b"{} {}", b"{},", b'{"kinds":[1}', b"{}}", b"\x80", b'{"a":"\n')), False, ""

class CHECK(Check):
    id = "P26"
    variants = ["ossl"]
    trace = "T_RelayClient"
    mc = [("MC_RelayClient", "MC_RelayClient.cfg", {"workers": 3})]
    gen = [("MC_RelayClient", "Gen_RelayClient.cfg", {"simulate": lambda c: "num=%d" % c.scale(150, 20000), "extra": ("-depth", "30")})]
    assumptions = ["libwebsockets is a stand-in (shim/lws_mock.c) that delivers on the library's own service thread and frees connections as libwebsockets 4.3 does", "calls on one relay come from one program thread or its own callbacks, except in the overlap histories"]

    def behaviours(self, api, rng, w, n, gen):
        self.rng = rng; self.events = {}
        self.keep = (SCB(self.on_state), MCB(self.on_msg), ECB(self.on_event))
        L = api.lib
        L.lm_cur.restype = P; L.lm_nwrites.restype = ctypes.c_size_t; L.lm_write.restype = P; L.lm_attempts.restype = ctypes.c_long; L.lm_after_destroy.restype = ctypes.c_long
        for f in ("lm_addr", "lm_path", "lm_host"): L[f].restype = ctypes.c_char_p; setattr(self, f, L[f])
        for f in ("lm_addr", "lm_path", "lm_host"): getattr(L, f).restype = ctypes.c_char_p
        api.call("nostr_init")
        yield self.nulls()
        for g in gen: yield self.run(g)
        for _ in range(self.scale(200, 8000)): yield self.run(self.plan())
        for k in range(self.scale(4, 80)): yield self.overlap()
    # ---- callbacks
    def guard(self, f):
        try: f()
        except BaseException as x:
            self.err = x
    def on_state(self, relay, st, ud): self.guard(lambda: (self.cbs.append(st), self.acted(len(self.cbs))))
    def on_msg(self, ty, data, ud):
        def f():
            try: body = can(json.loads(U(data)))
            except ValueError: body = "?"
            self.dl.append(dict(to="msg", n=ud or 0, id=cid(ty), body=body)); self.acted(len(self.dl))
        self.guard(f)
    def on_event(self, ev, ud):
        def f():
            d = self.api.ev_read(ev); self.dl.append(dict(to="sub", n=ud or 0, id="", body=evcan(dict(id=d["id"].hex(), pubkey=d["pubkey"].hex(), sig=d["sig"].hex(), created_at=d["created_at"], kind=d["kind"], tags=[[U(v) for v in t] for t in d["tags"]], content=U(d["content"] or b"")))))
            self.acted(len(self.dl))
        self.guard(f)
    def acted(self, k):
        if self.act and self.act[0]["at"] == k:
            a = self.act[0]["op"]; w0 = self.nw(); self.call(a); a["w"] = self.writes(w0); self.actw = a["w"]; self.flags(self.fail)
    # ---- library
    def nw(self): return self.api.lib.lm_nwrites()
    def writes(self, k0):
        out = []; n = ctypes.c_size_t(); c = P(); L = self.api.lib
        for i in range(k0, self.nw()):
            t = ctypes.string_at(L.lm_write(ctypes.c_size_t(i), ctypes.byref(n), ctypes.byref(c)), n.value)
            try:
                v = json.loads(U(t)); k = v[0]
                out.append(dict(k="EVENT", id="", body=evcan(v[1])) if k == "EVENT" and len(v) == 2 else dict(k="REQ", id=json.dumps(v[1]), body=can(v[2:])) if k == "REQ" and len(v) > 2
                           else dict(k="CLOSE", id=json.dumps(v[1]), body="") if k == "CLOSE" and len(v) == 2 else dict(k="?", id="", body=""))
            except (ValueError, KeyError, TypeError, IndexError): out.append(dict(k="?", id="", body=""))
        return out
    def flags(self, fail):
        self.api.lib.lm_set(int(fail == "create"), int(fail == "lws"), int(fail == "write")); self.api.lib.vf_thread_fail(int(fail == "thread"))
    def call(self, o):
        """one API call; fills o['r']"""
        a = self.api; L = a.lib; self.flags(o.get("fail", "none")); r = self.rel.get(o["i"])
        if o["o"] == "connect":
            a.time_set(BASE + o["now"]); o["r"] = L.nostr_relay_connect(P(r), self.keep[0] if o["cb"] else None, None); o["t"] = dict(addr=U(L.lm_addr()), path=U(L.lm_path())[U(L.lm_path())[:1] == "/":], hp=U(L.lm_host()), port=L.lm_port(), ssl=bool(L.lm_ssl()))
            if o["r"] == 0: self.ctx[o["i"]] = L.lm_cur(); self.cut[self.ctx[o["i"]]] = False
        elif o["o"] == "disconnect": o["r"] = L.nostr_relay_disconnect(P(r))
        elif o["o"] == "destroy": L.nostr_relay_destroy(P(r)); del self.rel[o["i"]]; o["r"] = 0
        elif o["o"] == "sub": o["r"] = L.nostr_subscribe(P(r), self.c(o["_id"]), self.c(o["_f"]), self.keep[2] if o["n"] else None, P(o["n"]))
        elif o["o"] == "unsub": o["r"] = L.nostr_relay_unsubscribe(P(r), self.c(o["_id"]))
        elif o["o"] == "setcb": o["r"] = L.nostr_relay_set_message_callback(P(r), self.keep[1] if o["n"] else None, P(o["n"]))
        elif o["o"] == "send":
            s = self.source(o["ev"]); o["ev"] = evcan(E.obj(s)) if "id" in s else ""
            e = a.ev_build(dict(kind=s["kind"], created_at=s["created_at"], id=bytes.fromhex(s["id"].decode()), pubkey=bytes.fromhex(s["pubkey"].decode()), sig=bytes.fromhex(s["sig"].decode()), tags=[[v.encode() for v in t] for t in s["tags"]], content=s["content"].encode()))
            o["r"] = L[self.rng.choice(("nostr_relay_send_event", "nostr_publish_event"))](P(r), P(e)); a.ev_free(e)
        self.flags("none")
    def c(self, b): return ctypes.c_char_p(b)
    def source(self, name):
        """the event with this name; its hex is lower case, its time within 2^53"""
        if name not in self.events:
            s = E.source(self.rng, True, 60); s["tags"] = s["tags"][:3]
            if self.rng.random() < .01: s["content"] = "c" * self.rng.choice((5000, 60000, 250000))
            for f in ("id", "pubkey", "sig"): s[f] = s[f].lower()
            if len(self.events) > 500: self.events.clear()
            self.events[name] = s
        return self.events[name]
    # ---- items of a websocket message: abstract -> text
    def item(self, it):
        rng = self.rng; R = lambda v: J.render(v, rng).strip(" \t\n\r").encode("utf8", "surrogateescape"); k = it["k"]; sub = it.get("_sub") or (it["sub"].encode() if it.get("sub") else b"a")
        it["sub"] = cid(sub); it.setdefault("ok", True); it.setdefault("type", ""); it.setdefault("body", "")
        if k == "event":
            s = self.source(it.pop("_ev", it["body"])); v = ["EVENT", U(sub), E.obj(s)] + ([] if rng.random() < .9 else [7])
            if not it["ok"]:
                bad = dict(E.obj(s)); f = rng.choice(("id", "pubkey", "sig", "kind", "all")); v[2] = {"all": rng.choice(([], 5, "x", None)), "kind": dict(bad, kind=70000)}.get(f, dict(bad, **({f: bad[f][:-1]} if f in ("id", "pubkey", "sig") else {})))
            it["body"] = evcan(E.obj(s)); it["type"] = ""; return R(v)
        if k == "msg":
            v = ["NOTICE", "n" * it.pop("_big")] if it.get("_big") else it.pop("_v", None) or rng.choice((["OK", "a" * 64, True, ""], ["OK", "b" * 64, False, "blocked: " + J.utext(rng, 20)], ["EOSE", U(sub)], ["NOTICE", J.utext(rng, 80)], ["AUTH", "challenge"], ["COUNT", U(sub), {"count": 5}], ["X", [[1, {"a": [None]}]]], ["NOTICE", ']["\\,{'], [J.utext(rng, 10) or "T", 1], ["NOTICE", "n" * rng.choice((1000, 1023, 1024, 5000))]))
            it["type"] = json.dumps(v[0]); it["body"] = can(v); return json.dumps(v).encode() if len(v[1] if isinstance(v[1], str) else "") > 10000 else R(v)
        if k == "closed": v = ["CLOSED", U(sub), J.utext(rng, 30)] + ([] if rng.random() < .85 else [7]); it["type"] = '"CLOSED"'; it["body"] = can(v); return R(v)
        if it.pop("_huge", False): return b'["NOTICE","' + b"h" * ((10 << 20) + rng.choice((5000, 400000, 1 << 20))) + rng.choice((b' ["NOTICE","tail"]', b'"] ["EVENT","a"] ["OK","tail",true,""]'))
        if k == "ignored": return R(rng.choice(([1, 2], ["X"], [], [["EVENT", "a", {}], 1], [None, "a"], [{"a": 1}, 2], ["EVENT", 5, {}], ["EVENT", None, {}, 1])))
        if k == "odd":
            v = rng.choice((["EVENT", U(sub)], ["OK", "x", True], ["CLOSED", 5, "x"], ["CLOSED", U(sub)], ["OK", "x"])) if not it.pop("_huge", False) else ["NOTICE", "h" * (11 << 20)]
            it["type"] = json.dumps(v[0]); it["body"] = can(v); return R(v)
        return rng.choice((b"garbage", b"{}", b'{"a":["EVENT","a",{}]}', b"nul\0 byte", b'"text"', b"]", b"}", b"[}", b"[1,]", b"\xff\xfe", b"\t", b"null", b"\0")) if it.get("whole", True) else rng.choice((b'["NOTICE","cut', b"[", b'["EVENT","a",{"id":', b'["X"', b'["a\\'))
    def text(self, items):
        """one websocket message with these elements; only the last may be cut short"""
        out = []
        for j, it in enumerate(items):
            if it["k"] == "junk": it["whole"] = not (j == len(items) - 1 and self.rng.random() < .5)
            out.append(self.item(it)); out.append(self.rng.choice((b"", b"", b"\n", b" ", b"\r\n")))
        for it in items:
            for k in list(it):
                if k[0] == "_" or k == "whole": del it[k]
        return b"".join(out)
    def post(self, ctx, t, end=True):
        rng = self.rng; L = self.api.lib; n = len(t)
        tail = t.rfind(b" [", 1) + 1
        if n > 1 << 20: cuts = list(range(1 << 20, n, 1 << 20)); cuts += [tail] if n > 10 << 20 and tail > cuts[-1] else []
        else: cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice((0, 0, 1, 2, 5, 20))))) if n > 1 else []
        ps = [0] + cuts + [n]
        for j in range(len(ps) - 1):
            last = j == len(ps) - 2; part = t[ps[j]:ps[j + 1]]; fin, rem = (1, 0) if last else rng.choice(((0, 0), (1, n - ps[j + 1]), (0, 7)))
            if last and not end: fin, rem = rng.choice(((0, 0), (1, 9), (0, 7)))
            L.lm_post(P(ctx), RECV, self.c(part) if False else ctypes.create_string_buffer(part, max(1, len(part))), ctypes.c_size_t(len(part)), fin, ctypes.c_size_t(rem))
    # ---- histories
    def nulls(self):
        L = self.api.lib; r = P(); ops = []
        z = lambda v: ops.append(dict(o="null", i="", r=v))
        z(L.nostr_relay_create(None, b"ws://h")); z(L.nostr_relay_create(ctypes.byref(r), None)); z(L.nostr_relay_connect(None, self.keep[0], None)); z(L.nostr_relay_disconnect(None)); z(L.nostr_relay_set_message_callback(None, None, None))
        z(L.nostr_subscribe(None, b"a", b"{}", None, None)); z(L.nostr_relay_unsubscribe(None, b"a")); z(L.nostr_relay_send_event(None, None)); L.nostr_relay_destroy(None)
        L.nostr_relay_create(ctypes.byref(r), b"ws://h"); z(L.nostr_subscribe(r, None, b"{}", None, None)); z(L.nostr_subscribe(r, b"a", None, None, None)); z(L.nostr_relay_unsubscribe(r, None)); z(L.nostr_relay_send_event(r, None)); L.nostr_relay_destroy(r)
        return dict(ops=ops)
    def real_state(self, i):
        r = self.rel.get(i)
        return (self.api.get(r, "nostr_relay", "state"), self.api.get(r, "nostr_relay", "ws_handle")) if r else (None, 0)
    def perform(self, o):
        """execute one abstract operation and record what was seen; None when it does not apply"""
        a = self.api; L = a.lib; i = o["i"]; k = o["o"]
        self.cbs = []; self.dl = []; self.act = o.get("act", []) or []; self.fail = o.get("fail", "none"); self.err = None; self.actw = []
        if k == "create":
            if i in self.rel: return None
            p = P(); u = o.pop("_u", None) or URLS[0]; o["r"] = L.nostr_relay_create(ctypes.byref(p), url(u).encode()); self.rel[i] = p.value; self.url[i] = u; self.ctx[i] = None
        elif i not in self.rel: return None
        w0 = self.nw(); a0 = L.lm_attempts()
        if k in ("established", "closed", "message", "partial"):
            ctx = self.ctx[i]
            if not ctx or L.lm_has_wsi(P(ctx)) == 0 or not self.real_state(i)[1]: return None
            if (k == "established") != (self.real_state(i)[0] == 1) and k != "closed": return None
            if self.act:
                for x in self.act: self.concrete(x["op"])
            self.flags(self.fail)
            if "now" in o: a.time_set(BASE + o["now"])
            if k == "established": L.lm_post(P(ctx), EST, None, ctypes.c_size_t(0), 1, ctypes.c_size_t(0))
            elif k == "closed": L.lm_post(P(ctx), CLOSED if self.real_state(i)[0] == 2 else ERR, None, ctypes.c_size_t(0), 1, ctypes.c_size_t(0))
            else:
                if k in ("message", "partial") and self.cut.get(ctx): return None
                self.note(repr(o)[:600]); huge = o.pop("_huge", False); t = self.text(o["items"])
                if k == "partial":
                    t += b'["NOTICE","' + b"h" * ((10 << 20) + 5000) if huge else self.rng.choice((b'["NOTICE","cut', b"[", b'["EVENT","a",{"id":', b'["X"', b'["a\\', b'["NOTICE","x"', b"junk", b'[["NOTICE","x"]', b'["NOTICE","' + b"y" * 3000)); self.cut[ctx] = True
                self.post(ctx, t, k != "partial")
            if k == "closed": self.cut[ctx] = False
            late = L.lm_wait(P(ctx), 20000)
            self.flags("none")
        else:
            late = 0; self.concrete(o)
            if k != "create": self.note(repr(o)[:600]); self.call(o)
        L.lm_wait_live(sum(1 for x in self.rel if self.real_state(x)[1]), 10000)
        if self.err: raise self.err
        o.update(cbs=self.cbs, dl=self.dl, att=L.lm_attempts() - a0, live=L.lm_live() - self.base, misuse=L.lm_after_destroy() + (1 if late else 0), st=self.real_state(i)[0] if i in self.rel else 0)
        w = self.writes(w0); o["w"] = w if not self.actw else w[len(self.actw):] if w[:len(self.actw)] == self.actw else w + [dict(k="?", id="", body="")]
        for x in o.get("act", []):
            if "r" not in x["op"]: o["act"] = []; break       # the delivery in which the call was to be made did not happen
        return o
    def concrete(self, o):
        if o["o"] == "connect": o["u"] = urec(self.url[o["i"]])
        if "id" in o and "_id" not in o: o["_id"] = o["id"].encode()
        if "_id" in o: o["id"] = cid(o["_id"]); o["idb"] = B(o["_id"])
        if o["o"] == "sub" and "_f" not in o: o["_f"], o["fok"], o["filters"] = b"{}", True, can([{}])
    def run(self, ops):
        L = self.api.lib; L.lm_clear_writes(); self.rel = {}; self.ctx = {}; self.url = {}; self.cut = {}; self.base = L.lm_live(); out = []
        self.api.time_set(BASE)
        def do(o):
            x = self.perform(o)
            if x: out.append(self.clean(x))
        for o in ops: do(o)
        for i in list(self.rel): do(dict(o="destroy", i=i))
        return dict(ops=out)
    def clean(self, o):
        o = {k: v for k, v in o.items() if k[0] != "_"}
        o.setdefault("act", []); o["act"] = [dict(at=x["at"], op=self.clean(x["op"])) for x in o["act"]]
        return o
    def plan(self):
        """random operations chosen along the real state"""
        rng = self.rng; now = 0; num = itertools.count(1); fail = lambda f, p=.08: f if rng.random() < p else "none"
        rid = lambda: rng.choice(IDS[:2] if rng.random() < .7 else IDS) if rng.random() < .94 else rng.choice(BADIDS)
        def sub(i):
            f, ok, c = filters(rng); return dict(o="sub", i=i, _id=rid(), _f=f, fok=ok, filters=c, n=next(num) if rng.random() < .95 else 0, fail=fail("write"))
        def conn(i): return dict(o="connect", i=i, cb=rng.random() < .97, now=now, fail=rng.choice(("create", "lws", "thread")) if rng.random() < .12 else "none")
        def act(i, k):
            if rng.random() > .25: return []
            r = rng.random()
            op = (dict(o="disconnect", i=i) if r < .25 else dict(o="destroy", i=i) if r < .4 else dict(conn(i)) if r < .55 else sub(i) if r < .7 else dict(o="unsub", i=i, _id=rng.choice(IDS[:2]), fail=fail("write")) if r < .85
                  else dict(o="setcb", i=i, n=rng.choice((0, next(num)))) if r < .93 else dict(o="send", i=i, ev="e%d" % rng.randrange(9), fail=fail("write")))
            if op["o"] == "connect" and op["fail"] == "thread": op["fail"] = "none"
            return [dict(at=1 if k == "state" else rng.choice((1, 1, 2, 3)), op=op)]
        def item():
            r = rng.random(); sub = rng.choice(IDS[:2] if rng.random() < .8 else IDS)
            if r < .45: return dict(k="event", _sub=sub, _ev="e%d" % rng.randrange(40), ok=rng.random() < .92)
            if r < .7: return dict(k="msg", _sub=sub, _big=rng.choice(BIG) if rng.random() < .006 else 0)
            if r < .78: return dict(k="closed", _sub=sub)
            if r < .86: return dict(k="ignored")
            if r < .93: return dict(k="odd", _sub=sub)
            return dict(k="junk")
        many = rng.random() < .3
        for i in ("1", "2") if many else ("1",):
            yield dict(o="create", i=i, _u=rng.choice(URLS) if rng.random() < .9 else rng.choice(BADURLS))
            if rng.random() < .7: yield dict(o="setcb", i=i, n=next(num))
        for _ in range(rng.choice((10, 30, 60))):
            i = rng.choice(("1", "2")) if many else "1"; st, h = self.real_state(i); now += rng.choice((0, 0, 0, 1, 1, 2, 4, 5, 6, 100)); r = rng.random()
            if st is None: yield dict(o="create", i=i, _u=rng.choice(URLS)); continue
            if st in (0, 3):
                if r < .75: yield conn(i)
                else: yield rng.choice((sub(i), dict(o="unsub", i=i, _id=rid(), fail="none"), dict(o="send", i=i, ev="e1", fail="none"), dict(o="disconnect", i=i), dict(o="setcb", i=i, n=next(num)), dict(o="destroy", i=i)))
            elif st == 1:
                if r < .6: yield dict(o="established", i=i, fail="none", act=act(i, "state"))
                elif r < .75: yield dict(o="closed", i=i, now=now, fail=fail("lws", .2), act=act(i, "state"))
                else: yield rng.choice((conn(i), sub(i), dict(o="disconnect", i=i), dict(o="destroy", i=i), dict(o="setcb", i=i, n=next(num))))
            elif r < .2: yield sub(i)
            elif r < .28: yield dict(o="unsub", i=i, _id=rid(), fail=fail("write"))
            elif r < .36: yield dict(o="send", i=i, ev="e%d" % rng.randrange(9), fail=fail("write"))
            elif r < .86:
                its = [item() for _ in range(rng.choice((1, 1, 1, 2, 3, 6)))]
                for b in [x for x in its if x.get("_big")][:1]: its = [b]        # within the limit on its own
                if rng.random() < .004: its = [dict(k=rng.choice(("odd", "junk", "junk")), _huge=True)]
                yield dict(o="message", i=i, items=its, fail="none", act=act(i, "message") if its[0].get("_huge") is None else [])
            elif r < .885:
                yield dict(o="partial", i=i, items=[x for x in (item() for _ in range(rng.randrange(3))) if x["k"] != "junk" and not x.get("_big")], fail="none", act=[], _huge=rng.random() < .03); now += rng.choice((0, 5, 5, 6, 6))
                if rng.random() < .9: yield dict(o="closed", i=i, now=now, fail=fail("lws"), act=[]); yield dict(o="established", i=i, fail="none", act=[]); yield dict(o="message", i=i, items=[dict(k="msg", _sub=b"a"), item()], fail="none", act=[])
            elif r < .91: yield dict(o="closed", i=i, now=now, fail=fail("lws", .2), act=act(i, "state"))
            else: yield rng.choice((conn(i), dict(o="disconnect", i=i), dict(o="destroy", i=i), dict(o="setcb", i=i, n=rng.choice((0, next(num))))))
    def overlap(self):
        """two threads subscribe and unsubscribe while events arrive; positions in one order"""
        L = self.api.lib; rng = self.rng; L.lm_clear_writes(); self.rel = {}; self.ctx = {}; self.url = {}; self.cut = {}; self.base = L.lm_live(); self.err = None
        self.perform(dict(o="create", i="1")); self.perform(dict(o="connect", i="1", cb=True, now=0, fail="none")); self.perform(dict(o="established", i="1", fail="none", act=[]))
        r = self.rel["1"]; ctx = self.ctx["1"]; pos = itertools.count(1); subs = []; dl = []; evs = []
        L.vf_lock_jitter(2, ctypes.c_uint64(rng.randrange(1 << 30)))
        frm = {}
        def hit(ev, ud):
            p = next(pos)
            try:
                k = int(self.api.ev_read(ev)["content"]); dl.append(dict(id=evs[k]["id"], n=ud or 0, at=p, posted=frm[k], ev=k))
            except BaseException as x: self.err = x
        cb = ECB(hit); sent = [MCB(lambda a, b, c: None) for _ in range(2)]
        stop = []
        def work(me, seed):
            import random
            q = random.Random(seed); n = 0; open_ = {}
            try:
                for _ in range(60):
                    i = q.choice(("%s0" % me, "%s1" % me)); x = q.random()
                    if x < .55 or i not in open_:
                        n += 1; d = dict(id=i, n=ord(me) * 1000 + n, done=0, end=1 << 30, gone=1 << 30); d["from"] = next(pos)
                        if L.nostr_subscribe(P(r), i.encode(), b"{}", cb, P(d["n"])) != 0: stop.append("subscribe"); return
                        d["done"] = next(pos)
                        if i in open_: open_[i]["end"] = d["from"]; open_[i]["gone"] = d["done"]
                        open_[i] = d; subs.append(d)
                    else:
                        d = open_.pop(i); d["end"] = next(pos)
                        if L.nostr_relay_unsubscribe(P(r), i.encode()) != 0: stop.append("unsubscribe"); return
                        d["gone"] = next(pos)
                    if x < .2: L.nostr_relay_set_message_callback(P(r), sent[n % 2], P(n))
                    if q.random() < .5: time.sleep(q.random() * .001)
            except BaseException as x: self.err = x
        ts = [threading.Thread(target=work, args=(c, rng.randrange(1 << 30))) for c in "ab"]
        for t in ts: t.start()
        s = dict(self.source("o")); k = 0
        while any(t.is_alive() for t in ts) and k < 400:
            i = rng.choice("ab") + rng.choice("01"); v = json.dumps(["EVENT", i, dict(E.obj(s), content=str(k))]).encode()
            evs.append(dict(id=i, ev=k, to=1 << 30)); frm[k] = evs[-1]["from"] = next(pos)
            L.lm_post(P(ctx), RECV, ctypes.create_string_buffer(v, len(v)), ctypes.c_size_t(len(v)), 1, ctypes.c_size_t(0))
            if rng.random() < .3: L.lm_post(P(ctx), RECV, ctypes.create_string_buffer(b'["NOTICE","x"]', 14), ctypes.c_size_t(14), 1, ctypes.c_size_t(0))
            if rng.random() < .4:
                L.lm_wait(P(ctx), 5000); x = next(pos)
                for e in evs:
                    if e["to"] == 1 << 30: e["to"] = x
            k += 1
        for t in ts: t.join()
        late = L.lm_wait(P(ctx), 5000); x = next(pos)
        for e in evs:
            if e["to"] == 1 << 30: e["to"] = x
        L.vf_lock_jitter(0, ctypes.c_uint64(0))
        L.nostr_relay_destroy(P(r)); self.rel = {}
        if self.err: raise self.err
        return dict(ops=[dict(o="overlap", i="", sub=subs, ev=evs, dl=dl, misuse=L.lm_after_destroy() + late + len(stop) + L.lm_live() - self.base)])
