import ctypes
from vf.framework import Check
from vf import gen as G
from vf.api import P, B, BIG
T = "nostr_delegation"
M = 2 ** 63 - 1

class CHECK(Check):
    id = "P15"
    workers = 9
    variants = ["ossl", "mbed", "full"]
    trace = "T_Delegation"
    mc = [("MC_Delegation", "MC_Delegation.cfg", {"workers": 3})]
    gen = [("MC_Delegation", "Gen_Delegation.cfg", {})]
    assumptions = ["signatures are unforgeable: a token is genuine iff the delegator produced it; stray separators, numbers beyond 64 bits, more than 100 conditions or 4096 characters may be refused"]

    def behaviours(self, api, rng, w, n, gen):
        api.call("nostr_init"); self.keys = [(k, api.o_pub(k)) for k in G.seckeys(rng, 4)]
        rng.shuffle(gen)
        for g in gen[:self.scale(120, 4000)]: yield self.run([("create", x["by"][0], x["to"][0], bytes(x["text"])) for x in g], rng, 5)
        for _ in range(self.scale(130, 4000)): yield self.run([("create", rng.randrange(4), rng.randrange(4), self.text(rng)) for _ in range(rng.randrange(1, 4))], rng, 9)
    def val(self, rng):
        r = rng.random()
        return b"%d" % (rng.choice((0, 1, 7, 1000, 1001, 65535, 65536, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1, 1700000000)) if r < .7 else rng.randrange(2000)) if r < .85 else rng.choice((b"", b"-1", b"-5", b"+5", b" 5", b"5 ", b"005", b"0x5", b"5.0", b"%d" % 2 ** 63, b"-%d" % 2 ** 63, b"-%d" % (2 ** 63 + 1), b"-%d" % (2 ** 64 - 1), b"%d" % (2 ** 64 + 1), b"99999999999999999999999", b"x", b"-", b"--1", b"1,2"))
    def text(self, rng):
        r = rng.random()
        if r < .04: return rng.choice((b"", b"&", b"&&", b"kind", b"kind=", b"=", b"created_at", b"created_at=5", b"kind>5", b"Kind=1", b"kind=1;kind=2", b"kind=1kind=2", b"kind=1created_at<9", b"kind=1 &kind=2", b"kind=1& kind=2", b"pubkey=1", b"kinds=1"))
        if r < .08: return b"&".join(b"kind=%d" % k for k in rng.sample(range(65536), rng.choice((33, 65, 70, 99, 100))))
        if r < .12:
            n = rng.choice((98, 99, 100)); long = [b"created_at>%029d" % rng.randrange(9) for _ in range(n - 1)]; room = rng.choice((4096, 4096, 4095, 4097)) - len(b"&".join(long)) - 12
            return b"&".join(long + [b"created_at<" + b"%0*d" % (room, rng.choice((5, 1000)))]) if room > 4 else long[0]
        n = rng.choice((1, 1, 2, 2, 3, 4, 5, 20, 99, 100, 101, 140))
        easy = rng.random() < .75
        v = (lambda: b"%d" % rng.choice((1, 7, 1000, rng.randrange(0, 2000)))) if easy else lambda: self.val(rng)
        mk = lambda: rng.choice((b"kind=", b"kind=", b"created_at>", b"created_at<")) + v()
        out = b"&".join(mk() for _ in range(n))
        if rng.random() < .06: out = rng.choice((b"&" + out, out + b"&", out.replace(b"&", b"&&", 1), out + b"x", out.replace(b"=", b"==", 1), out.replace(b"kind=", b"kind=1&", 1), b" " + out, out[:rng.randrange(len(out) + 1)]))
        return out
    def run(self, ops, rng, asks):
        api = self.api; out = []; ds = []; PD = ctypes.byref
        for _, by, to, text in ops:
            sk, pk = self.keys[by % 4]; tp = self.keys[to % 4][1]; keyok = True; rng_ok = True; oom = 0
            k = rng.random()
            if k < .03: sk = G.badkey(rng); keyok = False
            elif k < .07: rng_ok = False; api.rng_fail(-1)
            elif k < .13: oom = rng.randrange(1, 8)
            d = api.new(T, rng.choice((0, 0xAA))); dp = ctypes.addressof(d); skb = ctypes.create_string_buffer(sk, 32); tpb = ctypes.create_string_buffer(tp, 32)
            self.note("create %r" % text)
            if oom: api.lib.vf_oom_arm(ctypes.c_long(oom))
            r = api.call("nostr_delegation_create", skb, tpb, text, d)
            if oom: oom = api.lib.vf_oom_disarm()
            api.lib.vf_rng_real(); api.rng_fail(0)
            o = dict(o="create", by=B(pk), to=B(tp), text=B(text), keyok=keyok, rng=rng_ok, oom=bool(oom), r=r, token=[], gottext=[], gotby=[])
            if r == 0:
                o.update(token=B(api.getb(dp, T, "token")), gottext=B(api.cstr(api.get(dp, T, "conditions")) or b""), gotby=B(api.getb(dp, T, "delegator_pubkey"))); ds.append((d, pk, tp, text, bytes(o["token"])))
            out.append(o)
        for _ in range(asks):
            if not ds: break
            d, pk, tp, text, token = rng.choice(ds); dp = ctypes.addressof(d); k = rng.random(); self.note("ask %r %r" % (text, k))
            kind = rng.choice((1, 7, 1000, 0, 65535, rng.randrange(65536))); at = rng.choice((5, 1000, 0, 1, 6, 7, 8, rng.randrange(2000), M, -M - 1, -1, 2 ** 32, 1700000000))
            nums = [int(x) for c in text.split(b"&") for x in [c.split(b"=")[-1].split(b">")[-1].split(b"<")[-1]] if x.isdigit() and len(x) < 19]
            if nums and rng.random() < .7: at = max(-M - 1, min(M, rng.choice(nums) + rng.choice((-1, 0, 1)))); kind = rng.choice((kind, rng.choice(nums) % 65536))
            if k < .3: out.append(dict(o="check", text=B(text), kind=BIG(kind), at=BIG(at), r=api.call("nostr_delegation_check_conditions", d, ctypes.c_uint16(kind), ctypes.c_int64(at))))
            elif k < .5:
                who = rng.choice((tp, tp, rng.choice(self.keys)[1]))
                alter = rng.random(); b2, t2, x2 = pk, token, text
                if alter < .15: b2 = rng.choice(self.keys)[1]
                elif alter < .3: t2 = self.flip(t2, rng)
                elif alter < .45: x2 = rng.choice((text + b"&kind=1", text[:-1] or b"x", self.flip(text, rng).replace(b"\0", b"!"), rng.choice(ds)[3], b""))
                f = api.new(T, 0); fp = ctypes.addressof(f); c = ctypes.create_string_buffer(x2)
                api.set(fp, T, "delegator_pubkey", b2); api.set(fp, T, "token", t2); api.set(fp, T, "conditions", ctypes.addressof(c))
                out.append(dict(o="verify", by=B(b2), to=B(who), text=B(x2), token=B(t2), r=api.call("nostr_delegation_verify", f, ctypes.create_string_buffer(who, 32))))
            else:
                e = api.ev_new(); author = tp if rng.random() < .75 else rng.choice(self.keys)[1]; api.ev_set(e, "pubkey", author); api.ev_set(e, "kind", kind); api.ev_set(e, "created_at", at)
                for t in ([b"delegation", b"x"], [b"p", b"1", b"2", b"3"], [b"delegation"])[:rng.randrange(4)]: api.ev_add(e, t)
                if rng.random() < .6:
                    r = api.call("nostr_event_add_delegation", P(e), d); out.append(dict(o="add", by=B(pk), text=B(text), token=B(token), r=r, tag=[B(v) for v in api.ev_tags(e)[-1]]))
                else:
                    t = [b"delegation", pk.hex().encode(), text, token.hex().encode()]; a = rng.random()
                    if a < .1: t[1] = rng.choice((t[1].upper(), t[1][:-1], t[1] + b"0", t[1][:-1] + b"g", rng.choice(self.keys)[1].hex().encode(), b"", b" " + t[1][1:]))
                    elif a < .2: t[3] = rng.choice((t[3].upper(), t[3][:-1], t[3] + b"00", t[3][:-1] + b"g", self.flip(token, rng).hex().encode(), b"", rng.choice(ds)[4].hex().encode()))
                    elif a < .35: t[2] = rng.choice((text + b"&kind=%d" % kind, b"kind=%d" % kind, self.text(rng), b"", rng.choice(ds)[3], text.replace(b"<", b">"), text + b"&"))
                    elif a < .4: t[0] = rng.choice((b"Delegation", b"delegatio", b"delegation "))
                    elif a < .45: t = t[:rng.randrange(1, 4)]
                    elif a < .5: t = t + [b"extra"]
                    api.ev_add(e, t)
                    if rng.random() < .2: api.ev_add(e, [b"delegation", pk.hex().encode(), text, token.hex().encode()])
                tags = [[B(v) for v in x] for x in api.ev_tags(e)]
                g = api.new(T, 0xAA); gp = ctypes.addressof(g); r = api.call("nostr_event_get_delegation", P(e), g); o = dict(o="get", tags=tags, r=r, by=[], text=[], token=[])
                if r == 0: o.update(by=B(api.getb(gp, T, "delegator_pubkey")), text=B(api.cstr(api.get(gp, T, "conditions")) or b""), token=B(api.getb(gp, T, "token"))); api.call("nostr_delegation_free", g)
                out.append(o)
                out.append(dict(o="event", tags=tags, author=B(author), kind=BIG(kind), at=BIG(at), r=api.call("nostr_event_verify_delegation", P(e)))); api.ev_free(e)
        for d in ds: api.call("nostr_delegation_free", d[0])
        return {"ops": out}
    def flip(self, b, rng):
        b = bytearray(b)
        if not b: return b"k"
        b[rng.choice((0, len(b) - 1, rng.randrange(len(b))))] ^= 1 << rng.randrange(7); return bytes(b)
