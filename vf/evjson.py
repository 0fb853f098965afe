"""Events as JSON sources: generation, trace records, JSON objects."""
from . import gen as G, jsongen as J
from .api import B, BIG
def jnum(x): return dict(BIG(x), int=True) if isinstance(x, int) else dict(BIG(int(x)), int=False)
def source(rng, valid=True, cap=200):
    us = lambda c: J.utext(rng, c)
    hx = lambda n: G.hexs(rng, n) if rng.random() < .9 else bytes(rng.choice(b"0123456789abcdefABCDEF") for _ in range(n))
    s = dict(id=hx(64), pubkey=hx(64), sig=hx(128), kind=G.integer(rng, 0, 65535), created_at=G.integer(rng, -2 ** 53, 2 ** 53) if rng.random() < .4 else rng.randrange(0, 2 ** 33),
             content=us(cap), tags=[[us(20) for _ in range(rng.randrange(1, 5))] for _ in range(G.size(rng, 15))])
    if not valid:
        k = rng.randrange(4)
        if k < 2:
            f = rng.choice(("id", "pubkey", "sig")); h = s[f]; m = rng.randrange(8); i = rng.randrange(len(h)); ie = i & ~1
            s[f] = [h[:-1], h + b"0", h[:i] + b"g" + h[i + 1:], h[:i] + b" " + h[i + 1:], h[:ie] + b"+" + h[ie + 1:], h[:ie] + b"-" + h[ie + 1:], b"", h[:ie] + b"0x" + h[ie + 2:]][m]
        elif k == 2: s["kind"] = rng.choice((-1, 65536, 65537, 70000, 2 ** 31, 2 ** 32 + 1, -65535, 2 ** 40, 1.5))
        else: s["created_at"] = rng.choice((1.5, 1700000000.25, -0.5))
    return s
def rec(s):
    return dict(id=B(s["id"]), pubkey=B(s["pubkey"]), sig=B(s["sig"]), kind=jnum(s["kind"]), created_at=jnum(s["created_at"]),
                tags=[[B(v.encode()) for v in t] for t in s["tags"]], content=B(s["content"].encode()))
def obj(s): return dict(s, id=s["id"].decode("latin1"), pubkey=s["pubkey"].decode("latin1"), sig=s["sig"].decode("latin1"))
def read(api, e):
    d = api.ev_read(e)
    return dict(id=B(d["id"].hex().encode()), pubkey=B(d["pubkey"].hex().encode()), sig=B(d["sig"].hex().encode()), kind=BIG(d["kind"]),
                created_at=BIG(d["created_at"]), tags=[[B(v) for v in t] for t in d["tags"]], content=B(d["content"] or b""))
