"""Random inputs, biased to boundaries and to the constants that occur in the code under test."""
import os, re
from .build import REPO

_mined = None
def mined():
    """integer and string literals of the current sources: a dictionary for the generators"""
    global _mined
    if _mined is None:
        ints, strs, chars = set(), set(), set()
        for d in ("src", "include"):
            for root, _, fs in os.walk(os.path.join(REPO, d)):
                if "data" in root: continue
                for f in fs:
                    if not f.endswith((".c", ".h")): continue
                    t = open(os.path.join(root, f), errors="replace").read()
                    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
                    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                        try: x = m.group(1).encode().decode("unicode_escape").encode("latin1")
                        except Exception: continue
                        if x and b"%" not in x and len(x) < 40: strs.add(x)
                    for m in re.finditer(r"'(\\?.)'", t):
                        try: chars.add(m.group(1).encode().decode("unicode_escape").encode("latin1"))
                        except Exception: pass
                    t2 = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", t)
                    for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", t2):
                        try: ints.add(int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1)))
                        except Exception: pass
                    # products such as 64 * 1024
                    for m in re.finditer(r"(\d+)\s*\*\s*(\d+)(?:\s*\*\s*(\d+))?", t2):
                        v = int(m.group(1)) * int(m.group(2)) * (int(m.group(3)) if m.group(3) else 1); ints.add(v)
        _mined = (sorted(ints), sorted(strs), sorted(chars))
    return _mined

SPECIAL = [b'"', b"\\", b"\n", b"\r", b"\t", b"\b", b"\f", b"\x01", b"\x1f", b"\x7f", b"/", b" ", b"\x0b", b"\xc3\xa9",
           b"\xf0\x9f\x98\x80", b"\xe2\x80\xa8", b",", b"]", b"[", b"{", b"}", b":", b"'", b"<", b">", b"&", b"%s", b"\\u0041", b"\\n", b"\xff"]

def size(rng, cap=200):
    r = rng.random()
    if r < 0.5: return rng.randrange(0, 8)
    if r < 0.75: return rng.randrange(0, 40)
    if r < 0.93:
        c = [i for i in mined()[0] if 0 < i <= cap]
        return max(0, min(cap, rng.choice(c) + rng.choice((-1, 0, 0, 1))))
    return rng.randrange(0, cap + 1)

def text(rng, cap=200, utf8=True):
    """a byte string without NUL"""
    n = size(rng, cap)
    mode = rng.random()
    if mode < 0.35:
        s = bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(n))
    elif mode < 0.7:
        s = b""
        while len(s) < n:
            s += rng.choice(SPECIAL if not utf8 else SPECIAL[:-1]) if rng.random() < 0.5 else bytes([rng.randrange(32, 127)])
    elif mode < 0.8:
        s = rng.choice(mined()[1])
    elif mode < 0.9:
        s = bytes(rng.randrange(1, 128) for _ in range(n))
    else:
        s = bytes([rng.choice(b"ax0 ")]) * n
    return s.replace(b"\0", b"")

def integer(rng, lo, hi):
    r = rng.random()
    if r < 0.45:
        c = [i + d for i in mined()[0] for d in (-1, 0, 1) if lo <= i + d <= hi]
        if c: return rng.choice(c)
    if r < 0.6: return rng.choice((lo, hi, min(hi, lo + 1), max(lo, hi - 1), min(max(0, lo), hi)))
    if r < 0.8: return max(lo, min(hi, rng.randrange(-3, 70)))
    if r < 0.9:
        b = rng.randrange(1, max(2, hi.bit_length() + 1)); return max(lo, min(hi, (1 << b) + rng.randrange(-2, 3)))
    return rng.randrange(lo, hi + 1)

TAGNAMES = [b"e", b"p", b"a", b"d", b"t", b"r", b"nonce", b"expiration", b"relay", b"delegation", b"q", b"k", b"subject"]
def tags(rng, maxtags=8, maxvals=5, cap=80):
    n = size(rng, maxtags) if rng.random() < 0.8 else 0
    return [[rng.choice(TAGNAMES) if rng.random() < 0.6 else text(rng, cap)] + [text(rng, cap) for _ in range(rng.randrange(0, maxvals))] for _ in range(n)]

def hexs(rng, n=64, near=True):
    return bytes(rng.choice(b"0123456789abcdef") for _ in range(n))

N_ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
def seckey(rng):
    r = rng.random()
    if r < 0.15: return rng.choice((1, 2, 3, N_ORDER - 1, N_ORDER - 2, 1 << 255, (1 << 128) - 1)).to_bytes(32, "big")
    return rng.randrange(1, N_ORDER).to_bytes(32, "big")
def badkey(rng):
    return rng.choice((0, N_ORDER, N_ORDER + 1, (1 << 256) - 1)).to_bytes(32, "big")

def near(rng, s):
    """a value close to s: what a careless comparison takes for s"""
    k = rng.randrange(12); i = rng.randrange(len(s)) if s else 0
    if k == 0: return s + rng.choice((b"x", b":", b" ", b"/", b"0", b"\xc3\xa9"))
    if k == 1: return s[:-1]
    if k == 2: return s[:i]
    if k == 3: return s[:i] + bytes([(s[i] ^ 1) or 1]) + s[i + 1:] if s else b"x"
    if k == 4: return s.swapcase()
    if k == 5: return s[:i] + rng.choice((b":", b"x", b" ")) + s[i:]
    if k == 6: return s[:-1] + b"z"
    if k == 7: return s + s
    if k == 8: return s.split(b":")[0] + b":" + rng.choice((b"", b"q"))
    if k == 9: return s.lstrip(b"0 ") if rng.random() < .5 else b"0" + s
    if k == 10: return b" " + s
    return s[:i] + s[i + 1:]

def seckeys(rng, n):
    """n secret keys with different public keys (k and N-k have the same)"""
    out = {}
    while len(out) < n:
        k = seckey(rng); v = int.from_bytes(k, "big"); out.setdefault(min(v, N_ORDER - v), k)
    return list(out.values())
