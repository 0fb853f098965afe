"""Independent reference computations: BIP-32/39 derivation and the NIP-49 cipher (plain Python)."""
import hashlib, hmac, os, struct
Pf = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % Pf == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, Pf)
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, Pf)
    x = (l * l - a[0] - b[0]) % Pf; return (x, (l * (a[0] - x) - a[1]) % Pf)
_pc = {}
def mul(k):
    if k in _pc: return _pc[k]
    r, q, n = None, G, k
    while n:
        if n & 1: r = add(r, q)
        q = add(q, q); n >>= 1
    _pc[k] = r; return r
def pub(sk):
    k = int.from_bytes(sk, "big"); return mul(k)[0].to_bytes(32, "big") if 0 < k < N else None
def node(sk, cc):
    p = pub(sk); return (sk, p, cc) if p else None
def master(seed):
    h = hmac.new(b"Bitcoin seed", seed, hashlib.sha512).digest(); return node(h[:32], h[32:])
def child(sk, cc, i):
    k = int.from_bytes(sk, "big")
    if not 0 < k < N: return None
    if i >> 31: d = b"\0" + sk
    else: p = mul(k); d = bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, "big")
    h = hmac.new(cc, d + i.to_bytes(4, "big"), hashlib.sha512).digest(); t = int.from_bytes(h[:32], "big")
    return None if t >= N or (t + k) % N == 0 else node(((t + k) % N).to_bytes(32, "big"), h[32:])
WORDS = open(os.path.join(os.path.dirname(__file__), "bip39.txt")).read().split()
IDX = {w.encode(): i for i, w in enumerate(WORDS)}
def phrase(ent):
    b = len(ent) * 8 // 32; n = int.from_bytes(ent, "big") << b | hashlib.sha256(ent).digest()[0] >> (8 - b); k = (len(ent) * 8 + b) // 11
    return b" ".join(WORDS[n >> 11 * (k - 1 - i) & 2047].encode() for i in range(k))

M = 0xffffffff
def _rounds(s):
    def qr(a, b, c, d):
        for x, y, z, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            s[x] = (s[x] + s[y]) & M; v = s[z] ^ s[x]; s[z] = (v << r | v >> (32 - r)) & M
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15); qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
SIG = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
def chacha(key, ctr, nonce):
    s = SIG + list(struct.unpack("<8I", key)) + [ctr] + list(struct.unpack("<3I", nonce)); w = s[:]; _rounds(w)
    return struct.pack("<16I", *[(a + b) & M for a, b in zip(s, w)])
def hchacha(key, n16):
    w = SIG + list(struct.unpack("<8I", key)) + list(struct.unpack("<4I", n16)); _rounds(w); return struct.pack("<8I", *(w[:4] + w[12:]))
def poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff; s = int.from_bytes(key[16:], "little"); a = 0
    for i in range(0, len(msg), 16): a = (a + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % ((1 << 130) - 5)
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, "little")
def _tag(k, n, aad, ct):
    pad = lambda b: b + bytes(-len(b) % 16)
    return poly1305(chacha(k, 0, n)[:32], pad(aad) + pad(ct) + struct.pack("<QQ", len(aad), len(ct)))
def xseal(key, n24, aad, pt):
    k = hchacha(key, n24[:16]); n = bytes(4) + n24[16:]; ct = bytes(a ^ b for a, b in zip(pt, chacha(k, 1, n))); return ct + _tag(k, n, aad, ct)
def xopen(key, n24, aad, ct, mac):
    k = hchacha(key, n24[:16]); n = bytes(4) + n24[16:]
    return bytes(a ^ b for a, b in zip(ct, chacha(k, 1, n))) if _tag(k, n, aad, ct) == mac else None
