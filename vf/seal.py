"""NIP-44 v2 and NIP-04 written from their texts, independent of the library (libcrypto only for the raw ciphers)."""
import base64, binascii, ctypes as C, hashlib, hmac, re
_L = None
def _lib():
    global _L
    if _L is None:
        _L = C.CDLL("libcrypto.so.3"); 
        for f in ("EVP_CIPHER_CTX_new", "EVP_chacha20", "EVP_aes_256_cbc"): getattr(_L, f).restype = C.c_void_p
    return _L
def _run(cipher, enc, key, iv, data, pad=1):
    L = _lib(); c = C.c_void_p(L.EVP_CIPHER_CTX_new()); o = C.create_string_buffer(len(data) + 32); n = C.c_int(0); m = C.c_int(0)
    L.EVP_CipherInit_ex(c, C.c_void_p(getattr(L, cipher)()), None, key, iv, 1 if enc else 0)
    L.EVP_CIPHER_CTX_set_padding(c, pad); L.EVP_CipherUpdate(c, o, C.byref(n), data, len(data))
    r = L.EVP_CipherFinal_ex(c, C.byref(o, n.value), C.byref(m)); L.EVP_CIPHER_CTX_free(c)
    return o.raw[:n.value + m.value] if r == 1 else None
def chacha20(key, nonce12, data): return _run("EVP_chacha20", 1, key, bytes(4) + nonce12, data)
def H(k, d): return hmac.new(k, d, hashlib.sha256).digest()
def conv(shared): return H(b"nip44-v2", shared)
def expand(ck, nonce):
    t = b""; out = b""
    for i in (1, 2, 3): t = H(ck, t + nonce + bytes([i])); out += t
    return out[:32], out[32:44], out[44:76]
def padded(n):
    if n <= 32: return 32
    p = 1 << (n - 1).bit_length(); c = 32 if p <= 256 else p // 8
    return c * ((n - 1) // c + 1)
def raw44(ck, nonce, body, ver=2):
    """the payload for an arbitrary padded body (well formed or not), authenticated"""
    k, n, h = expand(ck, nonce); ct = chacha20(k, n, body); return bytes([ver]) + nonce + ct + H(h, nonce + ct)
def seal44(ck, nonce, pt, pad=None): return base64.b64encode(raw44(ck, nonce, len(pt).to_bytes(2, "big") + pt + bytes((padded(len(pt)) if pad is None else pad) - len(pt))))
def b64(t, strict=True):
    try: return base64.b64decode(t, validate=True) if not strict or re.fullmatch(rb"[A-Za-z0-9+/]*={0,2}", t) and base64.b64encode(base64.b64decode(t, validate=True)) == t else None
    except (binascii.Error, ValueError): return None
def tag(b): return hashlib.sha1(b).hexdigest()[:16]
def read44(ck, t):
    """what the text is to the holder of the conversation key"""
    d = dict(form="text", strict=False, ver=-1, size=0, nonce="", mac=False, hdr=-1, pad=0, h="", tail=True)
    if t[:1] == b"#": return dict(d, form="hash")
    p = b64(t)
    if p is None: return d
    d.update(strict=True, size=len(p), form="b64", ver=p[0] if p else -1)
    if len(p) < 67: return d
    n, ct, mac = p[1:33], p[33:-32], p[-32:]; k, c, h = expand(ck, n); d.update(nonce=tag(n), mac=hmac.compare_digest(H(h, n + ct), mac))
    if d["mac"]:
        b = chacha20(k, c, ct); u = int.from_bytes(b[:2], "big"); d.update(hdr=u, pad=len(b), h=tag(b[2:2 + u]), tail=not any(b[2 + u:]))
    return d
def open44(ck, t):
    """the text a well-formed payload holds (None: not one)"""
    if not read44(ck, t)["mac"]: return None
    p = b64(t); k, c, h = expand(ck, p[1:33]); b = chacha20(k, c, p[33:-32]); return b[2:2 + int.from_bytes(b[:2], "big")]
def seal04(x, iv, pt): return base64.b64encode(_run("EVP_aes_256_cbc", 1, x, iv, pt)) + b"?iv=" + base64.b64encode(iv)
def read04(x, t):
    d = dict(strict=False, ok=False, n=0, h="", cut="", nonce="")
    a = t.split(b"?iv=")
    if len(a) != 2: return dict(d, strict=len(a) == 1)
    c, i = b64(a[0]), b64(a[1])
    if c is None or i is None: return d
    d["strict"] = True
    if len(i) != 16 or len(c) % 16 or not c: return d
    p = _run("EVP_aes_256_cbc", 0, x, i, c); d["nonce"] = tag(i)
    if p is not None: d.update(ok=True, n=len(p), h=tag(p), cut=tag(p.split(b"\0")[0]))
    return d
