"""ctypes binding of the public API, with struct offsets taken from the headers at build time."""
import ctypes as C, json, os, struct
P = C.c_void_p

class Api:
    def __init__(self, so):
        self.lib = C.CDLL(so, mode=os.RTLD_NOW | os.RTLD_LOCAL)
        f = self.lib.vf_layout; f.restype = C.c_char_p
        self.lay = json.loads(f().decode())
        self._fn = {}

    # generic call: ints, bytes (char*), None, ctypes objects; restype by name
    def fn(self, name, res=C.c_int):
        k = (name, res)
        if k not in self._fn:
            g = self.lib[name]   # a fresh function object per (name, restype)
            g.restype = res
            self._fn[k] = g
        return self._fn[k]

    def call(self, name, *args, res=C.c_int):
        return self.fn(name, res)(*[conv(a) for a in args])

    def ptr(self, name, *args):
        r = self.fn(name, P)(*[conv(a) for a in args])
        return r or 0

    def has(self, name):
        try:
            self.lib[name]; return True
        except AttributeError:
            return False

    # memory
    def rd(self, p, n): return C.string_at(p, n) if n else b""
    def wr(self, p, b): C.memmove(p, b, len(b))
    def cstr(self, p): return C.string_at(p) if p else None
    def off(self, T, f): return self.lay[T][f][0]
    def size(self, T): return self.lay[T]["_size"]
    def get(self, p, T, f, signed=False):
        o, s = self.lay[T][f]
        return int.from_bytes(C.string_at(p + o, s), "little", signed=signed)
    def getb(self, p, T, f):
        o, s = self.lay[T][f]
        return C.string_at(p + o, s)
    def set(self, p, T, f, v):
        o, s = self.lay[T][f]
        if isinstance(v, int): v = (v & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
        assert len(v) == s, (T, f, len(v), s)
        C.memmove(p + o, v, s)
    def addr(self, p, T, f): return p + self.lay[T][f][0]
    def u64(self, p): return int.from_bytes(C.string_at(p, 8), "little")
    def strs(self, pp, n): return [C.string_at(self.u64(pp + 8 * i)) if self.u64(pp + 8 * i) else None for i in range(n)]
    def i32s(self, p, n): return list(struct.unpack("<%di" % n, C.string_at(p, 4 * n))) if n else []
    def free(self, p): self.lib.vf_free(P(p))
    def takestr(self, p):
        s = C.string_at(p); self.free(p); return s
    def new(self, T, fill=0):
        b = C.create_string_buffer(bytes([fill]) * self.size(T), self.size(T)); return b

    # environment
    def time_set(self, t): self.lib.vf_time_set(C.c_int64(t))
    def time_step(self, s): self.lib.vf_time_step(C.c_int64(s))
    def time_real(self): self.lib.vf_time_real()
    def rng_det(self, s): self.lib.vf_rng_det(C.c_uint64(s))
    def rng_real(self): self.lib.vf_rng_real()
    def rng_fail(self, at): self.lib.vf_rng_fail(C.c_long(at))

    # oracles
    def o_pub(self, sk):
        b = C.create_string_buffer(32); return b.raw if self.lib.vo_pubkey(bytes(sk), b) else None
    def o_sign(self, sk, m):
        b = C.create_string_buffer(64); return b.raw if self.lib.vo_schnorr_sign(bytes(sk), bytes(m), b) else None
    def o_verify(self, pk, m, s): return bool(self.lib.vo_schnorr_verify(bytes(pk), bytes(m), bytes(s)))

    # events
    def ev_new(self):
        p = P(); rc = self.lib.nostr_event_create(C.byref(p)); assert rc == 0
        return p.value
    def ev_free(self, e): self.lib.nostr_event_destroy(P(e))
    def ev_add(self, e, vals):
        a = (C.c_char_p * max(1, len(vals)))(*vals)
        return self.lib.nostr_event_add_tag(P(e), a, C.c_size_t(len(vals)))
    def ev_content(self, e, s): return self.lib.nostr_event_set_content(P(e), C.c_char_p(s))
    def ev_set(self, e, f, v): self.set(e, "nostr_event", f, v)
    def ev_get(self, e, f, signed=False): return self.get(e, "nostr_event", f, signed)
    def ev_getb(self, e, f): return self.getb(e, "nostr_event", f)
    def ev_tags(self, e):
        n = self.ev_get(e, "tags_count"); tp = self.ev_get(e, "tags"); out = []
        sz = self.size("nostr_tag")
        for i in range(n):
            vp = self.get(tp + i * sz, "nostr_tag", "values"); c = self.get(tp + i * sz, "nostr_tag", "count")
            out.append(self.strs(vp, c))
        return out
    def ev_build(self, d):
        """d: kind, created_at, tags (list of list of bytes), content, pubkey, id, sig"""
        e = self.ev_new()
        self.ev_set(e, "kind", d.get("kind", 1)); self.ev_set(e, "created_at", d.get("created_at", 0))
        for f in ("pubkey", "id", "sig"):
            if f in d: self.ev_set(e, f, d[f])
        for t in d.get("tags", ()):
            rc = self.ev_add(e, t); assert rc == 0, rc
        if d.get("content") is not None: self.ev_content(e, d["content"])
        return e
    def ev_read(self, e):
        cp = self.ev_get(e, "content")
        return dict(kind=self.ev_get(e, "kind"), created_at=self.ev_get(e, "created_at", True), tags=self.ev_tags(e),
                    content=self.cstr(cp) if cp else None, pubkey=self.ev_getb(e, "pubkey"), id=self.ev_getb(e, "id"),
                    sig=self.ev_getb(e, "sig"))
    def ev_parse(self, js):
        p = P(0); rc = self.lib.nostr_event_from_json(C.c_char_p(js), C.byref(p))
        return rc, (p.value or 0)

def conv(a):
    if isinstance(a, bytes): return C.c_char_p(a)
    if isinstance(a, bool): return C.c_bool(a)
    if isinstance(a, int): return C.c_void_p(a) if a > 0xffffffff or a < -0x80000000 else C.c_int64(a)
    return a

def B(s):
    """bytes -> list of ints for the traces"""
    return list(s)
def L(s):
    """bytes -> string (Latin-1) for the traces"""
    return s.decode("latin1")
def BIG(n):
    """integer -> {neg, d}: sign and decimal digits (TLC integers are 32 bit)"""
    return {"neg": n < 0, "d": [int(x) for x in str(abs(n))]}
