"""Build /repo's sources (current working tree) plus the shim into one shared object."""
import os, re, subprocess, sys, hashlib, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["NOSTR_FEATURE_NIP05","NOSTR_FEATURE_NIP10","NOSTR_FEATURE_NIP13","NOSTR_FEATURE_NIP18",
        "NOSTR_FEATURE_NIP25","NOSTR_FEATURE_NIP26","NOSTR_FEATURE_NIP49","NOSTR_FEATURE_NIP51",
        "NOSTR_FEATURE_NIP57","NOSTR_FEATURE_NIP65","NOSTR_FEATURE_RELAY","NOSTR_FEATURE_RELAY_PROTOCOL",
        "NOSTR_FEATURE_HD_KEYS","NOSTR_FEATURE_JSON_ENHANCED","NOSTR_FEATURE_THREADING",
        "NOSTR_FEATURE_CRYPTO_SECP256K1","HAVE_SECP256K1","HAVE_CJSON","HAVE_LIBWEBSOCKETS",
        "HAVE_UTF8PROC","HAVE_SCHNORRSIG_SIGN32"]
FULLNIPS = ["NOSTR_FEATURE_NIP04","NOSTR_FEATURE_NIP17","NOSTR_FEATURE_NIP44","NOSTR_FEATURE_NIP46",
            "NOSTR_FEATURE_NIP47","NOSTR_FEATURE_NIP59"]
# sources that are compiled only with the crypto-NIP features (OFF in the repository's default build)
CRYPTO_NIPS = {"nip17.c","nip44.c","nip46.c","nip47.c","nip47_session.c","nip47_commands.c","nip59.c"}
VARIANTS = {
    # the repository's own default configuration (OpenSSL + secp256k1)
    "ossl": dict(defs=BASE, skip=CRYPTO_NIPS, shim=["shim.c","lws_mock.c"], libs=["-lssl","-lcrypto"]),
    # same with the mbedTLS back end
    "mbed": dict(defs=BASE+["HAVE_MBEDTLS"], skip=CRYPTO_NIPS, shim=["shim.c","lws_mock.c"],
                 libs=["-lmbedtls","-lmbedcrypto","-lssl","-lcrypto"]),
    # all NIPs, with the noscrypt shim
    "full": dict(defs=BASE+FULLNIPS+["NOSTR_FEATURE_CRYPTO_NOSCRYPT","HAVE_NOSCRYPT"], skip=set(),
                 shim=["shim.c","lws_mock.c","noscrypt_shim.c"], libs=["-lssl","-lcrypto"], inc=["noscrypt"]),
    # the same with the mbedTLS back end
    "fullmbed": dict(defs=BASE+FULLNIPS+["NOSTR_FEATURE_CRYPTO_NOSCRYPT","HAVE_NOSCRYPT","HAVE_MBEDTLS"], skip=set(),
                     shim=["shim.c","lws_mock.c","noscrypt_shim.c"], libs=["-lmbedtls","-lmbedcrypto","-lssl","-lcrypto"], inc=["noscrypt"]),
    # the smallest build: no cJSON (hence no relay client; the core writes an event's canonical form itself), no threads, no utf8proc
    "bare": dict(defs=[d for d in BASE if d not in ("NOSTR_FEATURE_JSON_ENHANCED","HAVE_CJSON","NOSTR_FEATURE_RELAY","HAVE_LIBWEBSOCKETS",
                                                    "NOSTR_FEATURE_THREADING","HAVE_UTF8PROC")],
                 skip=CRYPTO_NIPS | {"relay.c"}, shim=["shim.c"], libs=["-lssl","-lcrypto"]),
}
WRAP = ["time","gettimeofday","clock_gettime","malloc","calloc","realloc","strdup","strndup","RAND_bytes",
        "RAND_priv_bytes","getrandom","pthread_mutex_lock","pthread_mutex_unlock","pthread_create",
        "free","EVP_CIPHER_CTX_new","EVP_CIPHER_CTX_free","BIO_new","BIO_new_mem_buf","BIO_free_all"]

def features_h(defs):
    t = open(os.path.join(REPO, "include/nostr_features.h.in")).read()
    t = t.replace("@NOSTR_FEATURE_ENCODING@", "ON")
    t = re.sub(r"@\w+@", "1", t)
    def rep(m):
        return "#define %s" % m.group(1) if m.group(1) in defs else "/* #undef %s */" % m.group(1)
    return re.sub(r"#cmakedefine\s+(\w+).*", rep, t)

def sources(v):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".c") and f not in v["skip"]:
                out.append(os.path.join(root, f))
    return sorted(out)

class BuildError(Exception):
    pass

def build(name, san="address", tag=""):
    v = VARIANTS[name]
    san_flags = ["-fsanitize=" + san, "-fno-omit-frame-pointer"] if san else []
    od = os.path.join(BUILD, "obj-%s-%s%s" % (name, san or "plain", tag))
    inc = os.path.join(od, "include")
    os.makedirs(inc, exist_ok=True)
    fh = os.path.join(inc, "nostr_features.h")
    txt = features_h(v["defs"])
    if not os.path.exists(fh) or open(fh).read() != txt:
        open(fh, "w").write(txt)
    cflags = ["-std=gnu99","-O1","-g","-fPIC","-w","-DNDEBUG_VF=1"] + san_flags + [
        "-I"+os.path.join(REPO,"include"), "-I"+inc, "-I"+os.path.join(REPO,"src"), "-I/usr/include/cjson"]
    cflags += ["-I"+os.path.join(VERIF,"shim",d) for d in v.get("inc",[])]
    srcs = sources(v) + [os.path.join(VERIF,"shim",s) for s in v["shim"]]
    # one hash over every file a compile may read
    h = hashlib.sha256()
    for d in (os.path.join(REPO,"src"), os.path.join(REPO,"include"), os.path.join(VERIF,"shim")):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                p = os.path.join(root,f); h.update(p.encode()); h.update(open(p,"rb").read())
    h.update(txt.encode()); h.update(" ".join(cflags).encode())
    stamp = os.path.join(od,"stamp"); so = os.path.join(od,"libvf.so"); key = h.hexdigest()
    if os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == key:
        return so
    objs = []
    def comp(s):
        o = os.path.join(od, s.replace("/","_")+".o")
        r = subprocess.run(["gcc"]+cflags+["-c",s,"-o",o],capture_output=True,text=True)
        if r.returncode: raise BuildError("compile %s\n%s" % (s,r.stderr))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    cmd = ["gcc","-shared","-o",so]+san_flags+objs+["-Wl,-Bsymbolic"]+["-Wl,--wrap="+w for w in WRAP + (["mbedtls_ctr_drbg_random"] if "HAVE_MBEDTLS" in v["defs"] else [])]+[
        "-lcjson","-lutf8proc","-lsecp256k1"]+v["libs"]+["-lwebsockets","-lpthread","-lm","-ldl"]
    r = subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise BuildError("link\n"+r.stderr)
    open(stamp,"w").write(key)
    return so

if __name__ == "__main__":
    for n in sys.argv[1:] or ["ossl"]:
        print(build(n))
