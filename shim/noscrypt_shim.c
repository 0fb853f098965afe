/* The noscrypt API over libsecp256k1 and OpenSSL. */
#include <string.h>
#include <noscrypt.h>
#include <secp256k1.h>
#include <secp256k1_ecdh.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/crypto.h>
struct nc_ctx_struct { secp256k1_context* c; };
static struct nc_ctx_struct shared;
NCContext* NCGetSharedContext(void) { return &shared; }
NCResult NCInitContext(NCContext* x, const uint8_t* e) { if (!x || !e) return -E_NULL_PTR; x->c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY); return x->c && secp256k1_context_randomize(x->c, e) ? NC_SUCCESS : -E_INVALID_CONTEXT; }
NCResult NCDestroyContext(NCContext* x) { if (!x || !x->c) return -E_INVALID_CONTEXT; secp256k1_context_destroy(x->c); x->c = NULL; return NC_SUCCESS; }
#define CTX(x) if (!(x) || !(x)->c) return -E_INVALID_CONTEXT
NCResult NCValidateSecretKey(const NCContext* x, const NCSecretKey* k) { CTX(x); return secp256k1_ec_seckey_verify(x->c, k->key) ? NC_SUCCESS : -E_OPERATION_FAILED; }
NCResult NCGetPublicKey(const NCContext* x, const NCSecretKey* k, NCPublicKey* p)
{
    secp256k1_keypair kp; secp256k1_xonly_pubkey q; CTX(x);
    if (!secp256k1_keypair_create(x->c, &kp, k->key)) return -E_OPERATION_FAILED;
    secp256k1_keypair_xonly_pub(x->c, &q, NULL, &kp); secp256k1_xonly_pubkey_serialize(x->c, p->key, &q); return NC_SUCCESS;
}
NCResult NCSignDigest(const NCContext* x, const NCSecretKey* k, const uint8_t* r, const uint8_t* d, uint8_t* s)
{
    secp256k1_keypair kp; CTX(x);
    if (!r) return -E_NULL_PTR;
    if (!secp256k1_keypair_create(x->c, &kp, k->key)) return -E_OPERATION_FAILED;
    return secp256k1_schnorrsig_sign32(x->c, s, d, &kp, r) ? NC_SUCCESS : -E_OPERATION_FAILED;
}
NCResult NCVerifyDigest(const NCContext* x, const NCPublicKey* p, const uint8_t* d, const uint8_t* s)
{
    secp256k1_xonly_pubkey q; CTX(x);
    if (!secp256k1_xonly_pubkey_parse(x->c, &q, p->key)) return -E_INVALID_ARG;
    return secp256k1_schnorrsig_verify(x->c, s, d, 32, &q) ? NC_SUCCESS : -E_OPERATION_FAILED;
}
static int xcopy(unsigned char* out, const unsigned char* px, const unsigned char* py, void* d) { (void)py; (void)d; memcpy(out, px, 32); return 1; }
NCResult NCGetSharedSecret(const NCContext* x, const NCSecretKey* k, const NCPublicKey* p, uint8_t* o)
{
    unsigned char c[33]; secp256k1_pubkey q; CTX(x);
    c[0] = 2; memcpy(c + 1, p->key, 32);
    if (!secp256k1_ec_pubkey_parse(x->c, &q, c, 33)) return -E_INVALID_ARG;
    return secp256k1_ecdh(x->c, o, &q, k->key, xcopy, NULL) ? NC_SUCCESS : -E_OPERATION_FAILED;
}
uint32_t NCEncryptionGetIvSize(uint32_t v) { return v == NC_ENC_VERSION_NIP44 ? 32 : v == NC_ENC_VERSION_NIP04 ? 16 : 0; }
NCResult NCEncryptionSetProperty(NCEncryptionArgs* a, uint32_t p, uint32_t v) { if (!a) return -E_NULL_PTR; if (p != NC_ENC_SET_VERSION) return -E_INVALID_ARG; a->version = v; return NC_SUCCESS; }
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs* a, uint32_t p, uint8_t* v, uint32_t n)
{
    if (!a || !v) return -E_NULL_PTR;
    if (p == NC_ENC_SET_IV) { if (n != NCEncryptionGetIvSize(a->version)) return -E_ARGUMENT_OUT_OF_RANGE; a->ivData = v; return NC_SUCCESS; }
    if (p == NC_ENC_SET_NIP44_MAC_KEY) { if (a->version != NC_ENC_VERSION_NIP44) return -E_VERSION_NOT_SUPPORTED; if (n != 32) return -E_ARGUMENT_OUT_OF_RANGE; a->keyData = v; return NC_SUCCESS; }
    return -E_INVALID_ARG;
}
NCResult NCEncryptionSetData(NCEncryptionArgs* a, const uint8_t* in, uint8_t* out, uint32_t n) { if (!a || !in || !out) return -E_NULL_PTR; if (!n || n > 65536 + 2) return -E_ARGUMENT_OUT_OF_RANGE; a->inputData = in; a->outputData = out; a->dataSize = n; return NC_SUCCESS; }
static int hm(const uint8_t* k, size_t kn, const uint8_t* d, size_t n, uint8_t* o) { unsigned l = 32; return HMAC(EVP_sha256(), k, (int)kn, d, n, o, &l) != NULL; }
static int keys(const NCContext* x, const NCSecretKey* sk, const NCPublicKey* pk, const uint8_t* nonce, uint8_t* out76)
{
    uint8_t s[32], ck[32], t[32], b[65]; size_t n = 0, at = 0;
    if (NCGetSharedSecret(x, sk, pk, s) != NC_SUCCESS || !hm((const uint8_t*)"nip44-v2", 8, s, 32, ck)) return 0;
    for (int i = 1; at < 76; i++) { memcpy(b, t, n); memcpy(b + n, nonce, 32); b[n + 32] = (uint8_t)i; if (!hm(ck, 32, b, n + 33, t)) return 0; n = 32; size_t c = 76 - at < 32 ? 76 - at : 32; memcpy(out76 + at, t, c); at += c; }
    return 1;
}
static NCResult crypt_(const NCContext* x, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* a, int enc)
{
    uint8_t k[76], iv[16] = {0}; int n = 0, m = 0, ok; CTX(x);
    if (!sk || !pk || !a || !a->ivData || !a->inputData || !a->outputData) return -E_NULL_PTR;
    if (a->version != NC_ENC_VERSION_NIP44) return -E_VERSION_NOT_SUPPORTED;
    if (enc && !a->keyData) return -E_NULL_PTR;
    if (!keys(x, sk, pk, a->ivData, k)) return -E_OPERATION_FAILED;
    memcpy(iv + 4, k + 32, 12);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); if (!c) return -E_OPERATION_FAILED;
    ok = EVP_EncryptInit_ex(c, EVP_chacha20(), NULL, k, iv) == 1 && EVP_EncryptUpdate(c, a->outputData, &n, a->inputData, (int)a->dataSize) == 1 && EVP_EncryptFinal_ex(c, a->outputData + n, &m) == 1;
    EVP_CIPHER_CTX_free(c);
    if (ok && enc) memcpy(a->keyData, k + 44, 32);
    return ok ? NC_SUCCESS : -E_OPERATION_FAILED;
}
NCResult NCEncrypt(const NCContext* x, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* a) { return crypt_(x, sk, pk, a, 1); }
NCResult NCDecrypt(const NCContext* x, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* a) { return crypt_(x, sk, pk, a, 0); }
NCResult NCComputeMac(const NCContext* x, const uint8_t* k, const uint8_t* p, uint32_t n, uint8_t* o) { CTX(x); if (!k || !p || !o) return -E_NULL_PTR; if (!n) return -E_ARGUMENT_OUT_OF_RANGE; return hm(k, 32, p, n, o) ? NC_SUCCESS : -E_OPERATION_FAILED; }
NCResult NCVerifyMac(const NCContext* x, const NCSecretKey* sk, const NCPublicKey* pk, NCMacVerifyArgs* a)
{
    uint8_t k[76], m[32]; CTX(x);
    if (!sk || !pk || !a || !a->mac32 || !a->nonce32 || !a->payload) return -E_NULL_PTR;
    if (!a->payloadSize) return -E_ARGUMENT_OUT_OF_RANGE;
    if (!keys(x, sk, pk, a->nonce32, k) || !hm(k + 44, 32, a->payload, a->payloadSize, m)) return -E_OPERATION_FAILED;
    return CRYPTO_memcmp(m, a->mac32, 32) == 0 ? NC_SUCCESS : -E_OPERATION_FAILED;
}
