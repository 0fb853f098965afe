/* Flat helpers over the public headers for the Python harness: struct layout, controlled
   environment (clock, RNG, allocator) and independent crypto oracles. */
#define _GNU_SOURCE
#include "nostr.h"
#include "nostr_relay_protocol.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <errno.h>
#include <openssl/sha.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/bio.h>
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <secp256k1_ecdh.h>
#include <cjson/cJSON.h>

/* ---------- layout ---------- */
static char lay[32768]; static size_t ln;
#define S(T) ln += snprintf(lay+ln,sizeof lay-ln,"%s\"%s\":{\"_size\":%zu", ln>1?"},":"", #T, sizeof(T));
#define F(T,f) ln += snprintf(lay+ln,sizeof lay-ln,",\"%s\":[%zu,%zu]", #f, offsetof(T,f), sizeof(((T*)0)->f));
const char* vf_layout(void) {
    ln = 0; ln += snprintf(lay,sizeof lay,"{");
    S(nostr_event) F(nostr_event,id) F(nostr_event,pubkey) F(nostr_event,created_at) F(nostr_event,kind)
      F(nostr_event,tags) F(nostr_event,tags_count) F(nostr_event,content) F(nostr_event,sig)
    S(nostr_tag) F(nostr_tag,values) F(nostr_tag,count)
    S(nostr_keypair) F(nostr_keypair,privkey) F(nostr_keypair,pubkey) F(nostr_keypair,initialized)
    S(nostr_config)
#define C(f) F(nostr_config,f)
      C(nip44_min_plaintext_size) C(nip44_max_plaintext_size) C(max_sessions) C(session_timeout_secs)
      C(max_permissions) C(max_content_size) C(max_tags) C(max_tag_values) C(relay_connect_timeout_ms)
      C(relay_response_timeout_ms) C(encryption_default_nip) C(secure_memory_lock) C(debug_mode)
    S(nostr_hd_key) F(nostr_hd_key,privkey) F(nostr_hd_key,pubkey) F(nostr_hd_key,chain_code)
    S(nostr_filter_t)
#define G(f) F(nostr_filter_t,f)
      G(ids) G(ids_count) G(authors) G(authors_count) G(kinds) G(kinds_count) G(e_tags) G(e_tags_count)
      G(p_tags) G(p_tags_count) G(generic_tags) G(generic_tags_count) G(since) G(until) G(limit) G(search)
    S(nostr_generic_tag_filter_t) F(nostr_generic_tag_filter_t,tag_name) F(nostr_generic_tag_filter_t,values)
      F(nostr_generic_tag_filter_t,values_count)
    S(nostr_validation_result_t) F(nostr_validation_result_t,valid) F(nostr_validation_result_t,error_code)
      F(nostr_validation_result_t,error_message) F(nostr_validation_result_t,error_field)
    S(nostr_client_msg_t) F(nostr_client_msg_t,type) F(nostr_client_msg_t,data)
      F(nostr_client_msg_t,data.event.event) F(nostr_client_msg_t,data.auth.event)
      F(nostr_client_msg_t,data.req.subscription_id) F(nostr_client_msg_t,data.req.filters)
      F(nostr_client_msg_t,data.req.filters_count) F(nostr_client_msg_t,data.close.subscription_id)
      F(nostr_client_msg_t,data.count.query_id) F(nostr_client_msg_t,data.count.filters)
      F(nostr_client_msg_t,data.count.filters_count)
    S(nostr_relay_msg_t) F(nostr_relay_msg_t,type)
    S(nostr_deletion_request_t) F(nostr_deletion_request_t,event_ids) F(nostr_deletion_request_t,event_ids_count)
      F(nostr_deletion_request_t,addresses) F(nostr_deletion_request_t,addresses_count)
      F(nostr_deletion_request_t,pubkey) F(nostr_deletion_request_t,reason)
    S(nostr_tag_iterator_t) S(nostr_tag_info_t) F(nostr_tag_info_t,name) F(nostr_tag_info_t,values)
      F(nostr_tag_info_t,values_count)
    S(nostr_relay_info_t)
#define I(f) F(nostr_relay_info_t,f)
      I(name) I(description) I(banner) I(icon) I(pubkey) I(self_pubkey) I(contact) I(supported_nips)
      I(supported_nips_count) I(software) I(version) I(privacy_policy) I(terms_of_service) I(limitation)
      I(retention) I(retention_count) I(relay_countries) I(relay_countries_count) I(language_tags)
      I(language_tags_count) I(tags) I(tags_count) I(posting_policy) I(payments_url) I(fees)
      I(fees.admission) I(fees.admission_count) I(fees.subscription) I(fees.subscription_count)
      I(fees.publication) I(fees.publication_count)
    S(nostr_relay_limitation_t)
#define L(f) F(nostr_relay_limitation_t,f)
      L(max_message_length) L(max_subscriptions) L(max_filters) L(max_limit) L(max_subid_length)
      L(max_event_tags) L(max_content_length) L(min_pow_difficulty) L(auth_required) L(payment_required)
      L(restricted_writes) L(created_at_lower_limit) L(created_at_upper_limit) L(default_limit)
    S(nostr_relay_retention_t) F(nostr_relay_retention_t,kinds) F(nostr_relay_retention_t,kinds_count)
      F(nostr_relay_retention_t,time) F(nostr_relay_retention_t,count)
    S(nostr_relay_fee_t) F(nostr_relay_fee_t,amount) F(nostr_relay_fee_t,unit) F(nostr_relay_fee_t,period)
      F(nostr_relay_fee_t,kinds) F(nostr_relay_fee_t,kinds_count)
    S(nostr_relay) F(nostr_relay,url) F(nostr_relay,state) F(nostr_relay,ws_handle)
    S(nostr_relay_list) F(nostr_relay_list,count)
    S(nostr_relay_list_entry) F(nostr_relay_list_entry,url) F(nostr_relay_list_entry,read) F(nostr_relay_list_entry,write)
    S(nostr_delegation) F(nostr_delegation,delegator_pubkey) F(nostr_delegation,conditions) F(nostr_delegation,token)
      F(nostr_delegation,parsed_conditions)
    S(nostr_list) F(nostr_list,kind) F(nostr_list,d_tag) F(nostr_list,title) F(nostr_list,description)
      F(nostr_list,image) F(nostr_list,items) F(nostr_list,item_count)
    S(nostr_list_item) F(nostr_list_item,tag_type) F(nostr_list_item,value) F(nostr_list_item,relay_hint)
      F(nostr_list_item,petname) F(nostr_list_item,is_private)
    S(nostr_uri) F(nostr_uri,type) F(nostr_uri,data)
    S(nostr_nprofile) F(nostr_nprofile,pubkey) F(nostr_nprofile,relays) F(nostr_nprofile,relay_count)
    S(nostr_nevent) F(nostr_nevent,id) F(nostr_nevent,relays) F(nostr_nevent,relay_count) F(nostr_nevent,author)
      F(nostr_nevent,has_author) F(nostr_nevent,kind) F(nostr_nevent,has_kind)
    S(nostr_naddr) F(nostr_naddr,identifier) F(nostr_naddr,pubkey) F(nostr_naddr,kind) F(nostr_naddr,relays)
      F(nostr_naddr,relay_count)
    S(nostr_nrelay) F(nostr_nrelay,url)
    ln += snprintf(lay+ln,sizeof lay-ln,"}}");
    return lay;
}

/* ---------- clock ---------- */
static int tmode; static int64_t tval; static int64_t tstep;
time_t __real_time(time_t*); int __real_gettimeofday(struct timeval*, void*); int __real_clock_gettime(clockid_t, struct timespec*);
void vf_time_set(int64_t v) { tmode = 1; tval = v; tstep = 0; }
void vf_time_step(int64_t s) { tstep = s; }
void vf_time_real(void) { tmode = 0; }
time_t __wrap_time(time_t* p) {
    time_t v; if (tmode) { v = __atomic_fetch_add(&tval, tstep, __ATOMIC_RELAXED); } else v = __real_time(NULL);
    if (p) *p = v; return v; }
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
    if (!tmode) return __real_gettimeofday(tv,tz); tv->tv_sec = tval; tv->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (!tmode || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c,ts);
    ts->tv_sec = tval; ts->tv_nsec = 0; return 0; }

/* ---------- RNG ---------- */
/* mode 0 real; 1 deterministic stream from seed; fail_at: n-th call (1-based) from now fails, 0 none; -1 all fail */
static int rmode; static uint64_t rstate; static long rfail, rcalls;
static uint8_t rfill[64]; static size_t rfill_n;  /* scripted bytes used (repeating) in mode 2 */
static size_t rpos;
void vf_rng_det(uint64_t seed) { rmode = 1; rstate = seed; }
void vf_rng_script(const uint8_t* b, size_t n) { rmode = 2; rfill_n = n>64?64:n; memcpy(rfill,b,rfill_n); rpos = 0; }
void vf_rng_real(void) { rmode = 0; rfail = 0; }
void vf_rng_fail(long at) { rfail = at; rcalls = 0; }
long vf_rng_calls(void) { return rcalls; }
static int rng(unsigned char* b, size_t n) {
    rcalls++;
    if (rfail == -1 || (rfail > 0 && rcalls == rfail)) return 0;
    if (rmode == 1) { for (size_t i=0;i<n;i++) { rstate = rstate*6364136223846793005ULL+1442695040888963407ULL; b[i] = (uint8_t)(rstate>>33); } return 1; }
    if (rmode == 2) { for (size_t i=0;i<n;i++) b[i] = rfill[(rpos++) % rfill_n]; return 1; }
    return -1;
}
int __real_RAND_bytes(unsigned char*, int); int __real_RAND_priv_bytes(unsigned char*, int);
ssize_t __real_getrandom(void*, size_t, unsigned);
int __wrap_RAND_bytes(unsigned char* b, int n) { int r = rng(b,n); return r<0 ? __real_RAND_bytes(b,n) : r; }
int __wrap_RAND_priv_bytes(unsigned char* b, int n) { int r = rng(b,n); return r<0 ? __real_RAND_priv_bytes(b,n) : r; }
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { int r = rng(b,n); if (r<0) return __real_getrandom(b,n,f); if (!r) { errno=EAGAIN; return -1; } return n; }
#ifdef HAVE_MBEDTLS
int __real_mbedtls_ctr_drbg_random(void*, unsigned char*, size_t);
int __wrap_mbedtls_ctr_drbg_random(void* c, unsigned char* b, size_t n) { int r = rng(b,n); if (r<0) return __real_mbedtls_ctr_drbg_random(c,b,n); return r ? 0 : -0x34; }
#endif

/* ---------- allocator faults (library objects and cJSON), and the blocks the library holds ---------- */
static __thread int mactive; static long mcount, mfail, mfrom; static long mfailed;
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
char* __real_strdup(const char*); char* __real_strndup(const char*,size_t);
static int oom(void) { if (!mactive) return 0; mcount++; if ((mfail && mcount == mfail) || (mfrom && mcount >= mfrom)) { mfailed++; return 1; } return 0; }
/* heap accounting: while on, every block obtained through the library's own calls is in the table until it is freed */
#define HN (1u<<20)
static int hon; static void** htab; static size_t* hsz; static long hlive; static pthread_mutex_t hmx = PTHREAD_MUTEX_INITIALIZER;
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
static unsigned hh(const void* p) { uint64_t x = (uint64_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ULL; return (unsigned)(x >> 44) & (HN-1); }
#define TOMB ((void*)1)
static void* hadd(void* p, size_t n) {
    if (!hon || !p) return p;
    __real_pthread_mutex_lock(&hmx);
    for (unsigned i = hh(p);; i = (i+1) & (HN-1)) if (!htab[i] || htab[i] == TOMB) { htab[i] = p; hsz[i] = n; hlive++; break; }
    __real_pthread_mutex_unlock(&hmx); return p; }
static void hdel(void* p) {
    if (!hon || !p) return;
    __real_pthread_mutex_lock(&hmx);
    for (unsigned i = hh(p); htab[i]; i = (i+1) & (HN-1)) if (htab[i] == p) { htab[i] = TOMB; hlive--; break; }
    __real_pthread_mutex_unlock(&hmx); }
void vf_heap_on(int on) {
    if (!htab) { htab = __real_calloc(HN, sizeof *htab); hsz = __real_calloc(HN, sizeof *hsz); }
    memset(htab, 0, HN * sizeof *htab); hlive = 0; hon = on; }
long vf_heap_live(void) { return hlive; }
void* __wrap_malloc(size_t n) { if (oom()) { errno=ENOMEM; return NULL; } return hadd(__real_malloc(n), n); }
void* __wrap_calloc(size_t a,size_t b) { if (oom()) { errno=ENOMEM; return NULL; } return hadd(__real_calloc(a,b), a*b); }
void* __wrap_realloc(void* p,size_t n) { if (oom()) { errno=ENOMEM; return NULL; } hdel(p); return hadd(__real_realloc(p,n), n); }
char* __wrap_strdup(const char* s) { if (oom()) { errno=ENOMEM; return NULL; } return hadd(__real_strdup(s), 0); }
char* __wrap_strndup(const char* s,size_t n) { if (oom()) { errno=ENOMEM; return NULL; } return hadd(__real_strndup(s,n), 0); }
void __wrap_free(void* p) { hdel(p); __real_free(p); }
/* objects of other libraries count as blocks of the caller */
EVP_CIPHER_CTX* __real_EVP_CIPHER_CTX_new(void); void __real_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX*);
EVP_CIPHER_CTX* __wrap_EVP_CIPHER_CTX_new(void) { if (oom()) return NULL; return hadd(__real_EVP_CIPHER_CTX_new(), 0); }
void __wrap_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { hdel(c); __real_EVP_CIPHER_CTX_free(c); }
BIO* __real_BIO_new(const BIO_METHOD*); BIO* __real_BIO_new_mem_buf(const void*, int); void __real_BIO_free_all(BIO*);
BIO* __wrap_BIO_new(const BIO_METHOD* m) { if (oom()) return NULL; return hadd(__real_BIO_new(m), 0); }
BIO* __wrap_BIO_new_mem_buf(const void* b, int n) { if (oom()) return NULL; return hadd(__real_BIO_new_mem_buf(b,n), 0); }
void __wrap_BIO_free_all(BIO* b) { for (BIO* x = b; x; x = BIO_next(x)) hdel(x); __real_BIO_free_all(b); }
static void* cj_malloc(size_t n) { return __wrap_malloc(n); }
static void cj_free(void* p) { __wrap_free(p); }
void vf_oom_hook_cjson(void) { cJSON_Hooks h = { cj_malloc, cj_free }; cJSON_InitHooks(&h); }
void vf_oom_arm(long at) { mactive = 1; mcount = 0; mfail = at; mfrom = 0; mfailed = 0; }
void vf_oom_arm_from(long at) { mactive = 1; mcount = 0; mfail = 0; mfrom = at; mfailed = 0; }
long vf_oom_disarm(void) { mactive = 0; long r = mfailed; mfail = mfrom = 0; return r; }
long vf_oom_count(void) { return mcount; }

/* ---------- schedules: random delays around the library's own lock operations ---------- */
static int jmode; static uint64_t jstate;
void vf_lock_jitter(int mode, uint64_t seed) { jmode = mode; jstate = seed; }
static void jitter(void) {
    if (!jmode) return;
    uint64_t x = __atomic_add_fetch(&jstate, 0x9E3779B97F4A7C15ULL, __ATOMIC_RELAXED); x ^= x>>31; x *= 0xBF58476D1CE4E5B9ULL; x ^= x>>29;
    switch (x % 8) { case 0: case 1: sched_yield(); break; case 2: usleep(jmode == 2 ? x/8 % 60 : 1); break; case 3: for (volatile int i = 0; i < (int)(x/8 % 2000); i++) ; break; default: break; } }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { jitter(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); jitter(); return r; }

void vf_free(void* p) { free(p); }
void* vf_malloc(size_t n) { return __real_malloc(n); }

/* ---------- independent oracles ---------- */
static secp256k1_context* octx;
static secp256k1_context* oc(void) { if (!octx) octx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN|SECP256K1_CONTEXT_VERIFY); return octx; }
void vo_sha256(const uint8_t* d, size_t n, uint8_t* out) { SHA256(d,n,out); }
int vo_pubkey(const uint8_t* sk, uint8_t* pk32) {
    secp256k1_keypair kp; secp256k1_xonly_pubkey x;
    if (!secp256k1_keypair_create(oc(),&kp,sk)) return 0;
    secp256k1_keypair_xonly_pub(oc(),&x,NULL,&kp); secp256k1_xonly_pubkey_serialize(oc(),pk32,&x); return 1; }
int vo_pubkey_parity(const uint8_t* sk) {
    secp256k1_keypair kp; secp256k1_xonly_pubkey x; int par = 0;
    if (!secp256k1_keypair_create(oc(),&kp,sk)) return -1;
    secp256k1_keypair_xonly_pub(oc(),&x,&par,&kp); return par; }
int vo_xonly_ok(const uint8_t* pk) { secp256k1_xonly_pubkey x; return secp256k1_xonly_pubkey_parse(oc(),&x,pk); }
int vo_schnorr_verify(const uint8_t* pk, const uint8_t* msg32, const uint8_t* sig) {
    secp256k1_xonly_pubkey x; if (!secp256k1_xonly_pubkey_parse(oc(),&x,pk)) return 0;
    return secp256k1_schnorrsig_verify(oc(),sig,msg32,32,&x); }
int vo_schnorr_sign(const uint8_t* sk, const uint8_t* msg32, uint8_t* sig) {
    secp256k1_keypair kp; if (!secp256k1_keypair_create(oc(),&kp,sk)) return 0;
    return secp256k1_schnorrsig_sign32(oc(),sig,msg32,&kp,NULL); }
static int copyx(unsigned char* o, const unsigned char* x, const unsigned char* y, void* d) { memcpy(o,x,32); return 1; }
int vo_ecdh_x(const uint8_t* sk, const uint8_t* pkx, uint8_t* out) {
    uint8_t c[33]; c[0]=2; memcpy(c+1,pkx,32); secp256k1_pubkey p;
    if (!secp256k1_ec_pubkey_parse(oc(),&p,c,33)) return 0;
    return secp256k1_ecdh(oc(),out,&p,sk,copyx,NULL); }


/* thread creation failing: the n-th call from now on fails (0: never) */
static int thr_fail_at;
void vf_thread_fail(int n) { thr_fail_at = n; }
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (thr_fail_at > 0 && --thr_fail_at == 0) return EAGAIN;
    return __real_pthread_create(t,a,f,x); }

/* calls of several threads: each thread makes its own calls in order, all start together */
typedef struct { void* f; int64_t a[5]; int64_t r; int32_t thr, pad; } par_call;
typedef struct { par_call* c; int n, k; pthread_barrier_t* b; } par_thread;
static void* par_run(void* x) { par_thread* t = x; pthread_barrier_wait(t->b);
    for (int i = 0; i < t->n; i++) { par_call* c = t->c + i; if (c->thr == t->k) c->r = ((int (*)(int64_t,int64_t,int64_t,int64_t,int64_t))c->f)(c->a[0],c->a[1],c->a[2],c->a[3],c->a[4]); }
    return NULL; }
void vf_par(void* cs, int n, int threads) {
    pthread_t th[16]; par_thread t[16]; pthread_barrier_t b; pthread_barrier_init(&b, NULL, threads);
    for (int k = 0; k < threads; k++) { t[k] = (par_thread){ cs, n, k, &b }; __real_pthread_create(&th[k], NULL, par_run, &t[k]); }
    for (int k = 0; k < threads; k++) pthread_join(th[k], NULL);
    pthread_barrier_destroy(&b); }

/* several threads ask for a text at the same moment (each a little later than the one before); what each saw is copied at once */
typedef struct { const char* (*f)(void); char* out; int spin; pthread_barrier_t* b; } text_thread;
static void* text_run(void* x) { text_thread* t = x; pthread_barrier_wait(t->b); for (volatile int i = 0; i < t->spin; i++) ;
    const char* s = t->f(); int i = 0; for (; i < 1023 && s && s[i]; i++) t->out[i] = s[i]; t->out[i] = 0; return NULL; }
void vf_text_race(void* f, int threads, char* out, const int32_t* spin) {
    pthread_t th[8]; text_thread t[8]; pthread_barrier_t b; pthread_barrier_init(&b, NULL, threads);
    for (int k = 0; k < threads; k++) { t[k] = (text_thread){ (const char* (*)(void))f, out + 1024 * k, spin[k], &b }; __real_pthread_create(&th[k], NULL, text_run, &t[k]); }
    for (int k = 0; k < threads; k++) pthread_join(th[k], NULL);
    pthread_barrier_destroy(&b); }
