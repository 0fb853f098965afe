/* Stand-in for the libwebsockets client API used by src/relay.c. Callbacks are posted by the harness and
   delivered from lws_service(), that is on the library's own service thread, as libwebsockets does. A
   connection (wsi) is freed when it is closed and a context may not be used once destroyed, so that uses
   of either afterwards are seen (ASan, lm_after_destroy). */
#include <libwebsockets.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <pthread.h>
#include <unistd.h>
#include <stdint.h>
void* __real_calloc(size_t, size_t);

struct mock_ev { int reason, fin; size_t rem, len; struct mock_ev* next; char data[]; };
struct mock_wsi { void* opaque; struct mock_ctx* ctx; int established, fin; size_t rem; };
struct mock_ctx { int destroyed, busy; pthread_t server; const struct lws_protocols* protocols; struct mock_wsi* wsi; long served; struct mock_ev *q, **tail; };
static pthread_mutex_t mk = PTHREAD_MUTEX_INITIALIZER;
static struct mock_ctx* cur;                 /* most recently created context */
static struct mock_ctx* all[65536]; static size_t nall;
static int fail_create, fail_connect, fail_write;
static struct { char* s; size_t n; void* ctx; } wr[65536]; static size_t nwr;
static long after_destroy;                   /* calls made with a destroyed context */
static long attempts;
static char last_addr[2048], last_path[2048], last_host[2048]; static int last_port, last_ssl;
static int nclose;
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
#define LOCK __real_pthread_mutex_lock(&mk)
#define UNLOCK __real_pthread_mutex_unlock(&mk)

static struct mock_ctx* chk(struct lws_context* c) {
    struct mock_ctx* m = (struct mock_ctx*)c;
    if (m && m->destroyed) __sync_fetch_and_add(&after_destroy,1);
    return m; }
void lm_set(int fc, int fcon, int fw) { fail_create=fc; fail_connect=fcon; fail_write=fw; }
size_t lm_nwrites(void) { return nwr; }
const char* lm_write(size_t i, size_t* n, void** ctx) { *n = wr[i].n; *ctx = wr[i].ctx; return wr[i].s; }
void lm_clear_writes(void) { LOCK; for (size_t i=0;i<nwr;i++) free(wr[i].s); nwr = 0; UNLOCK; }
long lm_after_destroy(void) { return after_destroy; }
long lm_attempts(void) { return attempts; }
const char* lm_addr(void) { return last_addr; }
const char* lm_path(void) { return last_path; }
const char* lm_host(void) { return last_host; }
int lm_port(void) { return last_port; }
int lm_ssl(void) { return last_ssl; }
void* lm_cur(void) { return cur; }
int lm_live(void) { int n=0; LOCK; for (size_t i=0;i<nall;i++) if (!all[i]->destroyed) n++; UNLOCK; return n; }
int lm_ctx_destroyed(void* c) { return ((struct mock_ctx*)c)->destroyed; }
int lm_has_wsi(void* c) { struct mock_ctx* m = c; return !m->destroyed && m->wsi; }

/* queue a callback for the connection of context c */
int lm_post(void* c, int reason, const char* in, size_t len, int fin, size_t rem) {
    struct mock_ctx* m = c; if (!m || m->destroyed) return -99;
    struct mock_ev* e = __real_calloc(1, sizeof *e + len + 1); e->reason=reason; e->fin=fin; e->rem=rem; e->len=len; if (in) memcpy(e->data,in,len);
    LOCK; *m->tail = e; m->tail = &e->next; UNLOCK; return 0; }
/* wait until everything posted was delivered (0), or ms passed (-1) */
int lm_wait(void* c, int ms) {
    struct mock_ctx* m = c;
    for (long i=0;;i++) {
        LOCK; int done = m->destroyed || (!m->q && !m->busy); UNLOCK;
        if (done) return 0;
        if (i > ms*10L) return -1;
        usleep(100); } }
/* wait until at most n contexts are alive */
int lm_wait_live(int n, int ms) {
    for (long i=0;;i++) { if (lm_live() <= n) return lm_live(); if (i > ms*10L) return lm_live(); usleep(100); } }

static int dispatch(struct mock_ctx* m, struct mock_wsi* w, int reason, const char* in, size_t len) {
    char* copy = NULL; if (in) { copy = __real_calloc(1, len ? len : 1); memcpy(copy,in,len); }   /* exactly len bytes: no terminator */
    int r = m->protocols[0].callback((struct lws*)w, (enum lws_callback_reasons)reason, NULL, copy, len);
    free(copy); return r; }
static void drop(struct mock_ctx* m, struct mock_wsi* w, int reason) {
    dispatch(m, w, reason, NULL, 0); dispatch(m, w, LWS_CALLBACK_WSI_DESTROY, NULL, 0); free(w); }

struct lws_context* lws_create_context(const struct lws_context_creation_info* info) {
    if (fail_create) return NULL;
    struct mock_ctx* m = __real_calloc(1,sizeof *m); m->protocols = info->protocols; m->tail = &m->q;
    LOCK; cur = m; if (nall < 65536) all[nall++] = m; UNLOCK;
    return (struct lws_context*)m; }
void lws_context_destroy(struct lws_context* c) {
    struct mock_ctx* m = chk(c); if (!m || m->destroyed) return;
    if (m->busy && !pthread_equal(m->server, pthread_self())) __sync_fetch_and_add(&after_destroy,1);
    if (m->busy && pthread_equal(m->server, pthread_self())) __sync_fetch_and_add(&after_destroy,1);   /* from inside its own callback */
    struct mock_wsi* w = m->wsi; m->wsi = NULL;
    if (w) drop(m, w, w->established ? LWS_CALLBACK_CLIENT_CLOSED : LWS_CALLBACK_CLIENT_CONNECTION_ERROR);
    LOCK; struct mock_ev* e = m->q; m->q = NULL; m->tail = &m->q; m->destroyed = 1; UNLOCK;
    while (e) { struct mock_ev* n = e->next; free(e); e = n; } }
struct lws* lws_client_connect_via_info(const struct lws_client_connect_info* i) {
    struct mock_ctx* m = chk(i->context); __sync_fetch_and_add(&attempts,1);
    if (fail_connect || !m || m->destroyed) return NULL;
    snprintf(last_addr,sizeof last_addr,"%s",i->address?i->address:""); snprintf(last_path,sizeof last_path,"%s",i->path?i->path:"");
    snprintf(last_host,sizeof last_host,"%s",i->host?i->host:""); last_port = i->port; last_ssl = i->ssl_connection;
    struct mock_wsi* w = __real_calloc(1,sizeof *w); w->ctx = m; w->opaque = i->opaque_user_data; m->wsi = w; return (struct lws*)w; }
int lws_service(struct lws_context* c, int ms) {
    struct mock_ctx* m = chk(c); if (!m || m->destroyed) return -1;
    LOCK; struct mock_ev* e = m->q; if (e) { m->q = e->next; if (!m->q) m->tail = &m->q; m->busy = 1; m->server = pthread_self(); } m->served++; UNLOCK;
    if (!e) { usleep(300); return 0; }
    struct mock_wsi* w = m->wsi;
    if (w) {
        if (e->reason == LWS_CALLBACK_CLIENT_ESTABLISHED) w->established = 1;
        w->fin = e->fin; w->rem = e->rem;
        if (e->reason == LWS_CALLBACK_CLIENT_CLOSED || e->reason == LWS_CALLBACK_CLIENT_CONNECTION_ERROR) { m->wsi = NULL; drop(m, w, e->reason); }
        else dispatch(m, w, e->reason, e->reason == LWS_CALLBACK_CLIENT_RECEIVE ? e->data : NULL, e->len);
    }
    free(e);
    LOCK; m->busy = 0; UNLOCK; return 0; }
void lws_cancel_service(struct lws_context* c) { chk(c); }
int lws_is_final_fragment(struct lws* w) { return ((struct mock_wsi*)w)->fin; }
size_t lws_remaining_packet_payload(struct lws* w) { return ((struct mock_wsi*)w)->rem; }
int lws_write(struct lws* w, unsigned char* buf, size_t len, enum lws_write_protocol p) {
    struct mock_wsi* x = (struct mock_wsi*)w; chk((struct lws_context*)x->ctx);
    for (volatile size_t i = 0; i < LWS_PRE; i++) buf[-1 - (long)i] = 0xA5;      /* libwebsockets writes its header there */
    if (fail_write) return -1;
    LOCK; if (nwr < 65536) { wr[nwr].s = __real_calloc(1,len+1); memcpy(wr[nwr].s,buf,len); wr[nwr].n = len; wr[nwr].ctx = x->ctx; nwr++; } UNLOCK;
    return (int)len; }
void lws_close_reason(struct lws* w, enum lws_close_status s, unsigned char* b, size_t n) { struct mock_wsi* x=(struct mock_wsi*)w; chk((struct lws_context*)x->ctx); nclose++; }
void lws_set_opaque_user_data(struct lws* w, void* d) { ((struct mock_wsi*)w)->opaque = d; }
void* lws_get_opaque_user_data(const struct lws* w) { return ((struct mock_wsi*)w)->opaque; }
int lws_callback_on_writable(struct lws* w) { return 1; }
void lws_set_timeout(struct lws* w, enum pending_timeout r, int s) { }
struct lws_context* lws_get_context(const struct lws* w) { return (struct lws_context*)((struct mock_wsi*)w)->ctx; }
void lws_set_log_level(int l, void (*f)(int,const char*)) { }
