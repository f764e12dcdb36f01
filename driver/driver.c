/* Executes scripts of public-API calls against the library and records what
 * a caller can see of each call, as one JSON event per call. */
#include "util.h"
#include <pthread.h>
#include <wbcrypto/conf.h>
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/sm3.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
#include <wbcrypto/fpe_app.h>
#include <wbcrypto/utils.h>

/* ------------------------------------------------------------------ objects */
typedef int (*blk_f)(const unsigned char *, unsigned char *, void *);
typedef struct {
    char name[32]; char type;      /* c cipher, t table, g gcm, f gcmfile, e ee, m mask, 3 sm3, p fpe, q fpe-mac, a app, b bytes */
    char alg[16]; void *ctx; blk_f enc, dec;
    uint8_t toy[16]; int wrap;     /* wrap: go through the recording callback */
    char *kstream; size_t kslen;
    char s1[32], s2[32];
} obj_t;
static obj_t objs[2048]; static int nobjs;
static obj_t *find(const char *n) { int i; for (i = 0; i < nobjs; i++) if (!strcmp(objs[i].name, n)) return &objs[i]; return NULL; }
static obj_t *need(const char *n) { obj_t *o = find(n); if (!o) { ev_begin("noobj"); ev_str("o", n); ev_end(); _exit(42); } return o; }
static obj_t *mk(const char *n) {
    obj_t *o = find(n); if (!o) { if (nobjs >= 2048) die("too many objects"); o = &objs[nobjs++]; }
    memset(o, 0, sizeof *o); snprintf(o->name, sizeof o->name, "%s", n); return o;
}

/* ----------------------------------------------- the block callback of the harness */
static long bcalls, fail_at = 0, fail_len = 1, exit_at = 0; static int fail_mode; static char *fail_pat;
static long pfails; static __thread long bfails; static __thread int in_mt;
static char *nest_cmds; static long nest_at;
static pthread_mutex_t cb_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cb_cv = PTHREAD_COND_INITIALIZER;
/* schedule for the parallel entry points: tokens block*2+phase */
static long sched[4096]; static int nsched, isched; static uint32_t sched_base; static int sched_on; static int jitter;
static void sched_wait(long tok) {
    struct timespec ts; int i, waits = 0;
    pthread_mutex_lock(&cb_mu);
    for (;;) {
        for (i = isched; i < nsched && sched[i] != tok; i++);
        if (i >= nsched) break;                       /* not (any more) in the schedule: run free */
        if (i == isched) { isched++; pthread_cond_broadcast(&cb_cv); break; }
        int head = isched;
        clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 3000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
        if (pthread_cond_timedwait(&cb_cv, &cb_mu, &ts) == ETIMEDOUT && head == isched) {
            isched++; pthread_cond_broadcast(&cb_cv);  /* whoever should come first cannot */
            if (++waits > 10000) break;
        }
    }
    pthread_mutex_unlock(&cb_mu);
}
static void toy_fwd(obj_t *o, const unsigned char *in, unsigned char *out) {
    uint8_t t[16], m[16]; int i;
    if (!strcmp(o->alg, "mix")) {
        for (i = 0; i < 16; i++) { uint8_t x = (uint8_t)(in[i] + (i ? m[i - 1] : 0)); m[i] = (uint8_t)(x * (2 * x + 1)); }
        in = m;
    }
    for (i = 0; i < 16; i++) t[i] = !strcmp(o->alg, "const") ? o->toy[i] : (uint8_t)(in[(i + 3) % 16] + o->toy[i]);
    memcpy(out, t, 16);
}
static void toy_inv(obj_t *o, const unsigned char *in, unsigned char *out) {
    uint8_t t[16]; int i;
    for (i = 0; i < 16; i++) t[(i + 3) % 16] = !strcmp(o->alg, "const") ? o->toy[i] : (uint8_t)(in[i] - o->toy[i]);
    memcpy(out, t, 16);
}
static void run_nested(void);
static int cb_run(const unsigned char *in, unsigned char *out, obj_t *o, int inv) {
    long me, blk = 0; int rc = 1, fail = 0;
    pthread_mutex_lock(&cb_mu); me = ++bcalls;
    if (fail_at && me >= fail_at && me < fail_at + fail_len) fail = 1;
    if (fail_pat && me <= (long)strlen(fail_pat) && fail_pat[me - 1] == '0') fail = 1;
    if (fail) { pfails++; bfails++; }
    pthread_mutex_unlock(&cb_mu);
    if (exit_at && me == exit_at) _exit(77);
    if (nest_cmds && me == nest_at) run_nested();
    if (sched_on) {
        uint32_t ctr = (uint32_t)in[12] << 24 | in[13] << 16 | in[14] << 8 | in[15];
        blk = (long)(uint32_t)(ctr - sched_base - 1); sched_wait(blk * 2);
    }
    if (jitter) { unsigned r = (unsigned)(me * 2654435761u) >> 20; if (r % 3 == 0) sched_yield(); else if (r % 61 == 1) usleep(20); }
    if (fail) {
        if (fail_mode == 1) memset(out, 0xEE, 16);
        rc = 0;
    } else if (o->ctx) rc = (inv ? o->dec : o->enc)(in, out, o->ctx);
    else if (inv) toy_inv(o, in, out); else toy_fwd(o, in, out);
    if (sched_on) sched_wait(blk * 2 + 1);
    return rc;
}
static int cb_enc(const unsigned char *in, unsigned char *out, const void *k) { return cb_run(in, out, (obj_t *)k, 0); }
static int cb_dec(const unsigned char *in, unsigned char *out, const void *k) { return cb_run(in, out, (obj_t *)k, 1); }

/* -------------------------------------------------------- observation helpers */
static __thread int o_over, o_inmod;
static void obs0(void) { o_over = o_inmod = 0; bfails = 0; if (!in_mt) { pfails = 0; bcalls = 0; } scribble(); lib_on = 1; }
static void obs_in(buf_t *b) { if (buf_mod(b)) o_inmod = 1; if (buf_over(b)) o_over = 1; buf_free(b); }
static void obs_out(buf_t *b) { if (buf_over(b)) o_over = 1; }
static void ev_obs(long ret) { ev_int("ret", ret); ev_int("over", o_over); ev_int("inmod", o_inmod); ev_int("bfail", in_mt ? bfails : pfails); }
#include "mat.h"
static struct rlimit lim_save;
static void lim_set(long n) { if (n < 0) return; getrlimit(RLIMIT_FSIZE, &lim_save); struct rlimit r = lim_save; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
static void lim_clear(long n) { if (n >= 0) setrlimit(RLIMIT_FSIZE, &lim_save); }

/* ------------------------------------------------------------- block ciphers */
static int key_obj(obj_t *o, buf_t *k) {
    if (!strcmp(o->alg, "aes")) return WBCRYPTO_aes_init_key(o->ctx, k->p, k->n);
    if (!strcmp(o->alg, "sm4")) return WBCRYPTO_sm4_init_key(o->ctx, k->p, k->n);
    if (!strcmp(o->alg, "wbaes")) return WBCRYPTO_wbaes_gen_table(o->ctx, k->p, k->n);
    if (!strncmp(o->alg, "wbsm4", 5)) return WBCRYPTO_wbsm4_gen_table(o->ctx, k->p, k->n);
    if (!strncmp(o->alg, "sewbsm4", 7)) return WBCRYPTO_se_wbsm4_gen_table(o->ctx, k->p, k->n);
    memset(o->toy, 0, 16); memcpy(o->toy, k->p, k->n < 16 ? k->n : 16); return 1;
}
static void ctx_obj(obj_t *o, const char *alg, int dummy) {
    snprintf(o->alg, sizeof o->alg, "%s", alg); o->type = 'c';
    if (!strcmp(alg, "aes")) { o->ctx = WBCRYPTO_aes_context_init(); o->enc = (blk_f)WBCRYPTO_aes_encrypt; o->dec = (blk_f)WBCRYPTO_aes_decrypt; }
    else if (!strcmp(alg, "sm4")) { o->ctx = WBCRYPTO_sm4_context_init(); o->enc = (blk_f)WBCRYPTO_sm4_encrypt; o->dec = (blk_f)WBCRYPTO_sm4_decrypt; }
    else if (!strcmp(alg, "wbaes")) { o->ctx = WBCRYPTO_wbaes_context_init(); o->enc = (blk_f)WBCRYPTO_wbaes_encrypt; o->dec = NULL; }
    else if (!strcmp(alg, "wbsm4")) { o->ctx = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, dummy); o->enc = (blk_f)WBCRYPTO_wbsm4_encrypt; o->dec = (blk_f)WBCRYPTO_wbsm4_decrypt; }
    else if (!strcmp(alg, "wbsm4d")) { o->ctx = WBCRYPTO_wbsm4_context_init(WBCRYPTO_DECRYPT_MODE, dummy); o->enc = (blk_f)WBCRYPTO_wbsm4_decrypt; o->dec = (blk_f)WBCRYPTO_wbsm4_decrypt; }
    else if (!strcmp(alg, "sewbsm4")) { o->ctx = WBCRYPTO_se_wbsm4_context_init(1); o->enc = (blk_f)WBCRYPTO_se_wbsm4_encrypt; o->dec = NULL; }
    else if (!strcmp(alg, "sewbsm4d")) { o->ctx = WBCRYPTO_se_wbsm4_context_init(0); o->enc = (blk_f)WBCRYPTO_se_wbsm4_decrypt; o->dec = NULL; }
    else o->ctx = NULL;
}
static int is_toy(obj_t *o) { return !strcmp(o->alg, "add") || !strcmp(o->alg, "mix") || !strcmp(o->alg, "const"); }
static void op_ciph(cmd_t *c) {
    obj_t *o = find(str(c, "o")); const char *alg = str(c, "alg"); buf_t k = buf_hex(str(c, "key"));
    int re = num(c, "re", 0), ret = 0, wrap = num(c, "wrap", 0);
    obs0();
    if (re == 2 && o) alg = o->alg;      /* whatever the context has become by loading */
    if (!re || !o || strcmp(o->alg, alg)) { o = mk(str(c, "o")); ctx_obj(o, alg, num(c, "dummy", 0)); }
    o->wrap = wrap || is_toy(o);
    if (is_toy(o) || o->ctx) ret = key_obj(o, &k);
    ev_begin("ciph"); ev_str("o", o->name); ev_str("alg", alg); ev_bytes("key", k.copy, k.n); ev_int("dummy", num(c, "dummy", 0));
    obs_in(&k); ev_obs(ret); ev_end();
}
static void op_blk(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_hex(str(c, "in")); const char *dir = opt(c, "dir", "e");
    int alias = num(c, "alias", 0), ret = 1; size_t i, nb = in.n / 16;
    buf_t all = buf_fill(in.n, 0);
    obs0();
    for (i = 0; i < nb; i++) {
        buf_t bi = buf_from(in.p + 16 * i, 16), bo = buf_fill(16, 0xA5); int r;
        uint8_t *po = alias ? bi.p : bo.p;
        if (is_toy(o)) r = 1, (*dir == 'e' ? toy_fwd : toy_inv)(o, bi.p, po);
        else r = (*dir == 'e' ? o->enc : o->dec)(bi.p, po, o->ctx);
        if (r != 1) ret = r;
        memcpy(all.p + 16 * i, po, 16);
        if (!alias && buf_mod(&bi)) o_inmod = 1;
        if (buf_over(&bi) || buf_over(&bo)) o_over = 1;
        buf_free(&bi); buf_free(&bo);
    }
    ev_begin("blk"); ev_str("o", o->name); ev_str("dir", dir); ev_bytes("in", in.copy, in.n); ev_bytes("out", all.p, all.n);
    ev_obs(ret); ev_end(); buf_free(&in); buf_free(&all);
}

/* ------------------------------------------------------------------------ CBC */
static int cbc_call(obj_t *o, int enc, const uint8_t *in, size_t n, uint8_t *out, size_t cap, size_t *ol, uint8_t *iv, int *raw) {
    *raw = 0;
    if (!o->wrap) {
        if (!strcmp(o->alg, "aes")) return (enc ? WBCRYPTO_aes_cbc_encrypt : WBCRYPTO_aes_cbc_decrypt)(in, n, out, cap, ol, o->ctx, iv);
        if (!strcmp(o->alg, "sm4")) return (enc ? WBCRYPTO_sm4_cbc_encrypt : WBCRYPTO_sm4_cbc_decrypt)(in, n, out, cap, ol, o->ctx, iv);
        if (!strncmp(o->alg, "wbsm4", 5)) return (enc ? WBCRYPTO_wbsm4_cbc_encrypt : WBCRYPTO_wbsm4_cbc_decrypt)(in, n, out, cap, ol, o->ctx, iv);
        if (!strcmp(o->alg, "wbaes") && enc) return WBCRYPTO_wbaes_cbc_encrypt(in, n, out, cap, ol, o->ctx, iv);
    }
    *raw = 1;
    if (enc) return WBCRYPTO_cbc128_encrypt(in, n, out, cap, ol, o, iv, cb_enc);
    return WBCRYPTO_cbc128_decrypt(in, n, out, cap, ol, o, iv, strcmp(o->alg, "wbsm4d") ? cb_dec : cb_enc);
}
static void op_cbc(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_hex(str(c, "in")), iv = buf_hex(str(c, "iv")); int enc = *opt(c, "dir", "e") == 'e';
    long cap = num(c, "cap", enc ? (long)((in.n + 15) / 16 * 16) : (long)in.n); int alias = num(c, "alias", 0), raw, ret;
    buf_t out = buf_fill(cap, 0xA5); size_t ol = 0xFFFFFF; uint8_t *po = out.p;
    uint8_t iv0[16]; memcpy(iv0, iv.p, 16);
    if (alias) {   /* in place: the buffer holds the input and has the capacity */
        size_t m = (size_t)cap > in.n ? (size_t)cap : in.n; buf_free(&out); out = buf_fill(m, 0xA5); memcpy(out.p, in.p, in.n); po = out.p;
    }
    obs0();
    ret = cbc_call(o, enc, alias ? po : in.p, in.n, po, cap, &ol, iv.p, &raw);
    obs_out(&out);
    ev_begin("cbc"); ev_str("o", o->name); ev_str("dir", enc ? "e" : "d"); ev_bytes("iv", iv0, 16); ev_bytes("in", in.copy, in.n);
    ev_int("cap", cap); ev_int("raw", raw); ev_bytes("out", po, alias ? out.n : (size_t)cap); ev_int("olen", ret == 1 && (!raw || enc) ? (long)ol : -1);
    obs_in(&in); if (buf_over(&iv)) o_over = 1; ev_obs(ret); ev_end(); buf_free(&out); buf_free(&iv);
}
static void op_cbcrt(cmd_t *c) {
    obj_t *o = need(str(c, "o")), *o2 = need(opt(c, "o2", str(c, "o"))); buf_t in = buf_hex(str(c, "in")), iv = buf_hex(str(c, "iv"));
    size_t cap = (in.n + 15) / 16 * 16, ol = 0, ol2 = 0; int raw, r1, r2 = 0; uint8_t iv2[16]; memcpy(iv2, iv.p, 16);
    buf_t ct = buf_fill(cap, 0xA5), pt = buf_fill(cap, 0x5A);
    obs0();
    r1 = cbc_call(o, 1, in.p, in.n, ct.p, cap, &ol, iv.p, &raw);
    if (r1 == 1 && ol <= cap) r2 = cbc_call(o2, 0, ct.p, ol, pt.p, cap, &ol2, iv2, &raw);
    if (raw && r2 == 1) ol2 = in.n;       /* the generic mode leaves the padding to its caller */
    if (ol2 > cap) ol2 = cap;
    obs_out(&ct); obs_out(&pt);
    ev_begin("cbcrt"); ev_bytes("in", in.copy, in.n); ev_bytes("out", pt.p, ol2); obs_in(&in); buf_free(&iv); ev_obs(r1 == 1 ? r2 : r1); ev_end();
    buf_free(&ct); buf_free(&pt);
}

/* ------------------------------------------------------------------------ GCM */
static void op_ee_key(cmd_t *c) {
    obj_t *o = mk(str(c, "o")); buf_t k = buf_hex(str(c, "key")); o->type = 't'; strcpy(o->alg, "ee");
    o->ctx = malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context));
    obs0(); WBCRYPTO_wbaes_wbgcm_ee_gen_table(o->ctx, k.p, k.n);
    ev_begin("ee_key"); ev_str("o", o->name); ev_bytes("key", k.copy, k.n); obs_in(&k); ev_obs(1); ev_end();
}
static void op_mask_key(cmd_t *c) {
    obj_t *o = mk(str(c, "o")), *o2 = mk(str(c, "o2")); o = find(str(c, "o")); buf_t k = buf_hex(str(c, "key"));
    uint8_t iv[12] = {0}, in[16], out[9][16], lin[16][8]; int i, b; WBCRYPTO_wbgcm_mask_context *g;
    o->type = o2->type = 't'; strcpy(o->alg, "mask"); strcpy(o2->alg, "mask");
    obs0();
    o->ctx = WBCRYPTO_wbaes_wbgcm_mask_init_table(); o2->ctx = WBCRYPTO_wbaes_wbgcm_mask_init_table();
    WBCRYPTO_wbaes_wbgcm_mask_gen_table(o->ctx, o2->ctx, k.p, k.n);
    /* calibration: the images of the unit bytes under the secret linear map */
    g = WBCRYPTO_wbaes_wbgcm_mask_init(o->ctx);
    for (i = 0; i < 9; i++) {
        memset(in, i ? 1 << (i - 1) : 0, 16);
        WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv, 12);
        WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, in, 16, out[i], 16);
    }
    for (i = 0; i < 16; i++) for (b = 0; b < 8; b++) lin[i][b] = out[0][i] ^ out[b + 1][i];
    ev_begin("mask_key"); ev_str("o", o->name); ev_str("o2", o2->name); ev_bytes("key", k.copy, k.n);
    ev_s(",\"lin\":["); for (i = 0; i < 16; i++) { if (i) ev_s(","); ev_arr(lin[i], 8); } ev_s("]");
    obs_in(&k); ev_obs(1); ev_end();
}
static void op_gcm_init(cmd_t *c) {
    obj_t *k = need(str(c, "c")); const char *kind = opt(c, "kind", "gcm"); obj_t *o = mk(str(c, "o")); k = find(str(c, "c"));
    obs0(); bcalls = 0;
    if (!strcmp(kind, "ee")) { o->type = 'e'; o->ctx = WBCRYPTO_wbaes_wbgcm_ee_init(k->ctx); }
    else if (!strcmp(kind, "mask")) { o->type = 'm'; o->ctx = WBCRYPTO_wbaes_wbgcm_mask_init(k->ctx); }
    else if (!strcmp(kind, "file")) {
        o->type = 'f';
        if (k->wrap) o->ctx = WBCRYPTO_gcmfile_init(k, cb_enc);
        else if (!strcmp(k->alg, "aes")) o->ctx = WBCRYPTO_aes_gcmfile_init(k->ctx);
        else if (!strcmp(k->alg, "sm4")) o->ctx = WBCRYPTO_sm4_gcmfile_init(k->ctx);
        else if (!strcmp(k->alg, "wbaes")) o->ctx = WBCRYPTO_wbaes_gcmfile_init(k->ctx);
        else o->ctx = WBCRYPTO_wbsm4_gcmfile_init(k->ctx);
    } else {
        o->type = 'g';
        if (k->wrap) o->ctx = WBCRYPTO_gcm_init(k, cb_enc);
        else if (!strcmp(k->alg, "aes")) o->ctx = WBCRYPTO_aes_gcm_init(k->ctx);
        else if (!strcmp(k->alg, "sm4")) o->ctx = WBCRYPTO_sm4_gcm_init(k->ctx);
        else if (!strcmp(k->alg, "wbaes")) o->ctx = WBCRYPTO_wbaes_gcm_init(k->ctx);
        else o->ctx = WBCRYPTO_wbsm4_gcm_init(k->ctx);
    }
    ev_begin("gcm_init"); ev_str("o", o->name); ev_str("c", k->name); ev_str("kind", kind); ev_obs(o->ctx != NULL); ev_end();
    if (!o->ctx) { nobjs = nobjs; o->name[0] = 0; }
}
static int g_iv(obj_t *o, const uint8_t *p, size_t n) {
    switch (o->type) { case 'e': return WBCRYPTO_wbaes_wbgcm_ee_setiv(o->ctx, p, n); case 'm': return WBCRYPTO_wbaes_wbgcm_mask_setiv(o->ctx, p, n);
        case 'f': return WBCRYPTO_gcmfile_setiv(o->ctx, p, n); default: return WBCRYPTO_gcm_setiv(o->ctx, p, n); }
}
static int g_aad(obj_t *o, const uint8_t *p, size_t n) {
    switch (o->type) { case 'e': return WBCRYPTO_wbaes_wbgcm_ee_aad(o->ctx, p, n); case 'm': return WBCRYPTO_wbaes_wbgcm_mask_aad(o->ctx, p, n);
        case 'f': return WBCRYPTO_gcmfile_aad(o->ctx, p, n); default: return WBCRYPTO_gcm_aad(o->ctx, p, n); }
}
static int g_data(obj_t *o, int enc, int par, const uint8_t *in, size_t n, uint8_t *out, size_t cap) {
    if (o->type == 'e') return (enc ? WBCRYPTO_wbaes_wbgcm_ee_encrypt : WBCRYPTO_wbaes_wbgcm_ee_decrypt)(o->ctx, in, n, out, cap);
    if (o->type == 'm') return (enc ? WBCRYPTO_wbaes_wbgcm_mask_encrypt : WBCRYPTO_wbaes_wbgcm_mask_decrypt)(o->ctx, in, n, out, cap);
    if (par) return (enc ? WBCRYPTO_gcm_parallel_encrypt : WBCRYPTO_gcm_parallel_decrypt)(o->ctx, in, n, out, cap);
    return (enc ? WBCRYPTO_gcm_encrypt : WBCRYPTO_gcm_decrypt)(o->ctx, in, n, out, cap);
}
static int g_fin(obj_t *o, uint8_t *t, size_t n) {
    switch (o->type) { case 'e': return WBCRYPTO_wbaes_wbgcm_ee_finish(o->ctx, t, n); case 'm': return WBCRYPTO_wbaes_wbgcm_mask_finish(o->ctx, t, n);
        default: return WBCRYPTO_gcm_finish(o->ctx, t, n); }
}
static void op_gcm_iv(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t b = buf_hex(str(c, "iv")); obs0(); bcalls = 0; int ret = g_iv(o, b.p, b.n);
    ev_begin("gcm_iv"); ev_str("o", o->name); ev_bytes("iv", b.copy, b.n); obs_in(&b); ev_obs(ret); ev_end();
}
static void op_gcm_aad(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t b = buf_hex(str(c, "aad")); obs0(); bcalls = 0; int ret = g_aad(o, b.p, b.n);
    ev_begin("gcm_aad"); ev_str("o", o->name); ev_bytes("aad", b.copy, b.n); obs_in(&b); ev_obs(ret); ev_end();
}
static void set_sched(const char *s, uint32_t base) {
    nsched = isched = 0; sched_on = 0; if (!s) return;
    sched_base = base; sched_on = 1;
    while (*s && nsched < 4096) { char *e; sched[nsched++] = strtol(s, &e, 10); s = *e == ',' ? e + 1 : e; }
}
static void op_gcm_data(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_hex(str(c, "in")); int enc = *opt(c, "dir", "e") == 'e', par = num(c, "par", 0), alias = num(c, "alias", 0);
    long cap = num(c, "cap", (long)in.n); buf_t out = buf_fill(cap, 0xA5); uint8_t *po = out.p; int ret;
    if (alias) { buf_free(&out); out = buf_fill(in.n, 0); memcpy(out.p, in.p, in.n); po = out.p; cap = in.n; }
    obs0(); bcalls = 0;
    set_sched(opt(c, "sched", NULL), (uint32_t)strtoul(opt(c, "base", "1"), NULL, 10)); jitter = num(c, "jitter", 0);
    ret = g_data(o, enc, par, alias ? po : in.p, in.n, po, cap);
    sched_on = 0; jitter = 0;
    obs_out(&out);
    ev_begin("gcm_data"); ev_str("o", o->name); ev_str("dir", enc ? "e" : "d"); ev_int("par", par); ev_int("alias", alias); ev_int("fill", 0xA5);
    ev_bytes("in", in.copy, in.n); ev_int("cap", cap); ev_bytes("out", po, cap); obs_in(&in); ev_obs(ret); ev_end(); buf_free(&out);
}
static void op_gcm_fin(cmd_t *c) {
    obj_t *o = need(str(c, "o")); long n = num(c, "n", 16); buf_t t = buf_fill(n, 0xA5); obs0(); bcalls = 0;
    int ret = g_fin(o, t.p, n); obs_out(&t);
    ev_begin("gcm_fin"); ev_str("o", o->name); ev_int("n", n); ev_bytes("tag", t.p, n); ev_obs(ret); ev_end(); buf_free(&t);
}
/* seal a message with one object, open it with another; three events each */
static void op_gcm_rt(cmd_t *c) {
    obj_t *a[2] = { need(str(c, "o")), need(str(c, "o2")) }; buf_t in = buf_hex(str(c, "in")), iv = buf_hex(str(c, "iv")), aad = buf_hex(opt(c, "aad", ""));
    uint8_t *cur = malloc(in.n + 1), tag[2][16]; memcpy(cur, in.p, in.n); int k, ret;
    for (k = 0; k < 2; k++) {
        buf_t x = buf_from(cur, in.n), y = buf_fill(in.n, 0xA5), t = buf_fill(16, 0xA5);
        obs0(); ret = g_iv(a[k], iv.p, iv.n); ev_begin("gcm_iv"); ev_str("o", a[k]->name); ev_bytes("iv", iv.copy, iv.n); ev_obs(ret); ev_end();
        ret = g_aad(a[k], aad.p, aad.n); ev_begin("gcm_aad"); ev_str("o", a[k]->name); ev_bytes("aad", aad.copy, aad.n); ev_obs(ret); ev_end();
        ret = g_data(a[k], k == 0, 0, x.p, x.n, y.p, y.n);
        ev_begin("gcm_data"); ev_str("o", a[k]->name); ev_str("dir", k ? "d" : "e"); ev_int("par", 0); ev_int("alias", 0); ev_int("fill", 0xA5);
        ev_bytes("in", x.copy, x.n); ev_int("cap", y.n); ev_bytes("out", y.p, y.n); obs_out(&y); ev_obs(ret); ev_end();
        ret = g_fin(a[k], t.p, 16); obs_out(&t); memcpy(tag[k], t.p, 16);
        ev_begin("gcm_fin"); ev_str("o", a[k]->name); ev_int("n", 16); ev_bytes("tag", t.p, 16); ev_obs(ret); ev_end();
        memcpy(cur, y.p, in.n); obs_in(&x); buf_free(&y); buf_free(&t);
    }
    ev_begin("gcm_rt"); ev_bytes("in", in.copy, in.n); ev_bytes("out", cur, in.n); ev_bytes("t1", tag[0], 16); ev_bytes("t2", tag[1], 16); ev_obs(1); ev_end();
    buf_free(&in); buf_free(&iv); buf_free(&aad); free(cur);
}
/* the same message many times through the parallel entry points, with jitter;
 * one data and one tag event for every distinct outcome */
static void op_gcm_stress(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_hex(str(c, "in")), iv = buf_hex(str(c, "iv")), aad = buf_hex(opt(c, "aad", ""));
    int enc = *opt(c, "dir", "e") == 'e', reps = num(c, "reps", 50), r, i, nd = 0, alias = num(c, "alias", 0); long n = in.n;
    uint8_t *seen = calloc(64, n + 17);
    for (r = 0; r < reps; r++) {
        buf_t out = buf_fill(n, 0xA5); uint8_t tag[16]; int r1, r2, r3, r4; obs0(); bcalls = 0; jitter = r % 2;
        if (alias) memcpy(out.p, in.p, n);
        r1 = g_iv(o, iv.p, iv.n); r2 = g_aad(o, aad.p, aad.n);
        r3 = g_data(o, enc, 1, alias ? out.p : in.p, n, out.p, n); r4 = g_fin(o, tag, 16); jitter = 0;
        uint8_t *s = seen + 63 * (n + 17); memcpy(s, out.p, n); memcpy(s + n, tag, 16); s[n + 16] = r1 == 1 && r2 == 1 && r3 == 1 && r4 == 1;
        for (i = 0; i < nd; i++) if (!memcmp(s, seen + i * (n + 17), n + 17)) break;
        if (i == nd && nd < 60) { memcpy(seen + nd * (n + 17), s, n + 17); nd++; }
        obs_out(&out); buf_free(&out);
    }
    obs0();
    for (i = 0; i < nd; i++) {
        uint8_t *s = seen + i * (n + 17); int ok = s[n + 16];
        ev_begin("gcm_iv"); ev_str("o", o->name); ev_bytes("iv", iv.copy, iv.n); ev_obs(ok); ev_end();
        ev_begin("gcm_aad"); ev_str("o", o->name); ev_bytes("aad", aad.copy, aad.n); ev_obs(ok); ev_end();
        ev_begin("gcm_data"); ev_str("o", o->name); ev_str("dir", enc ? "e" : "d"); ev_int("par", 1); ev_int("alias", alias); ev_int("fill", 0xA5);
        ev_bytes("in", in.copy, n); ev_int("cap", n); ev_bytes("out", s, n); ev_obs(ok); ev_end();
        ev_begin("gcm_fin"); ev_str("o", o->name); ev_int("n", 16); ev_bytes("tag", s + n, 16); ev_obs(ok); ev_end();
    }
    buf_free(&in); buf_free(&iv); buf_free(&aad); free(seen);
}

/* A message that is its own keystream, so that its ciphertext is all zero, of any size: opened with
 * o2 from zeros, sealed again with o.  IV and AAD may be given as numbers of zero bytes. */
static void *zmap(size_t n) { void *p = mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("zmap"); return p; }
static int g_chunks(obj_t *o, int enc, int par, const uint8_t *in, size_t n, uint8_t *out, size_t chunk) {
    size_t i, m; int r;
    for (i = 0; i < n || i == 0; i += m) { m = n - i < chunk ? n - i : chunk; if ((r = g_data(o, enc, par, in + i, m, out + i, m)) != 1) return r; if (m == 0) break; }
    return 1;
}
static void op_gcm_zero(cmd_t *c) {
    obj_t *s = need(str(c, "o")), *d = need(opt(c, "o2", str(c, "o"))); size_t n = num(c, "n", 0), na = num(c, "na", 0), chunk = num(c, "chunk", 1L << 40), i; long niv = num(c, "niv", -1), nz = 0;
    buf_t iv = buf_hex(opt(c, "iv", "")); int par = num(c, "par", 0), r; uint8_t *z = zmap(n), *k = zmap(n), *a = zmap(na), *v = niv >= 0 ? zmap(niv) : iv.p, t1[16], t2[16]; size_t vn = niv >= 0 ? niv : iv.n;
    obs0(); bcalls = 0;
    r = g_iv(d, v, vn) == 1 && g_aad(d, a, na) == 1 && g_chunks(d, 0, par, z, n, k, chunk) == 1 && g_fin(d, t1, 16) == 1;
    r = r && g_iv(s, v, vn) == 1 && g_aad(s, a, na) == 1 && g_chunks(s, 1, par, k, n, k, chunk) == 1 && g_fin(s, t2, 16) == 1;
    for (i = 0; i < n; i++) nz += k[i] != 0;
    ev_begin("gcm_zero"); ev_str("o", s->name); ev_str("o2", d->name); ev_bytes("iv", iv.p, iv.n); ev_int("niv", niv); ev_int("na", na); ev_int("n", n); ev_int("nz", nz > 1000 ? 1000 : nz);
    ev_bytes("t1", t1, 16); ev_bytes("t2", t2, 16); ev_obs(r); ev_end();
    munmap(z, n + 1); munmap(k, n + 1); munmap(a, na + 1); if (niv >= 0) munmap(v, niv + 1); buf_free(&iv);
}

/* ---------------------------------------------------------------------- files */
static int nested;
static void ev_fs_out(const char *p) { fs_only = in_mt || nested ? p : NULL; ev_fs(); fs_only = NULL; }
static void op_fs(void) { ev_begin("fs"); ev_fs(); ev_end(); }
static void op_fput(cmd_t *c) {
    buf_t b = buf_hex(str(c, "b")); int fd = open(str(c, "p"), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, b.p, b.n) != (ssize_t)b.n) die("fput"); close(fd); buf_free(&b); op_fs();
}
static void put_all(const char *p, const uint8_t *b, size_t n) {
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t off = 0; if (fd < 0) die("put");
    while (off < n) { ssize_t w = write(fd, b + off, n - off); if (w <= 0) die("put"); off += w; }
    close(fd);
}
/* the keystream of a prepared context as a file */
static void op_fks(cmd_t *c) {
    obj_t *o = need(str(c, "o")); size_t n = num(c, "n", 0); uint8_t *z = zmap(n), *k = zmap(n); obs0();
    int r = g_data(o, 0, 0, z, n, k, n); lib_on = 0; put_all(str(c, "p"), k, n);
    ev_begin("fks"); ev_str("o", o->name); ev_str("p", str(c, "p")); ev_int("n", n); ev_fs(); ev_obs(r); ev_end(); munmap(z, n + 1); munmap(k, n + 1);
}
static void op_fmut(cmd_t *c) {     /* what an adversary or an accident does to a file */
    const char *p = str(c, "p"), *how = str(c, "how"); size_t n = 0; uint8_t *b = slurp(p, &n); long at = num(c, "at", 0);
    if (!strcmp(how, "rm")) { unlink(p); rmdir(p); free(b); op_fs(); return; }
    if (!strcmp(how, "mkdir")) { mkdir(p, 0755); free(b); op_fs(); return; }
    if (!strcmp(how, "full")) { if (symlink("/dev/full", p)) die("symlink"); free(b); op_fs(); return; }
    if (!b) { op_fs(); return; }
    int fd;
    if (!strcmp(how, "xor")) { if (at < 0) at += n; if (at >= 0 && (size_t)at < n) b[at] ^= num(c, "x", 1); }
    else if (!strcmp(how, "trunc")) { if (at < 0) at += n; if (at >= 0 && (size_t)at < n) n = at; }
    else if (!strcmp(how, "append")) { buf_t a = buf_hex(str(c, "b")); b = realloc(b, n + a.n + 1); memcpy(b + n, a.p, a.n); n += a.n; buf_free(&a); }
    else if (!strcmp(how, "set")) { buf_t a = buf_hex(str(c, "b")); if (at < 0) at += n; if (at >= 0 && at + a.n <= n) memcpy(b + at, a.p, a.n); buf_free(&a); }
    else if (!strcmp(how, "swap")) { uint8_t t[16]; long x = num(c, "x", 0); if ((size_t)at + 16 <= n && (size_t)x + 16 <= n) { memcpy(t, b + at, 16); memcpy(b + at, b + x, 16); memcpy(b + x, t, 16); } }
    else if (!strcmp(how, "cp")) p = str(c, "to");
    else if (!strcmp(how, "cut")) { long m = num(c, "m", 1); if (at < 0) at += n; if (at >= 0 && (size_t)(at + m) <= n) { memmove(b + at, b + at + m, n - at - m); n -= m; } }
    else die("fmut how");
    fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, b, n) != (ssize_t)n) die("fmut"); close(fd);
    free(b); if (num(c, "quiet", 0) == 0) op_fs();
}
static int f_call(obj_t *o, int enc, char *in, char *out) {
    if (o->type == 'e') return (enc ? WBCRYPTO_wbaes_wbgcmfile_ee_encrypt : WBCRYPTO_wbaes_wbgcmfile_ee_decrypt)(o->ctx, in, out);
    if (o->type == 'm') return (enc ? WBCRYPTO_wbaes_wbgcmfile_mask_encrypt : WBCRYPTO_wbaes_wbgcmfile_mask_decrypt)(o->ctx, in, out);
    return (enc ? WBCRYPTO_gcmfile_encrypt : WBCRYPTO_gcmfile_decrypt)(o->ctx, in, out);
}
static void op_file(cmd_t *c, int enc) {
    obj_t *o = need(str(c, "o")); long lim = num(c, "lim", -1), kill_lim = num(c, "killlim", -1), kill_blk = num(c, "killblk", 0); int ret;
    char in[512], out[512]; snprintf(in, sizeof in, "%s", str(c, "inp")); snprintf(out, sizeof out, "%s", str(c, "outp"));
    obs0(); bcalls = 0;
    if (kill_lim >= 0 || kill_blk) {      /* die in the middle: at a block call or at an output byte */
        pid_t p = fork();
        if (p == 0) {
            if (kill_blk) exit_at = kill_blk;
            if (kill_lim >= 0) { signal(SIGXFSZ, SIG_DFL); lim_set(kill_lim); }
            f_call(o, enc, in, out); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGXFSZ) { ev_begin("crash"); ev_int("sig", WTERMSIG(st)); ev_end(); _exit(0); }
        char tmp[600]; snprintf(tmp, sizeof tmp, "%s.tmp", out);
        ev_begin("killed"); ev_str("outp", out); ev_str("tmpp", tmp); ev_fs(); ev_end(); return;
    }
    lim_set(lim); ret = f_call(o, enc, in, out); lim_clear(lim);
    ev_begin(enc ? "fenc" : "fdec"); ev_str("o", o->name); ev_str("inp", in); ev_str("outp", out); ev_int("lim", lim); ev_int("obad", num(c, "obad", 0));
    ev_fs_out(out); ev_obs(ret); ev_end();
}

/* ------------------------------------------------------------------------ SM3 */
static void op_sm3(cmd_t *c) {
    buf_t in = buf_hex(str(c, "in")), out = buf_fill(32, 0xA5); obs0(); int ret = WBCRYPTO_sm3(in.p, in.n, out.p); obs_out(&out);
    ev_begin("sm3"); ev_bytes("in", in.copy, in.n); ev_bytes("out", out.p, 32); obs_in(&in); ev_obs(ret); ev_end(); buf_free(&out);
}
static void op_sm3_init(cmd_t *c) {
    obj_t *o = find(str(c, "o")); if (!o || o->type != '3') { o = mk(str(c, "o")); o->type = '3'; o->ctx = malloc(sizeof(WBCRYPTO_sm3_context)); memset(o->ctx, 0xDB, sizeof(WBCRYPTO_sm3_context)); }
    obs0(); int ret = WBCRYPTO_sm3_init(o->ctx); ev_begin("sm3_init"); ev_str("o", o->name); ev_obs(ret); ev_end();
}
static void op_sm3_upd(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_hex(str(c, "in")); obs0(); int ret = WBCRYPTO_sm3_update(o->ctx, in.p, in.n);
    ev_begin("sm3_upd"); ev_str("o", o->name); ev_bytes("in", in.copy, in.n); obs_in(&in); ev_obs(ret); ev_end();
}
static void op_sm3_fin(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t out = buf_fill(32, 0xA5); obs0(); int ret = WBCRYPTO_sm3_final(o->ctx, out.p); obs_out(&out);
    ev_begin("sm3_fin"); ev_str("o", o->name); ev_bytes("out", out.p, 32); ev_obs(ret); ev_end(); buf_free(&out);
}

/* A message of any size, hashed (d1), and then hashed again with its own padding and a tail behind it (d2):
 * d2 is d1 continued. */
static void op_sm3_big(cmd_t *c) {
    size_t n = num(c, "n", 0), chunk = num(c, "chunk", 1L << 40), i, m, z = (size_t)((119 - n % 64) % 64) + 9; int one = num(c, "one", 0), r = 1; buf_t tail = buf_hex(str(c, "tail")), pad = buf_fill(z, 0), d1 = buf_fill(32, 0xA5), d2 = buf_fill(32, 0xA5);
    WBCRYPTO_sm3_context h; uint64_t bits = (uint64_t)n * 8; uint8_t *all = zmap(n + 64 + 64 + tail.n);
    for (i = 0; i < n; i++) all[i] = (uint8_t)(i * 167 + (i >> 8) * 13 + (i >> 16));
    pad.p[0] = 0x80; for (i = 0; i < 8; i++) pad.p[z - 1 - i] = (uint8_t)(bits >> 8 * i);
    memcpy(all + n, pad.p, z); memcpy(all + n + z, tail.p, tail.n);
    obs0();
    if (one) r = WBCRYPTO_sm3(all, n, d1.p) == 1 && WBCRYPTO_sm3(all, n + z + tail.n, d2.p) == 1;
    else {
        r = WBCRYPTO_sm3_init(&h) == 1; for (i = 0; i < n && r; i += m) { m = n - i < chunk ? n - i : chunk; r = WBCRYPTO_sm3_update(&h, all + i, m) == 1; } r = r && WBCRYPTO_sm3_final(&h, d1.p) == 1;
        size_t n2 = n + z + tail.n;
        r = r && WBCRYPTO_sm3_init(&h) == 1; for (i = 0; i < n2 && r; i += m) { m = n2 - i < chunk ? n2 - i : chunk; r = WBCRYPTO_sm3_update(&h, all + i, m) == 1; } r = r && WBCRYPTO_sm3_final(&h, d2.p) == 1;
    }
    obs_out(&d1); obs_out(&d2);
    ev_begin("sm3_big"); ev_int("n", n); ev_bytes("pad", pad.p, z); ev_bytes("tail", tail.p, tail.n); ev_bytes("d1", d1.p, 32); ev_bytes("d2", d2.p, 32); ev_obs(r); ev_end();
    munmap(all, n + 128 + tail.n); buf_free(&tail); buf_free(&pad); buf_free(&d1); buf_free(&d2);
}

/* ------------------------------------------------------------------------ FPE */
static void op_fpe_init(cmd_t *c) {
    obj_t *k = need(str(c, "c")), *o = mk(str(c, "o")); k = find(str(c, "c")); buf_t tw = buf_hex(str(c, "tw")); long radix = num(c, "radix", 10); int mac = num(c, "mac", 0);
    obs0(); o->type = mac ? 'q' : 'p'; const char *tp = (const char *)tw.p; size_t tn = tw.n;
    if (k->wrap) o->ctx = mac ? (void *)WBCRYPTO_fpe_mac_init(tw.p, tn, radix, k, cb_enc) : (void *)WBCRYPTO_fpe_init(tw.p, tn, radix, k, cb_enc);
    else if (!strcmp(k->alg, "aes")) o->ctx = mac ? (void *)WBCRYPTO_aes_fpe_mac_init(k->ctx, tp, tn, radix) : (void *)WBCRYPTO_aes_fpe_init(k->ctx, tp, tn, radix);
    else if (!strcmp(k->alg, "sm4")) o->ctx = mac ? (void *)WBCRYPTO_sm4_fpe_mac_init(k->ctx, tp, tn, radix) : (void *)WBCRYPTO_sm4_fpe_init(k->ctx, tp, tn, radix);
    else if (!strcmp(k->alg, "wbaes")) o->ctx = mac ? (void *)WBCRYPTO_wbaes_fpe_mac_init(k->ctx, tp, tn, radix) : (void *)WBCRYPTO_wbaes_fpe_init(k->ctx, tp, tn, radix);
    else o->ctx = mac ? (void *)WBCRYPTO_wbsm4_fpe_mac_init(k->ctx, tp, tn, radix) : (void *)WBCRYPTO_wbsm4_fpe_init(k->ctx, tp, tn, radix);
    ev_begin("fpe_init"); ev_str("o", o->name); ev_str("c", k->name); ev_bytes("tw", tw.copy, tw.n); ev_int("radix", radix); ev_int("mac", mac);
    obs_in(&tw); ev_obs(o->ctx != NULL); ev_end();
    if (!o->ctx) o->name[0] = 0;
}
static void op_fpe(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_cstr(str(c, "in")), out = buf_fill(in.n, 0xA5); const char *kind = str(c, "kind"); int enc = *opt(c, "dir", "e") == 'e', ret;
    obs0(); const char *ip = (const char *)in.p; char *op = (char *)out.p;
    if (!strcmp(kind, "ff1")) ret = (enc ? WBCRYPTO_ff1_encrypt : WBCRYPTO_ff1_decrypt)(o->ctx, ip, op);
    else if (!strcmp(kind, "ff3")) ret = (enc ? WBCRYPTO_ff3_encrypt : WBCRYPTO_ff3_decrypt)(o->ctx, ip, op);
    else if (!strcmp(kind, "ff1c")) ret = (enc ? WBCRYPTO_ff1_cmac_encrypt : WBCRYPTO_ff1_cmac_decrypt)(o->ctx, ip, op);
    else ret = (enc ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff3_gmac_decrypt)(o->ctx, ip, op);
    obs_out(&out);
    ev_begin("fpe"); ev_str("o", o->name); ev_str("kind", kind); ev_str("dir", enc ? "e" : "d"); ev_int("fill", 0xA5);
    ev_bytes("in", in.copy, in.n - 1); ev_bytes("out", out.p, out.n); obs_in(&in); ev_obs(ret); ev_end(); buf_free(&out);
}
static void op_fpe_fin(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t t = buf_fill(16, 0xA5); size_t n = 0xFFFF; obs0();
    int ret = (!strcmp(str(c, "kind"), "ff1c") ? WBCRYPTO_ff1_cmac_finish : WBCRYPTO_ff3_gmac_finish)(o->ctx, (char *)t.p, &n); obs_out(&t);
    ev_begin("fpe_fin"); ev_str("o", o->name); ev_int("n", (long)n); ev_bytes("tag", t.p, 16); ev_obs(ret); ev_end(); buf_free(&t);
}
static void op_app_init(cmd_t *c) {
    obj_t *o = mk(str(c, "o")); buf_t k = buf_hex(str(c, "key")); o->type = 'a'; o->ctx = malloc(sizeof(WBCRYPTO_fpe_app_context));
    snprintf(o->s1, sizeof o->s1, "%s", str(c, "cipher")); snprintf(o->s2, sizeof o->s2, "%s", str(c, "ffx"));
    obs0(); int ret = WBCRYPTO_fpe_app_init(o->ctx, k.p, k.n, o->s1, o->s2);
    ev_begin("app_init"); ev_str("o", o->name); ev_bytes("key", k.copy, k.n); ev_str("cipher", o->s1); ev_str("ffx", o->s2); obs_in(&k); ev_obs(ret); ev_end();
}
static void op_app(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_cstr(str(c, "in")), m = buf_cstr(opt(c, "mask", "")), out = buf_fill(in.n, 0);
    const char *w = str(c, "what"); int enc = *opt(c, "dir", "e") == 'e', ws = opt(c, "mask", NULL) != NULL, ret; char *ip = (char *)in.p, *op = (char *)out.p, *mp = (char *)m.p;
    obs0();
    if (!strcmp(w, "phone")) ret = ws ? (enc ? WBCRYPTO_fpe_encrypt_phone_with_sample : WBCRYPTO_fpe_decrypt_phone_with_sample)(o->ctx, ip, op, mp)
                                      : (enc ? WBCRYPTO_fpe_encrypt_phone : WBCRYPTO_fpe_decrypt_phone)(o->ctx, ip, op);
    else if (!strcmp(w, "idcard")) ret = ws ? (enc ? WBCRYPTO_fpe_encrypt_idcard_with_sample : WBCRYPTO_fpe_decrypt_idcard_with_sample)(o->ctx, ip, op, mp)
                                            : (enc ? WBCRYPTO_fpe_encrypt_idcard : WBCRYPTO_fpe_decrypt_idcard)(o->ctx, ip, op);
    else ret = ws ? (enc ? WBCRYPTO_fpe_encrypt_cn_utf8_with_sample : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample)(o->ctx, ip, op, mp)
                  : (enc ? WBCRYPTO_fpe_encrypt_cn_utf8 : WBCRYPTO_fpe_decrypt_cn_utf8)(o->ctx, ip, op);
    obs_out(&out);
    ev_begin("app"); ev_str("o", o->name); ev_int("ws", ws); ev_str("what", w); ev_str("dir", enc ? "e" : "d"); ev_bytes("in", in.copy, in.n - 1); ev_bytes("mask", m.copy, m.n - 1);
    ev_bytes("out", out.p, out.n); obs_in(&in); obs_in(&m); ev_obs(ret); ev_end(); buf_free(&out);
}

/* --------------------------------------------------- white-box SM4 key storage */
static void ev_dig(const uint8_t *b, size_t n) { char t[40]; snprintf(t, sizeof t, "%016llx-%zu", (unsigned long long)fnv(b, n), n); ev_str("d", t); }
static void op_ctx_new(cmd_t *c) {
    obj_t *o = mk(str(c, "o")); obs0(); ctx_obj(o, str(c, "alg"), num(c, "dummy", 0)); ev_begin("ctx_new"); ev_str("o", o->name); ev_int("ret", o->ctx != NULL); ev_end();
}
static void op_k2f(cmd_t *c) {
    obj_t *o = need(str(c, "o")); char p[512]; snprintf(p, sizeof p, "%s", str(c, "p")); long lim = -1, shrt = num(c, "short", 0); obs0();
    if (shrt) {          /* a disk too small by so many bytes (negative: permille of the file) */
        char q[600]; struct stat st; snprintf(q, sizeof q, "%s.probe", p);
        if (WBCRYPTO_wbsm4_key2file(o->ctx, q) == 1 && stat(q, &st) == 0) lim = shrt > 0 ? st.st_size - shrt : st.st_size * -shrt / 1000;
        unlink(q); if (lim < 0) lim = 0;
    }
    lim_set(lim); int ret = WBCRYPTO_wbsm4_key2file(o->ctx, p); lim_clear(lim); size_t n = 0; lib_on = 0; uint8_t *b = slurp(p, &n);
    ev_begin("k2f"); ev_str("o", o->name); ev_dig(b ? b : (uint8_t *)"", b ? n : 0); ev_int("obad", num(c, "obad", 0) || shrt); ev_obs(ret); ev_end(); free(b);
}
/* the script says what the context has become by loading */
static void became(cmd_t *c, obj_t *o, int ret) { const char *a = opt(c, "alg", ""); if (ret == 1 && *a) snprintf(o->alg, sizeof o->alg, "%s", a); }
static void op_f2k(cmd_t *c) {
    obj_t *o = need(str(c, "o")); char p[512]; snprintf(p, sizeof p, "%s", str(c, "p")); size_t n = 0; uint8_t *b = slurp(p, &n); obs0();
    int ret = WBCRYPTO_wbsm4_file2key(o->ctx, p); became(c, o, ret);
    ev_begin("f2k"); ev_str("o", o->name); ev_dig(b ? b : (uint8_t *)"", b ? n : 0); ev_int("obad", num(c, "obad", 0)); ev_obs(ret); ev_end(); free(b);
}
static void op_kcut(cmd_t *c) {      /* cut a key file short, by at bytes (negative: from the end) or at permille */
    const char *p = str(c, "p"); size_t n = 0; uint8_t *b = slurp(p, &n); if (!b || n == 0) { ev_begin("kcut"); ev_dig((uint8_t *)"", 0); ev_end(); return; } long at = num(c, "at", 0), pm = num(c, "pm", -1);
    if (pm >= 0) at = (long)((double)n * pm / 1000); else if (at < 0) at += n;
    if (at < 0 || (size_t)at >= n) at = n - 1;
    if (truncate(p, at)) die("kcut"); ev_begin("kcut"); ev_dig(b, at); ev_end(); free(b);
}
/* alter a stored key: file p or bytes s; refuse=1: no reader may take it */
static void op_kset(cmd_t *c) {
    buf_t b = buf_hex(str(c, "b")); long at = num(c, "at", 0); const char *p = opt(c, "p", NULL);
    ev_begin("kset"); ev_int("refuse", num(c, "refuse", 1));
    if (p) {
        size_t n = 0; uint8_t *f = slurp(p, &n); if (!f || at + b.n > n) die("kset");
        memcpy(f + at, b.p, b.n); FILE *o = fopen(p, "wb"); if (!o || fwrite(f, 1, n, o) != n || fclose(o)) die("kset"); ev_dig(f, n); free(f);
    } else {
        obj_t *s = need(str(c, "s")); if (at + b.n > s->kslen) die("kset"); memcpy(s->kstream + at, b.p, b.n); ev_dig((uint8_t *)s->kstream, s->kslen);
    }
    ev_end(); buf_free(&b);
}
static void op_k2b(cmd_t *c) {
    obj_t *o = need(str(c, "o")), *s = mk(str(c, "s")); o = find(str(c, "o")); s->type = 'b'; obs0();
    int ret = WBCRYPTO_wbsm4_key2bytes(o->ctx, &s->kstream);
    s->kslen = ret == 1 && s->kstream ? malloc_usable_size(s->kstream) : 0;
    uint32_t n = 0; if (s->kslen >= 4) memcpy(&n, s->kstream, 4); if (n > s->kslen) n = s->kslen;
    s->kslen = n ? n : s->kslen;
    ev_begin("k2b"); ev_str("o", o->name); ev_dig((uint8_t *)s->kstream, s->kslen); ev_int("obad", 0); ev_obs(ret); ev_end();
}
static void op_b2k(cmd_t *c) {
    obj_t *o = need(str(c, "o")), *s = need(str(c, "s")); buf_t b = buf_from((uint8_t *)s->kstream, s->kslen); obs0();
    int ret = WBCRYPTO_wbsm4_bytes2key(o->ctx, (char *)b.p); became(c, o, ret);
    ev_begin("b2k"); ev_str("o", o->name); ev_dig(b.copy, b.n); ev_int("obad", 0); obs_in(&b); ev_obs(ret); ev_end();
}

/* ------------------------------------------------------------ key store, padding */
static void op_ks_put(cmd_t *c) {
    buf_t in = buf_hex(str(c, "in")); char p[512]; snprintf(p, sizeof p, "%s", str(c, "p")); long lim = num(c, "lim", -1); obs0();
    lim_set(lim); int ret = WBCRYPTO_keystore_key_to_file(in.p, in.n, p); lim_clear(lim);
    ev_begin("ks_put"); ev_str("outp", p); ev_bytes("in", in.copy, in.n); ev_int("lim", lim); ev_int("obad", num(c, "obad", 0)); ev_fs_out(p); obs_in(&in); ev_obs(ret); ev_end();
}
static void op_ks_get(cmd_t *c) {
    long n = num(c, "n", 16); buf_t out = buf_fill(n, 0xA5); char p[512]; snprintf(p, sizeof p, "%s", str(c, "p")); obs0();
    int ret = WBCRYPTO_keystore_file_to_key(out.p, n, p); obs_out(&out);
    ev_begin("ks_get"); ev_str("inp", p); ev_int("n", n); ev_bytes("out", out.p, n); ev_obs(ret); ev_end(); buf_free(&out);
}
static void op_pad(cmd_t *c) {
    const char *fn = str(c, "fn"); buf_t in = buf_hex(str(c, "in")), out; size_t cap, r; obs0();
    cap = !strcmp(fn, "key7") || !strcmp(fn, "key0") ? 16 : !strcmp(fn, "merge") ? (in.n + 15) / 16 * 16 : !strcmp(fn, "sep") ? WBCRYPTO_padding_pkcs7_separate_length(in.p, in.n) : 0; /* sep: exactly the room the length function announces */
    out = buf_fill(cap, 0xA5);
    if (!strcmp(fn, "key7")) r = WBCRYPTO_key_padding_pkcs7(in.p, in.n, out.p);
    else if (!strcmp(fn, "key0")) r = WBCRYPTO_key_padding_zeros(in.p, in.n, out.p);
    else if (!strcmp(fn, "merge")) r = WBCRYPTO_padding_pkcs7_merge(in.p, in.n, out.p);
    else if (!strcmp(fn, "sep")) r = WBCRYPTO_padding_pkcs7_separate(in.p, in.n, out.p);
    else if (!strcmp(fn, "mlen")) r = WBCRYPTO_padding_pkcs7_merge_length(in.p, in.n);
    else r = WBCRYPTO_padding_pkcs7_separate_length(in.p, in.n);
    obs_out(&out);
    ev_begin("pad"); ev_str("fn", fn); ev_bytes("in", in.copy, in.n); ev_bytes("out", out.p, r < cap ? r : cap); obs_in(&in); ev_obs((long)r); ev_end(); buf_free(&out);
}

static void op_free(cmd_t *c) {
    obj_t *o = need(str(c, "o")); lib_on = 1; watch_dirty = 0; watch_on = 1;
    switch (o->type) {
        case 'g': WBCRYPTO_gcm_free(o->ctx); break; case 'f': WBCRYPTO_gcmfile_free(o->ctx); break;
        case 'e': WBCRYPTO_wbaes_wbgcm_ee_free(o->ctx); break; case 'm': WBCRYPTO_wbaes_wbgcm_mask_free(o->ctx); break;
        case 'p': WBCRYPTO_fpe_free(o->ctx); break; case 'q': WBCRYPTO_fpe_mac_free(o->ctx); break;
        case 'c':
            if (!strcmp(o->alg, "aes")) WBCRYPTO_aes_context_free(o->ctx); else if (!strcmp(o->alg, "sm4")) WBCRYPTO_sm4_context_free(o->ctx);
            else if (!strcmp(o->alg, "wbaes")) WBCRYPTO_wbaes_context_free(o->ctx); else if (!strncmp(o->alg, "wbsm4", 5)) WBCRYPTO_wbsm4_context_free(o->ctx);
            else if (!strncmp(o->alg, "sewb", 4)) WBCRYPTO_se_wbsm4_context_free(o->ctx);
            break;
        default: break;
    }
    watch_on = 0;
    ev_begin("free"); ev_str("o", o->name); ev_int("dirty", watch_dirty); ev_end(); o->name[0] = 0;
}

/* ----------------------------------------------------------------- dispatcher */
static void run_nested(void) {
    char *cmds = nest_cmds, *save = NULL, *t; nest_cmds = NULL;
    nested = 1;
    long k_calls = bcalls, k_fails = bfails, k_p = pfails; int k_over = o_over, k_in = o_inmod;
    for (t = strtok_r(cmds, ";", &save); t; t = strtok_r(NULL, ";", &save)) {
        char *q; for (q = t; *q; q++) if (*q == '~') *q = '='; else if (*q == '|') *q = ' ';
        cmd_t k; cmd_parse(&k, t); run_cmd(&k); free(k.copy);
    }
    nested = 0; bcalls = k_calls; bfails = k_fails; pfails = k_p; o_over = k_over; o_inmod = k_in; free(cmds);
}
/* a command list in a process of its own, which starts as this one is now */
static void op_child(cmd_t *c) {
    int st; pid_t pid = fork(); if (pid < 0) die("fork");
    if (!pid) { nest_cmds = strdup(str(c, "do")); run_nested(); _exit(0); }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    if (st) _exit(WEXITSTATUS(st));
}
/* several command lists at once, each on a thread of its own, reps times over; what a list
 * records is written once for every distinct outcome.  A list must set up the state it uses. */
typedef struct { char *cmds; int reps, nseen; char *seen[24]; pthread_barrier_t *bar; } mt_t;
static void *mt_main(void *x) {
    mt_t *m = x; int r, i; in_mt = 1; cap_on = 1;
    pthread_barrier_wait(m->bar);
    for (r = 0; r < m->reps; r++) {
        char *cmds = strdup(m->cmds), *save = NULL, *t; cap_len = 0;
        for (t = strtok_r(cmds, ";", &save); t; t = strtok_r(NULL, ";", &save)) {
            char *q; for (q = t; *q; q++) if (*q == '~') *q = '='; else if (*q == '|') *q = ' ';
            cmd_t k; cmd_parse(&k, t); run_cmd(&k); free(k.copy);
        }
        free(cmds); if (!cap_len) continue;
        cap_buf[cap_len] = 0;
        for (i = 0; i < m->nseen && strcmp(m->seen[i], cap_buf); i++);
        if (i == m->nseen && i < 24) m->seen[m->nseen++] = strdup(cap_buf);
    }
    cap_on = 0;
    return NULL;
}
static void op_mt(cmd_t *c) {
    char *all = strdup(str(c, "do")), *save = NULL, *t; static mt_t m[16]; pthread_t th[16]; int n = 0, i, k; pthread_barrier_t bar;
    memset(m, 0, sizeof m);
    for (t = strtok_r(all, "/", &save); t && n < 16; t = strtok_r(NULL, "/", &save)) { m[n].cmds = t; m[n].reps = num(c, "reps", 1); m[n++].bar = &bar; }
    pthread_barrier_init(&bar, NULL, n); jitter = 1;
    for (i = 0; i < n; i++) if (pthread_create(&th[i], NULL, mt_main, &m[i])) die("thread");
    for (i = 0; i < n; i++) pthread_join(th[i], NULL);
    jitter = 0;
    for (i = 0; i < n; i++) for (k = 0; k < m[i].nseen; k++) { ev_len = 0; ev_raw(m[i].seen[k], strlen(m[i].seen[k])); size_t off = 0; while (off < ev_len) { ssize_t w = write(ev_fd, ev_buf + off, ev_len - off); if (w <= 0) _exit(97); off += w; } }
    free(all);
}
#ifdef DRV_TAB
#include "tab.h"
#else
static int tab_cmd(const char *o, cmd_t *c) { (void)o; (void)c; return 0; }
#endif
static void run_cmd(cmd_t *c) {
    const char *o = c->op;
    if (tab_cmd(o, c)) return;
    if (!strcmp(o, "seed")) fake_time = num(c, "t", 1);
    else if (!strcmp(o, "poison")) poison(num(c, "b", 0));
    else if (!strcmp(o, "fail")) { fail_at = num(c, "at", 0); fail_len = num(c, "len", 1); fail_mode = num(c, "mode", 0); free(fail_pat); fail_pat = opt(c, "pat", NULL) ? strdup(str(c, "pat")) : NULL; }
    else if (!strcmp(o, "mt")) op_mt(c);
    else if (!strcmp(o, "nest")) { nest_at = num(c, "at", 1); nest_cmds = strdup(str(c, "do")); }
    else if (!strcmp(o, "child")) op_child(c);
    else if (!strcmp(o, "ciph")) op_ciph(c);
    else if (!strcmp(o, "blk")) op_blk(c);
    else if (!strcmp(o, "cbc")) op_cbc(c);
    else if (!strcmp(o, "cbcrt")) op_cbcrt(c);
    else if (!strcmp(o, "ee_key")) op_ee_key(c);
    else if (!strcmp(o, "mask_key")) op_mask_key(c);
    else if (!strcmp(o, "gcm_init")) op_gcm_init(c);
    else if (!strcmp(o, "gcm_iv")) op_gcm_iv(c);
    else if (!strcmp(o, "gcm_aad")) op_gcm_aad(c);
    else if (!strcmp(o, "gcm_data")) op_gcm_data(c);
    else if (!strcmp(o, "gcm_fin")) op_gcm_fin(c);
    else if (!strcmp(o, "gcm_rt")) op_gcm_rt(c);
    else if (!strcmp(o, "gcm_stress")) op_gcm_stress(c);
    else if (!strcmp(o, "gcm_zero")) op_gcm_zero(c);
    else if (!strcmp(o, "sm3_big")) op_sm3_big(c);
    else if (!strcmp(o, "fks")) op_fks(c);
    else if (!strcmp(o, "fs")) op_fs();
    else if (!strcmp(o, "fput")) op_fput(c);
    else if (!strcmp(o, "fmut")) op_fmut(c);
    else if (!strcmp(o, "fenc")) op_file(c, 1);
    else if (!strcmp(o, "fdec")) op_file(c, 0);
    else if (!strcmp(o, "sm3")) op_sm3(c);
    else if (!strcmp(o, "sm3_init")) op_sm3_init(c);
    else if (!strcmp(o, "sm3_upd")) op_sm3_upd(c);
    else if (!strcmp(o, "sm3_fin")) op_sm3_fin(c);
    else if (!strcmp(o, "fpe_init")) op_fpe_init(c);
    else if (!strcmp(o, "fpe")) op_fpe(c);
    else if (!strcmp(o, "fpe_fin")) op_fpe_fin(c);
    else if (!strcmp(o, "app_init")) op_app_init(c);
    else if (!strcmp(o, "app")) op_app(c);
    else if (!strcmp(o, "ctx_new")) op_ctx_new(c);
    else if (!strcmp(o, "k2f")) op_k2f(c);
    else if (!strcmp(o, "f2k")) op_f2k(c);
    else if (!strcmp(o, "kcut")) op_kcut(c);
    else if (!strcmp(o, "kset")) op_kset(c);
    else if (!strcmp(o, "k2b")) op_k2b(c);
    else if (!strcmp(o, "b2k")) op_b2k(c);
    else if (!strcmp(o, "ks_put")) op_ks_put(c);
    else if (!strcmp(o, "ks_get")) op_ks_get(c);
    else if (!strcmp(o, "pad")) op_pad(c);
    else if (!strcmp(o, "free")) op_free(c);
    else if (!strcmp(o, "mset")) op_mset(c);
    else if (!strcmp(o, "mat")) op_mat(c);
    else if (!strcmp(o, "draw")) op_draw(c);
    else if (!strcmp(o, "mcom")) op_mcom(c);
    else if (!strcmp(o, "rseed")) op_rseed(c);
    else if (!strcmp(o, "perm")) op_perm(c);
    else if (!strcmp(o, "shuffle")) op_shuffle(c);
    else if (!strcmp(o, "mixed")) op_mixed(c);
    else if (!strcmp(o, "fshuf")) op_fshuf(c);
    else if (!strcmp(o, "rdraw")) op_rdraw(c);
    else if (!strcmp(o, "qpr")) op_qpr(c);
    else if (!strcmp(o, "qprall")) op_qprall(c);
    else if (!strcmp(o, "mark")) op_mark();
    else if (!strcmp(o, "kept")) op_kept();
    else { fprintf(stderr, "driver: unknown op %s\n", o); _exit(98); }
}
int main(int argc, char **argv) { return driver_main(argc, argv); }
