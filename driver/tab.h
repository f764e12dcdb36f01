/* White-box tables seen from the outside: only in the driver variant "tab", which knows the layout of the public structures. */
#ifndef DRV_TAB_H
#define DRV_TAB_H
#include <openssl/aes.h>
typedef struct {        /* the parts the AES variants have in common */
    uint32_t (*two)[16][256], (*three)[16][256]; uint8_t (*iv2)[4][3][8][16][16], (*iv3)[4][3][8][16][16]; uint8_t (*ia)[256], (*ib)[256], (*g1)[256], (*g2)[256];
} atab_t;
static int tab_aes(obj_t *o, atab_t *t) {
    memset(t, 0, sizeof *t);
#define COMMON t->two = c->TypeII; t->three = c->TypeIII; t->iv2 = c->TypeIV_II; t->iv3 = c->TypeIV_III; t->ia = c->TypeIa
    if (!strcmp(o->alg, "wbaes")) { WBCRYPTO_wbaes_context *c = o->ctx; COMMON; t->ib = c->TypeIb; return 1; }
    if (!strcmp(o->alg, "ee")) { WBCRYPTO_wbaes_wbgcm_ee_context *c = o->ctx; COMMON; t->g1 = c->GBOX_TypeI; return 2; }
    if (!strcmp(o->alg, "mask")) { WBCRYPTO_wbaes_wbgcm_mask_context *c = o->ctx; COMMON; t->ib = c->TypeIb; t->g1 = c->GBOX_TypeI; t->g2 = c->GBOX_TypeII; return 3; }
    return 0;
}
static uint8_t tab_gx(obj_t *o, int i, int j, int k) { return !strcmp(o->alg, "ee") ? ((WBCRYPTO_wbaes_wbgcm_ee_context *)o->ctx)->GBOX_TypeIII[i][j][k] : ((WBCRYPTO_wbaes_wbgcm_mask_context *)o->ctx)->GBOX_TypeIII[i][j][k]; }
static void ev_time(void) { char t[40]; snprintf(t, sizeof t, "%ld", fake_time); ev_str("tm", t); }
static int tk_first; static int th_first;
static void tk_open(const char *k) { ev_s(tk_first ? "{\"k\":\"" : ",{\"k\":\""); tk_first = 0; th_first = 1; ev_s(k); ev_s("\",\"h\":["); }
static void tk_hash(const void *p, size_t n) { char b[40]; snprintf(b, sizeof b, "%s\"%016llx\"", th_first ? "" : ",", (unsigned long long)fnv(p, n)); th_first = 0; ev_s(b); }
static void tk_close(void) { ev_s("]}"); }
static int rows_zero(uint32_t **t) { int j, x; for (j = 0; j < 4; j++) for (x = 0; x < 256; x++) if (t[j][x]) return 0; return 1; }
/* the i-th real round of a white-box SM4 */
static int real_round(WBCRYPTO_wbsm4_context *c, int i) { int r; for (r = 0; r < c->rounds; r++) if (!rows_zero(c->Table[r]) && !i--) return r; return -1; }
static void op_tsum(cmd_t *c) {
    obj_t *o = need(str(c, "o")); atab_t t; int i, j, k, s, n; ev_begin("tsum"); ev_str("o", o->name); ev_str("alg", o->alg); ev_time(); ev_s(",\"kinds\":["); tk_first = 1;
    if (tab_aes(o, &t)) {
        tk_open("II"); for (i = 0; i < 10; i++) for (j = 0; j < 16; j++) tk_hash(t.two[i][j], 1024); tk_close();
        tk_open("III"); for (i = 0; i < 9; i++) for (j = 0; j < 16; j++) tk_hash(t.three[i][j], 1024); tk_close();
        tk_open("IV"); for (i = 0; i < 9; i++) for (j = 0; j < 4; j++) for (s = 0; s < 3; s++) for (k = 0; k < 8; k++) { tk_hash(t.iv2[i][j][s][k], 256); tk_hash(t.iv3[i][j][s][k], 256); } tk_close();
        tk_open("Ia"); for (i = 0; i < 16; i++) tk_hash(t.ia[i], 256); tk_close();
        tk_open("Ib"); if (t.ib) for (i = 0; i < 16; i++) tk_hash(t.ib[i], 256); tk_close();
        tk_open("G1"); if (t.g1) for (i = 0; i < 16; i++) tk_hash(t.g1[i], 256); tk_close();
        tk_open("G2"); if (t.g2) for (i = 0; i < 16; i++) tk_hash(t.g2[i], 256); tk_close();
        tk_open("GX"); if (t.g1) for (i = 0; i < 16; i++) { static uint8_t b[65536]; for (j = 0; j < 256; j++) for (k = 0; k < 256; k++) b[256 * j + k] = tab_gx(o, i, j, k); tk_hash(b, 65536); } tk_close();
        ev_s("],\"dummy\":[]");
    } else if (!strncmp(o->alg, "wbsm4", 5)) {
        WBCRYPTO_wbsm4_context *w = o->ctx; const char *kn[] = {"M0", "M1", "M2", "C", "D", "T"};
        for (n = 0; n < 6; n++) { tk_open(kn[n]); for (i = 0; i < w->rounds; i++) if (!rows_zero(w->Table[i])) for (j = 0; j < 4; j++) tk_hash(n < 3 ? w->MM[i][n][j] : n == 3 ? w->CC[i][j] : n == 4 ? w->DD[i][j] : w->Table[i][j], 1024); tk_close(); }
        tk_open("SE"); for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) tk_hash(w->SE[i][j], 1024); tk_close();
        tk_open("FE"); for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) tk_hash(w->FE[i][j], 1024); tk_close();
        ev_s("],\"dummy\":["); for (k = i = 0; i < w->rounds; i++) if (rows_zero(w->Table[i])) { char b[16]; snprintf(b, sizeof b, k++ ? ",%d" : "%d", i); ev_s(b); } ev_s("]");
    } else {
        WBCRYPTO_se_wbsm4_context *w = o->ctx;
        for (n = 0; n < 2; n++) {
#define PART(a) n ? (void *)&(a).Vec : (void *)&(a).Mat, n ? sizeof(a).Vec : sizeof(a).Mat
            tk_open(n ? "Mv" : "Mm"); for (i = 0; i < 32; i++) for (j = 0; j < 3; j++) tk_hash(PART(w->M[i][j])); tk_close();
            tk_open(n ? "Cv" : "Cm"); for (i = 0; i < 32; i++) tk_hash(PART(w->C[i])); tk_close();
            tk_open(n ? "Dv" : "Dm"); for (i = 0; i < 32; i++) tk_hash(PART(w->D[i])); tk_close();
            tk_open(n ? "Sv" : "Sm"); for (i = 0; i < 4; i++) tk_hash(PART(w->SE[i])); tk_close();
            tk_open(n ? "Fv" : "Fm"); for (i = 0; i < 4; i++) tk_hash(PART(w->FE[i])); tk_close();
        }
        ev_s("],\"dummy\":[]");
    }
    ev_end();
}
static void op_tdummy(cmd_t *c) { obj_t *o = need(str(c, "o")); ev_begin("tdummy"); ev_str("o", o->name); ev_str("alg", o->alg); ev_int("n", num(c, "n", 4)); ev_end(); }
static void ev_sq(uint8_t (*t)[16]) { int x; ev_s("["); for (x = 0; x < 16; x++) { if (x) ev_s(","); ev_arr(t[x], 16); } ev_s("]"); }
static void op_tnib(cmd_t *c) {
    obj_t *o = need(str(c, "o")); atab_t t; int i = num(c, "i", 0), w = num(c, "w", 2), j, s, k; tab_aes(o, &t);
    ev_begin("tnib"); ev_str("o", o->name); ev_int("w", w); ev_int("i", i); ev_s(",\"x\":[");
    for (j = 0; j < 4; j++) { ev_s(j ? ",[" : "["); for (s = 0; s < 3; s++) { ev_s(s ? ",[" : "["); for (k = 0; k < 8; k++) { if (k) ev_s(","); ev_sq((w == 2 ? t.iv2 : t.iv3)[i][j][s][k]); } ev_s("]"); } ev_s("]"); }
    ev_s("]"); ev_end();
}
static void ev_word(uint32_t w) { uint8_t b[4] = {w >> 24, w >> 16, w >> 8, w}; ev_arr(b, 4); }
static void ev_words(const uint32_t *w, int n) { int i; ev_s("["); for (i = 0; i < n; i++) { if (i) ev_s(","); ev_word(w[i]); } ev_s("]"); }
static void op_tbox(cmd_t *c) {
    obj_t *o = need(str(c, "o")); atab_t t; int i = num(c, "i", 0), col = num(c, "c", 0), j, s, k; tab_aes(o, &t);
    ev_begin("tbox"); ev_str("o", o->name); ev_int("i", i); ev_int("c", col);
    ev_s(",\"two\":["); for (j = 0; j < 4; j++) { if (j) ev_s(","); ev_words(t.two[i][4 * col + j], 256); }
    ev_s("],\"three\":["); for (j = 0; j < 4; j++) { if (j) ev_s(","); ev_words(t.three[i][4 * col + j], 256); }
    ev_s("],\"iv\":["); for (s = 0; s < 2; s++) { ev_s(s ? ",[" : "["); for (k = 0; k < 8; k++) { if (k) ev_s(","); ev_sq(t.iv2[i][col][s][k]); } ev_s("]"); }
    ev_s("]"); ev_end();
}
static void op_tlast(cmd_t *c) {
    obj_t *o = need(str(c, "o")); atab_t t; int j, x, k = tab_aes(o, &t); uint8_t f[256];
    ev_begin("tlast"); ev_str("o", o->name); ev_s(",\"f\":[");
    for (j = 0; j < 16; j++) { for (x = 0; x < 256; x++) { uint8_t y = t.two[9][j][x]; f[x] = k == 2 ? tab_gx(o, j, y, 0) : t.ib[j][y]; } if (j) ev_s(","); ev_arr(f, 256); }
    ev_s("]"); ev_end();
}
static int te_first; static void te(uint8_t (*t)[256]) { int i; if (t) for (i = 0; i < 16; i++) { if (!te_first) ev_s(","); te_first = 0; ev_arr(t[i], 256); } }
static void op_text(cmd_t *c) {
    obj_t *o = need(str(c, "o")); atab_t t; int i; tab_aes(o, &t);
    ev_begin("text"); ev_str("o", o->name); ev_s(",\"mix\":["); te_first = 1; te(t.ia); te(t.ib); ev_s("],\"any\":["); te_first = 1; te(t.g1); te(t.g2); ev_s("],\"lin\":[");
    if (!strcmp(o->alg, "mask")) for (i = 0; i < 16; i++) { if (i) ev_s(","); ev_arr(((WBCRYPTO_wbaes_wbgcm_mask_context *)o->ctx)->L1[i].M, 8); }
    ev_s("]"); ev_end();
}
static void op_tgx(cmd_t *c) {
    obj_t *o = need(str(c, "o")); int i, x; uint8_t a[4][256]; ev_begin("tgx"); ev_str("o", o->name); ev_s(",\"x\":[");
    for (i = 0; i < 16; i++) {
        for (x = 0; x < 256; x++) { a[0][x] = tab_gx(o, i, x, 0); a[1][x] = tab_gx(o, i, 0, x); a[2][x] = tab_gx(o, i, x, 1); a[3][x] = tab_gx(o, i, 1, x); }
        ev_s(i ? ",{\"c\":" : "{\"c\":"); ev_arr(a[0], 256); ev_bytes("r", a[1], 256); ev_bytes("c1", a[2], 256); ev_bytes("r1", a[3], 256); ev_s("}");
    }
    ev_s("]"); ev_end();
}
static void op_taux(cmd_t *c) {
    obj_t *o = need(str(c, "o")); buf_t in = buf_hex(str(c, "in")); size_t i; buf_t out = buf_fill(in.n, 0xA5);
    obs0();
    for (i = 0; i + 16 <= in.n; i += 16) if (!strcmp(o->alg, "ee")) aux_WBCRYPTO_wbaes_wbgcm_ee_encrypt(in.p + i, out.p + i, o->ctx); else aux_WBCRYPTO_wbaes_wbgcm_mask_encrypt(in.p + i, out.p + i, o->ctx);
    ev_begin("taux"); ev_str("o", o->name); ev_str("alg", o->alg); ev_time(); ev_bytes("in", in.copy, in.n); ev_bytes("out", out.p, out.n); ev_end(); buf_free(&in); buf_free(&out);
}
/* two adjacent words of the key schedule, in either byte order, also with the rows shifted; not words of a few byte values, which are everywhere */
static uint64_t fp[256]; static int nfp; static uint8_t fp_hit[65536];
static void fp_add(const uint8_t *a, const uint8_t *b) {
    uint8_t t[8]; int k, i; uint64_t v;
    for (k = 0; k < 2; k++) { for (i = 0; i < 4; i++) { t[i] = a[k ? 3 - i : i]; t[4 + i] = b[k ? 3 - i : i]; } memcpy(&v, t, 8); int q, dist = 0; for (i = 0; i < 8; i++) { for (q = 0; q < i && t[q] != t[i]; q++); dist += q == i; } if (nfp < 256 && dist >= 5) { fp[nfp++] = v; fp_hit[t[0] << 8 | t[1]] = 1; } }
}
static long fp_scan(const uint8_t *p, size_t n) {
    long h = 0; size_t i; int k; uint64_t v;
    for (i = 0; i + 8 <= n; i++) if (fp_hit[p[i] << 8 | p[i + 1]]) { memcpy(&v, p + i, 8); for (k = 0; k < nfp; k++) if (v == fp[k]) h++; }
    return h;
}
extern char __data_start[], _end[];
static uint8_t fp_rk[176]; static size_t fp_nrk; static volatile long fp_taken;
static void fp_take(const void *p, size_t n) { fp_taken += fp_scan(p, n); }
/* what to look for: the words of the key schedule of alg */
static void fp_key(const char *alg, const char *hex) {
    buf_t k = buf_hex(hex); size_t i; int r; uint8_t key[16], *rk = fp_rk;
    for (i = 0; i < 16; i++) key[i] = i < k.n ? k.p[i] : 16 - k.n;
    buf_free(&k); memset(fp_hit, 0, sizeof fp_hit); nfp = 0;
    if (!strstr(alg, "sm4")) {
        AES_KEY ak; AES_set_encrypt_key(key, 128, &ak); fp_nrk = 176;
        for (i = 0; i < 44; i++) for (r = 0; r < 4; r++) rk[4 * i + r] = ak.rd_key[i] >> (8 * r);
        OPENSSL_cleanse(&ak, sizeof ak);
        for (r = 0; r < 11; r++) { uint8_t s[16]; for (i = 0; i < 16; i++) s[i] = rk[16 * r + (i + 4 * (i % 4)) % 16]; for (i = 0; i < 3; i++) { fp_add(rk + 16 * r + 4 * i, rk + 16 * r + 4 * i + 4); fp_add(s + 4 * i, s + 4 * i + 4); } }
    } else {
        WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(s, key, 16); fp_nrk = 128;
        for (i = 0; i < 32; i++) { uint32_t w = s->rk[i]; rk[4 * i] = w >> 24; rk[4 * i + 1] = w >> 16; rk[4 * i + 2] = w >> 8; rk[4 * i + 3] = w; }
        WBCRYPTO_sm4_context_free(s);
        for (i = 0; i < 31; i++) { fp_add(rk + 4 * i, rk + 4 * i + 4); fp_add(rk + 4 * i + 4, rk + 4 * i); }
        for (i = 0; i < 3; i++) fp_add(key + 4 * i, key + 4 * i + 4);
    }
}
/* from here on, look at what the library gives back */
static void op_tkey(cmd_t *c) { fp_key(str(c, "alg"), str(c, "key")); fp_taken = 0; on_take = fp_take; }
static void op_tfind(cmd_t *c) {
    obj_t *o = need(str(c, "o")); long hits = on_take ? fp_taken : 0; size_t i, n, nrk; atab_t t; int seen = 0; uint8_t rkc[176];
    on_take = NULL; fp_taken = 0; fp_key(o->alg, str(c, "key")); nrk = fp_nrk; memcpy(rkc, fp_rk, nrk); OPENSSL_cleanse(fp_rk, sizeof fp_rk);
#ifndef __SANITIZE_ADDRESS__
    for (i = 0; i < LIVE; i++) if (live[i].p) { hits += fp_scan(live[i].p, live[i].n); if (live[i].p == o->ctx) seen = 1; }
#endif
    if (!seen) hits += fp_scan(o->ctx, tab_aes(o, &t) == 1 ? sizeof(WBCRYPTO_wbaes_context) : tab_aes(o, &t) == 2 ? sizeof(WBCRYPTO_wbaes_wbgcm_ee_context) : tab_aes(o, &t) == 3 ? sizeof(WBCRYPTO_wbaes_wbgcm_mask_context) : !strncmp(o->alg, "wbsm4", 5) ? sizeof(WBCRYPTO_wbsm4_context) : sizeof(WBCRYPTO_se_wbsm4_context));
    /* static storage, but for the words looked for */
    hits += fp_scan((uint8_t *)__data_start, (uint8_t *)fp - (uint8_t *)__data_start); hits += fp_scan((uint8_t *)fp + sizeof fp, (uint8_t *)_end - (uint8_t *)fp - sizeof fp);
    if (!strncmp(o->alg, "wbsm4", 5)) {
        uint8_t *b; WBCRYPTO_wbsm4_key2file(o->ctx, ".tfind"); b = slurp(".tfind", &n); hits += fp_scan(b, n); free(b); unlink(".tfind");
    }
    ev_begin("tfind"); ev_str("o", o->name); ev_bytes("rk", rkc, nrk); ev_int("hits", hits); ev_end();
}
static void lin_tab(uint32_t **t, uint32_t *cols) { int j, b; for (j = 0; j < 4; j++) for (b = 0; b < 8; b++) cols[8 * j + b] = t[j][1 << b] ^ t[j][0]; }
static void lin_mat(M32 m, uint32_t *cols) { int j, b; for (j = 0; j < 4; j++) for (b = 0; b < 8; b++) cols[8 * j + b] = MatMulNumM32(m, (uint32_t)1 << (24 - 8 * j + b)); }
static void op_tend(cmd_t *c) {
    obj_t *o = need(str(c, "o")); int i, j, n; uint32_t l[32]; ev_begin("tend"); ev_str("o", o->name);
    for (n = 0; n < 2; n++) {
        ev_s(n ? ",\"fe\":[" : ",\"se\":[");
        for (i = 0; i < 4; i++) {
            if (!strncmp(o->alg, "wbsm4", 5)) { WBCRYPTO_wbsm4_context *w = o->ctx; uint32_t *r[4]; for (j = 0; j < 4; j++) r[j] = n ? w->FE[i][j] : w->SE[i][j]; lin_tab(r, l); }
            else { WBCRYPTO_se_wbsm4_context *w = o->ctx; lin_mat(n ? w->FE[i].Mat : w->SE[i].Mat, l); }
            if (i) ev_s(","); ev_words(l, 32);
        }
        ev_s("]");
    }
    ev_end();
}
static void op_trnd(cmd_t *c) {
    obj_t *o = need(str(c, "o")); int r = num(c, "r", 0), i, j, n; uint32_t l[5][32]; ev_begin("trnd"); ev_str("o", o->name); ev_int("r", r); ev_s(",\"tab\":[");
    if (!strncmp(o->alg, "wbsm4", 5)) {
        WBCRYPTO_wbsm4_context *w = o->ctx; i = real_round(w, r); if (i < 0) die("fewer than 32 rounds");
        for (n = 0; n < 3; n++) lin_tab(w->MM[i][n], l[n]); lin_tab(w->CC[i], l[3]); lin_tab(w->DD[i], l[4]);
        if (num(c, "t", 1)) for (j = 0; j < 4; j++) { if (j) ev_s(","); ev_words(w->Table[i][j], 256); }
    } else { WBCRYPTO_se_wbsm4_context *w = o->ctx; for (n = 0; n < 3; n++) lin_mat(w->M[r][n].Mat, l[n]); lin_mat(w->C[r].Mat, l[3]); lin_mat(w->D[r].Mat, l[4]); }
    ev_s("],\"m\":["); for (n = 0; n < 3; n++) { if (n) ev_s(","); ev_words(l[n], 32); } ev_s("],\"c\":"); ev_words(l[3], 32); ev_s(",\"d\":"); ev_words(l[4], 32); ev_end();
}
static int tab_cmd(const char *o, cmd_t *c) {
    if (!strcmp(o, "tsum")) op_tsum(c); else if (!strcmp(o, "tdummy")) op_tdummy(c); else if (!strcmp(o, "tnib")) op_tnib(c); else if (!strcmp(o, "tbox")) op_tbox(c);
    else if (!strcmp(o, "tkey")) op_tkey(c); else if (!strcmp(o, "tlast")) op_tlast(c); else if (!strcmp(o, "text")) op_text(c); else if (!strcmp(o, "tgx")) op_tgx(c); else if (!strcmp(o, "taux")) op_taux(c);
    else if (!strcmp(o, "tfind")) op_tfind(c); else if (!strcmp(o, "tend")) op_tend(c); else if (!strcmp(o, "trnd")) op_trnd(c); else return 0;
    return 1;
}
#endif
