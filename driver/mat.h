/* Matrices over GF(2) and the random values drawn from them: registers of guarded memory. */
#ifndef DRV_MAT_H
#define DRV_MAT_H
#include <WBMatrix/WBMatrix.h>
typedef struct { char name[32]; char k; int n; buf_t b; } reg_t;   /* k: m matrix, v vector, a affine map */
static reg_t regs[512]; static int nregs;
static size_t reg_word(int n) { return n == 4 ? 1 : n == 128 ? 8 : n / 8; }
static size_t reg_size(char k, int n) { size_t r = n == 4 ? 1 : n / 8, m = n * r; return k == 'm' ? m : k == 'v' ? r : m + r; }
static reg_t *reg_get(const char *nm) { int i; for (i = 0; i < nregs; i++) if (!strcmp(regs[i].name, nm)) return &regs[i]; fprintf(stderr, "driver: no register %s\n", nm); _exit(98); }
/* the register nm as the destination of a value of this kind: kept if it has it already */
static reg_t *reg_dst(const char *nm, char k, int n) {
    int i; for (i = 0; i < nregs && strcmp(regs[i].name, nm); i++);
    if (i < nregs && regs[i].k == k && regs[i].n == n) return &regs[i];
    if (i == nregs) { if (nregs >= 512) die("too many registers"); nregs++; } else buf_free(&regs[i].b);
    snprintf(regs[i].name, sizeof regs[i].name, "%s", nm); regs[i].k = k; regs[i].n = n; regs[i].b = buf_fill(reg_size(k, n), 0xA5);
    if (n == 4) memset(regs[i].b.p, 0x05, regs[i].b.n);
    return &regs[i];
}
/* words of the machine <-> most significant byte first */
static void reg_swap(uint8_t *p, size_t len, int n) {
    size_t w = reg_word(n), i, j; for (i = 0; i + w <= len; i += w) for (j = 0; j < w / 2; j++) { uint8_t t = p[i + j]; p[i + j] = p[i + w - 1 - j]; p[i + w - 1 - j] = t; }
}
static void ev_reg(const char *key, reg_t *r) {
    uint8_t *t = malloc(r->b.n); memcpy(t, r->b.p, r->b.n); reg_swap(t, r->b.n, r->n); ev_bytes(key, t, r->b.n); free(t);
    if (buf_over(&r->b)) o_over = 1;
}
static const char *kname(char k) { return k == 'm' ? "mat" : k == 'v' ? "vec" : "aff"; }
static void op_mset(cmd_t *c) {
    const char *k = str(c, "k"); int n = num(c, "n", 8); buf_t in = buf_hex(str(c, "v")); reg_t *r = reg_dst(str(c, "o"), *k, n);
    if (in.n != r->b.n) die("mset: wrong length");
    memcpy(r->b.p, in.p, in.n); reg_swap(r->b.p, in.n, n);
    ev_begin("mset"); ev_str("o", r->name); ev_str("k", kname(*k)); ev_int("n", n); ev_bytes("out", in.copy, in.n); ev_end(); buf_free(&in);
}
#define MAT_SMALL(N) \
    if (!strcmp(f, "muln")) { ((V##N *)d)->V = MatMulNumM##N(*(M##N *)a, ((V##N *)b)->V); return 1; } \
    if (!strcmp(f, "aap")) { ((V##N *)d)->V = affineU##N(*(Aff##N *)a, ((V##N *)b)->V); return 1; } \
    if (!strcmp(f, "xor")) return xorU##N(((V##N *)a)->V); \
    if (!strcmp(f, "hw")) return HWU##N(((V##N *)a)->V);
#define MAT_BIG(N) \
    if (!strcmp(f, "aap")) { affineU128(*(Aff128 *)a, ((V128 *)b)->V, ((V128 *)d)->V); return 1; } \
    if (!strcmp(f, "xor")) return xorU128(((V128 *)a)->V); \
    if (!strcmp(f, "hw")) return HWU128(((V128 *)a)->V);
#define MAT_DEF(N, MORE) static long mat_##N(const char *f, void *d, void *d2, void *a, void *b, int i, int j, int bit) { \
    if (!strcmp(f, "init")) { initM##N(d); return 1; } \
    if (!strcmp(f, "id")) { identityM##N(d); return 1; } \
    if (!strcmp(f, "copy")) { copyM##N(*(M##N *)a, d); return 1; } \
    if (!strcmp(f, "add")) { MatAddMatM##N(*(M##N *)a, *(M##N *)b, d); return 1; } \
    if (!strcmp(f, "mul")) { MatMulMatM##N(*(M##N *)a, *(M##N *)b, d); return 1; } \
    if (!strcmp(f, "trans")) { MattransM##N(*(M##N *)a, d); return 1; } \
    if (!strcmp(f, "invs")) { invsM##N(*(M##N *)a, d); return 1; } \
    if (!strcmp(f, "flip")) { flipbitM##N(d, i, j); return 1; } \
    if (!strcmp(f, "set")) { setbitM##N(d, i, j, bit); return 1; } \
    if (!strcmp(f, "isinv")) return isinvertM##N(*(M##N *)a); \
    if (!strcmp(f, "iseq")) return isequalM##N(*(M##N *)a, *(M##N *)b); \
    if (!strcmp(f, "rbit")) return readbitM##N(*(M##N *)a, i, j); \
    if (!strcmp(f, "print")) { printbitM##N(*(M##N *)a); return 1; } \
    if (!strcmp(f, "vinit")) { initV##N(d); return 1; } \
    if (!strcmp(f, "vadd")) { VecAddVecV##N(*(V##N *)a, *(V##N *)b, d); return 1; } \
    if (!strcmp(f, "viseq")) return isequalV##N(*(V##N *)a, *(V##N *)b); \
    if (!strcmp(f, "mulv")) { MatMulVecM##N(*(M##N *)a, *(V##N *)b, d); return 1; } \
    if (!strcmp(f, "amix")) { affinemixM##N(*(Aff##N *)a, *(Aff##N *)b, d); return 1; } \
    if (!strcmp(f, "rand")) { randM##N(d); return 1; } \
    if (!strcmp(f, "vrand")) { randV##N(d); return 1; } \
    if (!strcmp(f, "gen")) { genMatpairM##N(d, d2); return 1; } \
    if (!strcmp(f, "agen")) { genaffinepairM##N(d, d2); return 1; } \
    MORE(N) \
    die("mat: unknown function"); return 0; }
MAT_DEF(4, MAT_SMALL) MAT_DEF(8, MAT_SMALL) MAT_DEF(16, MAT_SMALL) MAT_DEF(32, MAT_SMALL) MAT_DEF(64, MAT_SMALL) MAT_DEF(128, MAT_BIG)
static long mat_run(int n, const char *f, void *d, void *d2, void *a, void *b, int i, int j, int bit) {
    switch (n) {
        case 4: return mat_4(f, d, d2, a, b, i, j, bit); case 8: return mat_8(f, d, d2, a, b, i, j, bit); case 16: return mat_16(f, d, d2, a, b, i, j, bit);
        case 32: return mat_32(f, d, d2, a, b, i, j, bit); case 64: return mat_64(f, d, d2, a, b, i, j, bit); default: return mat_128(f, d, d2, a, b, i, j, bit);
    }
}
static int is_one(const char *f, const char *list) { const char *p = strstr(list, f); size_t l = strlen(f); return p && (p == list || p[-1] == ' ') && (p[l] == ' ' || !p[l]); }
static void op_mat(cmd_t *c) {
    const char *f = str(c, "f"), *o = opt(c, "o", ""), *a = opt(c, "a", ""), *b = opt(c, "b", ""); int n = num(c, "n", 8);
    reg_t *d = NULL, *ra = *a ? reg_get(a) : NULL, *rb = *b ? reg_get(b) : NULL; buf_t sa, sb; long ret; uint8_t *txt = NULL; size_t ntxt = 0;
    /* arguments go by value: from copies, so that a destination may be one of them */
    memset(&sa, 0, sizeof sa); memset(&sb, 0, sizeof sb);
    if (ra) sa = buf_from(ra->b.p, ra->b.n); if (rb) sb = buf_from(rb->b.p, rb->b.n);
    if (is_one(f, "flip set")) d = reg_get(o);
    else if (*o) d = reg_dst(o, is_one(f, "vinit vadd mulv muln aap") ? 'v' : is_one(f, "amix") ? 'a' : 'm', n);
    obs0();
    if (!strcmp(f, "print")) {
        int keep = dup(1), t = open(".print", O_RDWR | O_CREAT | O_TRUNC, 0600); fflush(stdout); dup2(t, 1);
        ret = mat_run(n, f, NULL, NULL, sa.p, sb.p, 0, 0, 0); fflush(stdout); dup2(keep, 1); close(t); close(keep);
        txt = slurp(".print", &ntxt); unlink(".print");
    } else ret = mat_run(n, f, d ? d->b.p : NULL, NULL, sa.p, sb.p, num(c, "i", 0), num(c, "j", 0), num(c, "bit", 0));
    ev_begin("mat"); ev_str("f", f); ev_int("n", n); ev_str("o", o); ev_str("a", a); ev_str("b", b); ev_int("i", num(c, "i", 0)); ev_int("j", num(c, "j", 0)); ev_int("bit", num(c, "bit", 0));
    if (txt) { ev_bytes("out", txt, ntxt); free(txt); } else if (d) ev_reg("out", d); else ev_bytes("out", NULL, 0);
    ev_int("ret", ret); ev_int("over", o_over); ev_end();
    if (ra) buf_free(&sa); if (rb) buf_free(&sb);
}
static void op_draw(cmd_t *c) {
    const char *f = str(c, "f"), *o2 = opt(c, "o2", ""); int n = num(c, "n", 8); char k = !strcmp(f, "vrand") ? 'v' : !strcmp(f, "agen") ? 'a' : 'm';
    reg_dst(str(c, "o"), k, n); if (*o2) reg_dst(o2, k, n);
    reg_t *d = reg_get(str(c, "o")), *e = *o2 ? reg_get(o2) : NULL;
    obs0();
    mat_run(n, f, d->b.p, e ? e->b.p : NULL, NULL, NULL, 0, 0, 0);
    ev_begin("draw"); ev_str("f", f); ev_int("n", n); ev_str("o", d->name); ev_str("o2", o2); ev_reg("out", d); if (e) ev_reg("out2", e); else ev_bytes("out2", NULL, 0);
    ev_int("over", o_over); ev_end();
}
#define R(T, i) (*(T *)x[i])
#define COM4(T, F, D) F(R(T, 0), R(T, 1), R(T, 2), R(T, 3), (D *)d)
#define COM8(T, F, D) F(R(T, 0), R(T, 1), R(T, 2), R(T, 3), R(T, 4), R(T, 5), R(T, 6), R(T, 7), (D *)d)
#define COM16(T, F, D) F(R(T, 0), R(T, 1), R(T, 2), R(T, 3), R(T, 4), R(T, 5), R(T, 6), R(T, 7), R(T, 8), R(T, 9), R(T, 10), R(T, 11), R(T, 12), R(T, 13), R(T, 14), R(T, 15), (D *)d)
static void op_mcom(cmd_t *c) {
    char kk = *str(c, "k"); int n = num(c, "n", 8), m = 0, big; char *names = strdup(str(c, "s")), *save = NULL, *t; char nm[16][32]; uint8_t *x[16]; reg_t *r;
    for (t = strtok_r(names, ",", &save); t && m < 16; t = strtok_r(NULL, ",", &save)) { snprintf(nm[m], 32, "%s", t); r = reg_get(t); x[m++] = r->b.p; }
    big = n * m; r = reg_dst(str(c, "o"), kk, big); void *d = r->b.p;
    obs0();
    if (n == 4 && m == 2) MatrixcomM4to8(R(M4, 0), R(M4, 1), (M8 *)d);
    else if (n == 8 && m == 4) { if (kk == 'm') COM4(M8, MatrixcomM8to32, M32); else if (kk == 'v') COM4(V8, VectorcomV8to32, V32); else COM4(Aff8, affinecomM8to32, Aff32); }
    else if (n == 16 && m == 4) { if (kk == 'm') COM4(M16, MatrixcomM16to64, M64); else if (kk == 'v') COM4(V16, VectorcomV16to64, V64); else COM4(Aff16, affinecomM16to64, Aff64); }
    else if (n == 8 && m == 8) { if (kk == 'm') COM8(M8, MatrixcomM8to64, M64); else if (kk == 'v') COM8(V8, VectorcomV8to64, V64); else COM8(Aff8, affinecomM8to64, Aff64); }
    else if (n == 32 && m == 4) { if (kk == 'm') COM4(M32, MatrixcomM32to128, M128); else if (kk == 'v') COM4(V32, VectorcomV32to128, V128); else COM4(Aff32, affinecomM32to128, Aff128); }
    else if (n == 8 && m == 16) { if (kk == 'm') COM16(M8, MatrixcomM8to128, M128); else if (kk == 'v') COM16(V8, VectorcomV8to128, V128); else COM16(Aff8, affinecomM8to128, Aff128); }
    else if (n == 16 && m == 8) { if (kk == 'm') COM8(M16, MatrixcomM16to128, M128); else if (kk == 'v') COM8(V16, VectorcomV16to128, V128); else COM8(Aff16, affinecomM16to128, Aff128); }
    else die("mcom: no such composition");
    ev_begin("mcom"); ev_str("o", r->name); ev_str("k", kname(kk)); ev_int("n", n); ev_s(",\"s\":["); { int i; for (i = 0; i < m; i++) { if (i) ev_s(","); ev_s("\""); ev_s(nm[i]); ev_s("\""); } } ev_s("]");
    ev_reg("out", r); ev_int("over", o_over); ev_end(); free(names);
}
static void op_rseed(cmd_t *c) {
    lib_on = 1; SetRandSeed((unsigned)strtoul(str(c, "s"), NULL, 10)); char t[40]; snprintf(t, sizeof t, "%ld", fake_time);
    ev_begin("rseed"); ev_str("s", str(c, "s")); ev_str("t", t); ev_end();
}
static void op_perm(cmd_t *c) {
    int n = num(c, "n", 16); buf_t p = buf_fill(n, 0xA5), q = buf_fill(n, 0x5A); obs0();
    if (n == 16) genPermutation4(p.p, q.p); else genPermutation8(p.p, q.p);
    obs_out(&p); obs_out(&q);
    ev_begin("perm"); ev_int("n", n); ev_bytes("out", p.p, n); ev_bytes("out2", q.p, n); ev_int("over", o_over); ev_end(); buf_free(&p); buf_free(&q);
}
static void op_shuffle(cmd_t *c) {
    buf_t b = buf_hex(str(c, "in")); obs0(); int ret = wRandomShuffleU8(b.p, b.n); obs_out(&b);
    ev_begin("shuffle"); ev_bytes("in", b.copy, b.n); ev_bytes("out", b.p, b.n); ev_int("ret", ret); ev_int("over", o_over); ev_end(); buf_free(&b);
}
/* the first shuffle of a process that starts at time t */
static void op_fshuf(cmd_t *c) {
    buf_t b = buf_hex(str(c, "in")); int fd[2], st, ret = 0; pid_t pid; size_t got = 0; ssize_t k;
    if (pipe(fd)) die("pipe");
    if (!(pid = fork())) { fake_time = num(c, "t", 1); lib_on = 1; if (wRandomShuffleU8(b.p, b.n)) _exit(9); if (write(fd[1], b.p, b.n) != (ssize_t)b.n) _exit(8); _exit(0); }
    close(fd[1]); while ((k = read(fd[0], b.p + got, b.n - got)) > 0) got += k; close(fd[0]); waitpid(pid, &st, 0);
    ret = st ? -1 : 0;
    ev_begin("fshuf"); ev_str("t", str(c, "t")); ev_bytes("in", b.copy, b.n); ev_bytes("out", b.p, b.n); ev_int("ret", ret); ev_end(); buf_free(&b);
}
/* n numbers of the generator started from s */
static void op_rdraw(cmd_t *c) {
    int n = num(c, "n", 100), i; lib_on = 1; InitRandom((unsigned)strtoul(str(c, "s"), NULL, 10)); ev_begin("rdraw"); ev_str("s", str(c, "s")); ev_s(",\"ys\":[");
    for (i = 0; i < n; i++) { unsigned y = cus_random(); uint8_t t[4] = {y >> 24, y >> 16, y >> 8, y}; if (i) ev_s(","); ev_arr(t, 4); }
    ev_s("]"); ev_end();
}
static void op_mixed(cmd_t *c) { ev_begin("mixed"); ev_str("f", str(c, "f")); ev_int("n", num(c, "n", 16)); ev_end(); }
static void op_qpr(cmd_t *c) {
    buf_t b = buf_hex(str(c, "xs")); size_t i; obs0(); ev_begin("qpr"); ev_s(",\"xs\":[");
    for (i = 0; i + 4 <= b.n; i += 4) { if (i) ev_s(","); ev_arr(b.p + i, 4); }
    ev_s("],\"ys\":[");
    for (i = 0; i + 4 <= b.n; i += 4) {
        uint32_t x = (uint32_t)b.p[i] << 24 | b.p[i + 1] << 16 | b.p[i + 2] << 8 | b.p[i + 3], y = permuteQPR(x);
        uint8_t t[4] = {y >> 24, y >> 16, y >> 8, y}; if (i) ev_s(","); ev_arr(t, 4);
    }
    ev_s("]"); ev_end(); buf_free(&b);
}
/* the whole domain: which values come up twice */
static void op_qprall(cmd_t *c) {
    uint8_t *m = mmap(NULL, 1UL << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); uint64_t x; long dups = 0; (void)c;
    if (m == MAP_FAILED) die("mmap");
    for (x = 0; x < (1ULL << 32); x++) { uint32_t y = permuteQPR((uint32_t)x); if (m[y >> 3] >> (y & 7) & 1) dups++; m[y >> 3] |= 1 << (y & 7); }
    munmap(m, 1UL << 29); ev_begin("qprall"); ev_int("dups", dups); ev_end();
}
#endif
