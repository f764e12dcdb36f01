/* Shared by the drivers: command parsing, guarded buffers, JSON events. */
#ifndef DRV_UTIL_H
#define DRV_UTIL_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>

/* ------------------------------------------------------------- events */
static int ev_fd = -1;
static __thread char *ev_buf; static __thread size_t ev_len, ev_cap;
static void ev_raw(const char *s, size_t n) {
    if (ev_len + n + 1 > ev_cap) { ev_cap = (ev_len + n + 1) * 2; ev_buf = (char *)realloc(ev_buf, ev_cap); }
    memcpy(ev_buf + ev_len, s, n); ev_len += n;
}
static void ev_s(const char *s) { ev_raw(s, strlen(s)); }
/* heap blocks the library holds: counted while lib_on, between the start of a call and its event */
static volatile int lib_on; static volatile long lib_net;
#ifndef __SANITIZE_ADDRESS__
#ifdef __cplusplus
#define NX noexcept
extern "C" {
#else
#define NX
#endif
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t); extern void __libc_free(void *);
#define LIVE (1 << 16)
static struct { void *p; size_t n; } live[LIVE]; static volatile int live_lock, live_n, watch_on; static volatile long watch_dirty; static void (*volatile on_take)(const void *, size_t);
static void live_put(void *p, size_t n) {
    size_t i; if (!p) return;
    while (__sync_lock_test_and_set(&live_lock, 1));
    __sync_fetch_and_add(&lib_net, 1);
    if (live_n < LIVE / 2) { for (i = ((size_t)p >> 4) * 2654435761u % LIVE; live[i].p && live[i].p != p; i = (i + 1) % LIVE); if (!live[i].p) live_n++; live[i].p = p; live[i].n = n; }
    __sync_lock_release(&live_lock);
}
/* a block goes back: words that are neither zero nor a pointer count while watched */
static void live_take(void *p) {
    size_t i, j, k, n = 0; if (!p) return;
    while (__sync_lock_test_and_set(&live_lock, 1));
    for (i = ((size_t)p >> 4) * 2654435761u % LIVE; live[i].p && live[i].p != p; i = (i + 1) % LIVE);
    if (live[i].p) {
        n = live[i].n; live_n--;
        for (j = (i + 1) % LIVE; live[j].p; j = (j + 1) % LIVE) {   /* close the gap */
            k = ((size_t)live[j].p >> 4) * 2654435761u % LIVE;
            if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
            live[i] = live[j]; i = j;
        }
        live[i].p = 0;
    }
    if (lib_on) __sync_fetch_and_sub(&lib_net, 1);
    __sync_lock_release(&live_lock);
    if (on_take && n) on_take(p, n);
    if (watch_on) for (j = 0; j + 8 <= n; j += 8) {
        uint64_t w; memcpy(&w, (char *)p + j, 8);
        if (w && !(w >> 47 == 0 && w >> 40 >= 0x50)) watch_dirty++;
    }
}
void *malloc(size_t n) NX { void *p = __libc_malloc(n); if (lib_on) live_put(p, n); return p; }
void *calloc(size_t a, size_t b) NX { void *p = __libc_calloc(a, b); if (lib_on) live_put(p, a * b); return p; }
void *realloc(void *p, size_t n) NX { void *q; if (lib_on || live_n) live_take(p); q = __libc_realloc(p, n); if (lib_on) live_put(q, n); return q; }
void free(void *p) NX { if (lib_on || live_n) live_take(p); __libc_free(p); }
#ifdef __cplusplus
}
#endif
#else
static volatile int watch_on; static volatile long watch_dirty;
#endif
static void ev_begin(const char *op) { lib_on = 0; ev_len = 0; ev_s("{\"op\":\""); ev_s(op); ev_s("\""); }
static void ev_int(const char *k, long v) { char b[64]; if (v > 2000000000L) v = 2000000000L; if (v < -2000000000L) v = -2000000000L; snprintf(b, sizeof b, "%ld", v); ev_s(",\""); ev_s(k); ev_s("\":"); ev_s(b); }
static void ev_str(const char *k, const char *v) { ev_s(",\""); ev_s(k); ev_s("\":\""); ev_s(v); ev_s("\""); }
static void ev_arr(const uint8_t *v, size_t n) {
    size_t i; char b[8]; ev_s("[");
    for (i = 0; i < n; i++) { int m = snprintf(b, sizeof b, i ? ",%u" : "%u", v[i]); ev_raw(b, m); }
    ev_s("]");
}
static void ev_bytes(const char *k, const uint8_t *v, size_t n) { ev_s(",\""); ev_s(k); ev_s("\":"); ev_arr(v, n); }
/* events of a thread can be collected instead of written */
static __thread char *cap_buf; static __thread size_t cap_len, cap_cap; static __thread int cap_on;
static void ev_end(void) {
    size_t off = 0; ev_s("}\n");
    if (cap_on) {
        if (cap_len + ev_len + 1 > cap_cap) { cap_cap = (cap_len + ev_len + 1) * 2; cap_buf = (char *)realloc(cap_buf, cap_cap); }
        memcpy(cap_buf + cap_len, ev_buf, ev_len); cap_len += ev_len; return;
    }
    while (off < ev_len) { ssize_t w = write(ev_fd, ev_buf + off, ev_len - off); if (w <= 0) _exit(97); off += w; }
}

/* ----------------------------------------------------------- commands */
#define MAXARGS 40
typedef struct { const char *op; const char *k[MAXARGS]; const char *v[MAXARGS]; int n; char *copy; } cmd_t;
static void die(const char *m) { fprintf(stderr, "driver: %s\n", m); _exit(98); }
static void cmd_parse(cmd_t *c, const char *line) {
    c->copy = strdup(line); c->n = 0; c->op = NULL;
    char *save = NULL, *t;
    for (t = strtok_r(c->copy, " \n", &save); t; t = strtok_r(NULL, " \n", &save)) {
        if (!c->op) { c->op = t; continue; }
        char *eq = strchr(t, '='); if (!eq) die("bad argument");
        *eq = 0; if (c->n >= MAXARGS) die("too many arguments");
        c->k[c->n] = t; c->v[c->n++] = eq + 1;
    }
}
static const char *opt(cmd_t *c, const char *k, const char *d) {
    int i; for (i = 0; i < c->n; i++) if (!strcmp(c->k[i], k)) return c->v[i];
    return d;
}
static const char *str(cmd_t *c, const char *k) {
    const char *v = opt(c, k, NULL); if (!v) { fprintf(stderr, "driver: %s needs %s\n", c->op, k); _exit(98); } return v;
}
static long num(cmd_t *c, const char *k, long d) { const char *v = opt(c, k, NULL); return v ? strtol(v, NULL, 10) : d; }
static int hexv(int ch) { return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; }

/* ------------------------------------------- buffers that end at a guard page */
typedef struct { uint8_t *p; size_t n; uint8_t *base; size_t total; uint8_t *copy; } buf_t;
#define CANARY 0xC7
static size_t buf_front(buf_t *b) { return b->p - b->base; }
static buf_t buf_new(size_t n) {
    buf_t b; size_t pg = 4096, body = ((n + 64 + pg - 1) / pg) * pg;
    b.n = n; b.total = body + pg;
    b.base = (uint8_t *)mmap(NULL, b.total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b.base == MAP_FAILED) die("mmap");
    mprotect(b.base + body, pg, PROT_NONE);
    b.p = b.base + body - n; b.copy = NULL;
    memset(b.base, CANARY, b.p - b.base);
    return b;
}
static buf_t buf_fill(size_t n, int fill) { buf_t b = buf_new(n); memset(b.p, fill, n); return b; }
static buf_t buf_from(const uint8_t *src, size_t n) {
    buf_t b = buf_new(n); if (n) memcpy(b.p, src, n);
    b.copy = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(b.copy, src, n); return b;
}
static buf_t buf_hex(const char *h) {
    size_t n = strlen(h) / 2, i; uint8_t *t = (uint8_t *)malloc(n ? n : 1);
    for (i = 0; i < n; i++) t[i] = hexv(h[2 * i]) * 16 + hexv(h[2 * i + 1]);
    buf_t b = buf_from(t, n); free(t); return b;
}
/* hex plus a terminating nul (n still counts it) */
static buf_t buf_cstr(const char *h) {
    size_t n = strlen(h) / 2, i; uint8_t *t = (uint8_t *)malloc(n + 1);
    for (i = 0; i < n; i++) t[i] = hexv(h[2 * i]) * 16 + hexv(h[2 * i + 1]);
    t[n] = 0; buf_t b = buf_from(t, n + 1); free(t); return b;
}
static int buf_over(buf_t *b) {          /* bytes in front of the buffer changed? */
    size_t i, f = buf_front(b); for (i = 0; i < f; i++) if (b->base[i] != CANARY) return 1;
    return 0;
}
static int buf_mod(buf_t *b) { return b->copy && b->n && memcmp(b->p, b->copy, b->n) != 0; }
static void buf_free(buf_t *b) { munmap(b->base, b->total); free(b->copy); b->base = NULL; }

/* ------------------------------------------------ environment the library sees */
static long fake_time = -1;
#ifdef __cplusplus
extern "C" time_t time(time_t *t) noexcept {
#else
time_t time(time_t *t) {
#endif
    time_t r;
    if (fake_time >= 0) r = fake_time;
    else { struct timeval tv; gettimeofday(&tv, NULL); r = tv.tv_sec; }
    if (t) *t = r;
    return r;
}
/* what the calls since "mark" have kept: heap blocks and open descriptors */
static long fd_count(void) { long n = 0; int fd; for (fd = 0; fd < 1024; fd++) if (fcntl(fd, F_GETFD) >= 0) n++; return n; }
static long fd_mark;
static void op_mark(void) { lib_net = 0; fd_mark = fd_count(); }
static void op_kept(void) { long h = lib_net; ev_begin("kept"); ev_int("blocks", h); ev_int("fds", fd_count() - fd_mark); ev_end(); }
/* leave recognisable rubbish on the stack and in fresh heap blocks */
static int poison_byte = 0;
static void __attribute__((noinline)) scribble(void) {
    volatile uint8_t junk[98304]; size_t i;
    for (i = 0; i < sizeof junk; i++) junk[i] = (uint8_t)(poison_byte + (i & 1));
}
static void poison(int b) { poison_byte = b; mallopt(M_PERTURB, b & 255); }

/* ---------------------------------------------------------- scratch directory */
static uint64_t fnv(const uint8_t *p, size_t n) {
    uint64_t h = 1469598103934665603ULL; size_t i;
    for (i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; }
    return h;
}
static uint8_t *slurp(const char *path, size_t *n) {
    int fd = open(path, O_RDONLY); struct stat st; if (fd < 0) return NULL;
    fstat(fd, &st); uint8_t *b = (uint8_t *)malloc(st.st_size + 1); size_t got = 0;
    while (got < (size_t)st.st_size) { ssize_t r = read(fd, b + got, st.st_size - got); if (r <= 0) break; got += r; }
    close(fd); *n = got; return b;
}
static int cmpstr(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
/* every entry of the scratch directory as [{"p":..,"k":..,"b":[..]}..] */
static __thread const char *fs_only;      /* while other operations are under way: look at this file alone */
static void ev_fs(void) {
    char *names[256]; int n = 0, i; DIR *d = fs_only ? NULL : opendir("."); struct dirent *e;
    if (fs_only && access(fs_only, F_OK) == 0) names[n++] = strdup(fs_only);
    if (fs_only) ev_s(",\"part\":1");
    while (d && (e = readdir(d)) != NULL)
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && n < 256) names[n++] = strdup(e->d_name);
    if (d) closedir(d);
    qsort(names, n, sizeof names[0], cmpstr);
    ev_s(",\"fs\":[");
    for (i = 0; i < n; i++) {
        struct stat st; if (i) ev_s(",");
        ev_s("{\"p\":\""); ev_s(names[i]); ev_s("\",\"k\":\"");
        if (lstat(names[i], &st) != 0) { ev_s("absent\",\"b\":[]}"); }
        else if (S_ISDIR(st.st_mode)) ev_s("dir\",\"b\":[]}");
        else if (!S_ISREG(st.st_mode)) ev_s("dev\",\"b\":[]}");
        else if (st.st_size > 70000) {
            /* a few runs of equal bytes, or a digest */
            size_t m, j, nr = 0; uint8_t *b = slurp(names[i], &m); char t[80]; int few = 1;
            for (j = 1; j <= m; j++) if (j == m || b[j] != b[j - 1]) { if (++nr > 64) { few = 0; break; } }
            if (few) {
                size_t st0 = 0; nr = 0; ev_s("runs\",\"b\":[");
                for (j = 1; j <= m; j++) if (j == m || b[j] != b[j - 1]) { snprintf(t, sizeof t, "%s[%u,%zu]", nr++ ? "," : "", b[st0], (j - st0) & 0x7fffffff); ev_s(t); st0 = j; }
                ev_s("]}");
            } else {
                uint64_t h = fnv(b, m);
                snprintf(t, sizeof t, "big\",\"b\":[%u,%u,%u,%u,%zu]}", (unsigned)(h & 65535), (unsigned)(h >> 16 & 65535), (unsigned)(h >> 32 & 65535), (unsigned)(h >> 48), m & 0x7fffffff);
                ev_s(t);
            }
            free(b);
        } else {
            size_t m = 0; uint8_t *b = slurp(names[i], &m);
            ev_s("file\",\"b\":"); ev_arr(b, m); ev_s("}"); free(b);
        }
        free(names[i]);
    }
    ev_s("]");
}
static void rm_scratch(const char *dir) {       /* one level of sub-directories */
    DIR *d = opendir(dir); struct dirent *e; char p[4096];
    while (d && (e = readdir(d)) != NULL) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
        if (unlink(p) != 0) rmdir(p);
    }
    if (d) closedir(d);
    rmdir(dir);
}

/* ------------------------------------------------------------- main loop */
static void run_cmd(cmd_t *c);
static int case_timeout = 60;
/* usage: driver script trace scratchroot */
static int driver_main(int argc, char **argv) {
    if (argc < 4) die("usage: driver script trace scratch");
    FILE *f = fopen(argv[1], "r"); if (!f) die("script");
    ev_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (ev_fd < 0) die("trace");
    if (getenv("DRV_TIMEOUT")) case_timeout = atoi(getenv("DRV_TIMEOUT"));
    char **lines = NULL; size_t nl = 0, cap = 0; char *line = NULL; size_t lc = 0;
    while (getline(&line, &lc, f) > 0) {
        if (line[0] == '\n' || line[0] == '#') continue;
        if (nl == cap) { cap = cap ? cap * 2 : 1024; lines = (char **)realloc(lines, cap * sizeof *lines); }
        lines[nl++] = strdup(line);
    }
    fclose(f);
    size_t i = 0; int devnull = open("/dev/null", O_RDWR);
    while (i < nl) {
        if (strncmp(lines[i], "case ", 5)) die("expected case");
        size_t j = i + 1; while (j < nl && strncmp(lines[j], "case ", 5)) j++;
        cmd_t c; cmd_parse(&c, lines[i]);
        ev_begin("case"); ev_str("id", str(&c, "id")); ev_end();
        char dir[4096]; snprintf(dir, sizeof dir, "%s/s%zu", argv[3], i);
        if (mkdir(dir, 0755) != 0 && errno != EEXIST) die("scratch");
        fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            if (chdir(dir) != 0) die("chdir");
            dup2(devnull, 1);                      /* the library prints its refusals */
            signal(SIGXFSZ, SIG_IGN);
            alarm(case_timeout);
            size_t q; for (q = i + 1; q < j; q++) { cmd_t k; cmd_parse(&k, lines[q]); run_cmd(&k); free(k.copy); }
            _exit(42);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
        if (WIFSIGNALED(st)) {
            ev_begin(WTERMSIG(st) == SIGALRM ? "hang" : "crash"); ev_int("sig", WTERMSIG(st)); ev_end();
        } else if (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98) { fprintf(stderr, "driver: case %s failed in the harness\n", str(&c, "id")); return 3; }
        else if (WEXITSTATUS(st) != 42) { ev_begin("crash"); ev_int("exit", WEXITSTATUS(st)); ev_end(); }
        rm_scratch(dir);
        free(c.copy); i = j;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) break;      /* one is enough */
    }
    return 0;
}
#endif
