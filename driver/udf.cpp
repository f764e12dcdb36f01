/* Drives the MySQL plug-in through its C interface, as the server would:
 * one init per statement, one call per row, one deinit. */
#include "util.h"
#include <mysql.h>
extern "C" {
    bool fpe_init(UDF_INIT *initid, UDF_ARGS *args, char *message);
    void fpe_deinit(UDF_INIT *initid);
    char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error);
}
struct stmt { char name[32]; UDF_INIT init; UDF_ARGS args; unsigned long len[8]; char *arg[8]; Item_result type[8]; char mn[8]; char *attr[8]; unsigned long attrl[8]; int live; };
static stmt st[16]; static int nst;
static stmt *find(const char *n) { for (int i = 0; i < nst; i++) if (!strcmp(st[i].name, n)) return &st[i]; return NULL; }

static void run_cmd(cmd_t *c) {
    if (!strcmp(c->op, "mark")) { op_mark(); return; }
    if (!strcmp(c->op, "kept")) { op_kept(); return; }
    if (!strcmp(c->op, "poison")) { poison(num(c, "b", 0)); return; }
    if (!strcmp(c->op, "udf_init")) {
        stmt *s = find(str(c, "o")); if (!s) s = &st[nst++];
        memset(s, 0, sizeof *s); snprintf(s->name, sizeof s->name, "%s", str(c, "o"));
        int n = num(c, "nargs", 2), i, strs = 1; const char *types = opt(c, "types", "ssss");
        long max[3] = { num(c, "max", 60), 10, num(c, "smax", 60) };
        for (i = 0; i < n && i < 8; i++) { s->type[i] = types[i] == 's' ? STRING_RESULT : INT_RESULT; if (types[i] != 's') strs = 0; s->len[i] = i < 3 ? max[i] : 8; s->mn[i] = 1; s->attr[i] = (char *)"x"; s->attrl[i] = 1; }
        s->args.arg_count = n; s->args.arg_type = s->type; s->args.args = s->arg; s->args.lengths = s->len; s->args.maybe_null = s->mn; s->args.attributes = s->attr; s->args.attribute_lengths = s->attrl;
        buf_t msg = buf_fill(512, 0); scribble(); lib_on = 1;
        int ret = fpe_init(&s->init, &s->args, (char *)msg.p); lib_on = 0;
        s->live = ret == 0;
        ev_begin("udf_init"); ev_str("o", s->name); ev_int("v", UDF_VERSION); ev_int("nargs", n); ev_int("strs", strs); ev_int("ret", ret); ev_int("over", buf_over(&msg)); ev_int("inmod", 0); ev_end();
        buf_free(&msg); if (ret) s->name[0] = 0; return;
    }
    stmt *s = find(str(c, "o")); if (!s || !s->live) { ev_begin("noobj"); ev_str("o", str(c, "o")); ev_end(); _exit(42); }
    if (!strcmp(c->op, "udf_end")) { lib_on = 1; fpe_deinit(&s->init); lib_on = 0; ev_begin("udf_end"); ev_str("o", s->name); ev_end(); s->live = 0; s->name[0] = 0; return; }
    if (!strcmp(c->op, "udf")) {
        /* MySQL arguments are not nul-terminated: each ends at a guard page */
        buf_t pl = buf_hex(str(c, "plain")), sa = buf_hex(opt(c, "sample", "")); const char *mode = str(c, "mode");
        buf_t mo = buf_from((const uint8_t *)mode, strlen(mode)), res = buf_fill(255, 0xA5); int null = num(c, "null", 0);
        buf_t *b[3] = { &pl, &mo, &sa }; unsigned i; char *r; unsigned long length = 0; char isnull = 0, error = 0;
        for (i = 0; i < s->args.arg_count && i < 3; i++) { s->arg[i] = (char *)b[i]->p; s->len[i] = b[i]->n; if (null & (1 << i)) { s->arg[i] = NULL; s->len[i] = 0; } }
        scribble(); lib_on = 1;
        r = fpe(&s->init, &s->args, (char *)res.p, &length, &isnull, &error); lib_on = 0;
        if (length > 5000) length = 5000;
        ev_begin("udf"); ev_str("o", s->name); ev_int("null", null ? 1 : 0); ev_bytes("plain", pl.copy, pl.n); ev_str("mode", mode); ev_bytes("sample", sa.copy, sa.n);
        ev_int("res", r != NULL); ev_int("isnull", isnull); ev_int("err", error); ev_bytes("out", (uint8_t *)r, r ? length : 0);
        ev_int("over", buf_over(&pl) || buf_over(&mo) || buf_over(&sa) || buf_over(&res)); ev_int("inmod", buf_mod(&pl) || buf_mod(&mo) || buf_mod(&sa)); ev_end();
        buf_free(&pl); buf_free(&sa); buf_free(&mo); buf_free(&res); return;
    }
    fprintf(stderr, "driver: unknown op %s\n", c->op); _exit(98);
}
int main(int argc, char **argv) { return driver_main(argc, argv); }
