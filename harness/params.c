/* P33: engine parameters.  Every history of STEPS operations out of set
 * (control command or directly), get, reset and environment changes. */
#include "vp.h"
#include "misc.h"
#include <limits.h>
#include "gost_lcl.h"
#ifndef VP_CBMC
extern char **environ;
#endif
#define NP 3
#define VL 3
static const char *const names[NP] = { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
static u8 env[NP][VL + 1]; static int envset[NP];
char *vp_getenv(const char *n)
{
    int i; unsigned j;
    for (i = 0; i < NP; i++) {
        for (j = 0; n[j] && n[j] == names[i][j]; j++) ;
        if (n[j] == names[i][j]) return envset[i] ? (char *)env[i] : NULL;
    }
#ifndef VP_CBMC
    for (i = 0; environ[i]; i++) {
        for (j = 0; n[j] && environ[i][j] == n[j]; j++) ;
        if (!n[j] && environ[i][j] == '=') return environ[i] + j + 1;
    }
#else
    VP_ASSERT(0, "asks for another environment variable");
#endif
    return NULL;
}
char *vp_secure_getenv(const char *n) { return vp_getenv(n); }
char *CRYPTO_strdup(const char *s, const char *f, int l)
{
    char *r; unsigned i;
    if (!s || !(r = CRYPTO_malloc(VL + 1, f, l))) return NULL;
    for (i = 0; i <= VL; i++) { r[i] = s[i]; if (!s[i]) break; }
    return r;
}
char *CRYPTO_strndup(const char *s, size_t n, const char *f, int l)
{
    char *r; unsigned i;
    if (!s || !(r = CRYPTO_malloc(VL + 1, f, l))) return NULL;
    for (i = 0; i <= VL; i++) { r[i] = i < n ? s[i] : 0; if (!r[i]) break; }
    return r;
}
static int same(const char *a, const u8 *b)
{
    unsigned i;
    for (i = 0; i <= VL; i++) { if ((u8)a[i] != b[i]) return 0; if (!b[i]) return 1; }
    return 0;
}
/* oracle: 0 never set, 1 set to val, 2 set to nothing, 3 the environment's value alt was handed out, 4 a setting failed */
static int st[NP]; static u8 val[NP][VL + 1];
static u8 buf[STEPS][VL + 1];
static void str(u8 *d) { unsigned i; for (i = 0; i < VL; i++) d[i] = nd_u8(); d[VL] = 0; }
static void cpy(u8 *d, const u8 *s) { unsigned i; for (i = 0; i <= VL; i++) d[i] = s[i]; }
static void step(int s)
{
    /* every step takes the same inputs, so that replays stay aligned */
    unsigned op = nd_upto(OPS - 1), p0 = nd_upto(NP + 2), far = nd_upto(1), null = nd_upto(1); u32 pf = nd_u32();
    int p = far ? (int)pf : (int)p0 - 1, i, r, ok, failed = vp_faulted; const char *g, *a; u8 v[VL + 1], w[VL + 1];
    VP_ASSUME(p < INT_MAX - ENGINE_CMD_BASE && p > INT_MIN + ENGINE_CMD_BASE);
    ok = p >= 0 && p < NP; str(v); str(w);
    switch (op) {
    case 0: case 1:
        cpy(buf[s], v); a = null ? NULL : (char *)buf[s];
        if (op == 0) { VP_ASSUME(p >= -ENGINE_CMD_BASE); r = gost_control_func(NULL, p + ENGINE_CMD_BASE, 0, (void *)a, NULL); }
        else r = gost_set_default_param(p, a);
        VP_ASSERT(r == 1 || r <= 0, "result");
        if (!ok) { VP_ASSERT(r <= 0, "an unknown parameter number was accepted"); break; }
        if (vp_faulted != failed) { VP_ASSERT(r <= 0, "a setting that could not be stored was reported as done"); st[p] = 4; break; }
        VP_ASSERT(r == 1, "a legal setting was refused");
        if (envset[p]) { st[p] = 1; cpy(val[p], env[p]); }
        else if (a) { st[p] = 1; cpy(val[p], v); }
        else st[p] = 2;
        cpy(buf[s], w); /* the caller reuses its buffer */
        break;
    case 2:
        g = get_gost_engine_param(p);
        if (!ok) { VP_ASSERT(!g, "an unknown parameter has a value"); break; }
        if (vp_faulted != failed || st[p] == 4) break;
        if (st[p] == 1 || st[p] == 3) VP_ASSERT(g && same(g, val[p]), "a read does not return the value that was set");
        else if (envset[p]) { VP_ASSERT(g && same(g, env[p]), "a read does not return the environment's value"); st[p] = 3; cpy(val[p], env[p]); }
        else VP_ASSERT(!g, "a parameter never set has a value");
        VP_ASSERT(!g || (g != (char *)env[p]), "not a private copy");
        break;
    case 3:
        gost_param_free();
        VP_ASSERT(vp_live == 0, "reset keeps memory");
        for (i = 0; i < NP; i++) st[i] = 0;
        break;
    case 4:
        VP_ASSUME(ok);
        /* a value of the environment handed out before: which one later reads return is not specified */
        if (st[p] == 3) st[p] = 4;
        envset[p] = null; cpy(env[p], v);
        break;
    case 5:
        /* the value just read is set again */
        VP_ASSUME(ok && st[p] == 1 && !envset[p]);
        g = get_gost_engine_param(p);
        r = gost_set_default_param(p, g);
        if (vp_faulted != failed) { VP_ASSERT(r <= 0, "a setting that could not be stored was reported as done"); st[p] = 4; break; }
        VP_ASSERT(r == 1, "a legal setting was refused");
        break;
    }
}
void vp_main(void)
{
    int s, i;
    for (i = 0; i < NP; i++) { envset[i] = nd_upto(1); str(env[i]); }
#ifdef FAULTS
    vp_fault_at = nd_upto(FAULTS);
#endif
    for (s = 0; s < STEPS; s++) step(s);
    vp_fault_at = -1;
    for (i = 0; i < NP; i++) {
        const char *g = get_gost_engine_param(i);
        if (st[i] == 4) continue;
        if (st[i] == 1 || st[i] == 3) VP_ASSERT(g && same(g, val[i]), "a read does not return the value that was set");
        else if (envset[i]) VP_ASSERT(g && same(g, env[i]), "a read does not return the environment's value");
        else VP_ASSERT(!g, "a parameter never set has a value");
    }
    gost_param_free();
    VP_ASSERT(vp_live == 0, "leak");
    gost_param_free();
    VP_ASSERT(vp_live == 0, "second reset");
    VP_WITNESS("done");
}
