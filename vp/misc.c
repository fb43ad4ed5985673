/* libcrypto leaf functions, by their documented contract */
#include "vp.h"
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include "e_gost_err.h"
#include "misc.h"

/* single fault injection: the vp_fault_at-th fallible call fails */
int vp_fault_at = -1, vp_fault_n, vp_faulted, vp_live;
int vp_fault(void)
{
    if (vp_fault_at < 0 || vp_fault_n++ != vp_fault_at) return 0;
    vp_faulted = 1;
    return 1;
}
void *CRYPTO_malloc(size_t n, const char *f, int l)
{
    if (vp_fault()) return NULL;
#if !defined(VP_CBMC) || defined(VP_DER)
    if (!n) return NULL;
#endif
    vp_live++;
    return malloc(n);
}
void *CRYPTO_zalloc(size_t n, const char *f, int l)
{
    if (vp_fault()) return NULL;
#if !defined(VP_CBMC) || defined(VP_DER)
    if (!n) return NULL;
#endif
    vp_live++;
    return calloc(1, n);
}
void CRYPTO_free(void *p, const char *f, int l) { if (p) vp_live--; free(p); }
void *CRYPTO_secure_malloc(size_t n, const char *f, int l) { return CRYPTO_malloc(n, f, l); }
void CRYPTO_secure_free(void *p, const char *f, int l) { CRYPTO_free(p, f, l); }
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { CRYPTO_free(p, f, l); }
void CRYPTO_secure_clear_free(void *p, size_t n, const char *f, int l) { CRYPTO_free(p, f, l); }
void OPENSSL_cleanse(void *p, size_t n) { if (p && n) memset(p, 0, n); }
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return !vp_eq(a, b, n); }
void BUF_reverse(unsigned char *out, const unsigned char *in, size_t n)
{
    size_t i;
    if (in) {
        for (i = 0; i < n; i++) out[n - 1 - i] = in[i];
    } else {
        for (i = 0; i < n / 2; i++) { u8 c = out[i]; out[i] = out[n - 1 - i]; out[n - 1 - i] = c; }
    }
}
void ERR_GOST_error(int function, int reason, char *file, int line) { }
void ERR_add_error_data(int num, ...) { }
void OPENSSL_die(const char *m, const char *f, int l)
{
    VP_ASSERT(0, "library aborts the process (OPENSSL_die / OPENSSL_assert)");
    VP_ASSUME(0);
}
#ifndef VP_OWN_RAND
/* succeeds with arbitrary bytes, or fails */
int vp_rand_may_fail;
static int vp_rand(unsigned char *b, int n)
{
    if (vp_rand_may_fail && nd_upto(1)) return 0;
    if (vp_fault()) return 0;
    nd_bytes(b, n);
    return 1;
}
/* masks of the key schedules: a failure there must not change any result */
int vp_priv_soft;
int RAND_priv_bytes(unsigned char *b, int n) { int f = vp_faulted, r = vp_rand(b, n); if (vp_priv_soft) vp_faulted = f; return r; }
int RAND_bytes(unsigned char *b, int n) { return vp_rand(b, n); }
#endif
