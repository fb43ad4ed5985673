/* VKO by its definition, over the model group; -DVKOABS: as an uninterpreted
 * function in the solver's run (natively the real one) */
#ifndef VKO_H
#define VKO_H
#ifdef VP_CBMC      /* the dividers' widths: values stay far below */
# define N20(v) ((unsigned)((unsigned __CPROVER_bitvector[20])(v) % (unsigned __CPROVER_bitvector[20])Q))
# define N13(v) ((unsigned)((unsigned __CPROVER_bitvector[13])(v) % (unsigned __CPROVER_bitvector[13])Q))
#else
# define N20(v) ((v) % Q)
# define N13(v) ((v) % Q)
#endif
#ifndef VKO_KEYS
# define VKO_KEYS(p, k) ((p) == &kb.pub && (k) == &ka)
#endif
/* VKO: H(LE(x) || LE(y)) of (ukm * d mod q) * Q; 0 for the point at infinity */
#if defined(VKOABS) && defined(VP_CBMC)      /* VKO itself is decided by the vko jobs */
static int vko(const u8 *u, unsigned n, int nid, u8 *out)
{
    u64 t = tr_bytes(tr_start(TR_MD, nid), u, n); int i;
    if (tr_out(t, 99) == 0) return 0;
    for (i = 0; i < (nid == NID_id_GostR3411_2012_512 ? 64 : 32); i++) out[i] = tr_out(t, i);
    return i;
}
int VKO_compute_key(unsigned char *o, const EC_POINT *p, const EC_KEY *k, const unsigned char *u, const size_t n, const int nid)
{
    if (!p || !k || !k->has_priv || (p->g && p->g->nid != k->group->nid)) return 0;
    VP_ASSERT(VKO_KEYS(p, k), "VKO with other keys");
    return vko(u, n, nid, o);
}
#else
static int vko(const u8 *u, unsigned n, int nid, u8 *out)
{
    unsigned s = N13(N13(N20(vp_fold(u, n, 1)) * ka.priv.v) * kb.pub.log), i; u8 m[6]; u64 t;
    if (s == 0) return 0;
    for (i = 0; i < FB; i++) { m[i] = vp_xs[s] >> 8 * i; m[FB + i] = vp_ys[s] >> 8 * i; }
    t = tr_bytes(tr_start(TR_MD, nid), m, 2 * FB);
    for (i = 0; i < (nid == NID_id_GostR3411_2012_512 ? 64 : 32); i++) out[i] = tr_out(t, i);
    return i;
}
#endif
#ifdef KDFABS    /* KDF_TREE itself is decided by P20 */
static void kdf(const u8 *k, const u8 *seed, u8 *out) { u64 s = tr_bytes(tr_key(tr_start(7, 7), k, 32), seed, 8); int i; for (i = 0; i < 64; i++) out[i] = tr_out(s, i); }
int gost_kdftree2012_256(unsigned char *o, size_t n, const unsigned char *k, size_t kl, const unsigned char *lab, size_t ll, const unsigned char *sd, size_t sl, const size_t rep)
{
    VP_ASSERT(n == 64 && kl == 32 && ll == 8 && vp_eq(lab, (const u8 *)"kdf tree", 8) && sl == 8 && rep == 1, "KEG: wrong KDF_TREE parameters");
    kdf(k, sd, o);
    return 1;
}
#endif
#endif
