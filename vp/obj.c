/* OBJ_* by identity of the NID; engine parameters unset; environment empty */
#include "vp.h"
#include <openssl/objects.h>
#include "obj.h"
struct asn1_object_st { int nid; };
static struct asn1_object_st pool[12];
static int npool;
ASN1_OBJECT *OBJ_nid2obj(int n)
{
    int i;
    for (i = 0; i < npool; i++)
        if (pool[i].nid == n) return &pool[i];
    pool[npool].nid = n;
    return &pool[npool++];
}
int OBJ_obj2nid(const ASN1_OBJECT *o) { return o ? o->nid : NID_undef; }
int vp_txt_nid = NID_undef;
static int eq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
/* names handed out by OBJ_nid2sn() are recognised by identity */
static char nmtab[2048];
const char *OBJ_nid2sn(int n) { return n >= 0 && n < 2048 ? nmtab + n : NULL; }
static int nm_index(const char *s)
{
#ifdef VP_CBMC
    return __CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(nmtab) ? (int)__CPROVER_POINTER_OFFSET(s) : -1;
#else
    return s >= nmtab && s < nmtab + 2048 ? s - nmtab : -1;
#endif
}
int OBJ_txt2nid(const char *s)
{
    if (vp_txt_nid != NID_undef) return vp_txt_nid;
    if (s == NULL) return NID_undef;
    if (nm_index(s) >= 0) return nm_index(s);
#define N(n) if (eq(s, SN_##n)) return NID_##n;
    N(magma_cbc) N(grasshopper_cbc) N(magma_mac) N(grasshopper_mac) N(id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac)
    return NID_undef;
}
int OBJ_sn2nid(const char *s) { return OBJ_txt2nid(s); }
const char *vp_param[4];
const char *get_gost_engine_param(int p) { return p >= 0 && p < 3 ? vp_param[p] : 0; }
