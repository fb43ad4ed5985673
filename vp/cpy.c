/* memcpy of a whole context object as a typed assignment (same effect; the
 * byte-wise model of CBMC loses the field structure) */
#include "evp_model.h"
#include "gost_lcl.h"
#include "gosthash.h"
#include "gosthash2012.h"
#include "gost_grasshopper_cipher.h"
#include "gost_gost2015.h"
#undef memcpy
void *vp_memcpy(void *d, const void *s, size_t n)
{
#ifdef VP_CPYT
    if (n == sizeof(VP_CPYT)) { *(VP_CPYT *)d = *(const VP_CPYT *)s; return d; }
#endif
    return memcpy(d, s, n);
}
