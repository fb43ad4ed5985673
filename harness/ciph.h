/* common for cipher-mode harnesses: descriptors, fresh context, reference
 * block primitives on an unmasked reference key */
#ifndef CIPH_H
#define CIPH_H
#include "evp_model.h"
#include "obj.h"
#include "misc.h"
#include "gost_lcl.h"
#include "gost89.h"
#include "gost_gost2015.h"
#include "gost_grasshopper_core.h"
#include "gost_grasshopper_cipher.h"
/* EVP_CipherUpdate() on a method that accepts any length */
static int vp_update(EVP_CIPHER_CTX *x, u8 *out, const u8 *in, size_t n)
{
    if (!(x->cipher->flags & EVP_CIPH_FLAG_CUSTOM_CIPHER)) {
        if (n == 0) return 1;
        return x->cipher->do_cipher(x, out, in, n) != 0;
    }
    return x->cipher->do_cipher(x, out, in, n) >= 0;
}
#endif
