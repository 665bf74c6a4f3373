/*
 * AES-128: the output is the CBC encryption of the concatenation of the writes, with PKCS#7 padding
 */
#include "enc.h"
#include "aes_cbc_encrypt.h"
static const int sizes[] = { SIZES };
#define NSIZES ((int) (sizeof(sizes) / sizeof(sizes[0])))
void harness(void)
{
    aes_cbc_encrypt_context_t *c; u_char key[16], iv[16], blk[16], ob[16], *d, *p; int i, j, k, n, tot, left; vod_status_t r; vod_str_t src, dst;
    rc.pool = &vf_pool; rc.log = &vf_log;
    vf_bytes(key, 16); vf_bytes(iv, 16);
    n = vf_pick(0, WRITES); p = vf_malloc(WRITES * 64); tot = 0;
    r = aes_cbc_encrypt_init(&c, &rc, on_write, NULL, NULL, key, iv); VF_ASSERT(r == VOD_OK, "init");
    if (n < 2 && vf_cbool()) {
        k = vf_pick(0, 50); src.data = vf_buf(k); src.len = k;
        ngx_memcpy(p, src.data, k); tot = k;
        r = aes_cbc_encrypt(c, &dst, &src, 1); VF_ASSERT(r == VOD_OK, "encrypt");
        VF_ASSERT((int) dst.len == (k & ~15) + 16, "size"); ngx_memcpy(out, dst.data, dst.len); nout = dst.len;
        VF_REACH("one shot");
    } else {
        for (i = 0; i < n; i++) {
            k = sizes[vf_pick(0, NSIZES - 1)]; d = vf_buf(k); ngx_memcpy(p + tot, d, k); tot += k;
            r = aes_cbc_encrypt_write(c, d, k); VF_ASSERT(r == VOD_OK, "write");
            for (j = 0; j < k; j++) d[j] ^= 0x55;        /* the source buffer is reused */
        }
        r = aes_cbc_encrypt_write(c, NULL, 0); VF_ASSERT(r == VOD_OK, "flush");
        gather(); VF_REACH("writes");
    }
    VF_ASSERT(nout == (tot & ~15) + 16, "padded size");
    left = 16 - tot % 16;
    for (i = 0; i < nout; i += 16) {
        for (j = 0; j < 16; j++) blk[j] = i + j < tot ? p[i + j] : left;
        cbc(key, iv, blk, ob);
        for (j = 0; j < 16; j++) VF_ASSERT(out[i + j] == ob[j], "output byte");
    }
    pool_cleanup(); VF_ASSERT(evp_live == 0, "ciphers are released");
}
