/*
 * Buffer chains: any call on any chain of 1..4 links (empty ones included) acts as on the
 * concatenated bytes.
 */
#include "vf_ngx.h"
#include "ngx_buf_chain.h"
void harness(void)
{
    ngx_buf_chain_t *c[4], *h, *r; u_char flat[12], *p, out[12]; size_t len = 0, sz, off, left, pre[5]; int n, i, k;
    vf_ngx_init();
    n = vf_pick(1, 4);
    for (i = 0; i < n; i++) {
        c[i] = vf_malloc(sizeof(*c[i]));
        c[i]->size = vf_pick(0, 3); c[i]->data = vf_buf(c[i]->size);
        ngx_memcpy(flat + len, c[i]->data, c[i]->size); pre[i] = len; len += c[i]->size;
        if (i) c[i - 1]->next = c[i];
    }
    c[n - 1]->next = NULL; pre[n] = len;
    switch (vf_pick(0, 4)) {
    case 0:
        if (!len) return;
        off = vf_range(0, len - 1); left = off;
        r = ngx_buf_chain_seek(c[0], &left);
        VF_ASSERT(left < r->size && r->data[left] == flat[off], "seek");
        for (i = 0; c[i] != r; i++);
        VF_ASSERT(pre[i] + left == off, "seek position"); VF_REACH("seek");
        break;
    case 1: case 2:
        sz = vf_pick(0, len + 1); h = c[0];
        if (vf_bool()) {
            p = vf_malloc(sz);
            k = ngx_buf_chain_copy(&h, p, sz) == p + sz;
            if (k) VF_ASSERT(ngx_memcmp(p, flat, sz) == 0, "bytes copied");
            VF_REACH("copy");
        } else k = ngx_buf_chain_skip(&h, sz) == NGX_OK;
        VF_ASSERT(k == (sz <= len), "fails exactly when the chain is too short");
        if (!k) break;
        for (left = 0, r = h; r; r = r->next) {
            VF_ASSERT(sz + left + r->size <= len && ngx_memcmp(r->data, flat + sz + left, r->size) == 0, "rest of the chain");
            left += r->size;
        }
        VF_ASSERT(sz + left == len, "rest of the chain");
        break;
    case 3:
        sz = vf_pick(0, len + 1); p = vf_buf(sz);
        k = ngx_buf_chain_compare(c[0], p, sz);
        VF_ASSERT((k == 0) == (sz <= len && ngx_memcmp(p, flat, sz) == 0), "compare");
        if (k == 0) VF_REACH("equal");
        break;
    case 4:
        /* size is the sum of the sizes of a prefix, as the callers track it */
        i = vf_pick(1, n);
        if (c[i - 1]->size == 0 || pre[i] == 0) return;
        r = ngx_buf_chain_terminate(c[0], pre[i]);
        VF_ASSERT(r == c[i - 1] && r->next == NULL, "terminate"); VF_REACH("terminate");
        for (k = 0; k < i - 1; k++) VF_ASSERT(c[k]->next == c[k + 1], "links kept");
        break;
    }
    (void) out;
}
