/*
 * Buffer queue: for any sequence of get / free / detach / delete the used buffers form a fifo,
 * the memory limit is charged with exactly the buffers that are held, and streams over the queue
 * see the bytes in order.
 */
#include "vf_ngx.h"
#include "ngx_buf_queue.h"
#include "ngx_buf_queue_stream.h"
#include <ngx_md5.h>
#define ASZ 24   /* 16 bytes of payload */
#define USZ 16
struct ngx_lba_s { int dummy; };
static ngx_lba_t lba; static int held;
size_t ngx_lba_buf_size(ngx_lba_t *l) { return ASZ; }
void *ngx_lba_alloc(ngx_lba_t *l) { held++; return vf_malloc(ASZ); }
void ngx_lba_free(ngx_lba_t *l, void *p) { held--; vf_free(p); }
static u_char md[64]; static size_t mdn;
void ngx_md5_init(ngx_md5_t *c) { mdn = 0; }
void ngx_md5_update(ngx_md5_t *c, const void *d, size_t n) { VF_ASSERT(mdn + n <= sizeof(md), "md5 size"); ngx_memcpy(md + mdn, d, n); mdn += n; }
void ngx_md5_final(u_char r[16], ngx_md5_t *c) { ngx_memset(r, 0x5a, 16); }

#ifdef STREAM
void harness(void)
{
    ngx_buf_queue_t q; size_t left = 1000, n, i, at, total; ngx_buf_queue_stream_t s; u_char flat[48], *b[3], *p, tmp[48], r[16]; int k, nb, op;
    vf_ngx_init();
    VF_ASSERT(ngx_buf_queue_init(&q, &vf_log, &lba, 0, &left) == NGX_OK, "init");
    nb = vf_pick(1, 3); total = nb * USZ;
    for (k = 0; k < nb; k++) { b[k] = ngx_buf_queue_get(&q); VF_ASSERT(b[k] != NULL, "get"); }
    at = vf_pick(0, total - 1);      /* bytes before this were consumed */
    vf_bytes(flat, total);
    for (k = 0; k < nb; k++) ngx_memcpy(b[k], flat + k * USZ, USZ);
    ngx_buf_queue_stream_init_head(&s, &q);
    VF_ASSERT(ngx_buf_queue_stream_pos(&s) == b[0] && ngx_buf_queue_stream_skip(&s, at) == NGX_OK, "skip");
    VF_ASSERT(s.pos == b[at / USZ] + at % USZ, "position after skip");
    for (op = 0; op < 2; op++) {
        n = vf_pick(0, 2) * 7 + vf_pick(0, 4);
        switch (vf_pick(0, 3)) {
        case 0:
            p = vf_malloc(n);
            p = ngx_buf_queue_stream_read(&s, p, n);
            if (at + n >= total && n) { VF_ASSERT(p == NULL, "read past the end"); return; }
            VF_ASSERT(p != NULL && ngx_memcmp(p, flat + at, n) == 0, "bytes read");
            VF_REACH("read"); break;
        case 1:
            p = vf_buf(n);
            ngx_memcpy(tmp, p, n);
            p = ngx_buf_queue_stream_write(&s, p, n);
            if (at + n >= total && n) { VF_ASSERT(p == NULL, "write past the end"); return; }
            VF_ASSERT(p != NULL, "write"); ngx_memcpy(flat + at, tmp, n);
            for (i = 0; i < total; i++) VF_ASSERT(b[i / USZ][i % USZ] == flat[i], "bytes written");
            VF_REACH("write"); break;
        case 2:
            k = ngx_buf_queue_stream_skip(&s, n);
            if (at + n >= total) { VF_ASSERT(k == NGX_ERROR, "skip past the end"); return; }
            VF_ASSERT(k == NGX_OK, "skip"); VF_REACH("skip"); break;
        case 3:
            k = ngx_buf_queue_stream_md5(&s, n, r);
            if (at + n >= total && n) { VF_ASSERT(k == NGX_ERROR, "md5 past the end"); return; }
            VF_ASSERT(k == NGX_OK && mdn == n && ngx_memcmp(md, flat + at, n) == 0, "md5 over the bytes"); VF_REACH("md5"); break;
        }
        at += n;
        VF_ASSERT(s.pos == b[at / USZ] + at % USZ, "position");
        VF_ASSERT((u_char *) s.node == b[at / USZ] - 8, "node of the position");
    }
    ngx_buf_queue_stream_init_tail(&s, &q, b[nb - 1] + 3);
    VF_ASSERT(s.pos == b[nb - 1] + 3 && ngx_buf_queue_stream_skip(&s, USZ - 4) == NGX_OK && ngx_buf_queue_stream_skip(&s, 1) == NGX_ERROR, "tail");
}
#else
void harness(void)
{
    ngx_buf_queue_t q; size_t left, left0, maxfree; u_char *u[OPS], *p, tag[OPS]; int nu = 0, fre = 0, op, k, j, can, det = 0; ngx_buf_queue_node_t *n;
    vf_ngx_init();
    left = left0 = vf_u64(); VF_ASSUME(left0 < (1ull << 62));
    maxfree = vf_pick(0, 2);
    VF_ASSERT(ngx_buf_queue_init(&q, &vf_log, &lba, maxfree, &left) == NGX_OK && q.used_size == USZ, "init");
    for (op = 0; op < OPS; op++) {
        switch (vf_pick(0, 3)) {
        case 0:
            if (det) break;
            can = fre > 0 || vf_concretize(left >= ASZ);
            k = held;
            p = ngx_buf_queue_get(&q);
            VF_ASSERT((p != NULL) == can, "get succeeds exactly when the limit permits");
            if (p == NULL) { VF_REACH("limit"); VF_ASSERT(held == k, "held"); break; }
            if (fre) { fre--; VF_ASSERT(held == k, "free buffers are reused"); VF_REACH("reuse"); }
            for (j = 0; j < nu; j++) VF_ASSERT(u[j] != p, "buffer in use handed out");
            tag[nu] = vf_u8(); ngx_memset(p, tag[nu], USZ); u[nu++] = p;
            break;
        case 1:
            if (!nu) break;
            k = vf_pick(0, nu - 1);
            ngx_buf_queue_free(&q, u[k] + vf_range(0, USZ - 1));
            for (j = 0; j < k && fre < (int) maxfree; j++) fre++;
            for (j = k; j < nu; j++) { u[j - k] = u[j]; tag[j - k] = tag[j]; }
            nu -= k;
            if (k) VF_REACH("freed");
            break;
        case 2:
            if (det) break;
            ngx_buf_queue_detach(&q); det = 1; VF_REACH("detach");
            break;
        case 3:
            ngx_buf_queue_delete(&q);
            nu = fre = 0;
            VF_ASSERT(held == 0, "delete releases everything");
            break;
        }
        VF_ASSERT(held == nu + fre, "buffers held");
        if (!det) VF_ASSERT(left == left0 - (size_t) held * ASZ, "memory accounting");
        for (j = 0, n = ngx_buf_queue_head(&q); j < nu; j++, n = n->next) {
            VF_ASSERT(n != NULL && ngx_buf_queue_start(n) == u[j], "fifo order");
            VF_ASSERT(u[j][0] == tag[j] && u[j][USZ - 1] == tag[j], "contents");
        }
        VF_ASSERT(n == NULL && (nu == 0 || ngx_buf_queue_start(ngx_buf_queue_tail(&q)) == u[nu - 1]), "tail");
    }
    ngx_buf_queue_delete(&q);
    VF_ASSERT(held == 0 && (det || left == left0), "nothing leaks");
}
#endif
