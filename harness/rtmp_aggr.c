/* aggregate messages: the sub messages reach the handlers one by one, unchanged, whatever the buffers are */
#include "rtmp.h"
#ifndef NSUB
#define NSUB 2
#endif
static u_char flat[100]; static size_t len;
static struct { uint8_t type; uint32_t mlen, ts, msid; u_char *d; } m[NSUB]; static int got, fail_at = -1;
static uint32_t base_ts;
static void be(uint32_t v, int n) { while (n--) flat[len++] = v >> (8 * n); }
static ngx_int_t on_msg(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    size_t n = 0, k;
    VF_ASSERT(got < NSUB && h->type == m[got].type && h->mlen == m[got].mlen, "sub message header");
    VF_ASSERT(h->timestamp == (uint32_t) (base_ts + m[got].ts - m[0].ts), "sub message timestamp");
    for (; in; in = in->next) { k = in->buf->last - in->buf->pos; VF_ASSERT(n + k <= h->mlen && ngx_memcmp(in->buf->pos, m[got].d + n, k) == 0, "sub message contents"); n += k; }
    VF_ASSERT(n == h->mlen, "sub message size");
    got++;
    VF_REACH("sub message");
    return got - 1 == fail_at ? NGX_ERROR : NGX_OK;
}
void harness(void)
{
    int i, nb; ngx_chain_t *cl = NULL, *l; ngx_buf_t *b; size_t cut[3], k; ngx_rtmp_header_t h; ngx_int_t rc;
    rtmp_setup(8, 1000); rtmp_session();
    rtmp_handler(NGX_RTMP_MSG_AUDIO, on_msg); rtmp_handler(NGX_RTMP_MSG_VIDEO, on_msg);
    for (i = 0; i < NSUB; i++) {
        m[i].type = i & 1 ? NGX_RTMP_MSG_AUDIO : NGX_RTMP_MSG_VIDEO; m[i].mlen = i ? 2 : vf_pick(0, 1) * 3; m[i].ts = vf_u32(); m[i].msid = vf_range(8, 0xffffff);
        m[i].d = vf_buf(m[i].mlen);
        be(m[i].type, 1); be(m[i].mlen, 3); be(m[i].ts & 0xffffff, 3); be(m[i].ts >> 24, 1); be(m[i].msid, 3);
        for (k = 0; k < m[i].mlen; k++) flat[len++] = m[i].d[k];
        be(11 + m[i].mlen, 4);
    }
    cut[0] = 0; cut[1] = vf_pick(0, len); cut[2] = cut[1] + (len - cut[1]) / 2;
    for (i = 2; i >= 0; i--) {
        size_t e = i == 2 ? len : cut[i + 1];
        l = ngx_alloc_chain_link(&vf_pool); b = ngx_calloc_buf(&vf_pool); l->buf = b; l->next = cl; cl = l;
        b->start = b->pos = vf_malloc(e - cut[i]); ngx_memcpy(b->pos, flat + cut[i], e - cut[i]); b->last = b->end = b->pos + (e - cut[i]);
    }
    memset(&h, 0, sizeof(h)); h.type = NGX_RTMP_MSG_AGGREGATE; h.mlen = len; base_ts = h.timestamp = vf_u32();
    fail_at = vf_pick(0, NSUB) - 1;
    rc = ngx_rtmp_aggregate_message_handler(sess, &h, cl);
    if (fail_at >= 0) { VF_ASSERT(rc == NGX_ERROR && got == fail_at + 1, "error of a sub message"); VF_REACH("failed"); }
    else { VF_ASSERT(rc == NGX_OK, "aggregate"); VF_ASSERT(got == NSUB, "sub message lost"); }
    for (nb = 0, l = cl; l; l = l->next) nb++;
    VF_ASSERT(nb == 3, "chain restored");
}
