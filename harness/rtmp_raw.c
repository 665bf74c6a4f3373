/*
 * RTMP receiver and arbitrary input: LEN arbitrary bytes (the first ones can be fixed), in two reads or byte by byte;
 * memory accesses are checked by the executor, the size of what is collected and the release of everything here.
 */
#include "rtmp.h"
#ifndef LEN
#define LEN 20
#endif
#ifndef CHUNK
#define CHUNK 3
#endif
#ifndef MAXMSG
#define MAXMSG 8
#endif
#ifndef STREAMS
#define STREAMS 5
#endif
static u_char  stream[LEN]; static size_t rpos, cut;
static ngx_int_t on_msg(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    size_t n = 0; ngx_chain_t *cl; volatile u_char x; u_char *p;
    for (cl = in; cl; cl = cl->next) {
        VF_ASSERT(cl->buf->pos <= cl->buf->last && cl->buf->last <= cl->buf->end, "buffer");
        for (p = cl->buf->pos; p < cl->buf->last; p++) x = *p;
        n += cl->buf->last - cl->buf->pos;
    }
    (void) x;
    VF_ASSERT(n == h->mlen, "message size");
    VF_ASSERT(n <= MAXMSG, "message larger than max_message");
    VF_REACH("message");
    return NGX_OK;
}
/* chunk sizes: 0..4, 12 and too big ones (the size of an allocation has to be concrete) */
static ngx_int_t on_scs(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    u_char *p = in->buf->pos; int i;
    if (in->buf->last - p >= 4) {
        VF_ASSUME((p[0] == 0 && p[1] == 0 && p[2] == 0 && (p[3] <= 4 || p[3] == 12)) || (p[0] == 0 && p[1] == 0xa0 && p[2] == 0 && p[3] == 1));
        for (i = 0; i < 4; i++) p[i] = vf_concretize(p[i]);
        VF_REACH("chunk size");
    }
    return ngx_rtmp_protocol_message_handler(s, h, in);
}
static ngx_int_t on_any(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    on_msg(s, h, in);
    if (h->type == NGX_RTMP_MSG_CHUNK_SIZE) return on_scs(s, h, in);
    if (h->type == NGX_RTMP_MSG_USER) return ngx_rtmp_user_message_handler(s, h, in);
    if (h->type == NGX_RTMP_MSG_ACK_SIZE) return ngx_rtmp_protocol_message_handler(s, h, in);
    return NGX_OK;
}
static ssize_t h_recv(ngx_connection_t *c, u_char *buf, size_t size)
{
    size_t n; int i;
    for (i = 0; i < STREAMS; i++) VF_ASSERT(sess->in_chunk_streams[i].len <= MAXMSG, "collected more than max_message");
    VF_ASSERT(size > 0, "recv into a full buffer");
    n = cut == 0 ? 1 : rpos < cut ? cut - rpos : LEN - rpos;
    if (rpos >= LEN) return NGX_AGAIN;
    if (n > size) n = size;
    ngx_memcpy(buf, stream + rpos, n);
    rpos += n;
    return n;
}
void harness(void)
{
    int i, t;
    rtmp_setup(STREAMS, MAXMSG);
    cscf.type3_ext_ts = vf_pick(0, 2);
    rtmp_handler(0, on_any);
    for (t = 1; t <= NGX_RTMP_MSG_MAX; t++) cmcf.events[t] = cmcf.events[0];
    rtmp_session();
    VF_ASSERT(ngx_rtmp_set_chunk_size(sess, CHUNK) == NGX_OK, "chunk size");
    ngx_destroy_pool(sess->in_old_pool); sess->in_old_pool = NULL; sess->in_chunk_size_changing = 0;
    vf_bytes(stream, LEN);
#ifdef FIXED
    { static const u_char f[] = { FIXED }; for (i = 0; i < (int) sizeof(f); i++) if (f[i] != 0xee) stream[i] = f[i]; }
#endif
#ifdef CUT
    cut = CUT;
#else
    cut = vf_pick(0, LEN);
#endif
    conn->recv = h_recv;
    ngx_rtmp_cycle(sess);
    if (conn->destroyed) VF_REACH("session closed");
    else { VF_ASSERT(rpos == LEN, "input not read"); for (i = 0; i < STREAMS; i++) VF_ASSERT(sess->in_chunk_streams[i].len <= MAXMSG, "collected more than max_message"); VF_REACH("waiting for input"); }
    if (conn->destroyed) ngx_event_process_posted(NULL, &ngx_posted_events); else rtmp_close();
    VF_ASSERT(conn_closed == 1, "connection closed");
    vf_free(conn->read); vf_free(conn->write); vf_free(conn);
    ngx_reset_pool(&vf_pool);
    VF_ASSERT(vf_live_heap() == 0, "memory leak");
}
