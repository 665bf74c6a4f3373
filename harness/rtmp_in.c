/*
 * RTMP chunk stream receiver: a peer sends messages on two chunk streams, as interleaved
 * chunks with any header formats; whatever the network reads, the handlers get exactly these messages.
 */
#include "rtmp.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef CHUNK
#define CHUNK 8
#endif
#ifndef CSID_A
#define CSID_A 3
#define CSID_B 4
#endif
#ifndef MAXCS
#define MAXCS 512
#endif
#ifndef SIZES
#define SIZES 5, 9
#endif
#ifndef CUTS
#define CUTS 1
#endif
#define MAXL 400
#define NMSG 8
static u_char  stream[MAXL]; static size_t len, rpos, cut, cut2;
static struct { uint32_t csid, ts, mlen, msid; uint8_t type; u_char *d; } msg[NMSG];
static unsigned nmsg, got, sets;
static struct { uint32_t csid, ts, delta, mlen, msid, ext; uint8_t type; int used, fmt; uint32_t left; u_char *d; } cs[2];
static size_t chunk = CHUNK;

static void b8(uint8_t v) { VF_ASSERT(len < MAXL, "harness size"); stream[len++] = v; }
static void be(uint32_t v, int n) { while (n--) b8(v >> (8 * n)); }
static void basic(uint32_t csid, int fmt)
{
    if (csid < 64) b8(fmt << 6 | csid);
    else if (csid < 320) { b8(fmt << 6); b8(csid - 64); }
    else { b8(fmt << 6 | 1); b8((csid - 64) & 255); b8((csid - 64) >> 8); }
}
static void payload(int i)
{
    size_t k, n = cs[i].left < chunk ? cs[i].left : chunk;
    for (k = 0; k < n; k++) b8(cs[i].d[cs[i].mlen - cs[i].left + k]);
    cs[i].left -= n;
    if (cs[i].left == 0) {
        VF_ASSERT(nmsg < NMSG, "harness size");
        msg[nmsg].csid = cs[i].csid; msg[nmsg].ts = cs[i].ts; msg[nmsg].mlen = cs[i].mlen; msg[nmsg].msid = cs[i].msid; msg[nmsg].type = cs[i].type; msg[nmsg].d = cs[i].d;
        nmsg++;
        if (cs[i].type == NGX_RTMP_MSG_CHUNK_SIZE) chunk = cs[i].d[3] + 256 * cs[i].d[2];
    }
}
static void start(int i)
{
    int fmt = cs[i].used ? vf_pick(0, 3) : 0; uint32_t t; size_t n;
    /* a type 3 chunk that starts a message right after a type 0 one: the standard is not clear about it */
    if (fmt == 3 && cs[i].fmt == 0) fmt = 2;
#ifdef EXT
    t = vf_bool() ? vf_u32() : 0xffffff + vf_range(0, 3);
#else
    t = vf_range(0, 0xfffffe);
#endif
    if (fmt == 3) t = cs[i].delta;
    basic(cs[i].csid, fmt);
    if (fmt <= 2) { cs[i].ext = t >= 0xffffff; be(cs[i].ext ? 0xffffff : t, 3); }
    if (fmt <= 1) {
        static const uint8_t sz[] = { SIZES };
#ifdef SCS
        if (vf_bool()) { n = 4; cs[i].type = NGX_RTMP_MSG_CHUNK_SIZE; } else
#endif
        { n = sz[vf_pick(0, sizeof(sz) - 1)]; cs[i].type = n > CHUNK ? NGX_RTMP_MSG_VIDEO : n == 5 ? NGX_RTMP_MSG_AMF_META : NGX_RTMP_MSG_AUDIO; }
        cs[i].mlen = n;
        be(n, 3); b8(cs[i].type);
        if (fmt == 0) { cs[i].msid = vf_range(MAXCS, 0xffffffff); be(ngx_rtmp_r32(cs[i].msid), 4); }
    }
    if (cs[i].ext) be(t, 4);
    if (fmt == 0) { cs[i].ts = t; cs[i].delta = 0; } else { cs[i].delta = t; cs[i].ts += t; }
    cs[i].fmt = fmt == 3 ? cs[i].fmt : fmt;
    cs[i].used = 1;
    if (cs[i].type == NGX_RTMP_MSG_CHUNK_SIZE) {
        static const uint16_t sizes[] = { 1, 5, 300 };
        n = sizes[vf_pick(0, 2)];
        cs[i].d = vf_zalloc(4); cs[i].d[3] = n & 255; cs[i].d[2] = n >> 8;
    } else cs[i].d = vf_buf(cs[i].mlen);
    cs[i].left = cs[i].mlen;
    payload(i);
}
static void cont(int i)
{
    basic(cs[i].csid, 3);
    if (cs[i].ext) be(cs[i].fmt ? cs[i].delta : cs[i].ts, 4);
    payload(i);
}

static ngx_int_t on_msg(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    size_t n = 0, k;
    VF_ASSERT(got < nmsg, "more messages than sent");
    VF_ASSERT(h->csid == msg[got].csid && h->type == msg[got].type && h->mlen == msg[got].mlen && h->msid == msg[got].msid, "message header");
    VF_ASSERT(h->timestamp == msg[got].ts, "timestamp");
    for (; in; in = in->next) {
        k = in->buf->last - in->buf->pos;
        VF_ASSERT(n + k <= h->mlen && ngx_memcmp(in->buf->pos, msg[got].d + n, k) == 0, "message contents");
        n += k;
    }
    VF_ASSERT(n == h->mlen, "message size");
    got++;
    VF_REACH("message");
    return NGX_OK;
}
static ssize_t h_recv(ngx_connection_t *c, u_char *buf, size_t size)
{
    size_t n;
    VF_ASSERT(size > 0, "recv into a full buffer");
    n = rpos < cut ? cut - rpos : rpos < cut2 ? cut2 - rpos : len - rpos;
    if (cut == len) n = 1;
    if (rpos >= len) return NGX_AGAIN;
    if (n > size) n = size;
    ngx_memcpy(buf, stream + rpos, n);
    rpos += n;
    return n;
}

void harness(void)
{
    int i, k; uint64_t base;
    rtmp_setup(MAXCS, 1000);
#ifdef AUTO
    cscf.type3_ext_ts = NGX_RTMP_TYPE3_EXT_TS_AUTO;
#endif
    rtmp_handler(NGX_RTMP_MSG_AUDIO, on_msg); rtmp_handler(NGX_RTMP_MSG_VIDEO, on_msg); rtmp_handler(NGX_RTMP_MSG_AMF_META, on_msg);
    rtmp_handler(NGX_RTMP_MSG_CHUNK_SIZE, on_msg); rtmp_handler(NGX_RTMP_MSG_CHUNK_SIZE, ngx_rtmp_protocol_message_handler);
    rtmp_session();
    VF_ASSERT(ngx_rtmp_set_chunk_size(sess, CHUNK) == NGX_OK, "chunk size");
    ngx_destroy_pool(sess->in_old_pool); sess->in_old_pool = NULL; sess->in_chunk_size_changing = 0;
    cs[0].csid = CSID_A; cs[1].csid = CSID_B;
#ifdef CSIDS
    { static const uint32_t ids[] = { CSIDS }; cs[0].csid = ids[vf_pick(0, sizeof(ids) / sizeof(ids[0]) - 1)]; cs[1].csid = cs[0].csid == 3 ? 4 : 3; }
#endif
    for (k = 0; k < OPS; k++) {
#ifdef ONE
        i = 0;
#else
        i = vf_pick(0, 1);
#endif
        if (cs[i].left) cont(i); else start(i);
    }
    for (i = 0; i < 2; i++) while (cs[i].left) cont(i);
    /* a cut at 'len' means byte by byte */
    cut = vf_pick(1, len); cut2 = len;
#if CUTS > 1
    if (cut < len) cut2 = vf_pick(cut, len);
#endif
    conn->recv = h_recv;
    ngx_rtmp_cycle(sess);
    VF_ASSERT(!conn->destroyed, "session closed");
    VF_ASSERT(rpos == len, "input not read");
    VF_ASSERT(got == nmsg, "message not delivered");
    if (nmsg > 1) VF_REACH("messages");
    base = 0; (void) base; (void) sets;
    for (k = 0; k < (int) nmsg; k++) vf_free(msg[k].d);
    rtmp_close();
    vf_free(conn->read); vf_free(conn->write); vf_free(conn);
    ngx_reset_pool(&vf_pool);
    VF_ASSERT(vf_live_heap() == 0, "memory leak");
}
