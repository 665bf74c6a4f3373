/*
 * RTMP sender: messages put in the output queue leave as a chunk stream that decodes to exactly the
 * accepted messages, in order, however the socket accepts the bytes; shared buffers are released once.
 */
#ifndef CHUNK_OUT
#define CHUNK_OUT 8
#endif
#include "rtmp.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef SIZES
#define SIZES 1, 8, 9, 16, 17
#endif
#ifndef CSID_A
#define CSID_A 3
#define CSID_B 400
#endif
#ifndef QUEUES
#define QUEUES 4
#endif
#ifndef SIMPLE
#define SIMPLE 0
#endif
#ifndef ROT
#define ROT 1
#endif
#ifndef BLOCKS
#define BLOCKS 40
#endif
#define MAXL 300
static u_char wire[MAXL]; static size_t wlen, rpos, block_at = MAXL; static int blocked, unblocked, failed;
static struct { uint32_t csid, ts, mlen, msid; uint8_t type; u_char *d; } msg[OPS * 2]; static unsigned nmsg, done;
static struct { uint32_t csid, ts, mlen, msid, ext; uint8_t type, used; } ds[2];

static ssize_t h_send(ngx_connection_t *c, u_char *buf, size_t size)
{
    VF_ASSERT(size > 0, "empty write");
    if (failed) return NGX_ERROR;
    if (wlen >= block_at && !unblocked) { blocked = 1; c->write->ready = 0; return NGX_AGAIN; }
    if (!unblocked && size > block_at - wlen) size = block_at - wlen;
    VF_ASSERT(wlen + size <= MAXL, "harness size");
    ngx_memcpy(wire + wlen, buf, size); wlen += size;
    return size;
}
static uint32_t be(int n) { uint32_t v = 0; while (n--) { VF_ASSERT(rpos < wlen, "truncated output"); v = v << 8 | wire[rpos++]; } return v; }
/* reference chunk decoder */
static void decode(void)
{
    unsigned fmt, i, n; uint32_t csid, left, t;
    while (rpos < wlen) {
        VF_ASSERT(done < nmsg, "more data than the accepted messages");
        fmt = wire[rpos] >> 6; csid = wire[rpos++] & 63;
        if (csid == 0) csid = 64 + be(1); else if (csid == 1) { csid = 64 + be(1); csid += be(1) << 8; }
        VF_ASSERT(csid == msg[done].csid, "chunk stream id");
        i = csid == CSID_B;
        VF_ASSERT(fmt == 0 || (fmt == 1 && ds[i].used), "message header format");
        t = be(3); ds[i].mlen = be(3); ds[i].type = be(1);
        if (fmt == 0) ds[i].msid = ngx_rtmp_r32(be(4));
        if ((ds[i].ext = t == 0xffffff)) t = be(4);
        ds[i].ts = fmt ? ds[i].ts + t : t; ds[i].used = 1;
        VF_ASSERT(ds[i].mlen == msg[done].mlen && ds[i].type == msg[done].type && ds[i].msid == msg[done].msid, "message header");
        VF_ASSERT(ds[i].ts == msg[done].ts, "timestamp");
        left = ds[i].mlen;
        for ( ;; ) {
            n = left < CHUNK_OUT ? left : CHUNK_OUT;
            VF_ASSERT(wlen - rpos >= n, "truncated payload");
            VF_ASSERT(ngx_memcmp(wire + rpos, msg[done].d + msg[done].mlen - left, n) == 0, "payload");
            rpos += n; left -= n;
            if (left == 0) break;
            VF_ASSERT(rpos < wlen && wire[rpos] >> 6 == 3, "continuation chunk");
            t = wire[rpos++] & 63;
            if (t == 0) t = 64 + be(1); else if (t == 1) { t = 64 + be(1); t += be(1) << 8; }
            VF_ASSERT(t == csid, "continuation chunk stream");
            if (ds[i].ext && cscf.play_time_fix) { t = be(4); VF_ASSERT(fmt || t == ds[i].ts, "continuation timestamp"); }
        }
        done++;
        VF_REACH("message");
    }
}
static size_t nbufs(ngx_chain_t *l) { size_t n = 0; for (; l; l = l->next) n++; return n; }

static ssize_t h_recv(ngx_connection_t *c, u_char *buf, size_t size) { return NGX_AGAIN; }
static void write_event(void) { conn->write->ready = 1; conn->write->handler(conn->write); }

void harness(void)
{
    static const uint8_t sz[] = { SIZES }, qs[] = { QUEUES };
    ngx_rtmp_header_t h, lh[2]; int used[2] = { 0, 0 }, i, k, r, n, resume_at; size_t q, queued, fr, alloc = 0; ngx_chain_t in[2], *out; ngx_buf_t ib[2]; u_char *d; ngx_uint_t prio; ngx_int_t rc;
    rtmp_setup(512, 1000);
    q = qs[vf_pick(0, sizeof(qs) - 1)];
    cscf.out_queue = q; cscf.out_cork = 2; cscf.play_time_fix = vf_pick(0, 1);
    rtmp_session();
    sess->out_pos = sess->out_last = vf_pick(q - ROT, q - 1);
#ifdef CORK
    sess->out_buffer = 1;
#endif
    conn->send = h_send; conn->write->ready = 1; conn->recv = h_recv; conn->read->active = 1;
    ngx_event_flags = NGX_USE_CLEAR_EVENT;
    ngx_rtmp_cycle(sess);
    block_at = vf_pick(0, BLOCKS);
    resume_at = vf_pick(1, OPS);
    for (k = 0; k < OPS; k++) {
        if (k == resume_at) { unblocked = 1; write_event(); }
        i = SIMPLE ? k & 1 : vf_pick(0, 1);
        memset(&h, 0, sizeof(h)); h.csid = i ? CSID_B : CSID_A; h.msid = i ? used[i] ? lh[i].msid : vf_u32() : 1; h.type = i ? NGX_RTMP_MSG_AUDIO : NGX_RTMP_MSG_VIDEO;
        h.timestamp = used[i] && (SIMPLE || vf_pick(0, 1)) ? lh[i].timestamp + vf_range(0xfffffe, 0x1000000) : vf_u32();
        r = sz[vf_pick(0, sizeof(sz) - 1)];
        d = vf_buf(r);
        /* the payload in two buffers */
        ib[0].pos = d; ib[0].last = ib[1].pos = d + r / 3; ib[1].last = d + r; in[0].buf = &ib[0]; in[0].next = &in[1]; in[1].buf = &ib[1]; in[1].next = NULL;
        fr = nbufs(cscf.free);
        out = ngx_rtmp_append_shared_bufs(&cscf, NULL, in);
        alloc += nbufs(out) + nbufs(cscf.free) - fr;
        /* an absolute message may be sent more than once */
        n = used[i] ? 1 : SIMPLE ? 2 - i : vf_pick(1, 2);
        ngx_rtmp_prepare_message(sess, &h, used[i] ? &lh[i] : NULL, out);
        prio = 0;
#ifdef PRIO
        prio = vf_pick(0, 3);
#endif
        while (n--) {
            queued = sess->out_last >= sess->out_pos ? sess->out_last - sess->out_pos : sess->out_last + q - sess->out_pos;
            rc = ngx_rtmp_send_message(sess, out, prio);
            VF_ASSERT((rc == NGX_OK) == (queued + 1 + prio * q / 4 < q), "a message is accepted when there is room");
            if (rc != NGX_OK) { VF_ASSERT(rc == NGX_AGAIN, "drop"); VF_REACH("dropped"); continue; }
            msg[nmsg].csid = h.csid; msg[nmsg].ts = h.timestamp; msg[nmsg].mlen = r; msg[nmsg].msid = h.msid; msg[nmsg].type = h.type; msg[nmsg].d = d; nmsg++;
            lh[i] = h; lh[i].mlen = 0; used[i] = 1;
        }
        ngx_rtmp_free_shared_chain(&cscf, out);
    }
#ifdef CLOSE
    if (vf_pick(0, 1)) { failed = 1; write_event(); if (sess->out_pos != sess->out_last) VF_ASSERT(conn->destroyed, "write error"); }
    if (sess->out_pos != sess->out_last) VF_REACH("closed with data");
#else
    unblocked = 1;
    write_event();
    decode();
    VF_ASSERT(done == nmsg, "message lost");
    VF_ASSERT(sess->out_pos == sess->out_last && sess->out_chain == NULL, "queue empty");
    VF_ASSERT(!conn->destroyed, "session closed");
    if (blocked) VF_REACH("blocked");
#endif
    rtmp_close();
    VF_ASSERT(nbufs(cscf.free) == alloc, "shared buffers released once");
}
