/*
 * KMP receiver acknowledgements: any sequence of frame acks interleaved with
 * write events and partial sends; the bytes that leave are a sequence of whole
 * ack packets with increasing ids, the last of which is the highest acked id.
 */
#include "nginx-kmp-in-module/src/ngx_kmp_in.c"
#include "vf_ngx.h"

#ifndef STEPS
#define STEPS 5
#endif
#define SZ  sizeof(kmp_ack_frames_packet_t)
volatile ngx_str_t  ngx_cached_http_log_iso8601;

static u_char   out[SZ * (STEPS + 2)];
static size_t   out_len;
static size_t   credit;

static ssize_t h_send(ngx_connection_t *c, u_char *buf, size_t size)
{
    size_t n;
    VF_ASSERT(size > 0 && size <= SZ, "send size");
    if (credit == 0) return NGX_AGAIN;
    n = credit < size ? credit : size;
    VF_ASSUME(out_len + n <= sizeof(out));
    ngx_memcpy(out + out_len, buf, n);
    out_len += n;
    credit -= n;
    return n;
}

void harness(void)
{
    ngx_kmp_in_ctx_t *ctx; ngx_connection_t c; ngx_event_t rev, wev; unsigned i, k;
    uint64_t initial, max, prev, id; kmp_ack_frames_packet_t pkt; kmp_packet_header_t *h;

    vf_ngx_init();
    memset(&c, 0, sizeof(c)); memset(&rev, 0, sizeof(rev)); memset(&wev, 0, sizeof(wev));
    c.log = &vf_log; c.pool = &vf_pool; c.read = &rev; c.write = &wev; c.send = h_send;
    ngx_io.send = h_send;
    wev.data = &c; rev.data = &c; wev.write = 1;
    wev.log = rev.log = &vf_log;

    ctx = vf_zalloc(sizeof(*ctx));
    ctx->connection = &c; ctx->log = &vf_log; ctx->dump_fd = NGX_INVALID_FILE;
    ctx->conf.send_timeout = 1000;
    initial = max = vf_u64();
    /* as set when the connect packet is accepted */
    h = &ctx->ack_packet.header;
    h->packet_type = KMP_PACKET_ACK_FRAMES;
    h->header_size = sizeof(ctx->ack_packet);
    ctx->header_read = 1;
    ctx->cur_frame_id = ctx->acked_frame_id = initial;

    for (i = 0; i < STEPS; i++) {
        if (vf_bool()) {
            id = vf_u64();
            if (vf_concretize(id > max)) max = id;
            ngx_kmp_in_ack_frames(ctx, id);
            if (max > initial) VF_ASSERT(wev.posted || wev.timer_set || out_len > 0, "no write scheduled");
        } else {
            if (wev.posted) { ngx_delete_posted_event(&wev); }
            { static const uint8_t cr[] = { 0, 1, 23, 39, 40, 41, 80 }; credit = cr[vf_pick(0, 6)]; }
            VF_ASSERT(ngx_kmp_in_write_handler(ctx) == NGX_OK, "write handler");
            VF_REACH("write");
        }
    }
    /* the peer reads everything */
    if (wev.posted) { ngx_delete_posted_event(&wev); }
    credit = sizeof(out);
    VF_ASSERT(ngx_kmp_in_write_handler(ctx) == NGX_OK, "final write handler");
    VF_ASSERT(!wev.timer_set, "send timer still set when idle");

    VF_ASSERT(out_len % SZ == 0, "torn ack packet");
    prev = initial;
    for (k = 0; k * SZ < out_len; k++) {
        ngx_memcpy(&pkt, out + k * SZ, SZ);
        VF_ASSERT(pkt.header.packet_type == KMP_PACKET_ACK_FRAMES && pkt.header.header_size == SZ
                  && pkt.header.data_size == 0, "ack header");
        VF_ASSERT(pkt.a.frame_id > prev, "ack ids do not increase");
        prev = pkt.a.frame_id;
        VF_REACH("ack");
        if (k > 0) VF_REACH("second ack");
    }
    VF_ASSERT(prev == max, "the highest acknowledged id was not sent");
}
