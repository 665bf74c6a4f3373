/* KMP receiver: validation of a packet header with arbitrary fields, cut anywhere */
#define main_harness  kmp_in_one
#define H1 16
#define D1 0
#define H2 16
#define D2 0
#define harness kmp_in_unused
#include "kmp_in.c"
#undef harness

void harness(void)
{
    uint32_t type, hs, ds; int valid; ngx_int_t rc; ngx_kmp_in_ctx_t *ctx; ngx_connection_t c; ngx_event_t rev, wev;
    vf_ngx_init();
    vf_bytes(stream, 16);
    type = rd32(0); hs = rd32(4); ds = rd32(8);
    valid = ((type == KMP_PACKET_CONNECT) | (type == KMP_PACKET_MEDIA_INFO) | (type == KMP_PACKET_FRAME)
             | (type == KMP_PACKET_NULL) | (type == KMP_PACKET_END_OF_STREAM))
        & (hs >= 16) & (hs <= 65536) & (ds <= 16 * 1024 * 1024);
    cut = vf_pick(1, 16);
    newbuf = vf_bool();
    /* only the first 16 bytes are sent */
    memset(&c, 0, sizeof(c)); memset(&rev, 0, sizeof(rev)); memset(&wev, 0, sizeof(wev));
    c.log = &vf_log; c.pool = &vf_pool; c.read = &rev; c.write = &wev; c.recv = h_recv;
    ctx = ctx_g = vf_zalloc(sizeof(*ctx));
    ctx->connection = &c; ctx->log = &vf_log; ctx->dump_fd = NGX_INVALID_FILE;
    ctx->media_info = h_media_info; ctx->frame = h_frame; ctx->end_stream = h_end_stream;
    ctx->alloc_chain = h_alloc_chain; ctx->free_chain_list = h_free_chain_list; ctx->get_input_buf = h_get_input_buf;
    ctx->header_read = 1;
    ctx->packet_header_pos = (u_char *) &ctx->packet_header;
    evs[0].ev = EV_EOS; nevs = 1; limit_len = 16;
    rc = ngx_kmp_in_read_handler(ctx);
    if (!valid) {
        VF_ASSERT(rc == NGX_KMP_IN_BAD_REQUEST && n_events == 0, "invalid header accepted");
        VF_REACH("bad header");
    } else if (hs + ds > 16) {
        VF_ASSERT(rc == NGX_OK && n_events == 0, "event without the whole packet");
        VF_REACH("header ok");
    } else if (type == KMP_PACKET_END_OF_STREAM) {
        VF_ASSERT(n_events == 1 && rc == NGX_KMP_IN_OK, "end of stream");
    } else if ((type == KMP_PACKET_FRAME) | (type == KMP_PACKET_MEDIA_INFO)) {
        VF_ASSERT(n_events == 0 && rc == NGX_KMP_IN_BAD_REQUEST, "truncated packet accepted");
    } else {
        VF_ASSERT(n_events == 0 && rc == NGX_OK, "null packet");
    }
    ngx_kmp_in_cleanup(ctx);
    VF_ASSERT(nlive == 0, "buffer chain leaked");
}
