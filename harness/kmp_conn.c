/*
 * KMP receiver handshake: an arbitrary 96-byte connect packet followed by extra
 * header / data and packets, delivered in arbitrary fragments.
 */
#include "nginx-kmp-in-module/src/ngx_kmp_in.c"
#include "vf_ngx.h"

#ifndef XH
#define XH 5        /* header bytes beyond the connect struct, when accepted */
#define XD 3        /* connect data bytes */
#endif
#define CS  ((size_t) sizeof(kmp_connect_packet_t))
#define FS  16
#define L   (CS + XH + XD + FS)
volatile ngx_str_t  ngx_cached_http_log_iso8601;
size_t ngx_sock_ntop(struct sockaddr *sa, socklen_t socklen, u_char *text, size_t len, ngx_uint_t port)
{ memcpy(text, "1.2.3.4:5", 9); return 9; }

static u_char   stream[L];
static size_t   rpos, cut;
static int      n_conn, n_data, n_end, fail_conn, data_first;
static uint64_t skip;
static u_char   buf_mem[2 * L];
static ngx_buf_chain_t  chains[8];
static unsigned nchains, nlive;

static ngx_buf_chain_t *h_alloc_chain(void *data) { VF_ASSUME(nchains < 8); nlive++; return &chains[nchains++]; }
static void h_free_chain_list(void *data, ngx_buf_chain_t *head, ngx_buf_chain_t *tail)
{
    for ( ;; ) { nlive--; if (head == tail) break; VF_ASSERT(head->next != NULL, "broken list"); head = head->next; }
}
static ngx_int_t h_get_input_buf(void *data, ngx_buf_t *b)
{
    b->start = b->pos = b->last = buf_mem; b->end = buf_mem + sizeof(buf_mem);
    return NGX_OK;
}
static ssize_t h_recv(ngx_connection_t *c, u_char *buf, size_t size)
{
    size_t n = (rpos < cut ? cut : L) - rpos;
    if (n == 0) { if (rpos == cut && rpos < L) { cut = L; } return NGX_AGAIN; }
    if (n > size) n = size;
    VF_ASSERT(n > 0, "recv with an empty buffer");
    memcpy(buf, stream + rpos, n);
    rpos += n;
    return n;
}
static ngx_int_t h_connected(ngx_kmp_in_ctx_t *ctx, ngx_kmp_in_evt_connected_t *evt)
{
    size_t n;
    n_conn++;
    VF_ASSERT(memcmp(evt->header, stream, CS) == 0, "connect header");
    for (n = 0; n < KMP_MAX_CHANNEL_ID_LEN && stream[16 + n]; n++) {}
    VF_ASSERT(ctx->channel_id.s.len == n && memcmp(ctx->channel_id.s.data, stream + 16, n) == 0, "channel id");
    for (n = 0; n < KMP_MAX_TRACK_ID_LEN && stream[48 + n]; n++) {}
    VF_ASSERT(ctx->track_id.s.len == n && memcmp(ctx->track_id.s.data, stream + 48, n) == 0, "track id");
    evt->skip_count = skip;
    return fail_conn ? NGX_KMP_IN_BAD_REQUEST : NGX_OK;
}
static ngx_int_t h_connect_data(ngx_kmp_in_ctx_t *ctx, ngx_kmp_in_evt_connect_data_t *evt)
{
    size_t k, pos = 0; ngx_buf_chain_t *c;
    n_data++;
    VF_ASSERT(memcmp(evt->header, stream, CS) == 0, "connect data: header");
    for (c = evt->data; c; c = c->next)
        for (k = 0; k < c->size; k++) {
            VF_ASSERT(pos < XD && c->data[k] == stream[CS + XH + pos], "connect data bytes");
            pos++;
        }
    VF_ASSERT(pos == XD, "connect data size");
    VF_REACH("connect data");
    return NGX_OK;
}
static void h_end(void *d) { n_end++; }
static ngx_int_t h_mi(void *d, ngx_kmp_in_evt_media_info_t *e) { return NGX_DONE; }
static ngx_int_t h_fr(void *d, ngx_kmp_in_evt_frame_t *e) { return NGX_DONE; }

void harness(void)
{
    ngx_connection_t c; ngx_event_t rev, wev; ngx_kmp_in_conf_t conf; ngx_kmp_in_ctx_t *ctx; ngx_int_t rc; int i, valid;
    kmp_connect_packet_t hdr; struct sockaddr_in sin; uint32_t v;

    vf_ngx_init();
    vf_bytes(stream, L);
    /* ids: at most a few symbolic characters and a symbolic terminator position class */
    memset(stream + 16, 'a', 64);
    if (vf_bool()) stream[16 + vf_pick(0, 31)] = 0;
    if (vf_bool()) stream[48 + vf_pick(0, 31)] = 0;
    ngx_memcpy(&hdr, stream, CS);
    valid = (hdr.header.packet_type == KMP_PACKET_CONNECT) & (hdr.header.header_size >= CS)
        & (hdr.header.header_size <= 65536) & (hdr.header.data_size <= 16 * 1024 * 1024) & (hdr.c.initial_frame_id != ULLONG_MAX);
    if (valid) {
        /* only the sizes that fit the stream are followed further */
        VF_ASSUME(hdr.header.header_size == CS + XH && hdr.header.data_size == XD);
        /* then an end-of-stream packet */
        v = KMP_PACKET_END_OF_STREAM; ngx_memcpy(stream + CS + XH + XD, &v, 4);
        v = 16; ngx_memcpy(stream + CS + XH + XD + 4, &v, 4);
        v = 0; ngx_memcpy(stream + CS + XH + XD + 8, &v, 4);
    }
    cut = vf_pick(0, 11) * 10 + vf_pick(0, 1); if (cut > L) cut = L;
    fail_conn = vf_bool(); skip = vf_u64();

    memset(&c, 0, sizeof(c)); memset(&rev, 0, sizeof(rev)); memset(&wev, 0, sizeof(wev)); memset(&conf, 0, sizeof(conf));
    memset(&sin, 0, sizeof(sin));
    c.log = &vf_log; c.pool = &vf_pool; c.read = &rev; c.write = &wev; c.recv = h_recv;
    c.sockaddr = (struct sockaddr *) &sin; c.socklen = sizeof(sin);
    ctx = ngx_kmp_in_create(&c, &conf);
    ctx->connected = h_connected; ctx->connect_data = h_connect_data; ctx->media_info = h_mi; ctx->frame = h_fr;
    ctx->end_stream = h_end; ctx->alloc_chain = h_alloc_chain; ctx->free_chain_list = h_free_chain_list;
    ctx->get_input_buf = h_get_input_buf;

    rc = NGX_OK;
    for (i = 0; i < 4 && rc == NGX_OK && (rpos < L); i++) rc = ngx_kmp_in_read_handler(ctx);

    if (!valid) {
        VF_ASSERT(rc == NGX_KMP_IN_BAD_REQUEST && n_conn == 0, "invalid connect packet accepted");
        VF_REACH("invalid");
    } else if (fail_conn) {
        VF_ASSERT(rc == NGX_KMP_IN_BAD_REQUEST && n_conn == 1 && n_data == 0, "rejected connection went on");
        VF_REACH("refused");
    } else {
        VF_ASSERT(n_conn == 1 && n_data == 1 && n_end == 1 && rc == NGX_KMP_IN_OK, "handshake");
        VF_ASSERT(ctx->cur_frame_id == hdr.c.initial_frame_id && ctx->acked_frame_id == hdr.c.initial_frame_id, "initial frame id");
        VF_ASSERT(ctx->skip_left == skip, "skip count");
        VF_REACH("accepted");
    }
    ngx_kmp_in_cleanup(ctx);
    VF_ASSERT(nlive == 0, "chain leaked");
}
