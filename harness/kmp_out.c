/*
 * KMP publisher: a track writes media info / frames / keepalives of symbolic
 * content; its upstream connects, receives in arbitrary pieces, acknowledges,
 * drops and reconnects at arbitrary points. The bytes each connection receives
 * are compared with the packets that were published.
 */
#include <ngx_event_connect.h>
#include "vf_ngx.h"
#include <ngx_http_call.h>
#include <ngx_json_parser.h>
#include "nginx-kmp-out-module/src/ngx_kmp_out_track_internal.h"
#include "nginx-kmp-out-module/src/ngx_kmp_out_upstream.h"

#ifndef STEPS
#define STEPS 4
#endif
#ifndef USED
#define USED 72          /* payload bytes of a buffer */
#endif
#ifndef RESUME
#define RESUME "last_acked"
#define ACKED_MODE 1
#define SENT_MODE 0
#endif
#ifndef LIMIT
#define LIMIT (1 << 20)
#endif
#ifndef EXTRA
#define EXTRA 3
#endif

/* ---- environment ---- */
struct ngx_lba_s { size_t size; };
static struct ngx_lba_s lba = { USED + sizeof(void *) };
static int n_bufs;
size_t ngx_lba_buf_size(ngx_lba_t *l) { return l->size; }
void *ngx_lba_alloc(ngx_lba_t *l) { n_bufs++; return vf_malloc(l->size); }
void ngx_lba_free(ngx_lba_t *l, void *b) { n_bufs--; vf_free(b); }

static ngx_connection_t *conn;
static ngx_event_t revs[8], wevs[8];
static ngx_connection_t conns[8];
static unsigned n_conns;
static ngx_http_call_init_t call;
static int have_call;
static u_char call_arg[64];
static struct sockaddr_in sin_g;
static ngx_addr_t addr_g;

static size_t credit;
static u_char out[700];
static size_t out_len;
static ssize_t (*recv_fn)(u_char *, size_t);

static ngx_chain_t *h_send_chain(ngx_connection_t *c, ngx_chain_t *in, off_t limit)
{
    size_t n;
    for ( ; in; in = in->next) {
        n = in->buf->last - in->buf->pos;
        if (n > credit) n = credit;
        VF_ASSUME(out_len + n <= sizeof(out));
        memcpy(out + out_len, in->buf->pos, n);
        out_len += n; credit -= n; c->sent += n; in->buf->pos += n;
        if (in->buf->pos < in->buf->last) return in;
    }
    return NULL;
}
static u_char ackb[40]; static size_t ack_pos, ack_len; static int closed;
static ssize_t h_recv(ngx_connection_t *c, u_char *buf, size_t size)
{
    size_t n = ack_len - ack_pos;
    if (n == 0) return closed ? 0 : NGX_AGAIN;
    if (n > size) n = size;
    memcpy(buf, ackb + ack_pos, n); ack_pos += n;
    return n;
}
ngx_int_t ngx_event_connect_peer(ngx_peer_connection_t *pc)
{
    VF_ASSUME(n_conns < 8);
    conn = &conns[n_conns];
    memset(conn, 0, sizeof(*conn));
    conn->read = &revs[n_conns]; conn->write = &wevs[n_conns];
    conn->log = pc->log; conn->read->data = conn->write->data = conn;
    conn->read->log = conn->write->log = pc->log;
    conn->send_chain = h_send_chain;
    conn->recv = h_recv;
    n_conns++;
    out_len = 0; closed = 0; ack_len = ack_pos = 0;
    pc->connection = conn;
    return NGX_AGAIN;
}
ngx_int_t ngx_event_get_peer(ngx_peer_connection_t *pc, void *data) { return NGX_OK; }
void ngx_close_connection(ngx_connection_t *c)
{
    VF_ASSERT(c == conn, "close of a connection that is not open");
    if (c->read->timer_set) ngx_del_timer(c->read);
    if (c->write->timer_set) ngx_del_timer(c->write);
    if (c->read->posted) { ngx_delete_posted_event(c->read); }
    if (c->write->posted) { ngx_delete_posted_event(c->write); }
    conn = NULL;
}
size_t ngx_sock_ntop(struct sockaddr *sa, socklen_t l, u_char *text, size_t len, ngx_uint_t port) { memcpy(text, "1.1.1.1:1", 9); return 9; }
ngx_int_t ngx_connection_local_sockaddr(ngx_connection_t *c, ngx_str_t *s, ngx_uint_t port) { return NGX_ERROR; }
ngx_int_t ngx_parse_url(ngx_pool_t *pool, ngx_url_t *u)
{
    addr_g.sockaddr = (void *) &sin_g; addr_g.socklen = sizeof(sin_g);
    u->addrs = &addr_g; u->naddrs = 1;
    return NGX_OK;
}
ngx_http_call_ctx_t *ngx_http_call_create(ngx_http_call_init_t *ci)
{
    call = *ci; have_call = 1;
    memcpy(call_arg, ci->arg, ci->argsize);
    return (void *) &call;
}
void ngx_http_call_cancel(ngx_http_call_ctx_t *ctx) { have_call = 0; }
ngx_chain_t *ngx_http_call_alloc_chain_temp_buf(ngx_pool_t *pool, size_t size) { return NULL; }
ngx_chain_t *ngx_http_call_format_json_post(ngx_pool_t *pool, ngx_str_t *host, ngx_str_t *uri, ngx_array_t *headers, ngx_chain_t *body) { return NULL; }
ngx_lba_t *ngx_lba_get_global(ngx_conf_t *cf, size_t s, ngx_uint_t b) { return &lba; }
int clock_gettime(clockid_t id, struct timespec *t) { t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }

/* ---- reference ---- */
#define LOGN 1200
static u_char   lg[LOGN];
static size_t   lg_len;
static struct { int type; size_t start, end, frames; } pk[STEPS + 3];
static unsigned n_pk, n_frames;
static uint64_t first_id;
static size_t   acked;          /* frames acknowledged */
static ngx_kmp_out_track_t *track;
static int      dead;           /* the upstream is gone */
static size_t   sent_frames;    /* frames entirely delivered on some connection */

static void begin(int type) { pk[n_pk].type = type; pk[n_pk].start = lg_len; }
static void put(void *p, size_t n) { memcpy(lg + lg_len, p, n); lg_len += n; }
static void end(void)
{
    if (pk[n_pk].type == KMP_PACKET_FRAME) n_frames++;
    pk[n_pk].end = lg_len; pk[n_pk].frames = n_frames; n_pk++;
}

static int eq(const u_char *a, const u_char *b, size_t n)
{
    size_t i; unsigned d = 0;
    for (i = 0; i < n; i++) d |= a[i] ^ b[i];
    return d == 0;
}

/* what the current connection received so far */
static void check_conn(void)
{
    kmp_connect_packet_t h; size_t n, i, p, skip, mi; int j, ok = 0; uint64_t f; unsigned k;

    if (conn == NULL || out_len < sizeof(h)) return;
    memcpy(&h, out, sizeof(h));
    VF_ASSERT(h.header.packet_type == KMP_PACKET_CONNECT && h.header.header_size == sizeof(h)
              && h.header.data_size == 0 && h.header.reserved == 0, "connect header");
    f = vf_concretize(h.c.initial_frame_id - first_id);
    VF_ASSERT(f <= n_frames, "connect announces a frame that was not published");
#if (ACKED_MODE)
    VF_ASSERT(f <= acked, "frames skipped that were not acknowledged");
#elif (SENT_MODE)
    VF_ASSERT(f <= sent_frames, "frames skipped that were not sent");
#endif
    n = out_len - sizeof(h);
    /* candidates: packet boundaries with f frames before them */
    for (j = -1; j < (int) n_pk; j++) {
        p = j < 0 ? 0 : pk[j].end;
        if ((j < 0 ? 0 : pk[j].frames) != f) continue;
        for (mi = n_pk, k = 0; (int) k <= j; k++) if (pk[k].type == KMP_PACKET_MEDIA_INFO) mi = k;
        skip = mi < n_pk ? pk[mi].end - pk[mi].start : 0;
        if (n <= skip) { ok |= eq(out + sizeof(h), lg + (mi < n_pk ? pk[mi].start : 0), n); continue; }
        if (n - skip > lg_len - p) continue;
        if (skip && !eq(out + sizeof(h), lg + pk[mi].start, skip)) continue;
        if (!eq(out + sizeof(h) + skip, lg + p, n - skip)) continue;
        ok = 1;
        for (k = 0; k < n_pk; k++) if (pk[k].end <= p + n - skip && pk[k].frames > sent_frames) sent_frames = pk[k].frames;
    }
    VF_ASSERT(ok, "the connection did not receive the published packets in order");
    if (n_conns > 1 && n > 0) VF_REACH("resumed");
    if (n > 0) VF_REACH("received");
}

static u_char  *json_s;
static u_char   reply[] = "{\"code\":\"ok\",\"message\":\"\",\"url\":\"kmp://1.1.1.1:1\"}\0";
static ngx_pool_t *tmp_pool;

static void republish_reply(void)
{
    ngx_buf_t b; ngx_str_t ct = ngx_string("application/json"); u_char *m; ngx_int_t rc;
    if (!have_call) return;
    have_call = 0;
    m = ngx_palloc(tmp_pool, sizeof(reply)); memcpy(m, reply, sizeof(reply));
    b.pos = b.start = m; b.last = m + strlen((char *) reply); b.end = m + sizeof(reply);
    rc = call.handle(tmp_pool, call_arg, 200, &ct, &b);
    VF_ASSERT(rc == NGX_OK, "republish reply");
}

static void write_event(size_t cr)
{
    if (conn == NULL) { republish_reply(); return; }
    credit = cr;
    conn->write->ready = 1;
    conn->write->handler(conn->write);
    check_conn();
}

static void do_frame(size_t dsize, int inplace)
{
    kmp_frame_packet_t fr; ngx_buf_t b1, b2; ngx_chain_t c1, c2; u_char data[64]; ngx_int_t rc;
    memset(&fr, 0, sizeof(fr));
    fr.header.packet_type = KMP_PACKET_FRAME; fr.header.header_size = sizeof(fr);
    fr.f.created = vf_u64(); fr.f.dts = vf_u64(); fr.f.flags = vf_u32(); fr.f.pts_delay = vf_u32();
    fr.header.data_size = dsize;
    vf_bytes(data, dsize);
    begin(KMP_PACKET_FRAME); put(&fr, sizeof(fr)); put(data, dsize); end();
    credit = 25;
    if (inplace) {
        fr.header.data_size = 77;       /* computed by the publisher */
        rc = ngx_kmp_out_track_write_frame_start(track);
        if (rc == NGX_OK) rc = ngx_kmp_out_track_write_frame_data(track, data, dsize / 2);
        if (rc == NGX_OK) rc = ngx_kmp_out_track_write_frame_data(track, data + dsize / 2, dsize - dsize / 2);
        if (rc == NGX_OK) rc = ngx_kmp_out_track_write_frame_end(track, &fr);
        VF_REACH("in place frame");
    } else {
        memset(&b1, 0, sizeof(b1)); memset(&b2, 0, sizeof(b2));
        b1.pos = data; b1.last = data + dsize / 3; b2.pos = b1.last; b2.last = data + dsize;
        c1.buf = &b1; c1.next = &c2; c2.buf = &b2; c2.next = NULL;
        rc = ngx_kmp_out_track_write_frame(track, &fr, &c1, b1.pos);
    }
    VF_ASSERT(rc == NGX_OK, "write failed");
    check_conn();
}

static void do_mi(void)
{
    kmp_media_info_packet_t p;
    memset(&p, 0, sizeof(p));
    track->media_info.bitrate = vf_u32();
    vf_bytes(track->extra_data.data, EXTRA);
    track->extra_data.len = EXTRA;
    p.header.packet_type = KMP_PACKET_MEDIA_INFO; p.header.header_size = sizeof(p); p.header.data_size = EXTRA;
    p.m = track->media_info;
    begin(KMP_PACKET_MEDIA_INFO); put(&p, sizeof(p)); put(track->extra_data.data, EXTRA); end();
    credit = 25;
    VF_ASSERT(ngx_kmp_out_track_write_media_info(track) == NGX_OK, "write failed");
    check_conn();
}

static void ended(void *d) { dead = 1; }

void harness(void)
{
    static ngx_kmp_out_track_conf_t conf; ngx_cycle_t *cy; ngx_json_value_t v; u_char err[64]; unsigned i; ngx_url_t url;
    static u_char js[] = "{\"url\":\"kmp://1.1.1.1:1\",\"id\":\"a\",\"resume_from\":\"" RESUME "\"}";
    kmp_ack_frames_packet_t a; uint64_t id; unsigned op; size_t mem0;

    vf_ngx_init();
    ngx_io.recv = h_recv; ngx_io.send_chain = h_send_chain;
    ngx_kmp_out_track_init_process((ngx_cycle_t *) ngx_cycle);
    tmp_pool = ngx_create_pool(1024, &vf_log);
    memset(&url, 0, sizeof(url));
    conf.ctrl_republish_url = &url;
    conf.timescale = 90000; conf.timeout = 10000; conf.max_free_buffers = 1;
    conf.mem_high_watermark = 75; conf.mem_low_watermark = 50;
    conf.republish_interval = 1000; conf.max_republishes = 5; conf.flush_timeout = 1000;
    for (i = 0; i < KMP_MEDIA_COUNT; i++) { conf.mem_limit[i] = LIMIT; conf.lba[i] = &lba; }
    ngx_current_msec = 100000;

    track = ngx_kmp_out_track_create(&conf, KMP_MEDIA_VIDEO);
    VF_ASSERT(track != NULL, "track");
    track->handler = ended;
    track->state = NGX_KMP_TRACK_ACTIVE;
    first_id = track->connect.c.initial_frame_id;
    track->connect.header.packet_type = KMP_PACKET_CONNECT;
    track->connect.header.header_size = sizeof(kmp_connect_packet_t);
    if (EXTRA) VF_ASSERT(ngx_kmp_out_track_alloc_extra_data(track, EXTRA) == NGX_OK, "extra data");
    mem0 = track->mem_left;
    do_mi();
    VF_ASSERT(ngx_json_parse(tmp_pool, js, &v, err, sizeof(err)) == NGX_JSON_OK, "json");
    VF_ASSERT(ngx_kmp_out_track_add_upstream(tmp_pool, track, NULL, &v.v.obj) == NGX_DECLINED, "no source upstream");
    VF_ASSERT(ngx_kmp_out_upstream_from_json(tmp_pool, track, NULL, &v.v.obj) == NGX_OK, "upstream");

    for (i = 0; i < STEPS && !dead; i++) {
        ngx_current_msec += 2000;
        op = vf_pick(0, OPS);
        switch (op) {
        case 0: id = vf_pick(0, 1) ? 34 : 1; do_frame(id, vf_bool()); break;
        case 1: write_event(vf_pick(0, 1) ? 10000 : 130); break;
        case 2: /* ack */
            if (conn == NULL) return;
            id = vf_pick(0, n_frames + 1);
            memset(&a, 0, sizeof(a));
            a.header.packet_type = KMP_PACKET_ACK_FRAMES; a.header.header_size = sizeof(a);
            a.a.frame_id = first_id + id; a.a.offset = vf_u32(); a.a.upstream_frame_id = vf_u64();
            memcpy(ackb, &a, sizeof(a)); ack_len = sizeof(a); ack_pos = 0;
#if (ACKED_MODE)
            {   /* a frame that was not delivered cannot be acknowledged */
                ngx_connection_t *c0 = conn;
                if (id > acked && id <= sent_frames) acked = id;
                c0->read->handler(c0->read);
                if (id > sent_frames) { VF_ASSERT(conn != c0, "acknowledgement of an undelivered frame accepted"); VF_REACH("bad ack"); }
                else { VF_ASSERT(conn == c0 && !dead, "valid acknowledgement rejected"); if (id) VF_REACH("ack"); }
            }
#else
            conn->read->handler(conn->read);
#endif
            break;
        case 3: /* drop, then the controller answers the republish request */
            if (conn == NULL) return;
            closed = 1;
            conn->read->handler(conn->read);
            VF_ASSERT(conn == NULL, "closed by peer");
            if (have_call) { republish_reply(); VF_REACH("reconnect"); }
            break;
        case 4: track->flush.handler(&track->flush); check_conn(); break;
        case 5: do_mi(); break;
        }
    }
    if (dead) return;
    /* everything published reaches a connected peer once it reads */
    if (track->flush.timer_set) { ngx_del_timer(&track->flush); credit = 0; track->flush.handler(&track->flush); }
    if (conn == NULL) { republish_reply(); }
    if (conn != NULL) {
        write_event(10000);
        if (conn != NULL) write_event(10000);
        VF_ASSERT(sent_frames == n_frames || !(ACKED_MODE || SENT_MODE || n_conns == 1), "published frames were not sent");
        VF_REACH("all sent");
    }
    ngx_kmp_out_track_detach(track, "done");
    if (conn != NULL) { credit = 10000; conn->write->handler(conn->write);
        if (conn != NULL) { closed = 1; conn->read->handler(conn->read); } }
    if (conn == NULL && !have_call) { VF_ASSERT(n_bufs == 0, "buffers leaked"); VF_REACH("freed"); }
}
