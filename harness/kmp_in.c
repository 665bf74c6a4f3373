/*
 * KMP receiver: an established connection is fed an arbitrary byte stream in
 * arbitrary fragments over several input buffers; every handler event is
 * compared with a reference parse of the contiguous stream.
 */
#include "nginx-kmp-in-module/src/ngx_kmp_in.c"
#include "vf_ngx.h"

/* two packets; their sizes and the fragmentation are concrete per run, the types
   and all the contents are symbolic */
#ifndef H1
#define H1 48
#define D1 1
#define H2 40
#define D2 2
#endif
/* SEQ: more packets of the first size, media infos and frames only, one split */
#ifndef SEQ
#define L  (H1 + D1 + H2 + D2)
#define NPKT  3
#else
#define L  ((H1 + D1) * SEQ)
#define NPKT  (SEQ + 1)
#endif

volatile ngx_str_t  ngx_cached_http_log_iso8601;

static u_char   stream[L];
static size_t   avail = L;          /* bytes the peer sent */
static size_t   limit_len = L;
static size_t   rpos;               /* bytes delivered by recv */
static size_t   cut;                /* first fragment is stream[0..cut) */
static int      newbuf;             /* the input buffer ends at the cut */
static ngx_kmp_in_ctx_t *ctx_g;

/* reference: the events the whole stream implies, parsed contiguously */
enum { EV_NONE, EV_MINF, EV_FRAME, EV_EOS, EV_BAD };
typedef struct {
    int       ev;
    size_t    at;       /* number of received bytes that trigger it */
    size_t    hdr, data, dsize;
    uint64_t  id;
} ref_ev_t;
static ref_ev_t  evs[NPKT + 1];
static unsigned  nevs, n_events;
static uint64_t  ref_id;

static uint32_t rd32(size_t o) { uint32_t v; ngx_memcpy(&v, stream + o, 4); return v; }

static void ref_parse(uint64_t id, uint64_t skip, int skip_wait_key, int wait_key, uint32_t ts, uint32_t mt)
{
    size_t p = 0; uint32_t type, hs, ds; int i; kmp_frame_t f; ref_ev_t *e;
    for (i = 0; i < NPKT; i++) {
        if (avail - p < 16) break;
        type = rd32(p); hs = rd32(p + 4); ds = rd32(p + 8);
        e = &evs[nevs];
        e->ev = EV_NONE;
        if ((type != KMP_PACKET_CONNECT && type != KMP_PACKET_MEDIA_INFO && type != KMP_PACKET_FRAME
             && type != KMP_PACKET_NULL && type != KMP_PACKET_END_OF_STREAM)
            || hs < 16 || hs > 65536 || ds > 16 * 1024 * 1024)
        {
            e->ev = EV_BAD; e->at = p + 16; nevs++;
            break;
        }
        if ((uint64_t) (avail - p) < (uint64_t) hs + ds) break;
        e->hdr = p + 16; e->data = p + hs; e->dsize = ds; e->at = p + hs + ds;
        p += hs + ds;
        if (type == KMP_PACKET_MEDIA_INFO) {
            if (hs - 16 < sizeof(kmp_media_info_t) || rd32(e->hdr + 8) == 0) { e->ev = EV_BAD; nevs++; break; }
            e->ev = EV_MINF;
            ts = rd32(e->hdr + 8);
            mt = rd32(e->hdr);
            wait_key = mt == KMP_MEDIA_VIDEO;
            nevs++;
        } else if (type == KMP_PACKET_FRAME) {
            if (hs - 16 < sizeof(kmp_frame_t)) { e->ev = EV_BAD; nevs++; break; }
            ngx_memcpy(&f, stream + e->hdr, sizeof(f));
            if (skip > 0) {
                skip--;
                if (skip == 0 && skip_wait_key) wait_key = 0;
            } else if (ts != 0 && ds != 0 && !(mt == KMP_MEDIA_SUBTITLE && f.pts_delay <= 0)
                       && !(wait_key && !(f.flags & KMP_FRAME_FLAG_KEY)))
            {
                wait_key = 0;
                e->ev = EV_FRAME; e->id = id; nevs++;
            }
            id++;
        } else if (type == KMP_PACKET_END_OF_STREAM) {
            e->ev = EV_EOS; nevs++;
            break;
        }
    }
    ref_id = id;
}

/* chains handed out / returned */
#define NCHAIN 12
static ngx_buf_chain_t  chains[NCHAIN];
static int              chain_live[NCHAIN];
static unsigned         nchains, nlive;

static ngx_buf_chain_t *h_alloc_chain(void *data)
{
    VF_ASSUME(nchains < NCHAIN);
    chain_live[nchains] = 1;
    nlive++;
    return &chains[nchains++];
}
static void drop_chain(ngx_buf_chain_t *c)
{
    VF_ASSERT(c >= chains && c < chains + nchains && chain_live[c - chains], "chain returned twice");
    chain_live[c - chains] = 0;
    nlive--;
}
static void h_free_chain_list(void *data, ngx_buf_chain_t *head, ngx_buf_chain_t *tail)
{
    ngx_buf_chain_t *c, *n;
    for (c = head; c != NULL; c = n) {
        n = c->next;
        drop_chain(c);
        if (c == tail) return;
    }
    VF_ASSERT(0, "tail not in the freed list");
}
static u_char bufs[2][L + 8];
static ngx_int_t h_get_input_buf(void *data, ngx_buf_t *b)
{
    int i = rpos != 0;
    b->start = bufs[i];
    b->pos = b->last = b->start;
    b->end = b->start + ((i == 0 && newbuf) ? cut : L + 8);
    return NGX_OK;
}
static ssize_t h_recv(ngx_connection_t *c, u_char *buf, size_t size)
{
    size_t n = rpos == 0 ? cut : limit_len - rpos;
    if (rpos >= limit_len) return NGX_AGAIN;
    VF_ASSERT(size >= n, "recv size");
    memcpy(buf, stream + rpos, n);
    rpos += n;
    return n;
}

/* the k-th byte of the chain is the k-th byte of the packet data, for any k,
   and the chain has exactly dsize bytes */
static void check_data(ngx_buf_chain_t *d, ref_ev_t *e)
{
    size_t k, total = 0;
    for (; d != NULL; d = d->next) {
        for (k = 0; k < d->size; k++) {
            VF_ASSERT(total < e->dsize && d->data[k] == stream[e->data + total],
                      "packet data differs from the stream");
            total++;
        }
    }
    VF_ASSERT(total == e->dsize, "packet data size");
}

static ngx_int_t own(ngx_buf_chain_t *head)
{
    int rc = vf_bool();
    ngx_buf_chain_t *c;
    if (!rc) return NGX_DONE;
    for (c = head; c; c = c->next) drop_chain(c);
    return NGX_OK;
}

static ngx_int_t h_media_info(void *data, ngx_kmp_in_evt_media_info_t *evt)
{
    ref_ev_t *e = &evs[n_events];
    VF_ASSERT(n_events < nevs && e->ev == EV_MINF, "unexpected media info event");
    n_events++;
    VF_ASSERT(memcmp(&evt->media_info, stream + e->hdr, sizeof(kmp_media_info_t)) == 0, "media info header");
    VF_ASSERT(evt->extra_data_size == e->dsize, "extra data size");
    check_data(evt->extra_data, e);
    VF_REACH("media info");
    return own(evt->extra_data);
}
static ngx_int_t h_frame(void *data, ngx_kmp_in_evt_frame_t *evt)
{
    kmp_frame_t f; ref_ev_t *e = &evs[n_events];
    VF_ASSERT(n_events < nevs && e->ev == EV_FRAME, "unexpected frame event");
    n_events++;
    ngx_memcpy(&f, stream + e->hdr, sizeof(f));
    VF_ASSERT(evt->frame_id == e->id, "frame id");
    VF_ASSERT(evt->frame.created == f.created && evt->frame.dts == f.dts
              && evt->frame.pts_delay == f.pts_delay, "frame header");
    VF_ASSERT(evt->frame.flags == (f.flags & KMP_FRAME_FLAG_KEY), "frame flags");
    VF_ASSERT(evt->size == e->dsize, "frame size");
    VF_ASSERT(evt->data_tail != NULL && evt->data_tail->next == NULL
              && evt->data_tail->data + evt->data_tail->size == ctx_g->active_buf.pos, "frame tail");
    check_data(evt->data_head, e);
    VF_REACH("frame");
    return own(evt->data_head);
}
static void h_end_stream(void *data)
{
    VF_ASSERT(n_events < nevs && evs[n_events].ev == EV_EOS, "unexpected end of stream");
    n_events++;
    VF_REACH("end of stream");
}

static ngx_int_t h_event(ngx_event_t *ev, ngx_int_t event, ngx_uint_t flags) { return NGX_OK; }

static void one(void)
{
    ngx_kmp_in_ctx_t *ctx; ngx_connection_t c; ngx_event_t rev, wev; ngx_int_t rc;

    rpos = 0; nchains = nlive = 0; nevs = n_events = 0;
    ngx_event_actions.add = h_event;
    ngx_event_actions.del = h_event;
    memset(&c, 0, sizeof(c));
    memset(&rev, 0, sizeof(rev));
    memset(&wev, 0, sizeof(wev));
    c.log = &vf_log; c.pool = &vf_pool; c.read = &rev; c.write = &wev; c.recv = h_recv;

    ctx = ctx_g = vf_malloc(sizeof(*ctx));
    memset(ctx, 0, sizeof(*ctx));
    ctx->connection = &c;
    ctx->log = &vf_log;
    ctx->dump_fd = NGX_INVALID_FILE;
    ctx->media_info = h_media_info;
    ctx->frame = h_frame;
    ctx->end_stream = h_end_stream;
    ctx->alloc_chain = h_alloc_chain;
    ctx->free_chain_list = h_free_chain_list;
    ctx->get_input_buf = h_get_input_buf;

    /* any state an established connection can be in between packets */
    ctx->header_read = 1;
    ctx->packet_header_pos = (u_char *) &ctx->packet_header;
    ctx->cur_frame_id = vf_u64();
    ctx->skip_left = vf_range(0, 3);
    ctx->skip_wait_key = vf_bool();
    ctx->wait_key = vf_bool();
    ctx->timescale = vf_bool() ? 90000 : 0;
    ctx->media_type = vf_range(0, 2);

    ref_parse(ctx->cur_frame_id, ctx->skip_left, ctx->skip_wait_key, ctx->wait_key,
              ctx->timescale, ctx->media_type);

    rc = ngx_kmp_in_read_handler(ctx);

    if (n_events < nevs && evs[n_events].ev == EV_BAD && rpos >= evs[n_events].at) {
        VF_ASSERT(rc == NGX_KMP_IN_BAD_REQUEST, "invalid packet accepted");
        VF_REACH("rejected");
    } else if (n_events > 0 && evs[n_events - 1].ev == EV_EOS) {
        VF_ASSERT(rc == NGX_KMP_IN_OK, "rc after end of stream");
    } else {
        VF_ASSERT(rc == NGX_OK, "valid stream rejected");
        VF_ASSERT(n_events == nevs || evs[n_events].at > rpos, "a complete packet was not delivered");
        VF_ASSERT(rpos < avail || ctx->cur_frame_id == ref_id, "frame id counter");
        VF_REACH("accepted");
    }

    /* no chain is lost: all are returned on disconnect */
    ngx_kmp_in_cleanup(ctx);
    VF_ASSERT(nlive == 0, "buffer chain leaked");
}

static void set32(size_t o, uint32_t v) { ngx_memcpy(stream + o, &v, 4); }

void harness(void)
{
    vf_ngx_init();
    vf_bytes(stream, L);
#ifndef SEQ
    set32(4, H1); set32(8, D1);
    set32(H1 + D1 + 4, H2); set32(H1 + D1 + 8, D2);
    cut = vf_pick(1, L - 1);
    newbuf = vf_bool();
#else
    for (int i = 0; i < SEQ; i++) {
        set32((H1 + D1) * i, vf_bool() ? KMP_PACKET_FRAME : KMP_PACKET_MEDIA_INFO);
        set32((H1 + D1) * i + 4, H1); set32((H1 + D1) * i + 8, D1);
    }
    cut = (H1 + D1) * (SEQ - 1) + 17;
    newbuf = 0;
#endif
    one();
}
