/*
 * Segment list: for any history of segments (repeats, new durations, index gaps, time gaps,
 * pending segments, expiry) the compact list gives back the index, time and duration of every
 * segment, by index, by time and by iteration, and survives persist + restore of any range.
 */
#include "vf_ngx.h"
#include "ngx_live.h"
#include "ngx_live_segment_list.h"
#include "ngx_persist_read.h"
#include "ngx_persist_write.h"
#include "persist/ngx_live_persist.h"
#include "live_bp.h"
#ifndef OPS
#define OPS 5
#endif
#define MAXS 140
static struct { uint32_t idx, dur; int64_t t; int per; } s[MAXS]; static int ns;
static uint32_t d[2];
static ngx_live_segment_list_t  *l;

static void check(ngx_live_segment_list_t *q, int from, int n, int base)
{
    ngx_live_segment_iter_t it, it2; int i, j, k, e, from2 = from; int64_t t, tq; uint32_t idx, x; ngx_live_segment_repeat_t r; u_char *buf; size_t sz;
    if (n - from > 6) from2 = n - 5;
    switch (vf_pick(0, 3)) {
    case 0: /* by index */
    i = vf_pick(from2, n - 1); if (from2 != from && vf_cbool()) i = from;
    VF_ASSERT(ngx_live_segment_iter_init(q, &it, s[i].idx, 1, &t) == NGX_OK, "segment found by index");
    VF_ASSERT(t == s[i].t, "time of the segment");
    if (vf_cbool()) {
        for (j = i; j < n && j < i + 3; j++) { VF_ASSERT(ngx_live_segment_iter_peek(&it) == s[j].dur, "peek"); VF_ASSERT(ngx_live_segment_iter_get_one(&it) == s[j].dur, "duration"); }
    } else {
        ngx_live_segment_iter_get_element(&it, &r);
        VF_ASSERT(r.count >= 1 && r.count <= (uint32_t) (n - i), "repeat count");
        for (j = i; j < i + (int) r.count; j++) VF_ASSERT(s[j].dur == r.duration && s[j].idx == s[i].idx + j - i, "element of equal segments");
        if (j < n) { VF_ASSERT(ngx_live_segment_iter_peek(&it) == s[j].dur, "element after"); VF_REACH("next element"); }
    }
    break;
    case 1:
    ngx_live_segment_iter_last(q, &it);
    VF_ASSERT(ngx_live_segment_iter_get_one(&it) == s[n - 1].dur, "last");
    /* missing indexes */
    for (j = from; j < n - 1; j++) if (s[j].idx + 1 != s[j + 1].idx) {
        VF_ASSERT(ngx_live_segment_iter_init(q, &it, s[j].idx + 1, 1, &t) != NGX_OK, "missing index");
        VF_ASSERT(ngx_live_segment_iter_init(q, &it, s[j].idx + 1, 0, &t) == NGX_OK && t == s[j + 1].t && ngx_live_segment_iter_get_one(&it) == s[j + 1].dur, "first following segment");
        VF_REACH("index gap");
        break;
    }
    VF_ASSERT(ngx_live_segment_iter_init(q, &it, s[n - 1].idx + 1, 0, &t) != NGX_OK, "index past the end");
    sz = ngx_live_segment_list_json_get_size(q); buf = vf_malloc(sz);
    VF_ASSERT(ngx_live_segment_list_json_write(buf, q) <= buf + sz, "json size");
    break;
    case 2: /* by time */
    j = vf_pick(from2, n - 1); t = j + 1 < n ? s[j + 1].t - s[j].t : (int64_t) s[j].dur + 1000; if (t == 0) return;
    idx = vf_u32(); VF_ASSUME(idx < t); tq = s[j].t + idx;
    k = vf_pick(0, 1);
    e = ngx_live_segment_list_get_segment_index(q, tq, k ? ngx_live_get_segment_mode_closest : ngx_live_get_segment_mode_contains, &idx, &t, &it);
    for (j = from2; j < n; j++) if (vf_concretize(tq >= s[j].t && tq < s[j].t + s[j].dur)) break;
    VF_ASSERT((e == NGX_OK) == (j < n), "a time inside a segment is found, others are not");
    if (e == NGX_OK) {
        x = k && vf_concretize(tq + s[j].dur / 2 >= s[j].t + s[j].dur);
        VF_ASSERT(idx == s[j].idx + x && t == s[j].t + (x ? s[j].dur : 0), "segment of the time");
        if (x && j + 1 < n) VF_ASSERT(ngx_live_segment_iter_peek(&it) == s[j + 1].dur, "closest is the next");
        else if (!x) VF_ASSERT(ngx_live_segment_iter_peek(&it) == s[j].dur, "iterator of the time");
        VF_REACH("by time");
    } else VF_REACH("time gap");
    break;
    case 3: /* periods */
    i = vf_pick(from2, n - 1); if (from2 != from && vf_cbool()) i = from;
    j = vf_pick(i > from2 ? i : from2, n - 1);
    VF_ASSERT(ngx_live_segment_iter_init(q, &it2, s[i].idx, 1, &t) == NGX_OK, "found");
    e = ngx_live_segment_list_get_period_end_time(q, &it2, s[j].idx, &t);
    VF_ASSERT((e == NGX_OK) == (s[i].per == s[j].per), "same period");
    if (e == NGX_OK) VF_ASSERT(t == s[j].t + s[j].dur, "period end");
    break;
    }
}

static void push(uint32_t idx, int64_t t, uint32_t dur)
{
    VF_ASSERT(ns < MAXS, "harness size");
    s[ns].idx = idx; s[ns].t = t; s[ns].dur = dur;
    s[ns].per = ns == 0 ? 0 : s[ns - 1].per + !(idx == s[ns - 1].idx + 1 && vf_concretize(t == s[ns - 1].t + s[ns - 1].dur));
    ns++;
    VF_ASSERT(ngx_live_segment_list_add(l, idx, t, dur) == NGX_OK, "add");
}

#ifdef PERSIST
static void persist(void)
{
    ngx_persist_write_ctx_t *w; ngx_live_persist_snap_t snap; ngx_live_segment_list_t *l2; ngx_chain_t *cl; size_t size, n = 0; u_char *flat; int a, b, cut, lo, hi, i, p0;
    ngx_live_channel_t *ch; ngx_str_t buf; ngx_mem_rstream_t rs, blk; ngx_persist_block_hdr_t *h; ngx_live_persist_index_scope_t sc; ngx_pool_t *pool;
    ch = vf_zalloc(sizeof(*ch));
    l2 = vf_zalloc(sizeof(*l2));
    ngx_live_segment_list_init(ch, 0, l2);
    a = vf_pick(ns > 8 ? ns - 4 : 0, ns - 1); if (ns > 8 && vf_cbool()) a = vf_cbool(); b = vf_pick(a > ns - 4 ? a : ns > 8 ? ns - 4 : a, ns - 1); cut = vf_pick(a > ns - 4 ? a : ns > 8 ? ns - 4 : a, b);
    /* one or two snapshots: a..cut, cut+1..b */
    for (i = 0; i < 2; i++) {
        lo = i ? cut + 1 : a; hi = i ? b : cut;
        if (lo > hi) break;
        snap.scope.min_index = s[lo].idx; snap.scope.max_index = s[hi].idx;
        pool = ngx_create_pool(512, &vf_log);
        w = ngx_persist_write_init(pool, 0x1234, 0);
        ((ngx_persist_write_base_t *) w)->ctx = &snap;
        VF_ASSERT(ngx_live_segment_list_write_periods(w, l) == NGX_OK, "write");
        cl = ngx_persist_write_close(w, &size, NULL);
        flat = vf_malloc(size);
        for (n = 0; cl; cl = cl->next) { ngx_memcpy(flat + n, cl->buf->pos, cl->buf->last - cl->buf->pos); n += cl->buf->last - cl->buf->pos; }
        ngx_destroy_pool(pool);
        sc.min_index = s[lo].idx; sc.max_index = s[hi].idx;
        buf.data = flat; buf.len = size;
        VF_ASSERT(ngx_persist_read_file_header(&buf, 0x1234, &vf_log, &sc, &rs) == NGX_OK, "file");
        l2->is_first = 1;
        while (!ngx_mem_rstream_eof(&rs)) {
            h = ngx_persist_read_block(&rs, &blk);
            VF_ASSERT(h != NULL && ngx_memcmp(h->id, "slpd", 4) == 0, "period block");
            VF_ASSERT(ngx_live_segment_list_read_period(h, &blk, l2) == NGX_OK, "read period");
        }
        if (i) VF_REACH("two snapshots");
    }
    p0 = s[a].per;
    (void) p0;
    VF_ASSERT(l2->segment_count == (uint32_t) (b - a + 1), "segment count restored");
    check(l2, a, b + 1, a);
    VF_REACH("restored");
}
#endif

void harness(void)
{
    ngx_live_channel_t *ch; int i, k, m, pend = 0; int64_t t; uint32_t idx; ngx_live_segment_iter_t it; int64_t tt;
    vf_ngx_init();
    bp_size[0] = ngx_live_segment_list_get_node_size();
    ch = vf_zalloc(sizeof(*ch));
    l = vf_zalloc(sizeof(*l));
    VF_ASSERT(ngx_live_segment_list_init(ch, 0, l) == NGX_OK, "init");
#ifdef FILL
    d[0] = 2000; d[1] = 3000;
    t = 1000; idx = 7;
    k = 118 - vf_pick(0, 2);
    for (i = 0; i < k; i++) { push(idx++, t, d[i & 1]); t += d[i & 1]; }
#else
    if (vf_cbool()) { d[0] = 2000; d[1] = 3001; } else { d[0] = 0x80000000; d[1] = 1; }
    t = d[1] == 1 ? 0 : 1ll << 40;
    idx = d[1] == 1 ? 0 : 0xfffffff0;
#endif
    for (i = 0; i < OPS; i++) {
        k = vf_pick(0, 4);
        if (pend) {
            pend = 0;
            m = vf_pick(0, 1);
            s[ns - 1].dur = d[m]; t += d[m];
            VF_ASSERT(ngx_live_segment_list_update_last(l, d[m]) == NGX_OK, "pending segment completed");
            VF_REACH("pending");
            continue;
        }
        switch (k) {
        case 2: if (ns) idx++; k = 0; break;
        case 3: if (ns) { t += vf_cbool() ? 1 : 90000; } k = 1; break;
        case 4: if (ns && vf_cbool()) { t += 5; VF_REACH("pending after a gap"); } push(idx++, t, 0); pend = 1; continue;
        }
        push(idx++, t, d[k]); t += d[k];
    }
    VF_ASSERT(l->segment_count == (uint32_t) ns, "segment count");
    if (pend) { s[ns - 1].dur = 0; }
    if (!ns) return;
#ifdef PERSIST
    if (pend) return;
    persist();
#else
    m = vf_pick(ns > 8 ? ns - 5 : 0, ns - 1); if (ns > 8 && vf_cbool()) m = 1;
    if (m) {
        VF_ASSERT(ngx_live_segment_iter_init(l, &it, s[m - 1].idx, 1, &tt) == NGX_OK, "found");
        ngx_live_segment_iter_get_one(&it);
    }
    ngx_live_segment_list_free_nodes(l, s[m].idx);
    if (m) { VF_ASSERT(ngx_live_segment_iter_peek(&it) == s[m].dur, "iterators at the removed edge stay valid"); VF_REACH("freed"); }
    VF_ASSERT(bp_live == (int) l->node_count, "nodes");
    check(l, m, ns, 0);
#endif
}
