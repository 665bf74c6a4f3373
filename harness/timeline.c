/*
 * Timelines: for any history of segments, expiry, truncation, inactivity and copies, a timeline
 * holds exactly the segments its configuration promises, manifest and sequence numbers included.
 */
#include "live_env.h"
#ifndef OPS
#define OPS 4
#endif
#define MAXS 10
#define NT 2
extern ngx_module_t ngx_live_timeline_module;
void ngx_live_notif_segment_publish_timeline(ngx_live_timeline_t *t, ngx_int_t rc) {}

static struct { uint32_t idx; int64_t t, dur; } s[MAXS]; static int ns;
typedef struct {
    ngx_live_timeline_t *tl; ngx_live_timeline_conf_t c; ngx_live_timeline_manifest_conf_t mc; int active;
    int k[MAXS], per[MAXS], mper[MAXS]; int64_t corr[MAXS], pt[MAXS]; int n, f, m; uint32_t seq; uint32_t target, tds; int64_t last_time; int created; int64_t removed; int last_created;
} ref_t;
static int restored_empty;
static ref_t r[NT]; static int nt;
static ngx_live_channel_t *ch; static int now; static int freed; static uint32_t free_idx;

static void on_event(ngx_live_channel_t *c, ngx_uint_t e, void *x) { if (e == NGX_LIVE_EVENT_CHANNEL_SEGMENT_FREE) { freed++; free_idx = (uintptr_t) x; } }
static void set_now(int t) { now = t; ((ngx_time_t *) ngx_cached_time)->sec = t; }

static int64_t sum(ref_t *q, int a) { int64_t d = 0; for (; a < q->n; a++) d += s[q->k[a]].dur; return d; }
/* expiry of old segments: base is what elapsed since the last segment of an inactive timeline */
static void ref_remove(ref_t *q, uint32_t bc, uint64_t bd)
{
    while (q->m < q->n) {
        if (vf_concretize(q->n - q->m + (uint64_t) bc <= q->mc.max_segments && sum(q, q->m) + bd <= q->mc.max_duration)) break;
        if (q->mc.end_list == ngx_live_end_list_off && vf_concretize(sum(q, q->m + 1) < 3ll * q->target)) break;
        q->m++;
    }
    while (q->f < q->m) {
        if (vf_concretize(q->n - q->f + (uint64_t) bc <= q->c.max_segments && sum(q, q->f) + bd <= q->c.max_duration)) break;
        q->removed += s[q->k[q->f]].dur; q->f++;
    }
}
static void ref_inactive(ref_t *q)
{
    uint64_t d = sum(q, q->f), e;
    if (now <= q->created || vf_concretize(d == 0)) return;
    e = (uint64_t) (now - q->created) * 1000;
    ref_remove(q, vf_concretize(e * (q->n - q->f) / d), e);
}
static void ref_post(ref_t *q, uint32_t dur)
{
    if (q->mc.target_duration_segments == 0 || q->mc.target_duration_segments > q->tds) { q->tds++; if (vf_concretize(dur > q->target)) q->target = dur; }
}
static void ref_add(ref_t *q, int j, int force)
{
    int64_t mid = s[j].t + (s[j].dur) / 2; int brk, p;
    if (!q->active || mid < q->c.start) { ref_inactive(q); return; }
    if (mid >= q->c.end) { q->active = 0; ref_inactive(q); return; }
    p = q->n - 1;
    brk = force || q->f == q->n;
    if (!brk) { int l = q->k[p]; brk = s[j].idx != s[l].idx + 1 || vf_concretize(s[j].t != s[l].t + s[l].dur); }
    q->k[q->n] = j;
    q->per[q->n] = p < 0 ? 0 : q->per[p] + brk;
    q->mper[q->n] = p < 0 ? 0 : q->mper[p] + (brk || q->m == q->n);
    if (brk) q->corr[q->n] = q->c.period_gap != -1 && q->last_time ? q->last_time + q->c.period_gap - s[j].t : 0;
    else q->corr[q->n] = q->corr[p];
    q->last_time = s[j].t + s[j].dur + q->corr[q->n];
    q->n++;
    ref_remove(q, 0, 0);
    if (q->m == q->n) return;
    if (s[j].dur) ref_post(q, s[j].dur);
    q->seq++; q->created = now;
}

static void check_fields(ref_t *q)
{
    ngx_live_timeline_t *t = q->tl; ngx_live_manifest_timeline_t *m = &t->manifest; int i, np; int64_t d;
    VF_ASSERT(t->segment_count == (uint32_t) (q->n - q->f) && t->duration == (uint64_t) sum(q, q->f), "segments kept");
    for (np = 0, i = q->f; i < q->n; i++) np += i == q->f || q->per[i] != q->per[i - 1];
    VF_ASSERT(t->period_count == (uint32_t) np, "periods kept");
    VF_ASSERT(m->segment_count == (uint32_t) (q->n - q->m) && m->duration == (uint64_t) sum(q, q->m), "segments in the manifest");
    for (np = 0, i = q->m; i < q->n; i++) np += i == q->m || q->mper[i] != q->mper[i - 1];
    VF_ASSERT(m->period_count == (uint32_t) np, "periods in the manifest");
    VF_ASSERT(m->sequence == q->seq, "media sequence");
    VF_ASSERT(m->target_duration == q->target, "target duration");
    VF_ASSERT(t->conf.active == (unsigned) q->active, "active");
    VF_ASSERT(t->last_segment_created == q->created, "created time");
    VF_ASSERT(t->removed_duration == (uint64_t) q->removed, "removed duration");
    if (q->n > q->m) {
        VF_ASSERT(m->first_period.node.key == s[q->k[q->m]].idx && m->first_period.time == s[q->k[q->m]].t, "first segment of the manifest");
        if (!restored_empty) VF_ASSERT(m->first_period_index == (uint32_t) q->mper[q->m], "period numbers stay stable");
        for (i = q->m; i > 0 && q->mper[i - 1] == q->mper[q->m]; i--) ;
        VF_ASSERT(m->first_period_initial_segment_index == s[q->k[i]].idx && m->first_period_initial_time == s[q->k[i]].t, "start of the first period");
        VF_REACH("manifest");
        if (q->m > 0) VF_REACH("manifest window moved");
    } else if (!restored_empty) VF_ASSERT(m->first_period_index == (q->n ? (uint32_t) q->mper[q->n - 1] + 1 : 0), "period index of an empty manifest");
    d = 0;
    for (i = q->n - 1; i >= q->f; i--) { d += s[q->k[i]].dur; }
    (void) d;
}
static void check_periods(ref_t *q)
{
    ngx_live_timeline_t *t = q->tl; ngx_queue_t *x; ngx_live_period_t *p; ngx_live_segment_iter_t it; int i, pass; uint32_t j; uint64_t d;
    for (pass = 0; pass < 2; pass++) {
        i = pass ? q->m : q->f;
        if (pass && i == q->n) return;
        x = pass ? &t->manifest.first_period.queue : ngx_queue_head(&t->periods);
        for (; x != ngx_queue_sentinel(&t->periods); x = ngx_queue_next(x)) {
            p = ngx_queue_data(x, ngx_live_period_t, queue);
            VF_ASSERT(i < q->n, "more periods than segments");
            VF_ASSERT(p->node.key == s[q->k[i]].idx && p->time == s[q->k[i]].t && p->segment_count > 0, "period start");
            it = p->segment_iter; d = 0;
            for (j = 0; j < p->segment_count; j++, i++) {
                VF_ASSERT(i < q->n && s[q->k[i]].idx == p->node.key + j, "segments of the period");
                if (s[q->k[i]].dur || j + 1 < p->segment_count) VF_ASSERT(ngx_live_segment_iter_get_one(&it) == s[q->k[i]].dur, "duration of the segment");
                d += s[q->k[i]].dur;
            }
            VF_ASSERT(p->duration == d, "period duration");
            if (!pass) VF_ASSERT(p->correction == q->corr[i - 1], "period correction");
            if (i < q->n) VF_REACH("second period");
        }
        VF_ASSERT(i == q->n, "all segments listed");
    }
}
static void check_lookup(ref_t *q)
{
    uint32_t idx, sq, rc; int i, rel; int64_t c; ngx_flag_t e;
    if (ns == 0) return;
    idx = s[0].idx - 1 + vf_pick(0, s[ns - 1].idx - s[0].idx + 2);
    for (i = q->f; i < q->n; i++) if (s[q->k[i]].idx == idx) break;
    rel = vf_cbool();
    rc = ngx_live_timeline_get_segment_info(q->tl, idx, rel ? NGX_KSMP_FLAG_RELATIVE_DTS : 0, &c);
    if (i < q->n) {
        VF_ASSERT(rc == NGX_KSMP_ERR_SUCCESS, "segment of the timeline is found");
        if (!rel) VF_ASSERT(c == q->corr[i], "correction");
        else {
            int b = i; while (b > 0 && q->per[b - 1] == q->per[i]) b--;
            VF_ASSERT(c == -s[q->k[b]].t, "relative to the period start");
        }
        e = 0;
        sq = ngx_live_timeline_index_to_sequence(q->tl, idx, &e);
        VF_ASSERT(e && sq == q->seq - (q->n - i), "sequence of the segment");
        VF_ASSERT(ngx_live_timeline_sequence_to_index(q->tl, sq) == idx, "segment of the sequence");
        VF_REACH("lookup");
    } else {
        VF_ASSERT(rc == (q->f == q->n ? NGX_KSMP_ERR_TIMELINE_EMPTY : idx >= 5 && idx < s[q->k[q->f]].idx ? NGX_KSMP_ERR_SEGMENT_REMOVED : NGX_KSMP_ERR_SEGMENT_NOT_FOUND), "error of a missing segment");
        e = 1;
        ngx_live_timeline_index_to_sequence(q->tl, idx, &e);
        VF_ASSERT(!e, "missing segment has no sequence");
        VF_REACH("missing");
    }
}
static void check_time(ref_t *q)
{
    int64_t t, off, g; int i, j, k, end, gap; uint32_t x; ngx_int_t rc;
    if (q->f == q->n) { t = 0; VF_ASSERT(ngx_live_timeline_get_time(q->tl, NGX_KSMP_FLAG_TIME_START_RELATIVE, &vf_log, &t) != NGX_OK, "no time in an empty timeline"); return; }
    /* a time inside a segment given by its offset from the start / end of the timeline, gaps between the periods excluded */
    end = vf_cbool(); gap = vf_cbool(); i = vf_pick(q->f, q->n - 1);
    if (s[q->k[i]].dur == 0) return;
    g = gap && q->c.period_gap > 0 ? q->c.period_gap : 0;
    x = vf_u32(); VF_ASSUME(x < s[q->k[i]].dur);
    for (off = 0, j = q->f; j < i; j++) { off += s[q->k[j]].dur; if (q->per[j + 1] != q->per[j]) off += g; }
    off += x;
    if (end) {
        for (k = i, off = s[q->k[i]].dur - x; k < q->n - 1; k++) { off += s[q->k[k + 1]].dur; if (q->per[k + 1] != q->per[k]) off += g; }
    }
    t = off;
    rc = ngx_live_timeline_get_time(q->tl, (end ? NGX_KSMP_FLAG_TIME_END_RELATIVE : NGX_KSMP_FLAG_TIME_START_RELATIVE) | (gap ? NGX_KSMP_FLAG_TIME_USE_PERIOD_GAP : 0), &vf_log, &t);
    VF_ASSERT(rc == NGX_OK, "get time");
    /* end relative: the end of a period and the start of the next are the same offset */
    if (!(end && x == 0)) VF_ASSERT(t == s[q->k[i]].t + x, "absolute time");
    VF_REACH("time");
}

static void mk(int variant, ngx_live_timeline_conf_t *c, ngx_live_timeline_manifest_conf_t *m)
{
    ngx_live_timeline_conf_default(c, m);
    m->end_list = ngx_live_end_list_on;
    switch (variant) {
    case 0: break;                                                                        /* unlimited */
    case 1: c->max_segments = 2; c->period_gap = 5; break;
    case 2: c->max_duration = 5000; m->max_segments = 2; break;
    case 3: m->max_segments = 1; m->end_list = ngx_live_end_list_off; c->max_segments = 2; m->target_duration_segments = 1; break;
    case 4: c->start = 3500; c->end = 7500; c->period_gap = 0; c->no_truncate = 1; break;
    case 5: c->max_segments = 3; m->max_duration = 4000; break;
    }
}
static ref_t *create(int variant, char *name)
{
    ref_t *q = &r[nt]; ngx_str_t id; ngx_int_t rc; ngx_live_timeline_t *t2;
    mk(variant, &q->c, &q->mc); q->active = 1;
    id.data = (u_char *) name; id.len = 2;
    rc = ngx_live_timeline_create(ch, &id, &q->c, &q->mc, &vf_log, &q->tl);
    VF_ASSERT(rc == NGX_OK, "create");
    q->active = q->c.active;
    VF_ASSERT(ngx_live_timeline_create(ch, &id, &q->c, &q->mc, &vf_log, &t2) == NGX_EXISTS && t2 == q->tl, "same id");
    q->seq = ch->next_segment_index; q->created = 0;
    nt++;
    return q;
}
static void check_free(void)
{
    uint32_t x = ch->next_segment_index; int i;
    for (i = 0; i < nt; i++) if (r[i].f < r[i].n && s[r[i].k[r[i].f]].idx < x) x = s[r[i].k[r[i].f]].idx;
    VF_ASSERT(free_idx == x && ch->min_segment_index == x, "segments are freed up to the oldest one a timeline needs");
}
static void add(int64_t t, uint32_t dur, int force)
{
    int i, any = 0; uint32_t q0[NT]; ngx_int_t rc;
    VF_ASSERT(ns < MAXS, "harness size");
    s[ns].idx = ch->next_segment_index; s[ns].t = t; s[ns].dur = dur; ns++;
    for (i = 0; i < nt; i++) { q0[i] = r[i].seq; ref_add(&r[i], ns - 1, force); any |= q0[i] != r[i].seq; }
    freed = 0;
    rc = ngx_live_timelines_add_segment(ch, t, s[ns - 1].idx, dur, force);
    VF_ASSERT(rc == (any ? NGX_OK : NGX_DONE), "add segment");
    VF_ASSERT(freed == 1, "old segments freed");
    check_free();
}
static void update_last(uint32_t dur)
{
    int i;
    s[ns - 1].dur = dur;
    for (i = 0; i < nt; i++) if (r[i].n && r[i].k[r[i].n - 1] == ns - 1) { if (r[i].f < r[i].n) { r[i].last_time += dur; if (r[i].m < r[i].n) ref_post(&r[i], dur); } }
    VF_ASSERT(ngx_live_timelines_update_last_segment(ch, dur) == NGX_OK, "update last");
}
#ifdef COPY
static void copy(void)
{
    ref_t *a = &r[0], *q = &r[1]; int i, p; int64_t st, en; ngx_int_t rc; int64_t lt = 0;
    mk(0, &q->c, &q->mc);
    q->c.start = vf_pick(0, 5) * 1000; q->c.end = q->c.start + 1 + vf_pick(0, 4) * 1500;
    switch (vf_pick(0, 2)) { case 1: q->c.period_gap = 7; break; case 2: q->c.max_segments = 2; break; }
    q->active = 1;
    { ngx_str_t id = ngx_string("cc"); rc = ngx_live_timeline_create(ch, &id, &q->c, &q->mc, &vf_log, &q->tl); }
    VF_ASSERT(rc == NGX_OK, "create");
    q->active = q->c.active; q->seq = ch->next_segment_index;
    st = q->c.start; en = q->c.end;
    nt++;
    rc = ngx_live_timeline_copy(q->tl, a->tl, &vf_log);
    VF_ASSERT(rc == NGX_OK, "copy");
    /* a segment belongs to [start, end) by its middle, as when it is added live */
    for (i = a->f; i < a->n; i++) {
        int j = a->k[i]; int64_t mid = s[j].t + (s[j].dur + 1) / 2;
        if (mid < st + 1 && !(s[j].t >= st)) continue;
        (void) mid;
        if (s[j].t < st ? st - s[j].t >= s[j].dur - s[j].dur / 2 : 0) continue;
        if (s[j].t >= en || (en - s[j].t < s[j].dur - s[j].dur / 2)) continue;
        p = q->n - 1;
        q->k[q->n] = j; q->per[q->n] = p < 0 ? 0 : q->per[p] + (a->per[i] != a->per[i - 1]);
        if (p < 0 || a->per[i] != a->per[i - 1]) q->corr[q->n] = q->c.period_gap != -1 && lt ? lt + q->c.period_gap - s[j].t : 0; else q->corr[q->n] = q->corr[p];
        q->mper[q->n] = q->per[q->n];
        lt = s[j].t + s[j].dur + q->corr[q->n];
        q->n++;
    }
    if (q->n) {
        VF_REACH("copied");
        q->created = a->created; q->last_time = lt; q->tds = q->n;
        for (i = 0; i < q->n; i++) if (s[q->k[i]].dur > q->target) q->target = s[q->k[i]].dur;
        q->active = q->c.active;
        if (q->active) ref_remove(q, 0, 0); else ref_inactive(q);
        if (q->f) VF_REACH("copy expired");
    }
}
#endif

#ifdef PERSIST
static ref_t snap_ref; static ngx_live_persist_snap_index_t *snap;
static u_char *file[2]; static size_t file_len[2]; static uint32_t lo[2], hi[2];
static void snapshot(uint32_t min)
{
    snap = vf_zalloc(sizeof(*snap)); snap->ctx = vf_zalloc(sizeof(void *) * LIVE_MAX_MODULE);
    snap->base.channel = ch; snap->base.pool = &vf_pool; snap->base.scope.min_index = min; snap->base.scope.max_index = ch->next_segment_index - 1;
    VF_ASSERT(ngx_live_core_channel_event(ch, NGX_LIVE_EVENT_CHANNEL_INDEX_PRE_SNAP, snap) == NGX_OK, "snap");
    snap_ref = r[0];
}
static void write_snap(int i)
{
    lo[i] = snap->base.scope.min_index; hi[i] = snap->base.scope.max_index;
    file[i] = live_write(NGX_LIVE_PERSIST_CTX_INDEX_CHANNEL, 0x1234, snap, ch, &file_len[i]);
}
static void restore(int nf)
{
    ngx_live_channel_t *c2; u_char *su; size_t su_len; int i; ngx_str_t id = ngx_string("t0"); ngx_live_persist_index_scope_t sc; ref_t *q = &r[0], b = r[0];
    su = live_write(NGX_LIVE_PERSIST_CTX_SETUP_CHANNEL, 0x4321, NULL, ch, &su_len);
    c2 = live_channel("c2");
    c2->conf.initial_segment_index = c2->next_segment_index = 5; c2->active = 1;
    VF_ASSERT(live_read(NGX_LIVE_PERSIST_CTX_SETUP_CHANNEL, 0x4321, NULL, c2, su, su_len) == NGX_OK, "read setup");
    for (i = 0; i < nf; i++) {
        sc.min_index = lo[i]; sc.max_index = hi[i];
        c2->next_segment_index = hi[i] + 1;
        VF_ASSERT(live_read(NGX_LIVE_PERSIST_CTX_INDEX_CHANNEL, 0x1234, &sc, c2, file[i], file_len[i]) == NGX_OK, "read index");
    }
    VF_ASSERT(ngx_live_core_channel_event(c2, NGX_LIVE_EVENT_CHANNEL_READ, NULL) == NGX_OK, "channel read");
    q->tl = ngx_live_timeline_get(c2, &id);
    VF_ASSERT(q->tl != NULL, "timeline restored");
    /* as of the snapshot, without what expired or was removed until the file was written */
    q->n = snap_ref.n; q->seq = snap_ref.seq; q->target = snap_ref.target; q->tds = snap_ref.tds; q->created = snap_ref.created; q->last_time = snap_ref.last_time;
    if (q->f > q->n) q->f = q->n;
    if (snap_ref.m == snap_ref.n || q->f == q->n) { q->m = q->n; restored_empty = 1; }
    else if (q->m > q->n - 1) { q->m = q->n - 1; VF_REACH("manifest past the snapshot"); }
    while (ns && s[ns - 1].idx > hi[nf - 1]) ns--;
    q->active = b.c.active && b.active;
    q->active = q->tl->conf.active; q->removed = b.removed;
    ch = c2;
    VF_REACH("restored");
}
#endif
#ifdef SERVE
static void serve(ref_t *q)
{
    ngx_live_persist_serve_scope_t sc; u_char *p; size_t len; ngx_str_t buf, id; ngx_mem_rstream_t rs, blk, b2; ngx_persist_block_hdr_t *h; ngx_ksmp_timeline_header_t th; ngx_ksmp_period_header_t ph; ngx_ksmp_segment_repeat_t sr;
    int i, j, last, first, np, skip = 0, e; uint32_t c; int64_t d; ngx_live_track_t *tr;
    if (q->m == q->n) return;
    memset(&sc, 0, sizeof(sc));
    sc.channel = ch; sc.timeline = q->tl; sc.flags = NGX_KSMP_FLAG_TIMELINE | NGX_KSMP_FLAG_PERIODS;
    sc.si.index = NGX_LIVE_INVALID_SEGMENT_INDEX;
    last = vf_pick(q->m, q->n - 1);     /* last segment in scope */
    sc.max_index = s[q->k[last]].idx;
    q->mc.end_list = q->tl->manifest.conf.end_list = vf_pick(0, 2);
    tr = NULL;
    switch (vf_pick(0, 3)) {
    case 1: skip = vf_pick(1, 3) * 50; sc.flags |= NGX_KSMP_FLAG_SKIP_SEGMENTS; sc.skip_boundary_percent = skip; break;
    case 2: tr = vf_zalloc(sizeof(*tr)); sc.track = tr; tr->pending_index = vf_pick(0, 1); tr->has_pending_segment = 1; ch->next_segment_index -= tr->pending_index; break;
    case 3: tr = vf_zalloc(sizeof(*tr)); sc.track = tr; tr->pending_index = 0; tr->has_pending_segment = 1; ch->next_segment_index = s[q->k[q->n - 1]].idx; skip = 100; sc.flags |= NGX_KSMP_FLAG_SKIP_SEGMENTS; sc.skip_boundary_percent = skip; break;
    }
    p = live_write(NGX_LIVE_PERSIST_CTX_SERVE_CHANNEL, 0x1111, &sc, ch, &len);
    buf.data = p; buf.len = len;
    VF_ASSERT(ngx_persist_read_file_header(&buf, 0x1111, &vf_log, NULL, &rs) == NGX_OK, "file");
    h = ngx_persist_read_block(&rs, &blk);
    VF_ASSERT(h != NULL && ngx_mem_rstream_eof(&rs), "timeline block");
    VF_ASSERT(ngx_mem_rstream_str_get(&blk, &id) == NGX_OK && id.len == 2 && id.data[0] == 't' && ngx_mem_rstream_read(&blk, &th, sizeof(th)) == NGX_OK, "timeline header");
    VF_ASSERT(ngx_persist_read_skip_block_header(&blk, h) == NGX_OK, "header");
    /* header */
    VF_ASSERT(th.sequence == q->seq - (q->n - q->m), "media sequence of the first segment");
    VF_ASSERT(th.target_duration == (q->target ? q->target : ch->segment_duration), "target duration");
    e = q->mc.end_list != ngx_live_end_list_off;
    if (e && last < q->n - 1 && (q->mc.end_list == ngx_live_end_list_on || sc.max_index < ch->next_segment_index - 1)) e = 0;
    if (e && q->mc.end_list == ngx_live_end_list_on && (s[q->k[q->n - 1]].dur == 0 || s[q->k[q->n - 1]].idx >= ch->next_segment_index + (tr ? tr->pending_index : 0))) e = 0;
    VF_ASSERT(th.end_list == (uint32_t) e, "end list");
    if (e) { skip = 0; VF_REACH("end list"); }
    /* periods */
    first = q->m + th.skipped_segments;
    VF_ASSERT(th.skipped_segments == 0 || (skip && first <= last), "only old segments are skipped");
    if (th.skipped_segments) {
        VF_ASSERT(th.last_skipped_index == s[q->k[first - 1]].idx, "last skipped index");
        VF_REACH("skipped");
    } 
    /* what is skipped is older than the boundary, and nothing newer is */
    if (skip) {
        int64_t out = skip * (int64_t) ((q->target + 500) / 1000 * 1000) / 100; int l = last;
        if (tr && tr->has_pending_segment && sc.max_index >= ch->next_segment_index + tr->pending_index) l--;
        d = 0; for (i = first; i <= l; i++) d += s[q->k[i]].dur;
        if (th.skipped_segments) VF_ASSERT(d >= out, "nothing newer than the boundary is skipped");
        /* the server may leave out the newest segment when it measures the distance */
        if (out > 0 && first < l) VF_ASSERT(d - s[q->k[first]].dur - s[q->k[l]].dur <= out || s[q->k[first]].dur == 0, "segments older than the boundary are skipped");
    }
    for (np = 0, i = q->m + 1; i <= first; i++) np += q->mper[i] != q->mper[i - 1];
    VF_ASSERT(th.skipped_periods == (uint32_t) np && th.first_period_index == (uint32_t) q->mper[first], "period index");
    for (i = first; i > 0 && q->mper[i - 1] == q->mper[first]; i--) ;
    VF_ASSERT(th.first_period_initial_segment_index == s[q->k[i]].idx && th.first_period_initial_time == s[q->k[i]].t, "start of the first period");
    i = first; np = 0;
    while (!ngx_mem_rstream_eof(&blk)) {
        h = ngx_persist_read_block(&blk, &b2);
        VF_ASSERT(h != NULL && ngx_mem_rstream_read(&b2, &ph, sizeof(ph)) == NGX_OK, "period");
        VF_ASSERT(ngx_persist_read_skip_block_header(&b2, h) == NGX_OK, "period header");
        np++;
        VF_ASSERT(i <= last && ph.segment_index == s[q->k[i]].idx && ph.time == s[q->k[i]].t, "first segment of the period");
        for (j = i; !ngx_mem_rstream_eof(&b2); ) {
            VF_ASSERT(ngx_mem_rstream_read(&b2, &sr, sizeof(sr)) == NGX_OK && sr.count > 0, "segments");
            for (c = 0; c < sr.count; c++, i++) {
                int64_t x;
                VF_ASSERT(i <= last && (i == j || q->mper[i] == q->mper[i - 1]), "segments in scope");
                x = s[q->k[i]].dur;
                if (tr && tr->has_pending_segment && i == last && sc.max_index >= ch->next_segment_index + tr->pending_index) { x = 0; VF_REACH("pending on the track"); }
                VF_ASSERT(sr.duration == x, "duration");
            }
        }
        VF_ASSERT(i > j && (i > last || q->mper[i] != q->mper[i - 1]), "end of the period");
    }
    VF_ASSERT(i == last + 1 && th.period_count == (uint32_t) np, "all the segments in scope are listed");
    VF_REACH("served");
}
#endif

void harness(void)
{
    static ngx_module_t *mods[] = { &ngx_live_timeline_module }; int i, n, v, pend = 0; int64_t t; uint32_t d, g; ref_t *q;
    live_env_init(mods, 1);
    live_on_channel_event = on_event;
    ch = live_channel("ch");
    ch->active = 1; ch->next_segment_index = ch->conf.initial_segment_index = 5;
    set_now(100);
#ifdef COPY
    v = 0;
#else
    v = vf_pick(0, 5);
#endif
    create(v, "t0");
    t = 1000;
    n = vf_pick(1, OPS);
#ifdef PERSIST
    int mode = vf_pick(1, 3), e = mode == 1 ? n : vf_pick(1, n - 1 > 0 ? n - 1 : 1), taken = 0;    /* one file; one written late; two files */
#endif
    for (i = 0; i < n; i++) {
#ifdef PERSIST
        if (i == e) {
            if (pend || ns == 0) return;
            taken = 1; snapshot(5); if (mode == 3) write_snap(0);
        }
#endif
        if (pend) {
            pend = 0;
            d = vf_cbool() ? 2000 : 3000;
            update_last(d); t += d; ch->next_segment_index++;
            continue;
        }
        switch (vf_pick(0, 5)) {
        case 0: d = 2000; set_now(now + 2); add(t, d, 0); t += d; ch->next_segment_index++; break;
        case 1: d = 1000; set_now(now + 2); add(t, d, 0); t += d; ch->next_segment_index++; break;
#ifndef COPY
        case 2: 
#if defined(SERVE) || defined(PERSIST) || defined(GAPS)
            g = vf_cbool() ? 146 : 3000;
#else
            g = vf_u32(); VF_ASSUME(g < 5000);
#endif
            d = 2000; t += g; add(t, d, vf_cbool()); t += d; ch->next_segment_index++; VF_REACH("gap"); break;
        case 3: add(t, 0, 0); pend = 1; VF_REACH("pending"); break;
        case 4: /* inactive */
            ch->active = 0; set_now(now + 1 + vf_pick(0, 1) * 3);
            ch->next_segment_index += vf_pick(0, 1);
            for (v = 0; v < nt; v++) ref_inactive(&r[v]);
            ngx_live_timelines_cleanup(ch); check_free(); ch->active = 1; VF_REACH("inactive"); break;
        case 5: if (ns == 0) return;
            g = s[vf_pick(0, ns - 1)].idx;
            ngx_live_timelines_truncate(ch, g);
            for (v = 0; v < nt; v++) if (!r[v].c.no_truncate) { q = &r[v]; while (q->m < q->n && s[q->k[q->m]].idx <= g) q->m++; while (q->f < q->n && s[q->k[q->f]].idx <= g) { q->removed += s[q->k[q->f]].dur; q->f++; } }
            VF_REACH("truncated"); break;
#else
        case 2: d = 2000; t += 1500; add(t, d, 0); t += d; ch->next_segment_index++; VF_REACH("gap"); break;
        case 3: case 4: case 5: return;
#endif
        }
    }
#ifdef COPY
    copy();
#endif
#ifdef PERSIST
    if (pend || ns == 0) return;
    if (!taken) { if (mode != 1) return; snapshot(5); }
    i = 1;
    if (mode != 3) write_snap(0);
    else { if (ch->next_segment_index == hi[0] + 1 || snap_ref.f != r[0].f) return;   /* segments that expired since the full file reappear */
        snapshot(hi[0] + 1); write_snap(1); i = 2; VF_REACH("delta"); }
    restore(i);
    if (vf_cbool()) { q = &r[0]; q->active = q->tl->conf.active; t = s[ns - 1].t + s[ns - 1].dur; add(t, 2000, 0); VF_REACH("segment added after restart"); }
#endif
    q = &r[nt - 1];
#ifdef SERVE
    serve(q); return;
#endif
    switch (vf_pick(0, 3)) {
    case 0: check_fields(q); break;
    case 1: check_periods(q); break;
    case 2: check_lookup(q); break;
    case 3: check_time(q); break;
    }
}
