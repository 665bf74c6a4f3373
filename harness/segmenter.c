/*
 * Segmenter: whatever the tracks send (GOP patterns, jumps of the timestamps, media info changes,
 * reconnections, inactivity), the frames come out exactly once, in order, in segments that start
 * with a key frame, follow each other in the timeline and never mix two sides of a discontinuity.
 */
#include "live_env.h"
#ifndef MODE
#define MODE 0
#endif
/* 0 regular video, 1 video with an event, 2 video and audio, 3 two videos, 4 video and subtitles, 5 audio only, 6 video and audio, one ends / joins */
#define MAXF 96
#define MAXT 2
extern ngx_module_t ngx_live_segmenter_module;
static ngx_live_channel_t *ch; static ngx_live_track_t *tr[MAXT]; static int nt;
static struct { int64_t dts, pts; int key, mi, size, st; ngx_buf_chain_t *h, *t; } fr[MAXT][MAXF];
static int nf[MAXT], sent[MAXT], next[MAXT];               /* frames: in the script, pushed, consumed */
static uint64_t base_id[MAXT]; static uint64_t acked[MAXT];
static ngx_live_media_info_t mi_obj[MAXT][4]; static struct { int mi, at; } mpend[MAXT][4]; static int nmp[MAXT], cur_mi[MAXT];
static struct { int has, a, n, drop; } cs[MAXT], ps[MAXT];
static struct { int64_t start, end; int force; } sg[64]; static int nseg;
static int64_t shift[MAXT]; static int back, broke; static int refuse_ok, calm, cut_ready, ended, drops_ok; static int fd, fda; static int64_t discont_pts; static char dummy_input[8192];
static u_char data[MAXT][MAXF][4];

static int discont(int t, int j)     /* a discontinuity before frame j that the segmenter sees */
{
    if (!(MODE == 1 || MODE == 6) || j == 0) return 0;
    if (nt && tr[t]->media_type == KMP_MEDIA_VIDEO && !fr[t][j].key) return 0;
    return vf_concretize(fr[t][j].pts < fr[t][j - 1].pts || fr[t][j].pts > fr[t][j - 1].pts + 10000);
}
static int tindex(ngx_live_track_t *x) { return x == tr[0] ? 0 : 1; }

/* ---- the modules around it ---- */
ngx_live_segment_t *ngx_live_segment_cache_create(ngx_live_track_t *track, uint32_t segment_index)
{
    ngx_live_segment_t *s = ngx_pcalloc(&vf_pool, sizeof(*s));
    VF_ASSERT(segment_index == (uint32_t) nseg, "segment index of a track segment");
    s->track = track; s->pool = &vf_pool;
    ngx_list_init(&s->frames, &vf_pool, 5, sizeof(ngx_live_frame_t));
    return s;
}
void ngx_live_segment_cache_free(ngx_live_segment_t *s) { VF_ASSERT(0, "segment discarded"); }
static ngx_live_frame_t *frame_at(ngx_live_segment_t *s, int i)
{
    ngx_list_part_t *p = &s->frames.part;
    for (; p; i -= p->nelts, p = p->next) if (i < (int) p->nelts) return (ngx_live_frame_t *) p->elts + i;
    return NULL;
}
void ngx_live_segment_cache_shift_dts(ngx_live_segment_t *s, uint32_t shift)
{
    int i; ngx_live_frame_t *f;
    s->start_dts -= shift; s->end_dts -= shift;
    for (i = 0; (f = frame_at(s, i)) != NULL; i++) f->pts_delay += shift;
}
ngx_int_t ngx_live_segment_cache_copy_chains(ngx_live_segment_t *s)
{
    s->data_head = ngx_live_channel_copy_chains(s->track->channel, s->data_head, s->data_size, &s->data_tail);
    return s->data_head ? NGX_OK : NGX_ERROR;
}
void ngx_live_segment_cache_free_input_bufs(ngx_live_track_t *track) {}
void ngx_live_segment_cache_finalize(ngx_live_segment_t *s, uint32_t *bitrate)
{
    int t = tindex(s->track), n = s->frame_count, x, k, mono = 1, sub = s->track->media_type == KMP_MEDIA_SUBTITLE; int64_t dts; ngx_buf_chain_t *c; ngx_live_frame_t *f; size_t left = 0;
    *bitrate = 1000;
    VF_ASSERT(n > 0, "segment without frames");
    for (x = sub ? 0 : next[t]; x < sent[t]; x++) if (sub ? s->data_head->data == data[t][x] : s->data_head == fr[t][x].h) break;
    VF_ASSERT(x < sent[t], "segment starts with a frame that was already used, or never arrived");
    VF_ASSERT(x + n <= sent[t], "segment frames exceed what arrived");
    cs[t].has = 1; cs[t].a = x; cs[t].n = n; cs[t].drop = 0;
    if (!sub) {
        for (k = next[t]; k < x; k++) if (fr[t][k].st == 1) { VF_ASSERT(drops_ok || nseg == 0, "frame lost"); cs[t].drop = 1; fr[t][k].st = 3; }
        next[t] = x + n;
    }
    if (s->track->media_type == KMP_MEDIA_VIDEO) VF_ASSERT(fr[t][x].key, "video segment does not start with a key frame");
    VF_ASSERT(s->media_info == &mi_obj[t][fr[t][x].mi], "segment media info");
    c = s->data_head; dts = s->start_dts;
    if (!sub) {
        /* the decoding times are moved back just enough for every frame so far, until the media info changes */
        if (x > 0 && ps[t].has && fr[t][x].mi != fr[t][ps[t].a].mi) shift[t] = 0, VF_REACH("shift reset");
        for (k = 0; k < n; k++) if (vf_concretize(fr[t][x + k].dts - fr[t][x + k].pts > shift[t])) { shift[t] = fr[t][x + k].dts - fr[t][x + k].pts; VF_REACH("shift"); }
        VF_ASSERT(dts == fr[t][x].dts - shift[t], "decoding time of a segment");
    }
    for (k = 0; k < n; k++) {
        f = frame_at(s, k);
        VF_ASSERT(f, "segment frame list");
        VF_ASSERT(sub || fr[t][x + k].st == 1, "frame in two segments");
        fr[t][x + k].st = 2;
        VF_ASSERT(f->size == (uint32_t) fr[t][x + k].size, "frame size");
        VF_ASSERT(f->key_frame == (unsigned) fr[t][x + k].key, "frame key flag");
        VF_ASSERT(fr[t][x + k].mi == fr[t][x].mi, "media info changes inside a segment");
        if (k > 0) {
            VF_ASSERT(!discont(t, x + k), "discontinuity inside a segment");
            if (MODE == 1 && vf_concretize(fr[t][x + k].dts < fr[t][x + k - 1].dts)) mono = 0;
        }
        if (mono && !sub) VF_ASSERT(dts + (int64_t) f->pts_delay == fr[t][x + k].pts, "frame presentation time");
        if (sub) VF_ASSERT(dts == fr[t][x + k].dts && dts + (int64_t) f->pts_delay == fr[t][x + k].pts, "cue time");
        if (!sub) VF_ASSERT((int32_t) f->pts_delay >= 0, "frame shown before it is decoded");
        dts += f->duration;
        for (left = fr[t][x + k].size; left > 0; c = c->next) {
            VF_ASSERT(c != NULL && c->size <= left, "segment data chain");
            VF_ASSERT(c->data == data[t][x + k] + (fr[t][x + k].size - left), "segment data of another frame");
            left -= c->size;
            VF_ASSERT(c != s->data_tail || (left == 0 && k == n - 1), "segment data tail");
        }
    }
    VF_ASSERT(frame_at(s, n) == NULL, "frame count");
    VF_ASSERT(c == NULL && s->data_tail->next == NULL, "segment data chain not terminated");
    for (k = 0, left = 0; k < n; k++) left += fr[t][x + k].size;
    VF_ASSERT(s->data_size == left, "segment data size");
    VF_ASSERT(s->end_dts == dts, "segment end");
    if (!mono) back = 1;
    if (!sub && x + n < sent[t] && mono && fr[t][x + n].st == 1 && !discont(t, x + n) && fr[t][x + n].mi == fr[t][x].mi && (MODE != 1 || !vf_concretize(fr[t][x + n].dts < fr[t][x + n - 1].dts)))
        VF_ASSERT(s->end_dts - s->start_dts == fr[t][x + n].dts - fr[t][x].dts, "segment duration");
    ngx_live_channel_buf_chain_free_list(ch, s->data_head, s->data_tail);
}
ngx_int_t ngx_live_timelines_add_segment(ngx_live_channel_t *c, int64_t time, uint32_t segment_index, uint32_t duration, ngx_flag_t force)
{
    int t, brk = 0, any = 0, same = 1, k; int64_t end = time + duration, b, best; 
    VF_ASSERT(segment_index == (uint32_t) nseg && nseg < 64, "timeline segment index");
    VF_ASSERT(nseg == 0 || time >= sg[nseg - 1].end, "segment starts before the previous one ended");
    VF_ASSERT(force || (nseg > 0 && time == sg[nseg - 1].end), "gap in the timeline without a new period");
    for (t = 0; t < nt; t++) {
        if (tr[t]->media_type == KMP_MEDIA_SUBTITLE) continue;
        if (cs[t].has != ps[t].has) { same = 0; if (ps[t].has) brk = 1; }
        if (!cs[t].has) continue;
        any = 1;
        if (cs[t].drop || !ps[t].has) same = 0;
        if (ps[t].has && (discont(t, cs[t].a) || fr[t][cs[t].a].mi != fr[t][ps[t].a].mi)) brk = 1;
        if (cs[t].drop && ps[t].has) brk = 1;
    }
    VF_ASSERT(any, "timeline segment without track segments");
    if (broke) brk = 1;
    broke = back; back = 0;
    VF_ASSERT(!brk || force, "discontinuity without a new period");
    if (calm && same && nseg > 0) VF_ASSERT(!force, "new period without a discontinuity");
    VF_REACH(force ? "period" : "segment");
    if (calm && cut_ready) {
        /* every track was ready: the first video decides */
        VF_REACH("cut");
        for (t = 0; t < nt; t++) {
            if (tr[t]->media_type == KMP_MEDIA_VIDEO) {
                best = -1; b = time + 4000;
                for (k = cs[t].a + 1; k < sent[t]; k++) if (fr[t][k].key) {
                    int64_t p = fr[t][k - 1].pts;
                    if (p < time + 100) continue;
                    if (best < 0 || (p > b ? p - b : b - p) < (best > b ? best - b : b - best)) best = p;
                }
                int64_t de = end > b ? end - b : b - end, db = best > b ? best - b : b - best, l = fr[t][cs[t].a + cs[t].n - 1].pts;
                VF_ASSERT(MODE == 3 ? de <= db + 40 : end == best, "segment does not end at the key frame nearest to the target duration");
                VF_ASSERT((MODE == 3 ? l <= end + 40 && l >= end - 40 && cs[t].n == cs[0].n : l == best) && fr[t][cs[t].a + cs[t].n].key, "video cut away from the segment end");
                VF_REACH("nearest key");
            } else if (tr[t]->media_type == KMP_MEDIA_AUDIO) {
                int l = cs[t].a + cs[t].n - 1; int64_t p = fr[t][l].pts, d = p > end ? p - end : end - p;
                VF_ASSERT(l + 1 < sent[t], "audio ran ahead");
                VF_ASSERT(fr[t][l + 1].pts - end > d && (cs[t].n == 1 || end - fr[t][l - 1].pts >= d), "audio not cut at the frame nearest to the segment end");
                VF_REACH("audio cut");
                if (MODE == 5) VF_ASSERT(duration == 4000, "audio only segment duration");
            }
        }
    }
#if MODE == 4
    {   /* cues: every cue that is shown during the segment is in it */
        for (k = 0; k < sent[1]; k++) {
            if (fr[1][k].dts < end && fr[1][k].pts >= time && (nseg > 0 || 1))
                VF_ASSERT(cs[1].has && k >= cs[1].a && k < cs[1].a + cs[1].n, "cue missing from a segment it is shown in"), VF_REACH("cue");
            else if (cs[1].has && fr[1][k].dts >= end) VF_ASSERT(k < cs[1].a || k >= cs[1].a + cs[1].n, "cue in a segment before it starts");
        }
    }
#endif
    sg[nseg].start = time; sg[nseg].end = end; sg[nseg].force = force; nseg++;
    for (t = 0; t < nt; t++) { ps[t] = cs[t]; cs[t].has = 0; }
    return nseg & 1 ? NGX_OK : NGX_DONE;
}
int64_t ngx_live_timelines_get_last_time(ngx_live_channel_t *c) { return 0; }
static int idx_exists;
ngx_int_t ngx_live_segment_index_create_ready(ngx_live_channel_t *c, ngx_flag_t exists) { VF_ASSERT(exists == (nseg & 1), "segment index exists"); idx_exists++; return NGX_OK; }
ngx_int_t ngx_live_media_info_pending_add(ngx_live_track_t *track, kmp_media_info_t *mi, ngx_buf_chain_t *ed, uint32_t size, uint32_t frame_index)
{
    int t = tindex(track), i = nmp[t], l = i > 0 ? mpend[t][i - 1].mi : cur_mi[t];
    VF_ASSERT(i < 4, "media info queue");
    if (l == (int) mi->bitrate) return NGX_DONE;
    mpend[t][i].mi = mi->bitrate; mpend[t][i].at = frame_index; nmp[t]++;
    return NGX_OK;
}
void ngx_live_media_info_pending_remove_frames(ngx_live_track_t *track, ngx_uint_t count)
{
    int t = tindex(track), i;
    for (i = 0; i < nmp[t]; i++) mpend[t][i].at = mpend[t][i].at > (int) count ? mpend[t][i].at - (int) count : 0;
}
ngx_int_t ngx_live_media_info_pending_create_segment(ngx_live_track_t *track, uint32_t segment_index)
{
    int t = tindex(track), i, was = cur_mi[t];
    VF_ASSERT(segment_index == (uint32_t) nseg, "segment index of a media info");
    while (nmp[t] > 0 && mpend[t][0].at == 0) { cur_mi[t] = mpend[t][0].mi; nmp[t]--; for (i = 0; i < nmp[t]; i++) mpend[t][i] = mpend[t][i + 1]; }
    return cur_mi[t] == was ? NGX_DONE : NGX_OK;
}
void ngx_live_media_info_pending_free_all(ngx_live_track_t *track) { nmp[tindex(track)] = 0; }
ngx_live_media_info_t *ngx_live_media_info_queue_get_last(ngx_live_track_t *track) { int t = tindex(track); return cur_mi[t] < 0 ? NULL : &mi_obj[t][cur_mi[t]]; }
ngx_int_t ngx_live_media_info_queue_fill_gaps(ngx_live_channel_t *c, uint32_t mask) { return NGX_DONE; }
void ngx_live_notif_segment_publish(ngx_live_track_t *track, uint32_t si, uint32_t pi, ngx_int_t rc) { VF_ASSERT(si == (uint32_t) nseg && rc == NGX_OK, "publish"); }
ngx_int_t ngx_live_filler_fill(ngx_live_channel_t *c, uint32_t a, int64_t b, uint32_t d, uint32_t e, uint32_t *f) { VF_ASSERT(0, "no filler"); return NGX_ERROR; }
void ngx_live_notif_segment_publish_timeline(ngx_live_timeline_t *t, ngx_int_t rc) {}
void ngx_kmp_in_ack_frames(ngx_kmp_in_ctx_t *ctx, uint64_t next_frame_id)
{
    int t, k;
    for (t = 0; t < nt; t++) if (tr[t]->input == ctx) break;
    VF_ASSERT(t < nt, "ack of a track");
    acked[t] = next_frame_id;
    for (k = 0; k < (int) vf_concretize(next_frame_id - base_id[t]); k++) if (fr[t][k].st == 1) {
        if (tr[t]->media_type == KMP_MEDIA_SUBTITLE) VF_ASSERT(nseg > 0 && fr[t][k].pts < sg[nseg - 1].end, "cue disposed before it ends");
        else VF_ASSERT(drops_ok || nseg == 0, "frames disposed");
        fr[t][k].st = 3;
    }
    VF_REACH("disposed");
}

/* ---- driving it ---- */
static void run_timers(void)
{
    ngx_rbtree_node_t *n; ngx_event_t *ev;
    for ( ;; ) {
        if (ngx_event_timer_rbtree.root == ngx_event_timer_rbtree.sentinel) return;
        n = ngx_rbtree_min(ngx_event_timer_rbtree.root, ngx_event_timer_rbtree.sentinel);
        if ((ngx_msec_int_t) (n->key - ngx_current_msec) > 0) return;
        ev = (ngx_event_t *) ((char *) n - offsetof(ngx_event_t, timer));
        ngx_rbtree_delete(&ngx_event_timer_rbtree, n);
        ev->timer_set = 0; ev->timedout = 1;
        ev->handler(ev);
    }
}
static void send_mi(int t, int mi)
{
    ngx_kmp_in_evt_media_info_t e; ngx_int_t rc;
    memset(&e, 0, sizeof(e)); e.media_info.media_type = tr[t]->media_type; e.media_info.bitrate = mi;
    rc = live_cpcf.segmenter.add_media_info(tr[t], &e);
    VF_ASSERT(rc == NGX_DONE, "media info refused");
}
static void chain(int t, int i)
{
    ngx_buf_chain_t *a = ngx_live_channel_buf_chain_alloc(ch), *b;
    a->data = data[t][i]; a->size = fr[t][i].size; a->next = NULL; fr[t][i].h = fr[t][i].t = a;
    if (i % 3 == 1) { b = ngx_live_channel_buf_chain_alloc(ch); a->size = 1; b->data = data[t][i] + 1; b->size = fr[t][i].size - 1; b->next = NULL; a->next = b; fr[t][i].t = b; }
}
static void feed(int t)
{
    int i = sent[t]; ngx_kmp_in_evt_frame_t e; ngx_int_t rc; uint32_t si; u_char *p;
    if (i == 0 || fr[t][i].mi != fr[t][i - 1].mi) send_mi(t, fr[t][i].mi);
    chain(t, i); memset(&e, 0, sizeof(e));
    e.frame_id = base_id[t] + i; e.data_head = fr[t][i].h; e.data_tail = fr[t][i].t; e.size = fr[t][i].size;
    e.frame.created = 1000000 + i * 40; e.frame.dts = fr[t][i].dts; e.frame.pts_delay = fr[t][i].pts - fr[t][i].dts; e.frame.flags = fr[t][i].key ? KMP_FRAME_FLAG_KEY : 0;
    rc = live_cpcf.segmenter.add_frame(tr[t], &e);
    sent[t]++;
    if (rc == NGX_OK) fr[t][i].st = 1;
    else { VF_ASSERT(rc == NGX_DONE && tr[t]->media_type == KMP_MEDIA_VIDEO && !fr[t][i].key && (drops_ok || refuse_ok), "frame refused"); fr[t][i].st = 3; ngx_live_channel_buf_chain_free_list(ch, fr[t][i].h, fr[t][i].t); VF_REACH("non key skipped"); }
    if (rc == NGX_OK && tr[t]->media_type != KMP_MEDIA_SUBTITLE) VF_ASSERT(ch->active, "channel not active");
    live_cpcf.segmenter.get_min_used(tr[t], &si, &p);
    for (i = 0; i < sent[t] && fr[t][i].st != 1; i++) { }
    if (tr[t]->media_type != KMP_MEDIA_SUBTITLE) VF_ASSERT(p == (i < sent[t] ? data[t][i] : data[t][sent[t] - 1] + (sent[t] % 3 == 2)) || i == sent[t], "oldest data in use");
    VF_ASSERT(si == (uint32_t) nseg, "oldest segment in use");
}
static void start(int t, uint64_t fid)
{
    ngx_live_stream_stream_req_t r; kmp_connect_packet_t h; ngx_int_t rc; int id;
    memset(&r, 0, sizeof(r)); memset(&h, 0, sizeof(h)); r.track = tr[t]; r.header = &h; h.c.initial_frame_id = fid;
    rc = live_cpcf.segmenter.start_stream(&r);
    VF_ASSERT(rc == NGX_OK, "start stream");
    VF_ASSERT(r.skip_count <= 2000, "skip count");
    id = vf_concretize(fid + r.skip_count - base_id[t]);
    /* what was not used yet is sent again, nothing else */
    if (id < 0) id = 0;
    for (; id < sent[t] && fr[t][id].st == 3; id++) { }
    VF_ASSERT(id == next[t] || id == sent[t] || drops_ok, "frames skipped on reconnect");
    VF_REACH("reconnect");
    { int k; for (k = id; k < sent[t]; k++) VF_ASSERT(fr[t][k].st != 2, "a used frame is sent again"); for (k = 0; k < id; k++) VF_ASSERT(fr[t][k].st != 1, "an unused frame is skipped"); }
    sent[t] = id;
}
static void mk(int t, int i, int64_t dts, int delay, int key) { fr[t][i].dts = dts; fr[t][i].pts = dts + delay; fr[t][i].key = key; fr[t][i].mi = 0; fr[t][i].size = 2 + (i & 1); }

void harness(void)
{
    ngx_module_t *mods[] = { &ngx_live_segmenter_module }; int i, j, g, t, every = 1, ev = 0, evpos = 0, left = 0; int64_t J = 0, p; int bf = 0, b0;
#if MODE == 1
    base_id[0] = vf_u64(); VF_ASSUME(base_id[0] >= 1 && base_id[0] < 1ull << 62);
#ifdef DELAY
    static const int32_t js[] = { -3000, -1000, -501, -500, -499, -2, 400, 500, 999, 1500, 4000, 9999, 10001 };
    J = js[vf_pick(0, (int) (sizeof(js) / sizeof(js[0])) - 1)];
#else
    static const int32_t js[] = { -8000, -2001, -1501, -1500, -501, -500, -499, -1, 1, 400, 499, 500, 501, 999, 1500, 3000, 4000, 5999, 9499, 9500, 9501, 9999, 10001, 15000 };
    J = js[vf_pick(0, (int) (sizeof(js) / sizeof(js[0])) - 1)];
#endif
#endif
    live_env_init(mods, 1);
    ch = live_channel("c"); b0 = bp_live;
    ch->block_pool = NULL;
    /* the script */
    fd = 400; fda = 700; calm = 1; cur_mi[0] = cur_mi[1] = -1;
#if MODE == 0
    switch (vf_pick(0, 3 - 1)) { case 0: fd = 200; break; case 1: fd = 333; break; default: fd = 400; }
    bf = vf_pick(0, 2 - 1); switch (vf_pick(0, 3 - 1)) { case 0: every = 1; break; case 1: every = 4; break; default: every = 100; }
#elif MODE == 1
    fd = 500; calm = 0; drops_ok = 1; { static const uint8_t ep[] = { 6, 7, 9, 12, 17, 18, 21, 24 }; evpos = ep[vf_pick(0, 7)]; }
#ifdef DELAY
    ev = 1;
#else
    ev = J == 1 ? 1 + vf_pick(0, 3) : vf_cbool() ? 1 : 4;
#endif
     every = vf_pick(0, 2 - 1) ? 4 : 1;
#else
    bf = vf_pick(0, 2 - 1); every = vf_pick(0, 2 - 1) ? 5 : 1;
#endif
    tr[0] = live_track(ch, "t0", MODE == 5 ? KMP_MEDIA_AUDIO : KMP_MEDIA_VIDEO); nt = 1;
#if MODE == 2 || MODE == 6
    tr[1] = live_track(ch, "t1", KMP_MEDIA_AUDIO); nt = 2;
#elif MODE == 3
    tr[1] = live_track(ch, "t1", KMP_MEDIA_VIDEO); nt = 2;
#elif MODE == 4
    tr[1] = live_track(ch, "t1", KMP_MEDIA_SUBTITLE); nt = 2;
#endif
    for (t = 0; t < nt; t++) { if (!base_id[t]) base_id[t] = 100 * (t + 1); tr[t]->input = (void *) (dummy_input + t); }
#if MODE == 5
    fda = vf_pick(0, 2 - 1) ? 700 : 333;
    for (i = 0, p = 90000; i < 40; i++, p += fda) mk(0, i, p, 0, 1);
    nf[0] = 40;
#else
    {   /* group sizes: the first five are any, then they repeat */
        int gs[5], n = 0, q = 0, total = MODE == 1 ? 34 : MODE == 0 ? 16000 / fd + 5 : 44; left = 0;
        for (g = 0; g < 5; g++) { if ((MODE == 1 && g > 1) || (MODE == 4 && g > 0)) gs[g] = 4; else if (MODE == 6) gs[g] = 3 + vf_pick(0, 1); else gs[g] = (MODE == 0 && fd == 200 ? 5 : 3) + vf_pick(0, 2); }
        for (i = 0, p = 90000; i < total; i++, p += fd) {
            if (left == 0) { left = gs[q % 5]; q++; n = 1; }
            mk(0, i, p, !bf ? 0 : n ? fd * 2 : i & 1 ? fd : fd * 2, n); n = 0; left--;
        }
        nf[0] = total;
    }
#if MODE == 2 || MODE == 6
    for (i = 0, p = 90000 + 50 * (int) vf_pick(0, 3 - 1); i < 25; i++, p += fda) mk(1, i, p, 0, 1);
    nf[1] = 25;
#elif MODE == 3
    { int sh = 40 * (int) vf_pick(0, 2 - 1); for (i = 0; i < nf[0]; i++) { fr[1][i] = fr[0][i]; fr[1][i].dts += sh; fr[1][i].pts += sh; } nf[1] = nf[0]; }
#elif MODE == 4
    {   int st = 90200, n = 0; for (n = 0; n < 3; n++) { int d, gap; switch (vf_pick(0, 3 - 1)) { case 0: d = 1000; break; case 1: d = 5500; break; default: d = 300; } gap = vf_pick(0, 2 - 1) ? 2900 : 700; mk(1, n, st, d, 1); st += gap; } nf[1] = 3; }
#endif
#endif
    for (t = 0; t < nt; t++) start(t, base_id[t]);
#if MODE == 1
    /* ev 1: timestamps jump by J; 2: the media info changes; 3: a reconnection; 4: silence, then the stream goes on J later */
    if (ev == 1 || ev == 4) { for (i = evpos; i < nf[0]; i++) {
#ifndef DELAY
        fr[0][i].dts += J; fr[0][i].pts += J;
#else
        fr[0][i].pts += i < evpos + 3 ? i & 1 ? J / 2 : J : i < evpos + 12 ? J * 2 : J / 2;
        if (i >= evpos + 12 && (fr[0][i - 1].mi || fr[0][i].key)) fr[0][i].mi = 1;
#endif
        } }
    if (ev == 2) { while (!fr[0][evpos].key) evpos++; for (i = evpos; i < nf[0]; i++) fr[0][i].mi = 1; }
    if ((ev != 1 && ev != 4) || J >= 0) drops_ok = 0;
    refuse_ok = ev == 4;
#ifdef DELAY
    drops_ok = 1;
#endif
#endif
#if MODE == 6
    /* 0: audio joins late; 1: audio ends early */
    ev = vf_pick(0, 2 - 1); evpos = 6 + vf_pick(0, 4 - 1) * 3; drops_ok = 1; calm = 0;
    if (ev == 0) { for (i = 0; i < 25 - evpos; i++) fr[1][i] = fr[1][i + evpos]; nf[1] = 25 - evpos; } else nf[1] = evpos;
#endif
    cut_ready = 1; b0 = bp_live;
    for (i = 0, j = 1; ; j++) {
        /* the track with the oldest next frame goes first */
        t = -1;
        for (g = 0; g < nt; g++) if (sent[g] < nf[g] && (t < 0 || (MODE != 1 && fr[g][sent[g]].dts < fr[t][sent[t]].dts))) t = g;
        if (t < 0) break;
#if MODE == 1
        if (sent[0] == evpos && i == 0) {
            i = 1;
            if (ev == 3) { start(0, vf_pick(0, 2 - 1) ? base_id[0] : base_id[0] + next[0]); continue; }
            if (ev == 4) { ngx_current_msec += 10001; run_timers(); VF_ASSERT(!ch->active, "channel active after the inactivity timeout"); for (g = 0; g < sent[0]; g++) VF_ASSERT(fr[0][g].st != 1, "frames left after the inactivity timeout"); VF_REACH("inactive"); }
        }
#endif
        feed(t);
        if (MODE == 6 && ev == 1 && t == 1 && sent[1] == nf[1]) live_cpcf.segmenter.end_stream(tr[1]);
        if (j % every == 0) run_timers();
    }
    run_timers();
    cut_ready = 0; ended = 1; if (MODE == 2 || MODE == 6) drops_ok = 1;
    if (MODE == 6 && ev == 1) { live_cpcf.segmenter.end_stream(tr[0]); run_timers(); }
    else if (vf_pick(0, 2 - 1)) { for (t = 0; t < nt; t++) { live_cpcf.segmenter.end_stream(tr[t]); } run_timers(); }
    else { ngx_current_msec += 10001; run_timers(); }
    VF_ASSERT(!ch->active, "channel still active at the end");
    VF_ASSERT(nseg >= 2 || MODE == 1, "no segments");
    for (t = 0; t < nt; t++) for (i = 0; i < nf[t]; i++) {
        if (tr[t]->media_type == KMP_MEDIA_SUBTITLE) continue;
        VF_ASSERT(fr[t][i].st == 2 || (fr[t][i].st == 3 && (drops_ok || refuse_ok)), "frame not in any segment");
    }
#if MODE == 2 || MODE == 6
    /* at the end of a stream at most what one track has beyond the other is dropped */
    for (t = 0, j = 0; t < nt; t++) for (i = MODE == 6 && ev == 0 ? nf[t] : 0; i < nf[t]; i++) if (fr[t][i].st == 3 && fr[t][i].pts > sg[0].start) { j++; VF_ASSERT(fr[t][i].pts > fr[t][nf[t] - 1].pts - 2500 || ev == 1, "frames dropped at the end"); }
#endif
    if (MODE != 4) VF_ASSERT(bp_live == b0, "memory left behind");
    VF_ASSERT(idx_exists == nseg && ch->next_segment_index == (uint32_t) nseg, "segments counted");
    VF_REACH("end");
}
