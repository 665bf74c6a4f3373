/*
 * fMP4 packager: the media segment is parsed here, by the rules of ISO 14496-12, and has to carry exactly the
 * input frames, with their timestamps.
 */
#include "vf_ngx.h"
#include "mp4/mp4_muxer.h"
#include "mp4/mp4_defs.h"
#include "mp4_box.h"
#ifndef FRAMES
#define FRAMES 2
#endif
#define MAXF 6
typedef struct {
    media_info_t mi; input_frame_t in[MAXF]; u_char *data[MAXF]; int n, nread, off, again, media; int64_t dts;
    u_char *wb[2 * MAXF * 3]; int wn[2 * MAXF * 3], nw; u_char out[128]; int nout, idx; uint32_t durs[MAXF];
} st_t;
static st_t st[3]; static int nst, splits, reuse, per_stream; static request_context_t rc; static u_char scratch[8];

static vod_status_t fs_start(void *c, input_frame_t *f) { st_t *s = c; VF_ASSERT(f->size == s->in[s->nread].size && f->pts_delay == s->in[s->nread].pts_delay, "frames are read in order"); s->off = 0; return VOD_OK; }
static vod_status_t fs_read(void *c, u_char **b, uint32_t *size, bool_t *done)
{
    st_t *s = c; int left = s->in[s->nread].size - s->off, k = left, i;
    if (splits && s->off == 0 && !s->again) { s->again = 1; return VOD_AGAIN; }
    if (splits == 2 && s->off == 0 && left > 1) k = 1;
    *b = s->data[s->nread] + s->off;
    if (reuse) { for (i = 0; i < k; i++) scratch[i] = (*b)[i]; *b = scratch; }
    *size = k; s->off += k; s->again = 0;
    *done = s->off == (int) s->in[s->nread].size;
    if (*done) s->nread++;
    return VOD_OK;
}
static frames_source_t fs = { fs_start, fs_read };
static vod_status_t on_write(void *c, u_char *b, uint32_t n)
{
    st_t *s = c;
    if (reuse) { VF_ASSERT(s->nout + n <= sizeof(s->out), "harness size"); ngx_memcpy(s->out + s->nout, b, n); s->nout += n; return VOD_OK; }
    VF_ASSERT(s->nw < 2 * MAXF * 3, "harness size"); s->wb[s->nw] = b; s->wn[s->nw++] = n;
    return VOD_OK;
}

static void check_id3(u_char *p, u_char *e, vod_str_t *text)
{
    int n = e - p;
    VF_ASSERT(n == 21 + (int) text->len && ngx_memcmp(p, "ID3\4\0\0", 6) == 0 && ngx_memcmp(p + 10, "TEXT", 4) == 0, "id3 tag");
    VF_ASSERT((p[6] << 21 | p[7] << 14 | p[8] << 7 | p[9]) == n - 10 && (p[14] << 21 | p[15] << 14 | p[16] << 7 | p[17]) == n - 20 && p[18] == 0 && p[19] == 0 && p[20] == 3, "id3 sizes");
    VF_ASSERT(ngx_memcmp(p + 21, text->data, text->len) == 0, "id3 text");
}

static int64_t first_time(st_t *s)
{
    int64_t r = s->dts;
    if (s->n && s->media == MEDIA_TYPE_VIDEO) r += s->in[0].pts_delay;
    return r < 0 ? 0 : r;
}

void harness(void)
{
    static media_segment_t seg; static media_segment_track_t tr[3]; static vod_list_part_t part2[3]; static segment_writer_t w[3];
    mp4_muxer_state_t *m; size_t total = 12345; vod_str_t hdr; vod_status_t r; int i, j, k, f, n, mode, tot = 0, allocd, mdlen; unsigned loops = 0; st_t *s; u_char *p, *e, *b, *be, *q, *moof, *mdat, *arena, text[200];
    uint32_t delays[3][MAXF], durs[3][MAXF]; int64_t dts[3]; static const int kinds[] = { KINDS }; u_char cover[64]; uint64_t sum;
    rc.pool = &vf_pool; rc.log = &vf_log;
    nst = sizeof(kinds) / sizeof(kinds[0]);
    for (i = 0; i < nst; i++) {
#ifdef FIXSZ
        switch (vf_pick(0, 2)) { case 0: dts[i] = -4; break; case 1: dts[i] = 0; break; default: dts[i] = 23000; break; } for (j = 0; j < FRAMES; j++) { durs[i][j] = vf_cbool() ? 25000 : 1; delays[i][j] = vf_u32(); }
#else
        dts[i] = vf_i64(); VF_ASSUME(dts[i] > -(1ll << 40) && dts[i] < 1ll << 40);
        for (j = 0; j < FRAMES; j++) { delays[i][j] = vf_u32(); durs[i][j] = vf_u32(); }
#endif
    }
    seg.segment_index = vf_u32();
    mode = vf_pick(0, 5); reuse = mode == 1 || mode == 3; per_stream = mode >= 2 && mode != 5; splits = mode == 0 || mode == 4 ? 0 : mode == 5 ? 1 : mode % 3;
    allocd = !reuse && vf_cbool();
    arena = vf_buf(3 * 3 * FRAMES + 1); q = arena;
    for (i = 0; i < nst; i++) {
        s = &st[i]; s->idx = i; s->dts = dts[i];
        s->mi.timescale = 90000;
        switch (kinds[i]) {
        case 'v': s->media = MEDIA_TYPE_VIDEO; s->mi.codec_id = VOD_CODEC_ID_AVC; break;
        case 'a': s->media = MEDIA_TYPE_AUDIO; s->mi.codec_id = VOD_CODEC_ID_AAC; break;
        case 'w': s->media = MEDIA_TYPE_SUBTITLE; s->mi.codec_id = VOD_CODEC_ID_WEBVTT; break;
        default: s->media = MEDIA_TYPE_SUBTITLE; s->mi.codec_id = VOD_CODEC_ID_TTML; break;
        }
        s->mi.media_type = s->media;
        s->n = MINF == FRAMES ? FRAMES : (int) vf_pick(MINF, FRAMES);
        for (j = 0; j < s->n; j++) {
            #ifdef FIXSZ
            s->in[j].size = (i + 2 * j) % 3 + 1;
#else
            s->in[j].size = vf_pick(0, 2); if (s->in[j].size == 2) s->in[j].size = 3;
#endif
            s->in[j].duration = durs[i][j]; s->in[j].pts_delay = delays[i][j]; s->in[j].key_frame = vf_bool();
            if (s->media == MEDIA_TYPE_VIDEO) VF_ASSUME(delays[i][j] < 1u << 31);
            if (allocd) s->data[j] = vf_buf(s->in[j].size); else { s->data[j] = q; q += s->in[j].size; }
            tot += s->in[j].size;
        }
        tr[i].media_info = &s->mi; tr[i].start_dts = s->dts; tr[i].frame_count = s->n; tr[i].frames_source = &fs; tr[i].frames_source_context = s;
        tr[i].frames.part.elts = s->in; tr[i].frames.part.nelts = s->n;
        if (s->n > 1 && mode == 1) { tr[i].frames.part.nelts = 1; tr[i].frames.part.next = &part2[i]; part2[i].elts = s->in + 1; part2[i].nelts = s->n - 1; VF_REACH("frames in two parts"); }
        w[i].write_tail = on_write; w[i].context = s;
    }
    seg.tracks = tr; seg.track_count = nst; seg.tracks_end = tr + nst;
    mdlen = 0;
#ifdef META
    switch (vf_pick(0, 2)) { case 1: mdlen = 1; break; case 2: mdlen = 150; break; default: break; }
    for (i = 0; i < mdlen; i++) text[i] = vf_u8();
    seg.metadata.data = text; seg.metadata.len = mdlen;
#endif
    r = mp4_muxer_init_fragment(&rc, &seg, w, per_stream, reuse, 1, &hdr, &total, &m);
    VF_ASSERT(r == VOD_OK, "size"); sum = total;
    r = mp4_muxer_init_fragment(&rc, &seg, w, per_stream, reuse, 0, &hdr, &total, &m);
    VF_ASSERT(r == VOD_OK, "init"); VF_ASSERT(sum == total, "the size of a head request is the size of the response");
    for (i = k = 0; i < nst; i++) { k += st[i].n; st[i].nread = st[i].again = 0; }
    if (k) {
        VF_ASSERT(m != NULL, "frames to process");
        do { r = mp4_muxer_process_frames(m); VF_ASSERT(++loops < 50, "progress"); } while (r == VOD_AGAIN);
        VF_ASSERT(r == VOD_OK, "process");
    } else { VF_ASSERT(m == NULL, "nothing to process"); VF_REACH("no frames"); }
    for (i = n = 0; i < nst; i++) {
        s = &st[i];
        for (j = 0; j < s->nw; j++) { VF_ASSERT(s->nout + s->wn[j] <= (int) sizeof(s->out), "harness size"); ngx_memcpy(s->out + s->nout, s->wb[j], s->wn[j]); s->nout += s->wn[j]; }
        n += s->nout;
        if (!per_stream && i) VF_ASSERT(s->nout == 0, "one writer");
    }
    VF_ASSERT(n == tot && total == hdr.len + tot, "the announced size is the size of the response");

    p = hdr.data; e = p + hdr.len;
    if (nst == 1) { p = boxn(p, e, "styp", 16, &b); VF_ASSERT(ngx_memcmp(b, "msdh\0\0\0\0msdhmsix", 16) == 0, "styp"); }
    if (mdlen && st[0].n) {
        static const char uri[] = "https://developer.apple.com/streaming/emsg-id3";
        p = box(p, e, "emsg", &b, &be);
        VF_ASSERT(be - b == 24 + (int) sizeof(uri) + 1 + 21 + mdlen, "emsg size");
        VF_ASSERT(be32(b) == 0x01000000 && be32(b + 4) == 90000 && be64(b + 8) == (uint64_t) (dts[0] < 0 ? 0 : dts[0]) && be32(b + 16) == 1 && be32(b + 20) == seg.segment_index, "emsg");
        VF_ASSERT(ngx_memcmp(b + 24, uri, sizeof(uri)) == 0 && b[24 + sizeof(uri)] == 0, "emsg scheme");
        check_id3(b + 25 + sizeof(uri), be, &seg.metadata);
        VF_REACH("emsg");
    }
    if (nst == 1) {
        int64_t t = first_time(&st[0]);
        p = box(p, e, "sidx", &b, &be);
        VF_ASSERT(be32(b + 4) == 1 && be32(b + 8) == 90000, "sidx");
        if (b[0] == 0) { VF_ASSERT(be - b == 36 && be32(b) == 0, "sidx v0"); VF_ASSERT(be32(b + 12) == t && be32(b + 16) == 0, "earliest presentation time"); b += 20; }
        else { VF_ASSERT(be - b == 44 && be32(b) == 0x01000000, "sidx v1"); VF_ASSERT(be64(b + 12) == (uint64_t) t && be64(b + 20) == 0, "earliest presentation time"); b += 28; VF_REACH("64 bit time"); }
        VF_ASSERT(be32(b) == 1 && be32(b + 4) == (size_t) (e - p) + tot && be32(b + 12) == 0x90000000, "sidx reference");
        for (j = 0, sum = 0; j < st[0].n; j++) sum += st[0].in[j].duration;
        VF_ASSERT(be32(b + 8) == (uint32_t) sum, "subsegment duration");
    }
    moof = p;
    p = box(p, e, "moof", &b, &be); mdat = p;
    VF_ASSERT(e - p == 8 && is_box(p, e, "mdat") && be32(p) == 8 + (uint32_t) tot, "mdat");
    p = boxn(b, be, "mfhd", 8, &b); VF_ASSERT(be32(b) == 0 && be32(b + 4) == seg.segment_index, "sequence number");
    e = be; ngx_memzero(cover, sizeof(cover));
    for (i = 0; i < nst; i++) {
        int32_t cts; uint32_t flags, cnt; uint32_t stts = 0; int so = 0;
        s = &st[i];
        q = p; p = box(q, e, "traf", &q, &be);
        q = boxn(q, be, "tfhd", 12, &b); VF_ASSERT(be32(b) == 0x020002 && be32(b + 4) == (uint32_t) i + 1 && be32(b + 8) == 1, "tfhd");
        q = boxn(q, be, "tfdt", 12, &b); VF_ASSERT(be32(b) == 0x01000000 && be64(b + 4) == (uint64_t) first_time(s), "decode time");
        for (f = 0; q < be; ) {
            u_char *te; uint32_t off;
            q = box(q, be, "trun", &b, &te);
            VF_ASSERT(te - b >= 12, "trun size");
            flags = be32(b); cnt = be32(b + 4); off = be32(b + 8); b += 12;
            VF_ASSERT(flags == (s->media == MEDIA_TYPE_VIDEO ? 0x01000f01 : s->mi.codec_id == VOD_CODEC_ID_WEBVTT ? 0xb01 : 0x301), "trun flags");
            n = s->media == MEDIA_TYPE_VIDEO ? 16 : s->mi.codec_id == VOD_CODEC_ID_WEBVTT ? 12 : 8;
            VF_ASSERT(cnt >= 1 && cnt <= (uint32_t) (s->n - f) && te - b == (int) cnt * n, "sample count");
            VF_ASSERT(off >= (size_t) (mdat - moof) + 8 && off <= (size_t) (mdat - moof) + 8 + tot, "data offset");
            off -= mdat - moof + 8;
            for (; cnt; cnt--, f++, b += n) {
                input_frame_t *in = &s->in[f];
                VF_ASSERT(be32(b + 4) == in->size, "sample size");
                VF_ASSERT(be32(b) == (s->mi.codec_id == VOD_CODEC_ID_WEBVTT ? in->pts_delay : in->duration), "sample duration");
                if (s->media == MEDIA_TYPE_VIDEO) {
                    cts = be32(b + 12); VF_ASSERT((uint32_t) cts == in->pts_delay - s->in[0].pts_delay, "composition offset");
                    VF_ASSERT(be32(b + 8) == (in->key_frame ? 0x02000000u : 0x01010000u), "sample flags");
                } else if (s->mi.codec_id == VOD_CODEC_ID_WEBVTT) VF_ASSERT(be32(b + 8) == stts, "composition offset");
                stts += in->duration;
                VF_ASSERT(off + in->size <= (uint32_t) tot, "sample within the mdat");
                for (k = 0; k < (int) in->size; k++, off++) {
                    VF_ASSERT(!cover[off], "samples do not overlap"); cover[off] = 1;
                    VF_ASSERT((per_stream ? s->out[so] : st[0].out[off]) == s->data[f][k], "sample data"); so++;
                }
            }
        }
        VF_ASSERT(f == s->n, "every frame has a sample");
    }
    VF_ASSERT(p == e, "boxes nest exactly");
    if (nst > 1 && k) for (i = 0; i < tot; i++) VF_ASSERT(cover[i], "mdat covered");
    VF_REACH("segment");
}
