/*
 * MPEG-TS packager: the produced segment is demuxed here, by the rules of the standard, and has to carry
 * exactly the input frames, with their timestamps.
 */
#include "vf_ngx.h"
#include "mpegts_muxer.h"
#include "buffer_pool.h"
#ifndef FRAMES
#define FRAMES 2
#endif
#define MAXF 60
#define MAXES 14000
#define MAXOUT (188 * 160)

typedef struct { input_frame_t f; u_char *data; uint64_t dts, pts; int start; } fr_t;
typedef struct {
    media_info_t mi; input_frame_t in[MAXF]; fr_t fr[MAXF]; int n, nread, off, again; int media; int nal_len;
    u_char es[MAXES]; int nes;
    /* demuxed */
    u_char got[MAXES]; int ngot; int pid, type; struct { int off, len, hdr; uint64_t pts, dts, pcr; int has_pcr, has_dts, sid; } pes[80]; int npes; unsigned cc, cc0; int npkts; int in_pes, payload_seen;
} st_t;
#ifdef MANY
#define GAPS == FRAMES / 2
#else
#define GAPS
#endif
#ifndef ALIGN
#define ALIGN vf_cbool()
#endif
#ifndef ENVS
#define ENVS 4
#endif
#ifdef AUDIO
#define nst_audio 1
#else
#define nst_audio 0
#endif
static st_t st[3]; static int nst, splits;
static u_char out[MAXOUT]; static int nout; static request_context_t rc; static u_char xd[] = { 0, 0, 0, 1, 0x67, 0x42, 0, 0, 0, 1, 0x68, 0xce };

static vod_status_t fs_start(void *c, input_frame_t *f) { st_t *s = c; VF_ASSERT(f == &s->in[s->nread], "frames are read in order"); s->off = 0; return VOD_OK; }
static vod_status_t fs_read(void *c, u_char **b, uint32_t *size, bool_t *done)
{
    st_t *s = c; int left = s->fr[s->nread].f.size - s->off, k = left;
    if (splits && s->off == 0 && !s->again) { s->again = 1; return VOD_AGAIN; }
    if (splits && s->off == 0 && left > 3) k = splits == 1 ? 3 : left - 1;
    *b = s->fr[s->nread].data + s->off; *size = k; s->off += k; s->again = 0;
    *done = s->off == (int) s->fr[s->nread].f.size;
    if (*done) s->nread++;
    return VOD_OK;
}
static frames_source_t fs = { fs_start, fs_read };
static vod_status_t on_write(void *c, u_char *b, uint32_t n) { VF_ASSERT(nout + n <= MAXOUT, "harness size"); ngx_memcpy(out + nout, b, n); nout += n; return VOD_OK; }

static void es(st_t *s, const void *p, int n) { VF_ASSERT(s->nes + n <= MAXES, "harness size"); ngx_memcpy(s->es + s->nes, p, n); s->nes += n; }
/* one frame and what it looks like in the elementary stream */
static void add_frame(st_t *s, int size, int key, uint32_t dur, uint32_t delay, uint64_t dts)
{
    fr_t *f = &s->fr[s->n]; int i, n, left, z, first = 1; u_char *p;
    f->f.size = size; f->f.key_frame = key; f->f.duration = dur; f->f.pts_delay = delay; s->in[s->n++] = f->f;
    f->data = p = vf_buf(size); f->dts = dts; f->pts = dts + delay; f->start = s->nes;
    if (s->media == MEDIA_TYPE_AUDIO) {
        if (s->mi.codec_id == VOD_CODEC_ID_AAC) {
            u_char h[7]; n = size + 7;
            h[0] = 0xff; h[1] = 0xf1; h[2] = 1 << 6 | 4 << 2; h[3] = 2 << 6 | n >> 11; h[4] = n >> 3; h[5] = (n & 7) << 5 | 0x1f; h[6] = 0xfc;
            es(s, h, 7);
        }
        es(s, p, size); return;
    }
    /* video: nal units */
    if (s->mi.codec_id == VOD_CODEC_ID_AVC) es(s, "\0\0\0\1\x09\xf0", 6); else es(s, "\0\0\0\1\x46\1\x50", 7);
    if (key) es(s, xd, sizeof(xd));
    left = size; z = 0;
#ifdef ONENAL
    i = 0;
#else
    i = vf_pick(0, 2);     /* one unit / two / the first one is a delimiter */
#endif
    while (left) {
        n = left - s->nal_len;
        if (first && i && n > 4 + s->nal_len) { n = i == 2 ? 2 : 3; }
        ngx_memzero(p, s->nal_len); p[s->nal_len - 1] = n; if (s->nal_len > 1) p[s->nal_len - 2] = n >> 8;
        p += s->nal_len; left -= s->nal_len + n;
        if (first && i == 2 && n == 2) {
            p[0] = s->mi.codec_id == VOD_CODEC_ID_AVC ? 9 : 0x46; z += n + s->nal_len; p += n; i = 3; VF_REACH("delimiter dropped"); continue;
        }
        if (s->mi.codec_id == VOD_CODEC_ID_AVC) VF_ASSUME((p[0] & 0x1f) != 9); else VF_ASSUME((p[0] & 0x7e) != 0x46);
        if (z || !first) { if (i == 3) { es(s, "\0\0\0\1", 4); i = 4; } else { es(s, "\0\0\1", 3); z++; } } else { es(s, "\0\0\0\1", 4); }
        es(s, p, n); p += n; first = 0;
    }
    if (s->nal_len == 4) for (; z > 0; z--) es(s, "\0", 1);
}

static uint32_t crc32(const u_char *p, int n)
{
    uint32_t c = 0xffffffff; int i;
    while (n--) { c ^= (uint32_t) *p++ << 24; for (i = 0; i < 8; i++) c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1; }
    return c;
}
static uint64_t ts33(const u_char *p, int fb) { VF_ASSERT(p[0] >> 4 == fb && (p[0] & 1) && (p[2] & 1) && (p[4] & 1), "timestamp markers"); return (uint64_t) (p[0] >> 1 & 7) << 30 | p[1] << 22 | p[2] >> 1 << 15 | p[3] << 7 | p[4] >> 1; }

static void demux(vod_str_t *hdr, unsigned seg)
{
    u_char *p, *q, *e; int i, k, n, len, pcr_pid, npmt = 0; st_t *s; uint64_t pcr; int has_pcr;
    p = hdr->data;
    VF_ASSERT(hdr->len == 376 && p[0] == 0x47 && p[1] == 0x40 && p[2] == 0 && p[3] == (0x10 | (seg & 15)) && p[4] == 0, "PAT packet");
    n = (p[6] & 15) << 8 | p[7];
    VF_ASSERT(p[5] == 0 && n == 13 && crc32(p + 5, n + 3) == 0 && p[13] == 0 && p[14] == 1, "PAT");
    k = (p[15] & 0x1f) << 8 | p[16];
    p += 188;
    VF_ASSERT(p[0] == 0x47 && p[1] == (0x40 | k >> 8) && p[2] == (k & 255) && p[3] == (0x10 | (seg & 15)) && p[4] == 0, "PMT packet");
    n = (p[6] & 15) << 8 | p[7];
    VF_ASSERT(p[5] == 2 && n <= 180 && crc32(p + 5, n + 3) == 0, "PMT");
    for (i = 8 + n; i < 188; i++) VF_ASSERT(p[i] == 0xff, "PMT padding");
    pcr_pid = (p[13] & 0x1f) << 8 | p[14];
    q = p + 17 + ((p[15] & 15) << 8 | p[16]); e = p + 8 + n - 4;
    for (; q < e; npmt++) {
        VF_ASSERT(npmt < nst + 1, "streams in the PMT");
        if (npmt < nst) { st[npmt].type = q[0]; st[npmt].pid = (q[1] & 0x1f) << 8 | q[2]; for (i = 0; i < npmt; i++) VF_ASSERT(st[i].pid != st[npmt].pid, "stream ids are unique"); }
        q += 5 + ((q[3] & 15) << 8 | q[4]);
    }
    VF_ASSERT(q == e && npmt >= nst, "streams of the PMT");
    VF_ASSERT(pcr_pid == st[0].pid, "PCR pid");
    VF_ASSERT(nout % 188 == 0, "whole packets");
    for (p = out; p < out + nout; p += 188) {
        VF_ASSERT(p[0] == 0x47 && !(p[1] & 0xa0), "packet header");
        for (s = NULL, i = 0; i < nst; i++) if (st[i].pid == ((p[1] & 0x1f) << 8 | p[2])) s = &st[i];
        VF_ASSERT(s != NULL, "stream of the packet");
        VF_ASSERT((p[3] & 0xd0) == 0x10, "payload flags");
        if (!s->npkts) s->cc = s->cc0 = p[3] & 15;
        VF_ASSERT((unsigned) (p[3] & 15) == (s->cc & 15), "continuity counter"); s->cc++; s->npkts++;
        q = p + 4; has_pcr = 0; pcr = 0;
        if (p[3] & 0x20) {
            len = *q++;
            VF_ASSERT(len <= 183, "adaptation field length");
            if (len > 0) {
                i = 1;
                VF_ASSERT(q[0] == 0 || q[0] == 0x10, "adaptation flags");
                if (q[0] == 0x10) { VF_ASSERT(len >= 7, "PCR size"); has_pcr = 1; pcr = (uint64_t) q[1] << 25 | q[2] << 17 | q[3] << 9 | q[4] << 1 | q[5] >> 7; VF_ASSERT((q[5] & 1) == 0 && q[6] == 0, "PCR extension"); i = 7; }
                for (; i < len; i++) VF_ASSERT(q[i] == 0xff, "stuffing");
            }
            q += len;
        }
        len = p + 188 - q;
        if (p[1] & 0x40) {
            VF_ASSERT(s->npes < 80 && len >= 14, "PES header fits");
            VF_ASSERT(q[0] == 0 && q[1] == 0 && q[2] == 1, "PES start code");
            i = s->npes++;
            s->pes[i].sid = q[3]; s->pes[i].len = q[4] << 8 | q[5]; s->pes[i].off = s->ngot;
            s->pes[i].has_pcr = has_pcr; s->pes[i].pcr = pcr;
            VF_ASSERT((q[6] & 0xf0) == 0x80 && (q[7] & 0xbf) == 0x80, "PES flags");
            s->pes[i].has_dts = q[7] >> 6 & 1; k = q[8];
            VF_ASSERT(k == (s->pes[i].has_dts ? 10 : 5), "PES header length");
            s->pes[i].pts = ts33(q + 9, s->pes[i].has_dts ? 3 : 2);
            s->pes[i].dts = s->pes[i].has_dts ? ts33(q + 14, 1) : 0;
            s->pes[i].hdr = 3 + k;
            q += 9 + k; len = p + 188 - q;
        } else VF_ASSERT(!has_pcr, "PCR only where a PES starts");
        VF_ASSERT(len == 0 || s->npes > 0, "payload before the first PES");
        VF_ASSERT(len >= 0 && s->ngot + len <= MAXES, "harness size"); ngx_memcpy(s->got + s->ngot, q, len); s->ngot += len;
    }
}

static void check(int i, uint64_t m33, int simulated, size_t total, unsigned seg)
{
    st_t *s = &st[i]; int j, f, end; static const u_char types[] = { [VOD_CODEC_ID_AVC] = 0x1b, [VOD_CODEC_ID_HEVC] = 0x24, [VOD_CODEC_ID_AAC] = 0x0f, [VOD_CODEC_ID_AC3] = 0x81, [VOD_CODEC_ID_EAC3] = 0x81, [VOD_CODEC_ID_MP3] = 3, [VOD_CODEC_ID_DTS] = 0x82 };
    VF_ASSERT(s->type == (s->media == MEDIA_TYPE_NONE ? 0x15 : types[s->mi.codec_id]), "stream type");
    VF_ASSERT(s->ngot == s->nes, "size of the elementary stream");
    for (j = 0; j < s->nes; j++) VF_ASSERT(s->got[j] == s->es[j], "bytes of the elementary stream");
    VF_ASSERT(s->cc0 == (s->media == MEDIA_TYPE_NONE ? seg & 15 : 0), "first continuity counter");
    if (s->media != MEDIA_TYPE_NONE) VF_ASSERT((s->cc & 15) == 0, "the counter continues in the next segment");
    for (j = 0; j < s->npes; j++) {
        end = j + 1 < s->npes ? s->pes[j + 1].off : s->ngot;
        if (s->pes[j].len) VF_ASSERT(s->pes[j].len == end - s->pes[j].off + s->pes[j].hdr, "PES length");
        else VF_ASSERT(s->media == MEDIA_TYPE_VIDEO, "unbounded PES");
        VF_ASSERT(s->pes[j].has_pcr == (i == 0) && s->pes[j].has_dts == (s->media == MEDIA_TYPE_VIDEO), "PES timestamps");
        VF_ASSERT(s->media == MEDIA_TYPE_VIDEO ? s->pes[j].sid == 0xe0 : s->media == MEDIA_TYPE_AUDIO ? s->pes[j].sid == 0xc0 : s->pes[j].sid == 0xbd, "PES stream id");
        /* the time of a PES is the time of the first frame that starts in it */
        for (f = 0; f < s->n && s->fr[f].start < s->pes[j].off; f++) ;
        VF_ASSERT(f < s->n && s->fr[f].start < end, "a frame starts in every PES");
        VF_ASSERT(s->pes[j].pts == ((s->fr[f].pts + 9090) & m33), "PTS");
        if (s->pes[j].has_dts) VF_ASSERT(s->pes[j].dts == ((s->fr[f].dts + 9090) & m33), "DTS");
        if (i == 0 && s->media == MEDIA_TYPE_VIDEO) VF_ASSERT(s->pes[j].pcr == ((s->fr[f].dts + 4590) & m33), "PCR");
        if (s->fr[f].start > s->pes[j].off) VF_REACH("PES starts inside a frame");
        if (f + 1 < s->n && s->fr[f + 1].start < end) VF_REACH("joined frames");
    }
    if (s->media == MEDIA_TYPE_VIDEO) VF_ASSERT(s->npes == s->n, "a PES for every video frame");
    VF_REACH("stream");
}

static int size_pick(int v)
{
#ifdef MANY
    static int base, k; static const short b[] = { 7, 9, 20, 55, 170 };
    if (!k) base = b[vf_pick(0, 4)];
    k++;
    return k == FRAMES ? base + vf_pick(0, 2) * 1400 : k == FRAMES / 2 ? base + vf_pick(0, 7) : base;
#endif
    static const short t[] = { 7, 151, 152, 153, 330, 331, 338, 400, 1000, 2700 };
    static const short w[] = { 9, 140, 158, 322, 700 };
    switch (v) {
    case 0: return vf_pick(100, 290);            /* every position of the end in a packet */
    case 1: return t[vf_pick(0, 9)] + vf_pick(0, 1);
    case 2: return w[vf_pick(0, 4)];
    case 5: return vf_pick(2700, 2890);          /* the same, around the end of a round of the continuity counter */
    case 3: return w[vf_pick(0, 2)];
    default: return 9 + vf_cbool() * 149;
    }
}

void harness(void)
{
    static mpegts_muxer_conf_t conf; static hls_encryption_params_t enc; static media_segment_t seg; static media_segment_track_t tr[2]; static vod_list_part_t part2[2];
    mpegts_muxer_state_t *m; size_t total = 12345; vod_str_t hdr; vod_status_t r; uint64_t base; uint32_t delays[MAXF]; int i, j, reuse, used = 0; unsigned long loops = 0; st_t *s;
    rc.pool = &vf_pool; rc.log = &vf_log;
    i = vf_pick(0, ENVS - 1);
    rc.output_buffer_pool = buffer_pool_create(&vf_pool, &vf_log, 188 * 4 * 2, i & 1 ? 2 : 0);
    splits = i % 3; reuse = i == 0 || i == 2 || i == 4; seg.segment_index = i > 1 ? 21 : i;
    conf.align_frames = ALIGN; conf.interleave_frames = nst_audio ? vf_cbool() : 0;
    enc.type = HLS_ENC_NONE;
    seg.tracks = tr;
#ifdef VIDEO
    st[nst++].media = MEDIA_TYPE_VIDEO;
#endif
#ifdef AUDIO
    st[nst++].media = MEDIA_TYPE_AUDIO;
#endif
    seg.track_count = nst; seg.tracks_end = tr + nst;
#if defined(VIDEO) && defined(AUDIO)
    base = 1000;
#elif defined(MANY)
    base = vf_cbool() ? 1000 : 0x1fffff000ull;
#else
    base = vf_u64(); VF_ASSUME(base < 1ull << 40);
#endif
    for (j = 0; j < FRAMES; j++) delays[j] = vf_u32();
    for (i = 0; i < nst; i++) {
        uint64_t dts = base;
        s = &st[i];
        s->mi.media_type = s->media; s->nal_len = 4;
        if (s->media == MEDIA_TYPE_VIDEO) {
            s->mi.codec_id = vf_cbool() ? VOD_CODEC_ID_AVC : VOD_CODEC_ID_HEVC;
#ifdef NALLEN
            s->nal_len = vf_pick(1, 3); 
#endif
            s->mi.u.video.nal_packet_size_length = s->nal_len; s->mi.parsed_extra_data.data = xd; s->mi.parsed_extra_data.len = sizeof(xd);
        } else {
            s->mi.codec_id = (i ? st[0].mi.codec_id == VOD_CODEC_ID_AVC : vf_cbool()) ? VOD_CODEC_ID_AAC : VOD_CODEC_ID_AC3;
            s->mi.u.audio.codec_config.object_type = 2; s->mi.u.audio.codec_config.sample_rate_index = 4; s->mi.u.audio.codec_config.channel_config = 2;
        }
        for (j = 0; j < FRAMES; j++) {
            uint32_t dur = s->media == MEDIA_TYPE_VIDEO ? 3000 : 20000, dl; int sz;
#if defined(VIDEO) && defined(AUDIO)
            dl = j * 100; sz = size_pick(j == 0 ? SZ0 : SZ1);
#else
            dl = delays[j]; sz = size_pick(j == 0 ? SZ0 : SZ1);
            if (s->media == MEDIA_TYPE_AUDIO) { dl = 0; if (j GAPS && vf_cbool()) { dts += 70000; s->in[j - 1].duration += 70000; s->fr[j - 1].f.duration += 70000; } }
#endif
            add_frame(s, sz, j == 0, dur, dl, dts);
            dts += dur;
        }
        tr[i].media_info = &s->mi; tr[i].start_dts = base; tr[i].frame_count = FRAMES; tr[i].frames_source = &fs; tr[i].frames_source_context = s;
        tr[i].frames.part.elts = s->in; tr[i].frames.part.nelts = FRAMES;
        if (FRAMES > 1 && splits == 1) { tr[i].frames.part.nelts = 1; tr[i].frames.part.next = &part2[i]; part2[i].elts = s->in + 1; part2[i].nelts = FRAMES - 1; }
    }
#ifdef ID3
    if (vf_cbool()) {
        int n = vf_pick(1, 3); u_char *d; u_char h[21] = "ID3\4\0\0\0\0\0\0TEXT\0\0\0\0\0\0\3";
        n = n == 1 ? 1 : n == 2 ? 153 : 200; d = vf_buf(n);
        s = &st[nst++]; s->media = MEDIA_TYPE_NONE;
        h[8] = (n + 11) >> 7; h[9] = (n + 11) & 0x7f; h[16] = (n + 1) >> 7; h[17] = (n + 1) & 0x7f;
        es(s, h, 21); es(s, d, n); s->n = 1; s->fr[0].pts = s->fr[0].dts = base; s->fr[0].start = 0;
        seg.metadata.data = d; seg.metadata.len = n; used = 1; VF_REACH("id3");
    }
#endif
    r = mpegts_muxer_init_segment(&rc, &conf, &enc, &seg, on_write, NULL, reuse, &total, &hdr, &m);
    VF_ASSERT(r == VOD_OK && m != NULL, "init");
    do { r = mpegts_muxer_process(m); VF_ASSERT(++loops < 50, "progress"); } while (r == VOD_AGAIN);
    VF_ASSERT(r == VOD_OK, "process");
    if (st[0].nal_len == 4) VF_ASSERT(total == hdr.len + nout, "the announced size is the size of the response");
    demux(&hdr, seg.segment_index);
    check(vf_pick(0, nst - 1), 0x1ffffffffull, 1, total, seg.segment_index);
    (void) used;
}
