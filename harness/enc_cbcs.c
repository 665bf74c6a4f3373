/*
 * CBCS (pattern 1:9): every byte of the output against a reference encryption, per track
 */
#include "enc.h"
#include "mp4/mp4_cbcs_encrypt.h"
#include "avc_parser.h"
#include "hevc_parser.h"
static const int sizes[] = { SIZES }; static media_enc_t enc; static int nallen, sh, sh_calls; static const u_char *cur_nal[MAXF * 3]; static int cur_len[MAXF * 3], ncur, curi;
#define NSIZES ((int) (sizeof(sizes) / sizeof(sizes[0])))

/* the parsers are checked elsewhere; here they are told what to say */
static int is_slice(u_char t, int hevc) { return hevc ? ((t >> 1) & 0x3f) < 32 : (t & 0x1f) == 1 || (t & 0x1f) == 5; }
vod_status_t avc_hevc_parser_init_ctx(request_context_t *r, void **ctx) { *ctx = &rc; return VOD_OK; }
vod_status_t avc_parser_parse_extra_data(void *c, vod_str_t *x, uint32_t *n, uint32_t *m) { *n = nallen; *m = nallen + 1; return VOD_OK; }
vod_status_t hevc_parser_parse_extra_data(void *c, vod_str_t *x, uint32_t *n, uint32_t *m) { *n = nallen; *m = nallen + 2; return VOD_OK; }
vod_status_t avc_parser_is_slice(void *c, uint8_t t, bool_t *r) { *r = is_slice(t, 0); return VOD_OK; }
vod_status_t hevc_parser_is_slice(void *c, uint8_t t, bool_t *r) { *r = is_slice(t, 1); return VOD_OK; }
static int shsize(int n) { int m = n < 128 ? n : 128; return sh < m ? sh : m; }
static vod_status_t shs(const u_char *b, uint32_t n, uint32_t *r)
{
    int i, k;
    while (curi < ncur && (cur_len[curi] < 18)) curi++;
    VF_ASSERT(curi < ncur, "a slice header is asked for");
    k = cur_len[curi] < 128 ? cur_len[curi] : 128;
    VF_ASSERT((int) n == k, "the slice header is parsed from the start of the NAL unit");
    for (i = 0; i < k; i++) VF_ASSERT(b[i] == cur_nal[curi][i], "the slice header is parsed from the start of the NAL unit");
    *r = shsize(k); curi++; sh_calls++;
    return VOD_OK;
}
vod_status_t avc_parser_get_slice_header_size(void *c, const u_char *b, uint32_t n, uint32_t *r) { return shs(b, n, r); }
vod_status_t hevc_parser_get_slice_header_size(void *c, const u_char *b, uint32_t n, uint32_t *r) { return shs(b, n, r); }
size_t media_segment_track_get_total_size(media_segment_track_t *t) { size_t n = 0; unsigned i; input_frame_t *f = t->frames.part.elts; for (i = 0; i < t->frame_count; i++) n += f[i].size; return n; }

void harness(void)
{
    static media_segment_t seg; static media_segment_track_t tr[3]; static const int kinds[] = { KINDS }; segment_writer_t w, *ws; mp4_muxer_state_t *m = NULL; vod_str_t hdr; size_t total, sz; vod_status_t r;
    int i, j, k, n, f, tot = 0, hevc = 0, pos, len, off, so[3] = { 0 }; int nalsz[MAXF][3], nnal[MAXF]; u_char *q, *ex, iv[16]; st_t *s;
    rc.pool = &vf_pool; rc.log = &vf_log;
    vf_bytes(enc.key, 16); vf_bytes(enc.iv, 16);
    nst = sizeof(kinds) / sizeof(kinds[0]); nallen = 4;
    switch (vf_pick(0, PIECES)) { case 0: piece = 0; break; case 1: piece = 16; break; case 2: piece = 7; break; case 3: piece = 1; break; default: piece = 100; break; }
    suspend = piece == 7;
    for (i = 0; i < nst; i++) {
        s = &st[i]; s->mi.timescale = 90000; tr[i].media_info = &s->mi; tr[i].enc = &enc;
        switch (kinds[i]) {
        case 'v':
            s->mi.media_type = MEDIA_TYPE_VIDEO; hevc = vf_cbool(); s->mi.codec_id = hevc ? VOD_CODEC_ID_HEVC : VOD_CODEC_ID_AVC;
#ifdef NALLEN
            nallen = vf_pick(1, 4);
#endif
            switch (vf_pick(0, SHS)) { case 0: sh = 5; break; case 1: sh = 2; break; case 2: sh = 40; break; default: sh = 126; break; }
            break;
        case 'a': s->mi.media_type = MEDIA_TYPE_AUDIO; s->mi.codec_id = VOD_CODEC_ID_AAC; break;
        default: s->mi.media_type = MEDIA_TYPE_SUBTITLE; s->mi.codec_id = VOD_CODEC_ID_WEBVTT; break;
        }
#ifdef EMPTY
        s->n = vf_pick(0, FRAMES);
#else
        s->n = FRAMES;
#endif
        for (f = 0; f < s->n; f++) {
            k = kinds[i] == 'v';
            if (k) nnal[f] = NALS > 1 ? (int) vf_pick(1, NALS) : 1;
            for (j = n = 0; j < (k ? nnal[f] : 1); j++) {
#ifdef ALLSZ
                len = vf_pick(1, ALLSZ) + (f || j ? 0 : ALLBASE);
#else
                len = sizes[vf_pick(0, NSIZES - 1)];
#endif
                if (k) { if (len < (hevc ? 2 : 1)) len++; nalsz[f][j] = len; len += nallen; }
                n += len;
            }
            s->in[f].size = n; s->in[f].duration = 3000; s->in[f].key_frame = f == 0; tot += n;
            s->data[f] = vf_buf(n); s->exp[f] = ex = vf_malloc(n);
            ngx_memcpy(ex, s->data[f], n);
            if (k) for (j = 0, q = s->data[f]; j < nnal[f]; j++) {
                for (k = 0; k < nallen; k++) *ex++ = *q++ = nalsz[f][j] >> 8 * (nallen - 1 - k);
                len = nalsz[f][j];
                if (is_slice(*q, hevc)) {
                    cur_nal[ncur] = q; cur_len[ncur++] = len;
                    if (len >= 18 && len - shsize(len) >= 16) {
                        ngx_memcpy(iv, enc.iv, 16);
                        for (pos = shsize(len); len - pos >= 16; pos += 160) cbc(enc.key, iv, q + pos, ex + pos);
                        VF_REACH("encrypted slice");
                    } else VF_REACH("short slice");
                } else VF_REACH("clear NAL");
                ex += len; q += len;
            } else if (kinds[i] == 'a') {
                ngx_memcpy(iv, enc.iv, 16);
                for (pos = 0; n - pos >= 16; pos += 16) cbc(enc.key, iv, s->data[f] + pos, ex + pos);
            }
        }
        tr[i].frame_count = s->n; tr[i].frames_source = &fs; tr[i].frames_source_context = s; tr[i].frames.part.elts = s->in; tr[i].frames.part.nelts = s->n;
    }
    seg.tracks = tr; seg.tracks_end = tr + nst; seg.track_count = nst;
    w.write_tail = on_write; w.write_head = on_head; w.context = NULL;
    r = mp4_cbcs_encrypt_get_writers(&rc, &seg, &w, &ws); VF_ASSERT(r == VOD_OK, "writers");
    r = mp4_muxer_init_fragment(&rc, &seg, ws, 1, 1, 0, &hdr, &total, &m); VF_ASSERT(r == VOD_OK, "init");
    VF_ASSERT((m != NULL) == (tot > 0), "frames to process");
    if (m) run(m);
    gather();
    VF_ASSERT(nout == tot && total == hdr.len + tot, "every byte of the frames is written");
    VF_ASSERT(head == NULL, "no header of its own");
    /* where each frame is, the trun says */
    {
        u_char *p = hdr.data, *e = p + hdr.len, *b, *be, *moof, *mdat, *t, *te, *d; int cnt;
        if (nst == 1) { p = box(p, e, "styp", &b, &be); p = box(p, e, "sidx", &b, &be); }
        moof = p; p = box(p, e, "moof", &t, &te); mdat = p;
        t = box(t, te, "mfhd", &b, &be);
        for (i = 0; i < nst; i++) {
            s = &st[i]; f = 0;
            t = box(t, te, "traf", &p, &e); p = box(p, e, "tfhd", &b, &be); p = box(p, e, "tfdt", &b, &be);
            while (p < e) {
                p = box(p, e, "trun", &d, &be); cnt = be32(d + 4); off = be32(d + 8) - (mdat + 8 - moof);
                VF_ASSERT(f + cnt <= s->n && off >= 0, "trun");
                for (; cnt; cnt--, f++) { VF_ASSERT(off + (int) s->in[f].size <= nout, "sample"); for (j = 0; j < (int) s->in[f].size; j++, off++) VF_ASSERT(out[off] == s->exp[f][j], "output byte"); }
            }
            VF_ASSERT(f == s->n, "every frame is there");
        }
    }
    while (curi < ncur && cur_len[curi] < 18) curi++;
    VF_ASSERT(curi == ncur, "every slice is looked at");
    pool_cleanup(); VF_ASSERT(evp_live == 0, "ciphers are released");
    VF_REACH("fragment");
}
