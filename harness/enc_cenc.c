/*
 * CENC: the fragment is decrypted by what its own senc/saiz/saio say, with counters of the harness, and has to be the input
 */
#include "enc.h"
#include "mp4/mp4_dash_encrypt.h"
static const int sizes[] = { SIZES }; static media_enc_t enc;
#ifndef IVS
#define IVS 3
#endif
#define NSIZES ((int) (sizeof(sizes) / sizeof(sizes[0])))

static int is_enc(u_char t, int hevc) { return hevc ? ((t >> 1) & 0x3f) < 32 : (t & 0x1f) >= 1 && (t & 0x1f) <= 5; }

void harness(void)
{
    static media_segment_t seg; static media_segment_track_t tr; segment_writer_t w; mp4_muxer_state_t *m = NULL; vod_str_t hdr = { 0, NULL }; size_t total = 0, sz = 0; vod_status_t r;
    int i, j, k, n, nn, tot = 0, ns = 0, nal, snpf, hevc = 0, f, aux; int nalsz[MAXF][8], nnal[MAXF]; int64_t dts; uint64_t iv; st_t *s = &st[0]; u_char *p, *e, *b, *be, *q, *moof, *mdat, *te, *d, *sz_tab, sub[64]; uint32_t off, saio, doff;
    rc.pool = &vf_pool; rc.log = &vf_log;
    vf_bytes(enc.key, 16); seg.segment_index = vf_u32();
    switch (vf_pick(0, IVS)) {
    case 0: iv = 0x0102030405060708ull; dts = 901499; break; case 1: iv = 0xffffffffffffffffull; dts = 0; break;
    case 2: iv = 0x01ffffffffffffffull; dts = -90000; break; default: iv = 0xfffffffffffffffdull; dts = 3000; break;
    }
    for (i = 0; i < 8; i++) enc.iv[i] = iv >> (56 - 8 * i);
    iv += dts * 60 / 90000;
    switch (vf_pick(0, PIECES)) { case 0: piece = 0; break; case 1: piece = 1; break; case 2: piece = 7; break; case 3: piece = 17; break; default: piece = 64; break; }
    suspend = piece == 0 || piece == 7;
    s->mi.timescale = 90000; tr.media_info = &s->mi; tr.enc = &enc; tr.start_dts = dts;
    nal = 0; snpf = 0;
#ifdef VIDEO
    s->mi.media_type = MEDIA_TYPE_VIDEO; hevc = vf_cbool(); s->mi.codec_id = hevc ? VOD_CODEC_ID_HEVC : VOD_CODEC_ID_AVC;
#ifdef NALLEN
    nal = vf_pick(1, 4);
#else
    nal = 4;
#endif
#ifdef SNPF
    snpf = 1;
#endif
#else
    s->mi.media_type = MEDIA_TYPE_AUDIO; s->mi.codec_id = VOD_CODEC_ID_AAC;
#endif
    s->mi.u.video.nal_packet_size_length = nal;
#ifdef EMPTY
    s->n = vf_pick(0, FRAMES);
#else
    s->n = FRAMES;
#endif
    for (f = 0; f < s->n; f++) {
        nnal[f] = nal ? snpf ? 1 : (int) vf_pick(1, NALS) : 1; n = 0;
        for (j = 0; j < nnal[f]; j++) { nalsz[f][j] = sizes[vf_pick(0, NSIZES - 1)]; n += nal + nalsz[f][j]; }
        s->in[f].size = n; s->in[f].duration = 3000; tot += n;
        s->data[f] = vf_buf(n);
        if (nal) for (j = 0, q = s->data[f]; j < nnal[f]; j++) { for (k = 0; k < nal; k++) *q++ = nalsz[f][j] >> 8 * (nal - 1 - k); q += nalsz[f][j]; }
    }
    tr.frame_count = s->n; tr.frames_source = &fs; tr.frames_source_context = s; tr.frames.part.elts = s->in; tr.frames.part.nelts = s->n;
    seg.tracks = &tr; seg.tracks_end = &tr + 1; seg.track_count = 1;
    w.write_tail = on_write; w.write_head = on_head; w.context = s;
    if (!nal) {
        r = mp4_dash_encrypt_get_fragment_writer(&w, &rc, &seg, 0, 1, &hdr, &sz, &m); VF_ASSERT(r == VOD_OK, "size"); s->again = 0;
    }
    r = mp4_dash_encrypt_get_fragment_writer(&w, &rc, &seg, snpf, 0, &hdr, &total, &m);
    VF_ASSERT(r == VOD_OK, "init");
    VF_ASSERT((m != NULL) == (s->n > 0), "frames to process");
    if (m) run(m);
    gather();
    VF_ASSERT(nout == tot, "every byte of the frames is written");
    if (nal && !snpf && s->n) { VF_ASSERT(head != NULL && hdr.len == 0, "the header is written when the frames are"); hdr.data = head; hdr.len = nhead; }
    else { VF_ASSERT(head == NULL, "the header is known up front"); VF_ASSERT(total == hdr.len + tot, "response size"); if (!nal) VF_ASSERT(sz == total, "size of a head request"); }

    p = hdr.data; e = p + hdr.len;
    p = box(p, e, "styp", &b, &be); p = box(p, e, "sidx", &b, &be); moof = p;
    p = box(p, e, "moof", &b, &be); mdat = p; VF_ASSERT(e - p == 8 && is_box(p, e, "mdat") && be32(p) == 8 + (uint32_t) tot, "mdat"); p = b; e = be;
    p = box(p, e, "mfhd", &b, &be); p = box(p, e, "traf", &b, &be); VF_ASSERT(p == e, "moof"); p = b; e = be;
    p = boxn(p, e, "tfhd", 8, &b); VF_ASSERT(be32(b) == 0x020000 && be32(b + 4) == 1, "tfhd");
    p = box(p, e, "tfdt", &b, &be);
    doff = 0; d = NULL; k = nal ? 16 : 8;
    if (s->n) {
        p = box(p, e, "trun", &d, &te); VF_ASSERT((int) be32(d + 4) == s->n && te - d == 12 + k * s->n, "sample count"); doff = be32(d + 8);
        VF_ASSERT((int) doff == mdat + 8 - moof, "data offset"); d += 12;
    }
    p = box(p, e, "saiz", &b, &be); VF_ASSERT(be - b >= 9 && be32(b) == 0, "saiz"); aux = b[4]; VF_ASSERT(be32(b + 5) == (uint32_t) s->n, "saiz count"); sz_tab = b + 9;
    VF_ASSERT(be - b == 9 + (aux ? 0 : s->n), "saiz size");
    p = boxn(p, e, "saio", 12, &b); VF_ASSERT(be32(b) == 0 && be32(b + 4) == 1, "saio"); saio = be32(b + 8);
    p = box(p, e, "senc", &b, &be); VF_ASSERT(p == e, "traf");
    VF_ASSERT(be32(b) == (nal ? 2u : 0) && be32(b + 4) == (uint32_t) s->n, "senc"); q = b + 8;
    VF_ASSERT(saio == (uint32_t) (q - moof), "saio points at the auxiliary data");
    off = 0;
    for (f = 0; f < s->n; f++, d += k) {
        u_char ctr[16], ks[16], *o; int pos, kp = 0, c, en, asz = aux ? aux : sz_tab[f];
        VF_ASSERT(be32(d + 4) == s->in[f].size, "sample size");
        VF_ASSERT(asz >= 8 && be - q >= asz, "auxiliary data size");
        VF_ASSERT(be64(q) == iv + f, "initialization vector");
        ngx_memcpy(ctr, q, 8); ngx_memzero(ctr + 8, 8);
        ns = 0;
        if (nal) { ns = be16(q + 8); VF_ASSERT(asz == 10 + 6 * ns && ns <= 9, "subsamples"); ngx_memcpy(sub, q + 10, 6 * ns); }
        else VF_ASSERT(asz == 8, "auxiliary data size");
        q += asz; o = out + off; off += s->in[f].size; n = s->in[f].size; pos = 0;
        for (i = 0; i < (nal ? ns : 1); i++) {
            c = nal ? be16(sub + 6 * i) : 0; en = nal ? (int) be32(sub + 6 * i + 2) : n;
            VF_ASSERT(pos + c <= n, "clear bytes within the frame"); VF_ASSERT(en <= n - pos - c, "encrypted bytes within the frame");
            for (j = 0; j < c; j++, pos++) VF_ASSERT(o[pos] == s->data[f][pos], "clear byte");
            for (j = 0; j < en; j++, pos++, kp++) {
                if ((kp & 15) == 0) { for (nn = 0; nn < 8; nn++) ctr[8 + nn] = (uint64_t) (kp >> 4) >> (56 - 8 * nn); evp_block(enc.key, ctr, ks); }
                VF_ASSERT((o[pos] ^ ks[kp & 15]) == s->data[f][pos], "encrypted byte");
            }
        }
        VF_ASSERT(pos == n, "the subsamples cover the frame");
        /* what has to be protected is protected, what has to be in the clear is in the clear */
        if (nal) {
            int np = 0, si = 0, left = ns ? be16(sub) : 0, enl = ns ? (int) be32(sub + 2) : 0;
            u_char map[2200];
            VF_ASSERT(n <= 2200, "harness size");
            for (i = 0; i < n; i++) {
                while (left == 0 && enl == 0) { si++; left = be16(sub + 6 * si); enl = be32(sub + 6 * si + 2); }
                if (left) { map[i] = 0; left--; } else { map[i] = 1; enl--; }
            }
            for (j = 0; j < nnal[f]; j++) {
                int pe = snpf || is_enc(s->data[f][np + nal], hevc);
                for (i = 0; i < nal + nalsz[f][j]; i++) VF_ASSERT(map[np + i] == (pe && i > nal), "the payloads of slices are encrypted, and nothing else");
                np += nal + nalsz[f][j];
                if (pe) VF_REACH("encrypted NAL"); else VF_REACH("clear NAL");
            }
        }
    }
    VF_ASSERT(q == be, "senc");
    pool_cleanup(); VF_ASSERT(evp_live == 0, "ciphers are released");
    VF_REACH("fragment");
}
