/*
 * fMP4 init segment: parsed here, by the rules of ISO 14496-12/14/15 and 23001-7, and compared with the media info
 */
#include "vf_ngx.h"
#include "mp4/mp4_init_segment.h"
#include "mp4/mp4_defs.h"
#include "mp4_box.h"
#define MAXT 3
static media_info_t mi[MAXT]; static media_enc_t enc[MAXT]; static media_init_segment_track_t tr[MAXT]; static request_context_t rc;
static const int kinds[] = { KINDS };
static const u_char matrix[36] = { 0, 1, 0, 0, 0,0,0,0, 0,0,0,0, 0,0,0,0, 0,1,0,0, 0,0,0,0, 0,0,0,0, 0,0,0,0, 0x40,0,0,0 };

static void check_entry(u_char *p, u_char *e, int i, int encrypted, int scheme)
{
    media_info_t *m = &mi[i]; u_char *b, *be, *q; const char *cfg = NULL; int j, n, hdr;
    VF_ASSERT(e - p >= 8 && be32(p) == (size_t) (e - p), "sample entry size");
    if (encrypted) VF_ASSERT(is_box(p, e, m->media_type == MEDIA_TYPE_VIDEO ? "encv" : "enca"), "encrypted entry");
    else if (m->media_type == MEDIA_TYPE_SUBTITLE) VF_ASSERT(is_box(p, e, m->codec_id == VOD_CODEC_ID_WEBVTT ? "wvtt" : "stpp"), "subtitle entry");
    else VF_ASSERT(is_box(p, e, (char *) &m->format), "sample entry format");
    p += 8;
    hdr = 8 + (m->media_type == MEDIA_TYPE_VIDEO ? 70 : m->media_type == MEDIA_TYPE_AUDIO ? 20 : 0);
    VF_ASSERT(e - p >= hdr, "sample entry"); for (j = 0; j < 6; j++) VF_ASSERT(p[j] == 0, "reserved"); VF_ASSERT(be16(p + 6) == 1, "data reference");
    p += 8;
    if (m->media_type == MEDIA_TYPE_VIDEO) {
        VF_ASSERT(be16(p + 16) == m->u.video.width && be16(p + 18) == m->u.video.height && be32(p + 20) == 0x480000 && be32(p + 24) == 0x480000 && be16(p + 32) == 1 && be16(p + 66) == 0x18 && be16(p + 68) == 0xffff, "visual sample entry");
        p += 70; cfg = m->codec_id == VOD_CODEC_ID_AVC ? "avcC" : "hvcC";
    } else if (m->media_type == MEDIA_TYPE_AUDIO) {
        VF_ASSERT(be16(p + 8) == m->u.audio.channels && be16(p + 10) == m->u.audio.bits_per_sample && be32(p + 16) == (m->u.audio.sample_rate & 0xffff) << 16, "audio sample entry");
        p += 20; cfg = m->codec_id == VOD_CODEC_ID_AAC ? "esds" : m->codec_id == VOD_CODEC_ID_AC3 ? "dac3" : m->codec_id == VOD_CODEC_ID_EAC3 ? "dec3" : "dOps";
    } else if (m->codec_id == VOD_CODEC_ID_WEBVTT) cfg = "vttC";
    if (cfg) {
        p = box(p, e, cfg, &b, &be);
        if (m->codec_id == VOD_CODEC_ID_AAC) {
            int x = m->extra_data.len;
            VF_ASSERT(be - b >= 4 && be32(b) == 0, "esds"); q = b + 4;
            VF_ASSERT(be - q > 2 && q[0] == 3 && q[1] == be - q - 2, "ES descriptor"); VF_ASSERT(q[4] == 0, "no optional fields"); q += 5;
            VF_ASSERT(q[0] == 4 && q[1] == 13 + (x ? 2 + x : 0) && q[2] == m->u.audio.object_type_id && q[3] == 0x15 && be32(q + 7) == m->bitrate && be32(q + 11) == m->bitrate, "decoder config"); q += 15;
            if (x) { VF_ASSERT(q[0] == 5 && q[1] == x && ngx_memcmp(q + 2, m->extra_data.data, x) == 0, "decoder specific info"); q += 2 + x; }
            VF_ASSERT(be - q == 3 && q[0] == 6 && q[1] == 1 && q[2] == 2, "SL descriptor");
        } else VF_ASSERT(be - b == (int) m->extra_data.len && ngx_memcmp(b, m->extra_data.data, m->extra_data.len) == 0, "codec configuration");
    } else {
        for (j = n = 0; p < e && n < 3; p++) if (*p == 0) n++;
        VF_ASSERT(n == 3, "stpp strings");
    }
    if (encrypted) {
        u_char *sb, *se, *k;
        p = box(p, e, "sinf", &sb, &se);
        q = boxn(sb, se, "frma", 4, &b); VF_ASSERT(ngx_memcmp(b, &m->format, 4) == 0, "original format");
        q = boxn(q, se, "schm", 12, &b); VF_ASSERT(be32(b) == 0 && be32(b + 4) == (scheme == 1 ? 0x63656e63u : 0x63626373u) && be32(b + 8) == 0x10000, "scheme");
        q = box(q, se, "schi", &b, &be); VF_ASSERT(q == se, "sinf");
        q = box(b, be, "tenc", &k, &se); VF_ASSERT(q == be, "schi");
        VF_ASSERT(se - k == (scheme == 1 ? 24 : 41) && be32(k) == (scheme == 1 ? 0 : 0x01000000u), "tenc version");
        VF_ASSERT(k[4] == 0 && k[5] == (scheme == 1 || m->media_type == MEDIA_TYPE_AUDIO ? 0 : 0x19) && k[6] == 1 && k[7] == (scheme == 1 ? 8 : 0), "default protection");
        for (j = 0; j < 16; j++) VF_ASSERT(k[8 + j] == (enc[i].has_key_id ? enc[i].key_id[j] : 0), "key id");
        if (scheme == 2) { VF_ASSERT(k[24] == 16, "constant iv size"); VF_ASSERT(ngx_memcmp(k + 25, enc[i].iv, 16) == 0, "constant iv"); }
        VF_REACH("encrypted");
    }
    VF_ASSERT(p == e, "sample entry contents");
}

static u_char *extra_atom(void *c, u_char *p) { ngx_memcpy(p, "\0\0\0\x0b""free123", 11); return p + 11; }

void harness(void)
{
    static media_init_segment_t seg; static atom_writer_t extra = { 11, extra_atom, NULL }; atom_writer_t *w = NULL; vod_str_t res, sz; vod_status_t r; int i, j, n = sizeof(kinds) / sizeof(kinds[0]), scheme, clear, xw; u_char *p, *e, *b, *be, *q, *te, lang[3]; unsigned code;
    rc.pool = &vf_pool; rc.log = &vf_log;
    for (i = 0; i < n; i++) { mi[i].bitrate = vf_u32(); mi[i].u.video.width = vf_u16(); mi[i].u.video.height = vf_u16(); }
    for (j = 0; j < 3; j++) lang[j] = vf_u8();
    scheme = vf_pick(0, 2); clear = scheme ? vf_cbool() : 0; xw = vf_cbool();
    i = vf_pick(0, 2); seg.lang.len = i == 0 ? 0 : i + 1; seg.lang.data = lang;
    for (i = 0; i < n; i++) {
        mi[i].timescale = 90000; tr[i].media_info = &mi[i];
        switch (kinds[i]) {
        case 'v': mi[i].media_type = MEDIA_TYPE_VIDEO; if (vf_cbool()) { mi[i].codec_id = VOD_CODEC_ID_AVC; mi[i].format = FORMAT_AVC1; } else { mi[i].codec_id = VOD_CODEC_ID_HEVC; mi[i].format = vf_cbool() ? FORMAT_HVC1 : FORMAT_HEV1; } break;
        case 'a': mi[i].media_type = MEDIA_TYPE_AUDIO;
            mi[i].u.audio.channels = vf_u16(); mi[i].u.audio.bits_per_sample = vf_u16(); mi[i].u.audio.object_type_id = vf_u8(); mi[i].u.audio.sample_rate = vf_range(1, 65535);
            switch (vf_pick(0, 3)) {
            case 0: mi[i].codec_id = VOD_CODEC_ID_AAC; mi[i].format = FORMAT_MP4A; break;
            case 1: mi[i].codec_id = VOD_CODEC_ID_AC3; mi[i].format = FORMAT_AC3; break;
            case 2: mi[i].codec_id = VOD_CODEC_ID_EAC3; mi[i].format = FORMAT_EAC3; break;
            default: mi[i].codec_id = VOD_CODEC_ID_OPUS; mi[i].format = FORMAT_OPUS; break;
            }
            break;
        default: mi[i].media_type = MEDIA_TYPE_SUBTITLE; mi[i].codec_id = kinds[i] == 'w' ? VOD_CODEC_ID_WEBVTT : VOD_CODEC_ID_TTML; break;
        }
        j = vf_pick(0, 2); mi[i].extra_data.len = j == 0 ? 0 : j == 1 ? 2 : 40; mi[i].extra_data.data = vf_buf(mi[i].extra_data.len);
        if (scheme && (kinds[i] == 'v' || kinds[i] == 'a')) { tr[i].enc = &enc[i]; enc[i].has_key_id = vf_cbool(); vf_bytes(enc[i].key_id, 16); vf_bytes(enc[i].iv, 16); }
    }
    seg.first = tr; seg.last = tr + n; seg.count = n;
    if (scheme) { r = mp4_init_segment_get_encrypted_stsd_writers(&rc, &seg, scheme == 1 ? SCHEME_TYPE_CENC : SCHEME_TYPE_CBCS, clear, &w); VF_ASSERT(r == VOD_OK, "stsd writers"); }
    r = mp4_init_segment_build(&rc, &seg, 1, xw ? &extra : NULL, w, &sz); VF_ASSERT(r == VOD_OK, "size");
    r = mp4_init_segment_build(&rc, &seg, 0, xw ? &extra : NULL, w, &res); VF_ASSERT(r == VOD_OK, "build");
    VF_ASSERT(sz.len == res.len, "the size of a head request is the size of the response");
    p = res.data; e = p + res.len;
    p = boxn(p, e, "ftyp", 20, &b); VF_ASSERT(ngx_memcmp(b, "iso5\0\0\0\1iso5dashmsix", 20) == 0, "ftyp");
    p = box(p, e, "moov", &b, &be); VF_ASSERT(p == e, "nothing after the moov"); e = be;
    p = boxn(b, e, "mvhd", 100, &b); VF_ASSERT(be32(b) == 0 && be32(b + 12) == 90000 && be32(b + 16) == 0 && be32(b + 20) == 0x10000 && be16(b + 24) == 0x100 && ngx_memcmp(b + 36, matrix, 36) == 0 && be32(b + 96) > (uint32_t) n, "mvhd");
    p = box(p, e, "mvex", &q, &be);
    for (i = 0; i < n; i++) { q = boxn(q, be, "trex", 24, &b); VF_ASSERT(be32(b) == 0 && be32(b + 4) == (uint32_t) i + 1 && be32(b + 8) == 1 && be32(b + 12) == 0 && be32(b + 16) == 0 && be32(b + 20) == 0, "trex"); }
    VF_ASSERT(q == be, "mvex");
    for (i = 0; i < n; i++) {
        media_info_t *m = &mi[i]; const char *h; u_char *me;
        p = box(p, e, "trak", &q, &te);
        q = boxn(q, te, "tkhd", 84, &b);
        VF_ASSERT(be32(b) == 3 && be32(b + 12) == (uint32_t) i + 1 && be32(b + 20) == 0 && be16(b + 36) == (m->media_type == MEDIA_TYPE_AUDIO ? 0x100u : 0) && ngx_memcmp(b + 40, matrix, 36) == 0, "tkhd");
        VF_ASSERT(be32(b + 76) == (m->media_type == MEDIA_TYPE_VIDEO ? (uint32_t) m->u.video.width << 16 : 0) && be32(b + 80) == (m->media_type == MEDIA_TYPE_VIDEO ? (uint32_t) m->u.video.height << 16 : 0), "track dimensions");
        q = box(q, te, "mdia", &b, &me); VF_ASSERT(q == te, "trak"); q = b; te = me;
        q = boxn(q, te, "mdhd", 24, &b); code = 0x55c4;
        if (seg.lang.len == 3) { for (j = 0; j < 3 && lang[j] >= 'a' && lang[j] <= 'z'; j++) ; if (j == 3) { code = (lang[0] - 0x60) << 10 | (lang[1] - 0x60) << 5 | (lang[2] - 0x60); VF_REACH("language"); } }
        VF_ASSERT(be32(b) == 0 && be32(b + 12) == 90000 && be16(b + 20) == code && be16(b + 22) == 0, "mdhd");
        q = box(q, te, "hdlr", &b, &be);
        h = m->media_type == MEDIA_TYPE_VIDEO ? "vide" : m->media_type == MEDIA_TYPE_AUDIO ? "soun" : m->codec_id == VOD_CODEC_ID_WEBVTT ? "text" : "subt";
        VF_ASSERT(be - b > 20 && be32(b) == 0 && ngx_memcmp(b + 8, h, 4) == 0 && be[-1] == 0, "hdlr");
        q = box(q, te, "minf", &b, &me); VF_ASSERT(q == te, "mdia"); q = b; te = me;
        q = box(q, te, m->media_type == MEDIA_TYPE_VIDEO ? "vmhd" : m->media_type == MEDIA_TYPE_AUDIO ? "smhd" : "sthd", &b, &be);
        VF_ASSERT(be - b == (m->media_type == MEDIA_TYPE_VIDEO ? 12 : m->media_type == MEDIA_TYPE_AUDIO ? 8 : 4), "media header");
        q = box(q, te, "dinf", &b, &be); b = box(b, be, "dref", &b, &me); VF_ASSERT(b == be, "dinf");
        q = box(q, te, "stbl", &b, &me); VF_ASSERT(q == te, "minf"); q = b; te = me;
        q = box(q, te, "stsd", &b, &be);
        {
            int en = scheme && m->media_type != MEDIA_TYPE_SUBTITLE, c; u_char *x, *xe;
            VF_ASSERT(be - b >= 16 && be32(b) == 0 && be32(b + 4) == (en && clear ? 2u : 1u), "stsd"); b += 8;
            for (c = 0; b < be; c++) {
                VF_ASSERT(c < 2, "entries of the stsd"); x = b; VF_ASSERT(be - b >= 8 && be32(b) >= 8 && be32(b) <= (size_t) (be - b), "entry size"); b += be32(b); xe = b;
                check_entry(x, xe, i, en && c == 0, scheme);
            }
            VF_ASSERT(c == (en && clear ? 2 : 1), "entries of the stsd");
        }
        q = boxn(q, te, "stts", 8, &b); VF_ASSERT(be32(b + 4) == 0, "stts");
        q = boxn(q, te, "stsc", 8, &b); VF_ASSERT(be32(b + 4) == 0, "stsc");
        q = boxn(q, te, "stsz", 12, &b); VF_ASSERT(be32(b + 4) == 0 && be32(b + 8) == 0, "stsz");
        q = boxn(q, te, "stco", 8, &b); VF_ASSERT(be32(b + 4) == 0, "stco");
        VF_ASSERT(q == te, "stbl");
    }
    if (xw) { p = boxn(p, e, "free", 3, &b); VF_REACH("extra atom"); }
    VF_ASSERT(p == e, "moov"); VF_REACH("init segment");
}
