/*
 * pssh boxes in base64: decoded with the rules of RFC 4648, each is one well formed pssh box
 */
#include "enc.h"
#include "mp4/mp4_dash_encrypt.h"
static u_char *check(u_char *t, u_char *te, media_enc_sys_t *s, int ck)
{
    static u_char o[200]; int i, j, v[4], hl = ck ? 28 : 32, total = hl + s->data.len, chars = (total + 2) / 3 * 4, pad = (3 - total % 3) % 3;
    static const u_char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    VF_ASSERT(te - t >= chars, "length of the base64");
    ngx_memzero(o, sizeof(o));
    o[3] = total; ngx_memcpy(o + 4, "pssh", 4); o[8] = ck;
    ngx_memcpy(o + 12, s->id, 16);
    if (!ck) o[31] = s->data.len;
    ngx_memcpy(o + hl, s->data.data, s->data.len);
    for (i = 0; i < chars; i += 4) {
        u_char *b = o + i / 4 * 3;
        v[0] = b[0] >> 2; v[1] = (b[0] & 3) << 4 | b[1] >> 4; v[2] = (b[1] & 15) << 2 | b[2] >> 6; v[3] = b[2] & 63;
        for (j = 0; j < 4; j++)
            if (i + j >= chars - pad) VF_ASSERT(t[i + j] == '=', "padding"); else VF_ASSERT(t[i + j] == abc[v[j]], "base64 digit");
    }
    return t + chars;
}
void harness(void)
{
    static const u_char ckid[16] = { 0x10, 0x77, 0xef, 0xec, 0xc0, 0xb2, 0x4d, 0x02, 0xac, 0xe3, 0x3c, 0x1e, 0x52, 0xe2, 0xfb, 0x4b };
    static media_enc_sys_t s[2]; static media_enc_t enc; int i, j, n, ck[2]; u_char *p, *e; size_t sz;
    n = vf_pick(1, 2);
    for (i = 0; i < n; i++) {
        vf_bytes(s[i].id, 16); ck[i] = vf_cbool();
        if (ck[i]) ngx_memcpy(s[i].id, ckid, 16);
        else { j = vf_pick(0, 16); if (j < 16) { ngx_memcpy(s[i].id, ckid, 16); s[i].id[j] ^= 0x80; } else { VF_ASSUME(s[i].id[0] != 0x10); } }
        s[i].data.len = vf_pick(0, n == 1 ? 40 : 4); s[i].data.data = vf_buf(s[i].data.len);
    }
    if (n == 1 && vf_cbool()) { sz = mp4_dash_encrypt_base64_pssh_get_size(s); p = vf_malloc(sz); e = mp4_dash_encrypt_base64_pssh_write(p, s); }
    else {
        enc.systems.elts = s; enc.systems.nelts = n; enc.systems.size = sizeof(s[0]);
        sz = mp4_dash_encrypt_base64_psshs_get_size(&enc); p = vf_malloc(sz); e = mp4_dash_encrypt_base64_psshs_write(p, &enc);
    }
    VF_ASSERT((size_t) (e - p) <= sz, "announced size");
    for (i = 0; i < n; i++) p = check(p, e, &s[i], ck[i]);
    VF_ASSERT(p == e, "nothing else");
    VF_REACH("pssh");
}
