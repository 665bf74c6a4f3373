/* JSON: long numbers, string decoding, extraction of typed members, nesting limit */
#include "vf_ngx.h"
#include "ngx_json_parser.h"

static ngx_int_t parse(u_char *s, ngx_json_value_t *v)
{
    u_char err[64];
    return ngx_json_parse(&vf_pool, s, v, err, sizeof(err));
}

#if MODE == 1       /* numbers of up to 22 digits: exact value or rejected */
void harness(void)
{
    u_char *s; ngx_json_value_t v; size_t i, n, dot; int neg; uint64_t hi = 0, lo = 0, d = 1; size_t dd = 0; ngx_int_t rc;
    vf_ngx_init();
    n = vf_pick(17, 22); dot = vf_pick(0, 2); neg = vf_pick(0, 1);
    dot = dot == 0 ? 0 : dot == 1 ? 1 : n - 1;      /* digits in front of the point */
    s = vf_malloc(n + 3);
    i = 0;
    if (neg) s[i++] = '-';
    for (size_t k = 0; k < n; k++) {
        u_char c = k == 0 || k == 8 || k + 2 >= n ? vf_range('0', '9') : (u_char) "9223372036854775807123"[k];
        if (dot && k == dot) s[i++] = '.';
        s[i++] = c;
        if (k + 11 < n) hi = hi * 10 + (c - '0'); else lo = lo * 10 + (c - '0');
        if (dot && k >= dot) { d *= 10; dd++; }
    }
    s[i] = 0;
    rc = parse(s, &v);
    if (rc == NGX_JSON_OK) {
        VF_ASSERT(((hi < 92233720) | ((hi == 92233720) & (lo <= 36854775807))) && dd <= 19, "overflowing number accepted");
        VF_ASSERT(v.v.num.num == ((int64_t) (neg ? -(hi * 100000000000 + lo) : hi * 100000000000 + lo)) && v.v.num.denom == d, "number value");
        VF_ASSERT(v.type == (dot ? NGX_JSON_FRAC : NGX_JSON_INT), "type");
        VF_REACH("value");
    } else {
        VF_ASSERT((hi > 92233719) | (dd > 18) | ((hi == 92233719) & (lo > 99999000000)), "representable number rejected");
        VF_REACH("overflow");
    }
}
#elif MODE == 2     /* string decoding of any bytes */
#ifndef VN
#define VN 8
#endif
static int hex(u_char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void harness(void)
{
    ngx_str_t src, dst; ngx_json_esc_str_t es; u_char *in, out[VN * 3 + 8], *buf; size_t i, k = 0, n; int bad = 0; ngx_int_t rc;
    vf_ngx_init();
    n = vf_pick(0, VN);
    in = vf_malloc(n);
    for (i = 0; i < n; i++) in[i] = vf_u8();
    buf = vf_malloc(n);
    ngx_memcpy(buf, in, n);
    for (i = 0; i < n && !bad; i++) {
        if (in[i] != '\\') { out[k++] = in[i]; continue; }
        if (++i >= n) { bad = 1; break; }
        switch (in[i]) {
        case '"': case '\\': case '/': out[k++] = in[i]; break;
        case 'b': out[k++] = 8; break;
        case 'f': out[k++] = 12; break;
        case 'n': out[k++] = 10; break;
        case 'r': out[k++] = 13; break;
        case 't': out[k++] = 9; break;
        case 'u': {
            int h[4], j; unsigned c;
            if (i + 4 >= n) { bad = 1; break; }
            for (j = 0; j < 4; j++) { h[j] = hex(in[i + 1 + j]); if (h[j] < 0) bad = 1; }
            if (bad) break;
            c = h[0] << 12 | h[1] << 8 | h[2] << 4 | h[3];
            if (c < 0x80) out[k++] = c;
            else if (c < 0x800) { out[k++] = 0xc0 | c >> 6; out[k++] = 0x80 | (c & 63); }
            else { out[k++] = 0xe0 | c >> 12; out[k++] = 0x80 | (c >> 6 & 63); out[k++] = 0x80 | (c & 63); }
            i += 4;
            VF_REACH("unicode");
            break; }
        default: bad = 1;
        }
    }
    src.data = buf; src.len = n;
#ifdef APPEND
    { u_char *d = vf_malloc(n + 2); d[0] = 'x'; d[1] = 'y'; dst.data = d; dst.len = 2;
      rc = ngx_json_decode_string(&dst, &src);
      if (rc == NGX_JSON_OK) { VF_ASSERT(dst.data == d && dst.len == k + 2 && d[0] == 'x' && d[1] == 'y', "appended"); dst.data += 2; dst.len -= 2; } }
#else
    es.s = src; es.escape = 1;
    rc = ngx_json_get_string(&dst, &es);     /* in place */
#endif
    if (rc == NGX_JSON_OK) {
        VF_ASSERT(!bad, "invalid escape accepted");
        VF_ASSERT(dst.len == k && ngx_memcmp(dst.data, out, k) == 0, "decoded string");
        VF_REACH("decoded");
    } else {
        VF_ASSERT(bad, "valid string rejected");
        VF_REACH("bad escape");
    }
}
#elif MODE == 3     /* typed extraction through a generated table */
#include "nginx-kmp-out-module/src/ngx_kmp_out_upstream.c"
void harness(void)
{
    static const struct { const char *key; int kind; size_t off; } m[] = {
        { "url", 's', offsetof(ngx_kmp_out_upstream_json_t, url) }, { "id", 's', offsetof(ngx_kmp_out_upstream_json_t, id) },
        { "connect_data", 's', offsetof(ngx_kmp_out_upstream_json_t, connect_data) },
        { "required", 'b', offsetof(ngx_kmp_out_upstream_json_t, required) },
        { "resume_from", 'e', offsetof(ngx_kmp_out_upstream_json_t, resume_from) },
        { "other", 'x', 0 }, { "uri", 'x', 0 },
    };
    static const char *en[] = { "last_acked", "last_sent", "last_written", "last_ack", "" };
    u_char s[200], *q = s; int i, k, j, t, seen[7] = { 0 }, val[7], nv, dup = 0, bad = 0, up; ngx_json_value_t v; ngx_int_t rc; u_char ch[7], nc; 
    ngx_kmp_out_upstream_json_t r;
    vf_ngx_init();
    *q++ = '{';
    for (i = 0; i < 2; i++) {
        k = vf_pick(0, 6); up = vf_pick(0, 1);
        if (i) *q++ = ',';
        *q++ = '"';
        for (j = 0; m[k].key[j]; j++) *q++ = up && m[k].key[j] != '_' ? m[k].key[j] - 32 : m[k].key[j];
        *q++ = '"'; *q++ = ':';
        t = vf_pick(0, 3);
        nv = -1; nc = 0;
        if (t == 0) {
            nc = vf_range('a', 'z');
            *q++ = '"'; *q++ = nc; *q++ = '"';
            if (m[k].kind == 's') nv = 0;
            if (m[k].kind == 'e') bad = 1;
        } else if (t == 1) {
            j = vf_pick(0, 1);
            q = ngx_cpymem(q, j ? "true" : "false", j ? 4 : 5);
            if (m[k].kind == 'b') nv = j;
        } else if (t == 2) {
            *q++ = '5';
        } else {
            j = vf_pick(0, 4);
            *q++ = '"'; q = ngx_cpymem(q, en[j], ngx_strlen(en[j])); *q++ = '"';
            if (m[k].kind == 's') nv = 100 + j;
            if (m[k].kind == 'e') { nv = j; bad |= j > 2; }
        }
        if (nv < 0 || m[k].kind == 'x') continue;
        if (seen[k]) { dup = 1; continue; }
        seen[k] = 1; val[k] = nv; ch[k] = nc;
    }
    *q++ = '}'; *q = 0;
    VF_ASSERT(parse(s, &v) == NGX_JSON_OK, "parse");
    ngx_memset(&r, 0xff, sizeof(r));
    rc = ngx_json_object_parse(&vf_pool, &v.v.obj, ngx_kmp_out_upstream_json, ngx_array_entries(ngx_kmp_out_upstream_json), &r);
    if (dup || bad) { VF_ASSERT(rc == NGX_JSON_BAD_DATA, "duplicate key or bad enum accepted"); VF_REACH("refused"); return; }
    VF_ASSERT(rc == NGX_JSON_OK, "rejected");
    for (k = 0; k < 5; k++) {
        ngx_str_t *sv = (void *) ((u_char *) &r + m[k].off); intptr_t *nv = (void *) sv;
        switch (m[k].kind) {
        case 's':
            if (!seen[k]) { VF_ASSERT(sv->data == NGX_JSON_UNSET_PTR, "string set"); break; }
            if (val[k] >= 100) { VF_ASSERT(sv->len == ngx_strlen(en[val[k] - 100]) && ngx_memcmp(sv->data, en[val[k] - 100], sv->len) == 0, "string value"); break; }
            VF_ASSERT(sv->len == 1 && sv->data[0] == ch[k], "string value 1"); VF_REACH("string");
            break;
        default:
            VF_ASSERT(*nv == (seen[k] ? val[k] : NGX_JSON_UNSET), "flag / enum value");
            if (seen[k]) VF_REACH("scalar");
        }
    }
}
#else       /* nesting: 32 levels are accepted, more are rejected */
void harness(void)
{
    u_char s[400], *q = s; int i, n, kind[34]; ngx_json_value_t v; 
    vf_ngx_init();
    n = vf_pick(30, 34);
    for (i = 0; i < n; i++) {
        kind[i] = i == 0 || i == 15 || i == n - 1 ? vf_pick(0, 1) : i & 1;
        if (kind[i]) *q++ = '['; else q = ngx_cpymem(q, "{\"a\":", 5);
    }
    *q++ = '1';
    while (--i >= 0) *q++ = kind[i] ? ']' : '}';
    *q = 0;
    VF_ASSERT((parse(s, &v) == NGX_JSON_OK) == (n <= 32), "nesting limit");
    if (n <= 32) VF_REACH("nested"); else VF_REACH("too deep");
}
#endif
