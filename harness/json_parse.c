/*
 * JSON parser: any text of at most N bytes. A reference recogniser written from the
 * format decides acceptance, and walks the result tree along the text.
 */
#include "vf_ngx.h"
#include "ngx_json_parser.h"
#include <ctype.h>
#ifndef VN
#define VN 6
#endif
static u_char  *t;      /* text as given */
static size_t   p;
static u_char  *buf;    /* the parser's copy: strings of the result point into it */

static int sp(u_char c) { return (c == ' ') | (c >= 9 && c <= 13); }
static int dig(u_char c) { return (c >= '0') & (c <= '9'); }
static void skip(void) { while (sp(t[p])) p++; }

/* expected values are compared with v (NULL: recognise only) */
static int ref_str(ngx_json_esc_str_t *v)
{
    size_t s = ++p; int esc = 0;
    for (;; p++) {
        if (t[p] == 0) return 0;
        if (t[p] == '"') break;
        if (t[p] == '\\') { esc = 1; p++; if (t[p] == 0) return 0; }
    }
    if (v) {
        VF_ASSERT(v->s.data == buf + s && v->s.len == p - s, "string value");
        VF_ASSERT(v->escape == esc, "escape flag");
    }
    p++;
    return 1;
}
static int ref_num(int64_t *num, uint64_t *denom, int *frac)
{
    int neg = 0; int64_t n = 0; uint64_t d = 1;
    if (t[p] == '-') { neg = 1; p++; }
    if (!dig(t[p])) return 0;
    for (; dig(t[p]); p++) n = n * 10 + (t[p] - '0');
    *frac = 0;
    if (t[p] == '.') {
        p++; *frac = 1;
        if (!dig(t[p])) return 0;
        for (; dig(t[p]); p++) { n = n * 10 + (t[p] - '0'); d *= 10; }
    }
    *num = neg ? -n : n; *denom = d;
    return 1;
}
static int lit(const char *s) { size_t i; for (i = 0; s[i]; i++) if (t[p + i] != s[i]) return 0; p += i; return 1; }

static int ref_val(ngx_json_value_t *v);
static int ref_arr(ngx_json_array_t *a);
static int ref_obj(ngx_json_object_t *o);

static int ref_val(ngx_json_value_t *v)
{
    int64_t n; uint64_t d; int f;
    switch (t[p]) {
    case '"': if (v) VF_ASSERT(v->type == NGX_JSON_STRING, "type"); return ref_str(v ? &v->v.str : NULL);
    case '[': if (v) VF_ASSERT(v->type == NGX_JSON_ARRAY, "type"); return ref_arr(v ? &v->v.arr : NULL);
    case '{': if (v) VF_ASSERT(v->type == NGX_JSON_OBJECT, "type"); return ref_obj(v ? &v->v.obj : NULL);
    case 'n': if (v) VF_ASSERT(v->type == NGX_JSON_NULL, "type"); return lit("null");
    case 't': if (v) VF_ASSERT(v->type == NGX_JSON_BOOL && v->v.boolean == 1, "true"); return lit("true");
    case 'f': if (v) VF_ASSERT(v->type == NGX_JSON_BOOL && v->v.boolean == 0, "false"); return lit("false");
    }
    if (!ref_num(&n, &d, &f)) return 0;
    if (v) {
        VF_ASSERT(v->type == (f ? NGX_JSON_FRAC : NGX_JSON_INT), "number type");
        VF_ASSERT(v->v.num.num == n && v->v.num.denom == d, "number value");
    }
    return 1;
}

/* arrays are homogeneous: the first element decides */
static int ref_arr(ngx_json_array_t *a)
{
    int type = 0, et, f; size_t count = 0, i = 0, size; ngx_array_part_t *part = a ? &a->part : NULL;
    u_char *item = a ? part->first : NULL; int64_t n; uint64_t d; u_char c;
    p++; skip();
    if (t[p] == ']') {
        p++;
        if (a) VF_ASSERT(a->count == 0 && a->part.count == 0 && a->part.next == NULL && a->part.first == a->part.last, "empty array");
        return 1;
    }
    for (;;) {
        if (a) {
            if (i == part->count) {
                part = part->next;
                VF_ASSERT(part != NULL && part->count > 0, "missing array part");
                item = part->first; i = 0;
                VF_REACH("second part");
            }
        }
        c = t[p];
        switch (c) {
        case '"': et = NGX_JSON_STRING; size = sizeof(ngx_json_esc_str_t); if (!ref_str((void *) item)) return 0; break;
        case '[': et = NGX_JSON_ARRAY; size = sizeof(ngx_json_array_t); if (!ref_arr((void *) item)) return 0; break;
        case '{': et = NGX_JSON_OBJECT; size = sizeof(ngx_json_object_t); if (!ref_obj((void *) item)) return 0; break;
        case 't': case 'f': et = NGX_JSON_BOOL; size = sizeof(ngx_flag_t);
            if (!lit(c == 't' ? "true" : "false")) return 0;
            if (a) VF_ASSERT(*(ngx_flag_t *) item == (c == 't'), "bool item");
            break;
        default:
            if (!ref_num(&n, &d, &f)) return 0;
            et = f ? NGX_JSON_FRAC : NGX_JSON_INT;
            if (type == NGX_JSON_FRAC) et = NGX_JSON_FRAC;    /* an integer in an array of fractions */
            size = et == NGX_JSON_FRAC ? sizeof(ngx_json_fraction_t) : sizeof(int64_t);
            if (a && et == NGX_JSON_FRAC) VF_ASSERT(((ngx_json_fraction_t *) item)->num == n && ((ngx_json_fraction_t *) item)->denom == d, "fraction item");
            if (a && et == NGX_JSON_INT) VF_ASSERT(*(int64_t *) item == n, "int item");
        }
        if (count == 0) type = et;
        if (et != type) return 0;
        count++; i++;
        if (a) item += size;
        skip();
        if (t[p] == ']') { p++; break; }
        if (t[p] != ',') return 0;
        p++; skip();
    }
    if (a) {
        VF_ASSERT(a->type == type && a->count == count, "array type and count");
        VF_ASSERT(i == part->count && part->next == NULL && (u_char *) part->last == item, "array end");
    }
    return 1;
}

static int ref_obj(ngx_json_object_t *o)
{
    size_t n = 0, s, i; ngx_json_key_value_t *kv; ngx_uint_t hash; u_char c;
    p++; skip();
    if (t[p] == '}') { p++; if (o) VF_ASSERT(o->nelts == 0, "empty object"); return 1; }
    for (;; n++) {
        kv = NULL;
        if (o) { VF_ASSERT(n < o->nelts, "object members missing"); kv = (ngx_json_key_value_t *) o->elts + n; }
        if (t[p] != '"') return 0;
        s = ++p;
        for (hash = 0; t[p] != '"'; p++) {
            if (t[p] == 0) return 0;
            c = t[p];
            if (c >= 'A' && c <= 'Z') c += 32;
            hash = ngx_hash(hash, c);
            if (c == '\\') { p++; if (t[p] == 0) return 0; }
        }
        if (kv) {
            VF_ASSERT(kv->key.data == buf + s && kv->key.len == p - s, "key");
            VF_ASSERT(kv->key_hash == hash, "key hash");
            for (i = s; i < p; i++) {
                if (i > s && t[i - 1] == '\\') break;
                c = t[i];
                if (c >= 'A' && c <= 'Z') c += 32;
                VF_ASSERT(buf[i] == c, "key is lower case");
            }
        }
        p++; skip();
        if (t[p] != ':') return 0;
        p++; skip();
        if (!ref_val(kv ? &kv->value : NULL)) return 0;
        skip();
        if (t[p] == '}') { p++; break; }
        if (t[p] != ',') return 0;
        p++; skip();
    }
    if (o) VF_ASSERT(o->nelts == n + 1, "number of members");
    return 1;
}

void harness(void)
{
    ngx_json_value_t v; ngx_int_t rc; u_char err[64]; size_t i, n; int ok;

    vf_ngx_init();
#ifdef ARRAY    /* arrays of single character items, over the part boundaries */
    { static const char *it[] = { "%,", "\"%\",", "[%],", "-%.5,", "{},", "true," }; const char *f, *f2; size_t k, m, len;
      f = it[vf_pick(0, 5)]; m = vf_pick(1, ARRAY);
      f2 = vf_bool() ? f : it[vf_pick(0, 5)];
      len = ngx_strlen(f);
      n = 1 + len * (m - 1) + ngx_strlen(f2);
      t = vf_malloc(n + 1);
      t[0] = '[';
      for (i = 1, k = 0; k < m; k++) {
          const char *s = k == m - 1 ? f2 : f;
          for (; *s; s++) t[i++] = *s == '%' ? vf_range('0', '9') : (u_char) *s;
      }
      t[n - 1] = ']'; t[n] = 0;
    }
#else
    n = vf_pick(0, VN);
    t = vf_malloc(n + 1);
#ifdef PREFIX
    t = vf_malloc(sizeof(PREFIX) + n);
    ngx_memcpy(t, PREFIX, sizeof(PREFIX) - 1);
    for (i = 0; i < n; i++) { u_char c = vf_u8(); VF_ASSUME(c != 0); t[sizeof(PREFIX) - 1 + i] = c; }
    n += sizeof(PREFIX) - 1;
#else
    for (i = 0; i < n; i++) { u_char c = vf_u8(); VF_ASSUME(c != 0); t[i] = c; }
#endif
    t[n] = 0;
#endif
    buf = vf_malloc(n + 1);
    ngx_memcpy(buf, t, n + 1);
    ngx_memset(err, 0x55, sizeof(err));

    rc = ngx_json_parse(&vf_pool, buf, &v, err, sizeof(err));

    for (i = 0; i < sizeof(err) && err[i]; i++);
    VF_ASSERT(i < sizeof(err), "error message not terminated");
    p = 0;
    skip();
    if (rc == NGX_JSON_OK) {
        VF_REACH("accepted");
        VF_ASSERT(err[0] == 0, "error set on success");
        ok = ref_val(&v);
        skip();
        VF_ASSERT(ok && t[p] == 0, "invalid text accepted");
    } else {
        VF_REACH("rejected");
        ok = ref_val(NULL);
        skip();
        VF_ASSERT(!(ok && t[p] == 0), "valid text rejected");
        VF_ASSERT(err[0] != 0, "no error message");
    }
}
