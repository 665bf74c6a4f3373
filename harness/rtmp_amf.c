/*
 * AMF: what the encoder writes (into chunk-sized shared buffers) the decoder reads back, whatever
 * the values, the order of the properties and unknown extra elements.
 */
#define CHUNK_OUT 23
#include "rtmp.h"
static u_char num[8], num2[8], bo; static char str[12]; static size_t slen; static uint32_t mlen_;
static char rstr[8], rkey[8]; static u_char rnum[8], rnum2[8], rbool;
static u_char i16[2], i32[4], r16[2], r32[4];

void harness(void)
{
    ngx_chain_t *first = NULL, *last = NULL, *cl; ngx_uint_t i, n, k; ngx_rtmp_amf_elt_t out[4], obj[4], in[4], inobj[3], arr[2]; u_char fill[24]; size_t pad; u_char zero = 0;
    rtmp_setup(8, 1000);
    rtmp_session();
    vf_bytes(num, 8); vf_bytes(num2, 8); bo = vf_u8(); vf_bytes(i16, 2); vf_bytes(i32, 4);
    slen = vf_pick(0, 10);
    for (i = 0; i < slen; i++) { str[i] = vf_u8(); VF_ASSUME(str[i] != 0); }

    /* shift everything over the buffer boundaries with a first string of any length */
    memset(fill, 'x', sizeof(fill));
    pad = vf_pick(0, 22);
    memset(out, 0, sizeof(out)); memset(obj, 0, sizeof(obj)); memset(in, 0, sizeof(in)); memset(inobj, 0, sizeof(inobj)); memset(arr, 0, sizeof(arr));
    fill[pad] = 0;
    out[0].type = NGX_RTMP_AMF_STRING; out[0].data = fill; out[0].len = pad;
    if (!pad) out[0].data = NULL;

    /* object with properties in any order, one of them unknown to the reader */
    n = 0;
    k = vf_pick(0, 3);
    for (i = 0; i < 3; i++) {
        if (i == k) { ngx_str_set(&obj[n].name, "unknownKey"); obj[n].type = vf_bool() ? NGX_RTMP_AMF_NUMBER : NGX_RTMP_AMF_STRING; obj[n].data = num2; obj[n].len = 8; n++; }
        switch ((i + k) % 3) {
        case 0: ngx_str_set(&obj[n].name, "s"); obj[n].type = NGX_RTMP_AMF_STRING; obj[n].data = str; obj[n].len = slen; n++; break;
        case 1: ngx_str_set(&obj[n].name, "ab"); obj[n].type = NGX_RTMP_AMF_NUMBER; obj[n].data = num; n++; break;
        case 2: ngx_str_set(&obj[n].name, "b"); obj[n].type = NGX_RTMP_AMF_BOOLEAN; obj[n].data = &bo; n++; break;
        }
    }
    out[1].type = vf_bool() ? NGX_RTMP_AMF_OBJECT : NGX_RTMP_AMF_MIXED_ARRAY; out[1].data = obj; out[1].len = n * sizeof(obj[0]);
    switch (vf_pick(0, 2)) {
    case 0: out[2].type = NGX_RTMP_AMF_NULL; break;
    case 1: arr[0].type = NGX_RTMP_AMF_NUMBER; arr[0].data = num2; arr[1].type = NGX_RTMP_AMF_STRING; arr[1].data = "q"; out[2].type = NGX_RTMP_AMF_ARRAY; out[2].data = arr; out[2].len = sizeof(arr); break;
    case 2: out[2].type = NGX_RTMP_AMF_STRING; out[2].data = "zz"; break;
    }
    out[3].type = NGX_RTMP_AMF_NUMBER; out[3].data = num2;
    VF_ASSERT(ngx_rtmp_append_amf(sess, &first, &last, out, 2) == NGX_OK, "append");
    VF_ASSERT(ngx_rtmp_append_amf(sess, &first, &last, out + 2, 2) == NGX_OK, "append");
    /* every buffer but the last is full */
    for (mlen_ = 0, cl = first; cl; cl = cl->next) {
        VF_ASSERT(cl->buf->pos == cl->buf->start + NGX_RTMP_MAX_CHUNK_HEADER && cl->buf->last <= cl->buf->end, "buffer");
        VF_ASSERT(cl->next == NULL || cl->buf->last - cl->buf->pos == CHUNK_OUT, "short buffer");
        mlen_ += cl->buf->last - cl->buf->pos;
    }
    /* read it back */
    in[0].type = NGX_RTMP_AMF_STRING; in[0].data = rkey; in[0].len = sizeof(rkey);
    inobj[0].type = NGX_RTMP_AMF_NUMBER; ngx_str_set(&inobj[0].name, "ab"); inobj[0].data = rnum;
    inobj[1].type = NGX_RTMP_AMF_BOOLEAN; ngx_str_set(&inobj[1].name, "b"); inobj[1].data = &rbool;
    inobj[2].type = NGX_RTMP_AMF_STRING; ngx_str_set(&inobj[2].name, "s"); inobj[2].data = rstr; inobj[2].len = sizeof(rstr);
    in[1].type = NGX_RTMP_AMF_OBJECT; in[1].data = inobj; in[1].len = sizeof(inobj);
    in[2].type = NGX_RTMP_AMF_NULL;
    in[3].type = NGX_RTMP_AMF_NUMBER; in[3].data = rnum2;
    VF_ASSERT(ngx_rtmp_receive_amf(sess, first, in, 4) == NGX_OK, "read");
    VF_ASSERT(ngx_memcmp(rnum, num, 8) == 0 && ngx_memcmp(rnum2, num2, 8) == 0, "number");
    VF_ASSERT(rbool == bo, "boolean");
    for (i = 0; i < 7 && i < slen; i++) VF_ASSERT(rstr[i] == str[i], "string");
    VF_ASSERT(rstr[slen < 7 ? slen : 7] == 0, "string terminator");
    for (i = 0; i < 7 && i < pad; i++) VF_ASSERT(rkey[i] == 'x', "first string");
    VF_ASSERT(rkey[pad < 7 ? pad : 7] == 0, "first string terminator");
    /* truncated input: an error, or an object that ends early */
    cl = first; k = vf_pick(0, 1);
    while (cl->next && (k || cl->next->next)) cl = cl->next;
    if (cl->buf->last - cl->buf->pos >= 9) { /* the last number is cut */
        cl->buf->last -= vf_pick(1, 8); cl->next = NULL;
        in[3].type = NGX_RTMP_AMF_NUMBER;
        if (k) VF_ASSERT(ngx_rtmp_receive_amf(sess, first, in, 4) == NGX_ERROR, "truncated number accepted");
        VF_REACH("truncated");
    }
    /* integers */
    first = last = NULL;
    out[0].type = NGX_RTMP_AMF_INT16 | NGX_RTMP_AMF_TYPELESS; out[0].data = i16; out[1].type = NGX_RTMP_AMF_INT32 | NGX_RTMP_AMF_TYPELESS; out[1].data = i32;
    out[2].type = NGX_RTMP_AMF_STRING | NGX_RTMP_AMF_TYPELESS; out[2].data = str; out[2].len = slen; if (!slen) out[2].data = NULL;
    VF_ASSERT(ngx_rtmp_append_amf(sess, &first, &last, out, 3) == NGX_OK, "append");
    VF_ASSERT(first->buf->pos[0] == i16[1] && first->buf->pos[1] == i16[0] && first->buf->pos[2] == i32[3] && first->buf->pos[5] == i32[0], "big endian");
    in[0].type = NGX_RTMP_AMF_INT16 | NGX_RTMP_AMF_TYPELESS; in[0].data = r16; in[1].type = NGX_RTMP_AMF_INT32 | NGX_RTMP_AMF_TYPELESS; in[1].data = r32;
    in[2].type = NGX_RTMP_AMF_STRING | NGX_RTMP_AMF_TYPELESS; in[2].data = rstr; in[2].len = sizeof(rstr);
    VF_ASSERT(ngx_rtmp_receive_amf(sess, first, in, 3) == NGX_OK, "read typeless");
    VF_ASSERT(ngx_memcmp(r16, i16, 2) == 0 && ngx_memcmp(r32, i32, 4) == 0, "integers");
    for (i = 0; i < 7 && i < slen; i++) VF_ASSERT(rstr[i] == str[i], "typeless string");
    VF_REACH("read back");
    (void) zero;
}
