/* AMF decoder and arbitrary bytes in two buffers: memory safe, strings are terminated, terminates */
#include "rtmp.h"
#ifndef LEN
#define LEN 9
#endif
void harness(void)
{
    ngx_chain_t a, b; ngx_buf_t ba, bb; u_char *d; size_t cut; ngx_int_t rc; char *s1, *s2, *s3; u_char *num, *bo;
    ngx_rtmp_amf_elt_t in[3], obj[2], var[2]; ngx_rtmp_amf_ctx_t act;
    vf_ngx_init();
    cut = vf_pick(0, LEN);
    d = vf_buf(LEN);
#ifdef FIXED
    { static const u_char f[] = { FIXED }; size_t i; for (i = 0; i < sizeof(f); i++) if (f[i] != 0xee) d[i] = f[i]; }
#endif
    memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b)); memset(&ba, 0, sizeof(ba)); memset(&bb, 0, sizeof(bb));
    a.buf = &ba; b.buf = &bb; a.next = &b;
    ba.start = ba.pos = vf_malloc(cut); ngx_memcpy(ba.pos, d, cut); ba.last = ba.end = ba.pos + cut;
    bb.start = bb.pos = vf_malloc(LEN - cut); ngx_memcpy(bb.pos, d + cut, LEN - cut); bb.last = bb.end = bb.pos + LEN - cut;
    s1 = vf_malloc(3); s2 = vf_malloc(1); s3 = vf_malloc(2); num = vf_zalloc(8); bo = vf_zalloc(1);
    s1[0] = s2[0] = s3[0] = 0;
    memset(in, 0, sizeof(in)); memset(obj, 0, sizeof(obj)); memset(var, 0, sizeof(var));
    obj[0].type = NGX_RTMP_AMF_STRING; ngx_str_set(&obj[0].name, "k"); obj[0].data = s2; obj[0].len = 1;
    var[0].type = NGX_RTMP_AMF_NUMBER; var[0].data = num; var[1].type = NGX_RTMP_AMF_STRING; var[1].data = s3; var[1].len = 2;
    obj[1].type = NGX_RTMP_AMF_VARIANT; ngx_str_set(&obj[1].name, "vv"); obj[1].data = var; obj[1].len = sizeof(var);
    in[0].type = NGX_RTMP_AMF_STRING; in[0].data = s1; in[0].len = 3;
    in[1].type = vf_bool() ? NGX_RTMP_AMF_OBJECT : NGX_RTMP_AMF_ARRAY; in[1].data = obj; in[1].len = sizeof(obj);
    in[2].type = NGX_RTMP_AMF_BOOLEAN | NGX_RTMP_AMF_OPTIONAL; in[2].data = bo;
    memset(&act, 0, sizeof(act)); act.link = &a; act.log = &vf_log;
    rc = ngx_rtmp_amf_read(&act, in, 3);
    VF_ASSERT(rc == NGX_OK || rc == NGX_ERROR, "result");
    if (rc == NGX_OK) {
        VF_ASSERT(s1[0] == 0 || s1[1] == 0 || s1[2] == 0, "string not terminated");
        VF_ASSERT(s2[0] == 0, "string of length 1 not terminated");
        VF_ASSERT(s3[0] == 0 || s3[1] == 0, "variant string not terminated");
        VF_REACH("accepted");
    } else VF_REACH("rejected");
    VF_ASSERT(act.link == &a ? act.offset <= cut : act.link == &b && act.offset <= LEN - cut, "position");
}
