/* common part of the encryption harnesses: frames, their source, and the output */
#include "vf_ngx.h"
#include "mp4/mp4_muxer.h"
#include "mp4/mp4_defs.h"
#include "buffer_pool.h"
#include "mp4_box.h"
#include "vf_evp.h"
#define MAXF 4
#define MAXOUT 6000
typedef struct { media_info_t mi; input_frame_t in[MAXF]; u_char *data[MAXF], *exp[MAXF]; int n, nread, off, again; } st_t;
static st_t st[3]; static int nst, piece, suspend; static request_context_t rc; static u_char *scratch;
static u_char *wb[512]; static int wn[512], nw;
static u_char out[MAXOUT]; static int nout;
static u_char *head; static int nhead;
#ifndef BUF
#define BUF 48
#endif
void *buffer_pool_alloc(request_context_t *r, buffer_pool_t *p, size_t *size) { if (*size == 65536) *size = BUF; return vf_malloc(*size); }

static vod_status_t fs_start(void *c, input_frame_t *f) { st_t *s = c; VF_ASSERT(f->size == s->in[s->nread].size, "frames are read in order"); s->off = 0; return VOD_OK; }
static vod_status_t fs_read(void *c, u_char **b, uint32_t *size, bool_t *done)
{
    st_t *s = c; int n = s->in[s->nread].size, k = n - s->off;
    if (suspend && !s->again) { s->again = 1; return VOD_AGAIN; }
    s->again = 0;
    if (piece && k > piece) k = piece;
    scratch = vf_malloc(k ? k : 1); ngx_memcpy(scratch, s->data[s->nread] + s->off, k);      /* valid until the next read */
    *b = scratch; *size = k; s->off += k; *done = s->off == n;
    if (*done) s->nread++;
    return VOD_OK;
}
static frames_source_t fs = { fs_start, fs_read };
static vod_status_t on_write(void *c, u_char *b, uint32_t n) { VF_ASSERT(nw < 512, "harness size"); wb[nw] = b; wn[nw++] = n; return VOD_OK; }
static vod_status_t on_head(void *c, u_char *b, uint32_t n) { VF_ASSERT(head == NULL, "one header"); head = b; nhead = n; return VOD_OK; }
static void gather(void)
{
    int i;
    for (i = 0; i < nw; i++) { VF_ASSERT(nout + wn[i] <= MAXOUT, "output size"); ngx_memcpy(out + nout, wb[i], wn[i]); nout += wn[i]; }
}
static void cbc(const u_char *key, u_char *iv, const u_char *in, u_char *o)
{
    u_char t[16]; int i;
    for (i = 0; i < 16; i++) t[i] = in[i] ^ iv[i];
    evp_block(key, t, o); for (i = 0; i < 16; i++) iv[i] = o[i];
}
static void run(mp4_muxer_state_t *m)
{
    vod_status_t r; int loops = 0;
    do { r = mp4_muxer_process_frames(m); VF_ASSERT(++loops < 3000, "progress"); } while (r == VOD_AGAIN);
    VF_ASSERT(r == VOD_OK, "process");
}
static void pool_cleanup(void) { ngx_pool_cleanup_t *c; for (c = vf_pool.cleanup; c; c = c->next) if (c->handler) c->handler(c->data); }
