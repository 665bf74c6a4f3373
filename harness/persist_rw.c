/*
 * KLPF files: any sequence of writer calls produces exactly the bytes that the calls
 * describe (chain, sizes, block headers), and the reader returns the same tree.
 */
#include "vf_ngx.h"
#include "ngx_persist_write.h"
#include "ngx_persist_read.h"
#include <zlib.h>
#ifndef OPS
#define OPS 4
#endif
#define TYPE  0x76786574
#define MAXD  5
static u_char   exp_[5000];
static size_t   elen;
static int      depth, comp;
static struct { size_t start; uint32_t id, hdr; } st[MAXD];
static int maxdepth_seen;

static void e_add(const void *p, size_t n) { VF_ASSERT(elen + n < sizeof(exp_), "harness size"); ngx_memcpy(exp_ + elen, p, n); elen += n; }
static void e32(size_t at, uint32_t v) { ngx_memcpy(exp_ + at, &v, 4); }
static void e_blk(size_t start, size_t size, uint32_t hdr);
static void e_child(void)
{
    if (depth && st[depth - 1].hdr == 0) st[depth - 1].hdr = (elen - st[depth - 1].start) | NGX_PERSIST_HEADER_FLAG_CONTAINER;
}
static void e_close(void)
{
    depth--;
    e32(st[depth].start, st[depth].id);
    e32(st[depth].start + 4, elen - st[depth].start);
    if (!st[depth].hdr) st[depth].hdr = 12;
    e32(st[depth].start + 8, st[depth].hdr);
    e_blk(st[depth].start, elen - st[depth].start, st[depth].hdr);
}

/* the "compressor" copies; it may be handed any chunks */
int deflateInit2_(z_streamp s, int level, int method, int windowBits, int memLevel, int strategy, const char *v, int n) { s->total_out = 0; return Z_OK; }
int deflateEnd(z_streamp s) { return Z_OK; }
int deflate(z_streamp s, int flush)
{
    uInt n = s->avail_in < s->avail_out ? s->avail_in : s->avail_out;
    ngx_memcpy(s->next_out, s->next_in, n);
    s->next_in += n; s->next_out += n; s->avail_in -= n; s->avail_out -= n; s->total_out += n;
    return flush == Z_FINISH && s->avail_in == 0 ? Z_STREAM_END : n == 0 ? Z_BUF_ERROR : Z_OK;
}
static int inflate_rc;
int uncompress(Bytef *dest, uLongf *dlen, const Bytef *src, uLong len)
{
    if (inflate_rc != Z_OK) return inflate_rc;
    if (*dlen < len) return Z_BUF_ERROR;
    ngx_memcpy(dest, src, len);
    *dlen = len;
    return Z_OK;
}

/* reads back the blocks that lie in the stream, which starts at 'at', and compares with the expected tree */
static struct { size_t start, size; uint32_t hdr; } blk[16]; static int nblk;
static void e_blk(size_t start, size_t size, uint32_t hdr) { VF_ASSERT(nblk < 16, "harness size"); blk[nblk].start = start; blk[nblk].size = size; blk[nblk++].hdr = hdr; }
static void check_tree(ngx_mem_rstream_t *rs, size_t at, size_t n)
{
    ngx_mem_rstream_t b; ngx_persist_block_hdr_t *h; size_t hs; u_char *s; int i, next; size_t end = at + n;
    VF_ASSERT(ngx_mem_rstream_left(rs) == n, "stream length");
    for (;;) {
        for (next = -1, i = 0; i < nblk; i++)
            if (blk[i].start >= at && blk[i].start < end && (next < 0 || blk[i].start < blk[next].start)) next = i;
        if (next < 0) break;
        if (blk[next].start > at) VF_ASSERT(ngx_mem_rstream_get_ptr(rs, blk[next].start - at) != NULL, "raw data");
        s = ngx_mem_rstream_pos(rs);
        h = ngx_persist_read_block(rs, &b);
        VF_ASSERT(h != NULL && (u_char *) h == s && ngx_memcmp(h, exp_ + blk[next].start, 12) == 0, "block header read back");
        VF_ASSERT(ngx_mem_rstream_pos(&b) == s + 12 && ngx_mem_rstream_end(&b) == s + blk[next].size && ngx_mem_rstream_pos(rs) == s + blk[next].size, "block range");
        VF_ASSERT(b.version == rs->version && b.log == rs->log && b.scope == rs->scope, "block stream context");
        VF_ASSERT(ngx_persist_read_skip_block_header(&b, h) == NGX_OK, "skip header");
        hs = blk[next].hdr & NGX_PERSIST_HEADER_SIZE_MASK;
        VF_ASSERT(ngx_mem_rstream_pos(&b) == s + hs, "block header size");
        if (blk[next].hdr & NGX_PERSIST_HEADER_FLAG_CONTAINER) { check_tree(&b, blk[next].start + hs, blk[next].size - hs); VF_REACH("nested"); }
        at = blk[next].start + blk[next].size;
    }
}

static ngx_persist_write_marker_t  mk;
static size_t           mk_at; static int mk_on;

static void op(ngx_persist_write_ctx_t *c)
{
    u_char *d; size_t n, off; ngx_persist_block_header_t h; ngx_persist_write_ctx_t *c2; ngx_str_t s; ngx_list_t l; u_char *q; ngx_uint_t i;
    static const uint32_t ids[] = { 0x31626c6b, 0x32626c6b };
    switch (vf_pick(0, 10)) {
    case 0:
        n = vf_pick(0, 2) * 7;
        d = vf_buf(n);
        VF_ASSERT(ngx_persist_write(c, d, n) == NGX_OK, "write");
        e_add(d, n); vf_free(d);
        break;
    case 1:
        d = vf_buf(5);
        VF_ASSERT(ngx_persist_write_append(c, d, 5) == NGX_OK, "append");
        e_add(d, 5);
        break;
    case 2:
        if (depth == MAXD) { VF_ASSERT(ngx_persist_write_block_open(c, 5) == NGX_ERROR, "max depth"); VF_REACH("max depth"); break; }
        e_child();
        VF_ASSERT(ngx_persist_write_block_open(c, ids[depth & 1]) == NGX_OK, "open");
        st[depth].start = elen; st[depth].id = ids[depth & 1]; st[depth].hdr = 0; depth++;
        e_add("            ", 12);
        break;
    case 3:
        if (!depth) break;
        ngx_persist_write_block_close(c);
        e_close();
        VF_REACH("close");
        break;
    case 4:
        h.id = vf_u32(); h.header_size = sizeof(h) | NGX_PERSIST_HEADER_FLAG_INDEX;
        d = vf_buf(6);
        e_child();
        VF_ASSERT(ngx_persist_write_block(c, &h, d, 6) == NGX_OK, "write block");
        e32(elen, h.id); e32(elen + 4, 18); e32(elen + 8, 12 | NGX_PERSIST_HEADER_FLAG_INDEX); e_blk(elen, 18, 12 | NGX_PERSIST_HEADER_FLAG_INDEX); elen += 12;
        e_add(d, 6); vf_free(d);
        break;
    case 5:
        ngx_persist_write_block_set_header(c, NGX_PERSIST_HEADER_FLAG_INDEX);
        if (depth && st[depth - 1].hdr == 0) st[depth - 1].hdr = (elen - st[depth - 1].start) | NGX_PERSIST_HEADER_FLAG_INDEX;
        break;
    case 6:
        if (mk_on) break;
        mk_on = 1; mk_at = elen;
        VF_ASSERT(ngx_persist_write_reserve(c, 9, &mk) == NGX_OK, "reserve");
        VF_ASSERT(mk.size == elen, "marker size");
        e_add("         ", 9);
        break;
    case 7:
        if (mk_on != 1) break;
        mk_on = 2;
        d = vf_buf(9);
        ngx_persist_write_marker_write(&mk, d, 4);
        ngx_persist_write_marker_write(&mk, d + 4, 5);
        ngx_memcpy(exp_ + mk_at, d, 9); vf_free(d);
        VF_REACH("marker");
        break;
    case 8: {
        /* a range of a buffer chain */
        ngx_buf_chain_t *parts = vf_malloc(3 * sizeof(*parts)); u_char *pdata = vf_buf(20);
        parts[0].data = pdata; parts[0].size = 4; parts[0].next = &parts[1];
        parts[1].data = pdata + 10; parts[1].size = 3; parts[1].next = &parts[2];
        parts[2].data = pdata + 14; parts[2].size = 6; parts[2].next = NULL;
        q = vf_malloc(13);
        ngx_memcpy(q, pdata, 4); ngx_memcpy(q + 4, pdata + 10, 3); ngx_memcpy(q + 7, pdata + 14, 6);
        off = vf_bool() ? 0 : 3; n = off == 0 ? 13 - vf_pick(0, 4) * 3 : 10 - vf_pick(0, 4) * 2;
        if (off == 0 && n == 13) VF_ASSERT(ngx_persist_write_append_buf_chain(c, parts) == NGX_OK, "append chain");
        else VF_ASSERT(ngx_persist_write_append_buf_chain_n(c, parts, off, n) == NGX_OK, "append chain n");
        e_add(q + off, n);
        break;
    }
    case 9:
        s.len = 3; s.data = vf_buf(3);
        VF_ASSERT(ngx_wstream_str(ngx_persist_write_stream(c), &s) == NGX_OK, "str");
        e32(elen, 3); elen += 4; e_add(s.data, 3);
        break;
    case 10:
        c2 = ngx_persist_write_init(&vf_pool, 0, 0);
        n = 8;
        ngx_list_init(&l, &vf_pool, 3, 2);
        d = vf_buf(n);
        for (i = 0; i < n / 2; i++) { q = ngx_list_push(&l); q[0] = d[2 * i]; q[1] = d[2 * i + 1]; }
        if (vf_bool()) { VF_ASSERT(ngx_persist_write_list_data(c2, &l) == NGX_OK, "list data"); }
        else { n = 2 * vf_pick(1, 4); VF_ASSERT(ngx_persist_write_list_data_n(c2, &l.part, n / 2, 2) == NGX_OK, "list data n"); }
        VF_ASSERT(ngx_persist_write_get_size(c2) == n, "size of the second context");
        VF_ASSERT(ngx_persist_write_chain(c, c2) == NGX_OK, "chain");
        e_add(d, n);
        VF_REACH("chained");
        break;
    }
    VF_ASSERT(ngx_persist_write_get_size(c) == elen, "size so far");
}

void harness(void)
{
    ngx_persist_write_ctx_t *c; ngx_chain_t *cl, **last; size_t size = 0, n, fill, total; int i; ngx_str_t buf; u_char *flat; ngx_mem_rstream_t rs;
    uint32_t v; void *ptr; ngx_int_t rc; static u_char filler[2048]; ngx_pool_t *p; ngx_str_t full;

    vf_ngx_init();
    for (i = 0; i < 2048; i++) filler[i] = 'a' + i % 26;
#ifdef COMP
    comp = 1;
#endif
    p = ngx_create_pool(1024, &vf_log);
    c = ngx_persist_write_init(p, TYPE, comp ? 5 : 0);
    VF_ASSERT(c != NULL, "init");
    e_add("                                ", 32);
    /* leave 0..12 bytes in the first buffer */
#ifdef FILL
    e_child();
    VF_ASSERT(ngx_persist_write_block_open(c, 0x1111) == NGX_OK, "open");
    st[depth].start = elen; st[depth].id = 0x1111; st[depth].hdr = 0; depth++;
    e_add("            ", 12);
    fill = 2048 - 44 - vf_pick(0, 13);
    VF_ASSERT(ngx_persist_write(c, filler, fill) == NGX_OK, "fill");
    e_add(filler, fill);
#endif
    for (i = 0; i < OPS; i++) op(c);
    if (mk_on == 1) { ngx_persist_write_marker_write(&mk, "123456789", 9); ngx_memcpy(exp_ + mk_at, "123456789", 9); }
    if (depth && vf_pick(0, 7) == 7) {
        vf_debug_points = 1;
        VF_ASSERT(ngx_persist_write_close(c, &size, NULL) == NULL, "closed with an open block");
        VF_REACH("unbalanced");
        return;
    }
    while (depth) { ngx_persist_write_block_close(c); e_close(); }

    cl = ngx_persist_write_close(c, &size, vf_bool() ? &last : NULL);
    VF_ASSERT(cl != NULL, "close");
    VF_ASSERT(size == elen, "file size");
    flat = vf_malloc(size);
    for (n = 0; cl; cl = cl->next) {
        total = cl->buf->last - cl->buf->pos;
        VF_ASSERT(total > 0 && n + total <= size, "empty buffer or chain longer than the size");
        ngx_memcpy(flat + n, cl->buf->pos, total);
        n += total;
    }
    VF_ASSERT(n == size, "chain shorter than the size");
    VF_ASSERT(ngx_memcmp(flat + 32, exp_ + 32, size - 32) == 0, "file contents");
    ngx_memcpy(&v, flat, 4); VF_ASSERT(v == NGX_PERSIST_FILE_MAGIC, "magic");
    ngx_memcpy(&v, flat + 4, 4); VF_ASSERT(v == size, "size in the header");
    ngx_memcpy(&v, flat + 8, 4); VF_ASSERT((v & NGX_PERSIST_HEADER_SIZE_MASK) == 32, "header size");
    VF_ASSERT(!!(v & NGX_PERSIST_HEADER_FLAG_COMPRESSED) == comp && (v & NGX_PERSIST_HEADER_FLAG_CONTAINER), "header flags");
    ngx_memcpy(&v, flat + 12, 4); VF_ASSERT(!comp || v == size, "uncompressed size");
    /* read back */
    buf.data = flat; buf.len = size;
    VF_ASSERT(ngx_persist_read_file_header(&buf, TYPE, &vf_log, &rs, &rs) == NGX_OK, "read header");
    VF_ASSERT(rs.pos == flat + 32 && rs.end == flat + size && rs.version == NGX_PERSIST_FILE_VERSION, "stream");
    {
        ngx_pool_t *rp = vf_bool() ? ngx_create_pool(1024, &vf_log) : NULL; size_t max = 0;
        if (comp) { inflate_rc = vf_bool() ? Z_OK : Z_DATA_ERROR; if (vf_bool()) max = vf_bool() ? elen : elen - 1; }
        ptr = (void *) 1;
        rc = ngx_persist_read_inflate(&buf, max, &rs, rp, &ptr);
        if (comp && (inflate_rc != Z_OK || (max && max < elen))) {
            VF_ASSERT(rc == NGX_BAD_DATA, "inflate error");
            VF_REACH("inflate error");
        } else {
            VF_ASSERT(rc == NGX_OK && (comp ? ptr != NULL : ptr == NULL), "inflate");
            check_tree(&rs, 32, elen - 32);
            VF_REACH("read back");
            if (comp && rp == NULL) ngx_free(ptr);
        }
        if (rp) ngx_destroy_pool(rp);
    }
    (void) full;
}
