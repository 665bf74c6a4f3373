/* KLPF reader over arbitrary bytes: nothing outside the buffer is read, blocks tile their container */
#include "vf_ngx.h"
#include "ngx_persist_read.h"
#ifndef SIZE
#define SIZE 60
#endif
static u_char *b; static size_t n;
static uint32_t g32(size_t o) { uint32_t v; ngx_memcpy(&v, b + o, 4); return v; }

static void walk(ngx_mem_rstream_t *rs, int d)
{
    ngx_mem_rstream_t blk; ngx_persist_block_hdr_t *h; u_char *p, *end = rs->end; uint32_t size, hs; int k = 0;
    while (!ngx_mem_rstream_eof(rs) && k++ < 3) {
        p = rs->pos;
        h = ngx_persist_read_block(rs, &blk);
        if (end - p < 12) { VF_ASSERT(h == NULL, "truncated header accepted"); VF_REACH("short"); return; }
        ngx_memcpy(&size, p + 4, 4); ngx_memcpy(&hs, p + 8, 4);
        if ((size < 12) | (size > (uint32_t) (end - p))) { VF_ASSERT(h == NULL, "block size accepted"); VF_REACH("bad size"); return; }
        VF_ASSERT(h == (void *) p && blk.pos == p + 12 && blk.end == p + size && rs->pos == p + size && rs->end == end, "block");
        VF_REACH("block");
        hs &= NGX_PERSIST_HEADER_SIZE_MASK;
        if (ngx_persist_read_skip_block_header(&blk, h) != NGX_OK) {
            VF_ASSERT((hs < 12) | (hs > size), "valid block header refused");
            return;
        }
        VF_ASSERT((hs >= 12) & (hs <= size) && blk.pos == p + hs, "block header skipped");
        if (d < 1) walk(&blk, d + 1);
    }
}

void harness(void)
{
    ngx_str_t s; ngx_mem_rstream_t rs; ngx_int_t rc; uint32_t hs, type; ngx_str_t str; ngx_list_t l; ngx_uint_t cnt, i; ngx_list_part_t *part;
    u_char fixed[4]; 
    vf_ngx_init();
    n = vf_pick(0, 3) ? SIZE : vf_pick(30, 34);
    b = vf_buf(n);
    s.data = b; s.len = n;
    type = vf_u32();
    rc = ngx_persist_read_file_header(&s, type, &vf_log, NULL, &rs);
    if (n < 32) { VF_ASSERT(rc == NGX_BAD_DATA, "short file accepted"); VF_REACH("short file"); return; }
    hs = g32(8) & NGX_PERSIST_HEADER_SIZE_MASK;
    if (rc != NGX_OK) {
        if (g32(0) != 0x66706c6b || g32(20) != type) VF_ASSERT(rc == NGX_BAD_DATA, "rc of a bad file");
        else if (g32(16) < 9 || g32(16) > 10) { VF_ASSERT(rc == NGX_DECLINED, "rc of another version"); VF_REACH("version"); }
        else VF_ASSERT(rc == NGX_BAD_DATA && ((hs < 32) | (hs > n)), "valid file refused");
        return;
    }
    VF_ASSERT((g32(0) == 0x66706c6b) & (g32(20) == type) & (g32(16) >= 9) & (g32(16) <= 10) & (hs >= 32) & (hs <= n), "invalid file accepted");
    VF_ASSERT(rs.pos == b + hs && rs.end == b + n && rs.version == g32(16), "stream");
    hs = vf_concretize(hs);
    rs.pos = b + hs;
    switch (vf_pick(0, 3)) {
    case 0: walk(&rs, 0); break;
    case 1:     /* strings */
        rc = ngx_mem_rstream_str_get(&rs, &str);
        if (n - hs < 4 || g32(hs) > n - hs - 4) { VF_ASSERT(rc == NGX_BAD_DATA, "string past the end"); break; }
        VF_ASSERT(rc == NGX_OK && str.data == b + hs + 4 && str.len == g32(hs) && rs.pos == b + hs + 4 + str.len, "string");
        VF_REACH("string");
        break;
    case 2:
        str.data = fixed;
        rc = ngx_mem_rstream_str_fixed(&rs, &str, sizeof(fixed));
        if (n - hs < 4 || g32(hs) > n - hs - 4 || g32(hs) > 4) { VF_ASSERT(rc == NGX_BAD_DATA, "fixed string"); break; }
        VF_ASSERT(rc == NGX_OK && str.len == g32(hs), "fixed string length");
        for (i = 0; i < str.len; i++) VF_ASSERT(fixed[i] == b[hs + 4 + i], "fixed string bytes");
        break;
    case 3:     /* lists: over the part boundary */
        ngx_list_init(&l, &vf_pool, 3, 4);
        for (i = vf_pick(0, 3); i; i--) *(uint32_t *) ngx_list_push(&l) = 7;
        { size_t had = l.part.nelts;
        cnt = vf_pick(0, 8);
        rc = ngx_mem_rstream_read_list(&rs, &l, cnt);
        VF_ASSERT(rc == (cnt * 4 <= n - hs ? NGX_OK : NGX_BAD_DATA), "list rc");
        if (rc != NGX_OK) break;
        i = 0;
        for (part = &l.part; part; part = part->next) {
            VF_ASSERT(part->nelts <= 3 && (part->next == NULL) == (l.last == part), "list parts");
            for (ngx_uint_t j = 0; j < part->nelts; j++, i++) {
                VF_ASSERT(((uint32_t *) part->elts)[j] == (i < had ? 7 : g32(hs + 4 * (i - had))), "list element");
            }
        }
        VF_ASSERT(i == had + cnt, "list length"); VF_REACH("list"); }
        break;
    }
}
