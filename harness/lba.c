/*
 * Large buffer allocator: for any sequence of allocations and releases the live buffers
 * never overlap, no block is mapped while a mapped one has a free buffer, and at most one
 * empty block stays mapped.
 */
#include "vf_ngx.h"
#include "ngx_lba.h"
#include <sys/mman.h>
#ifndef OPS
#define OPS 7
#endif
#define BLK (512 * 1024)
static struct { u_char *p; int live; } m[OPS + 1]; static int nm;
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    VF_ASSERT(n == BLK && nm <= OPS, "block size");
    m[nm].p = vf_memalign(4096, n); m[nm].live = 1;
    return m[nm++].p;
}
int munmap(void *p, size_t n)
{
    int i;
    for (i = 0; i < nm; i++) if (m[i].live && m[i].p == p) { m[i].live = 0; vf_free(p); VF_REACH("unmapped"); return 0; }
    VF_ASSERT(0, "munmap of something else");
    return -1;
}
static struct { u_char *p; uint64_t tag, tag2; int blk; } b[OPS]; static int nb;

static int used(int i) { int k, n = 0; for (k = 0; k < nb; k++) n += b[k].blk == i; return n; }

void harness(void)
{
    /* bufs per block is (512k - header) / (size + 8) */
    static const size_t sizes[] = { BLK - 256, BLK / 2 - 128, (BLK / 3 - 128) & ~7, BLK / 4 - 128, (BLK / 5 - 128) & ~7 };
    ngx_lba_t *l; size_t sz; int bins, per, op, i, k, nlive, best; u_char *p; uint64_t t;
    vf_ngx_init();
    i = vf_pick(0, MAXPER - 1); sz = sizes[i]; per = i + 1;
    bins = vf_pick(1, per > 3 ? per : 3);
    l = ngx_lba_create(&vf_pool, sz, bins);
    VF_ASSERT(l != NULL && ngx_lba_buf_size(l) == sz, "create");
    VF_ASSERT(ngx_lba_match(l, sz, bins) && !ngx_lba_match(l, sz + 1, bins), "match");
    for (op = 0; op < OPS; op++) {
        k = vf_pick(0, nb);
        if (k == nb) {
            nlive = nm; best = 0;
            for (i = 0; i < nm; i++) if (m[i].live && used(i) < per && used(i) > best) best = used(i);
            for (i = 0, k = 0; i < nm; i++) k += m[i].live && used(i) < per;
            p = ngx_lba_alloc(l);
            VF_ASSERT(p != NULL, "allocation failed");
            VF_ASSERT(k == 0 || nlive == nm, "a block was mapped although a mapped one had a free buffer");
            for (i = 0; i < nm; i++) if (m[i].live && p >= m[i].p && p + sz <= m[i].p + BLK) break;
            VF_ASSERT(i < nm, "buffer inside a mapped block");
            VF_ASSERT(bins < per || used(i) >= best, "the fullest block is used first");
            VF_ASSERT(((uintptr_t) p & 7) == 0, "aligned");
            for (k = 0; k < nb; k++) VF_ASSERT(p + sz <= b[k].p || b[k].p + sz <= p, "buffers overlap");
            t = vf_u64(); b[nb].blk = i; b[nb].tag = t; b[nb].tag2 = ~t; b[nb].p = p; nb++;
            ngx_memcpy(p, &t, 8); t = ~t; ngx_memcpy(p + sz - 8, &t, 8);
            if (nm > 1) VF_REACH("two blocks");
        } else {
            ngx_memcpy(&t, b[k].p, 8); VF_ASSERT(t == b[k].tag, "contents of a live buffer");
            ngx_memcpy(&t, b[k].p + sz - 8, 8); VF_ASSERT(t == b[k].tag2, "contents of a live buffer");
            i = b[k].blk;
            ngx_memset(b[k].p, 0xee, 16);
            p = b[k].p; b[k] = b[--nb];
            ngx_lba_free(l, p);
            VF_ASSERT(m[i].live || used(i) == 0, "unmapped a block in use");
        }
        for (i = 0, k = 0; i < nm; i++) k += m[i].live && used(i) == 0;
        VF_ASSERT(k <= 1, "more than one empty block stays mapped");
    }
    for (k = 0; k < nb; k++) {
        ngx_memcpy(&t, b[k].p, 8); VF_ASSERT(t == b[k].tag, "contents of a live buffer");
    }
}
