/* block pool stand-in: every item is an exactly sized heap object */
#ifndef LIVE_BP_H
#define LIVE_BP_H
static size_t  bp_size[32];
static int     bp_live;
void *ngx_block_pool_alloc(ngx_block_pool_t *bp, ngx_uint_t i) { VF_ASSERT(i < 32 && bp_size[i], "block pool slot"); bp_live++; return vf_malloc(bp_size[i]); }
void *ngx_block_pool_calloc(ngx_block_pool_t *bp, ngx_uint_t i) { VF_ASSERT(i < 32 && bp_size[i], "block pool slot"); bp_live++; return vf_zalloc(bp_size[i]); }
void ngx_block_pool_free(ngx_block_pool_t *bp, ngx_uint_t i, void *p) { VF_ASSERT(i < 32 && bp_size[i], "block pool slot"); bp_live--; vf_free(p); }
void ngx_block_pool_free_list(ngx_block_pool_t *bp, ngx_uint_t i, void *head, void *tail)
{
    void *n;
    VF_ASSERT(*(void **) tail == NULL, "free list tail");
    for (; head; head = n) { n = *(void **) head; VF_ASSERT(n != NULL || head == tail, "free list tail"); ngx_block_pool_free(bp, i, head); }
}
#endif
