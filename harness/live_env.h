/*
 * The frame the live modules run in: configuration phases, channel / track events, block pool
 * indexes and persist blocks are dispatched as ngx_live.c / ngx_live_core_module.c do; everything
 * else is the real code of the modules under test.
 */
#ifndef LIVE_ENV_H
#define LIVE_ENV_H
#include "vf_ngx.h"
#include "ngx_live.h"
#include "ngx_live_segment_info.h"
#include "ngx_live_media_info.h"
#include "ngx_live_timeline.h"
#include "ngx_live_notif_segment.h"
#include "ngx_live_segment_cache.h"
#include "ngx_live_segment_index.h"
#include "ngx_live_segmenter.h"
#include "live_bp.h"

#define LIVE_MAX_MODULE 12
ngx_module_t   ngx_live_core_module = { 0 };
ngx_module_t   ngx_live_module = { 0 };
ngx_uint_t     ngx_live_max_module = LIVE_MAX_MODULE;

static ngx_conf_t                   live_cf;
static ngx_cycle_t                  live_cycle;
static ngx_live_conf_ctx_t          live_ctx;
static void                        *live_main_conf[LIVE_MAX_MODULE], *live_preset_conf[LIVE_MAX_MODULE], *live_parent_conf[LIVE_MAX_MODULE];
static ngx_live_core_preset_conf_t  live_cpcf;
static size_t                       live_blocks[32];
static ngx_persist_conf_t          *live_pconf;
static int                          live_bp_n;
static struct { ngx_live_channel_handler_pt ch[12]; ngx_live_track_handler_pt tr[12]; int n; } live_ev[NGX_LIVE_EVENT_MAX];
static ngx_live_json_writer_t       live_jw[NGX_LIVE_JSON_CTX_MAX][12]; static int live_jw_n[NGX_LIVE_JSON_CTX_MAX];
static ngx_log_t                   *live_log = &vf_log;
/* hooks of the harness */
static void (*live_on_channel_event)(ngx_live_channel_t *c, ngx_uint_t e, void *x);

ngx_int_t ngx_live_core_channel_events_add(ngx_conf_t *cf, ngx_live_channel_event_t *e)
{
    for (; e->handler; e++) { VF_ASSERT(live_ev[e->event].n < 12, "event table"); live_ev[e->event].ch[live_ev[e->event].n++] = e->handler; }
    return NGX_OK;
}
ngx_int_t ngx_live_core_track_events_add(ngx_conf_t *cf, ngx_live_track_event_t *e)
{
    for (; e->handler; e++) { VF_ASSERT(live_ev[e->event].n < 12, "event table"); live_ev[e->event].tr[live_ev[e->event].n++] = e->handler; }
    return NGX_OK;
}
ngx_int_t ngx_live_core_channel_event(ngx_live_channel_t *c, ngx_uint_t e, void *x)
{
    int i; ngx_int_t rc;
    for (i = 0; i < live_ev[e].n; i++) { rc = live_ev[e].ch[i](c, x); if (rc != NGX_OK) return rc; }
    if (live_on_channel_event) live_on_channel_event(c, e, x);
    return NGX_OK;
}
ngx_int_t ngx_live_core_track_event(ngx_live_track_t *t, ngx_uint_t e, void *x)
{
    int i; ngx_int_t rc;
    for (i = 0; i < live_ev[e].n; i++) { rc = live_ev[e].tr[i](t, x); if (rc != NGX_OK) return rc; }
    return NGX_OK;
}
ngx_int_t ngx_live_core_json_writers_add(ngx_conf_t *cf, ngx_live_json_writer_def_t *w)
{
    for (; w->writer.get_size; w++) live_jw[w->ctx][live_jw_n[w->ctx]++] = w->writer;
    return NGX_OK;
}
size_t ngx_live_core_json_get_size(void *obj, ngx_live_channel_t *c, ngx_uint_t ctx)
{
    int i; size_t n = 0;
    for (i = 0; i < live_jw_n[ctx]; i++) n += live_jw[ctx][i].get_size(obj) + 1;
    return n;
}
u_char *ngx_live_core_json_write(u_char *p, void *obj, ngx_live_channel_t *c, ngx_uint_t ctx)
{
    int i; u_char *q;
    for (i = 0; i < live_jw_n[ctx]; i++) { q = live_jw[ctx][i].write(p, obj); if (q != p) { *q++ = ','; } p = q; }
    return p;
}
ngx_int_t ngx_live_core_add_block_pool_index(ngx_conf_t *cf, ngx_uint_t *index, size_t size)
{
    VF_ASSERT(live_bp_n < 32, "block pool slots");
    bp_size[live_bp_n] = size; *index = live_bp_n++;
    return NGX_OK;
}
ngx_int_t ngx_live_core_reserve_track_ctx_size(ngx_conf_t *cf, ngx_uint_t index, size_t size)
{
    ngx_live_core_ctx_offset_t *e = ngx_array_push(&live_cpcf.track_ctx_offset);
    e->index = index; e->offset = live_cpcf.track_ctx_size; live_cpcf.track_ctx_size += size;
    return NGX_OK;
}
void ngx_live_core_channel_init(ngx_live_channel_t *c)
{
    c->mem_limit = c->mem_left = 1 << 26; c->mem_high_watermark = c->mem_low_watermark = 0;
    c->timescale = live_cpcf.timescale;
    c->conf.segment_duration = live_cpcf.segment_duration; c->conf.input_delay = live_cpcf.input_delay; c->input_delay_margin = live_cpcf.input_delay_margin;
    c->segment_duration = ngx_live_rescale_time(c->conf.segment_duration, 1000, c->timescale);
    c->part_duration = live_cpcf.part_duration * c->timescale / 1000;
}
ngx_int_t ngx_live_persist_add_blocks(ngx_conf_t *cf, ngx_persist_block_t *b) { return ngx_persist_conf_add_blocks(cf, live_pconf, b); }
ngx_int_t ngx_live_persist_write_blocks(ngx_live_channel_t *c, ngx_persist_write_ctx_t *w, ngx_uint_t ctx, void *obj) { return ngx_persist_conf_write_blocks(live_pconf, w, ctx, obj); }
ngx_int_t ngx_live_persist_read_blocks(ngx_live_channel_t *c, ngx_uint_t ctx, ngx_mem_rstream_t *rs, void *obj) { return ngx_persist_conf_read_blocks(live_pconf, ctx, rs, obj); }

int RAND_bytes(unsigned char *p, int n) { memset(p, 7, n); return 1; }
ngx_block_pool_t *ngx_block_pool_create(ngx_pool_t *pool, size_t *sizes, ngx_uint_t count, size_t *mem_left) { return vf_zalloc(8); }

static void live_env_init(ngx_module_t **mods, int n)
{
    int i; ngx_live_module_t *m; ngx_int_t rc; char *s;
    vf_ngx_init();
    live_cycle.log = &vf_log; live_cycle.pool = &vf_pool;
    live_cf.pool = live_cf.temp_pool = &vf_pool; live_cf.cycle = &live_cycle; live_cf.log = &vf_log; live_cf.ctx = &live_ctx;
    live_ctx.main_conf = live_main_conf; live_ctx.preset_conf = live_preset_conf;
    ngx_live_core_module.ctx_index = 0;
    live_preset_conf[0] = &live_cpcf; live_parent_conf[0] = &live_cpcf;
    live_pconf = ngx_persist_conf_create(&live_cf, NGX_LIVE_PERSIST_CTX_COUNT);
    live_cpcf.timescale = 1000; live_cpcf.segment_duration = 4000; live_cpcf.part_duration = 0;
    live_cpcf.mem_blocks.elts = live_blocks; live_cpcf.mem_blocks.nelts = 1;
    live_cpcf.track_ctx_size = sizeof(ngx_live_track_t) + sizeof(void *) * LIVE_MAX_MODULE;
    ngx_array_init(&live_cpcf.track_ctx_offset, &vf_pool, 8, sizeof(ngx_live_core_ctx_offset_t));
    ngx_live_core_add_block_pool_index(NULL, &live_cpcf.bp_idx[NGX_LIVE_CORE_BP_TRACK], 1);
    ngx_live_core_add_block_pool_index(NULL, &live_cpcf.bp_idx[NGX_LIVE_CORE_BP_VARIANT], sizeof(ngx_live_variant_t));
    ngx_live_core_add_block_pool_index(NULL, &live_cpcf.bp_idx[NGX_LIVE_CORE_BP_BUF_CHAIN], sizeof(ngx_buf_chain_t));
    ngx_live_core_add_block_pool_index(NULL, &live_cpcf.bp_idx[NGX_LIVE_CORE_BP_STR], 64);
    for (i = 0; i < n; i++) { mods[i]->ctx_index = i + 1; m = mods[i]->ctx; if (m->create_main_conf) live_main_conf[i + 1] = m->create_main_conf(&live_cf); }
    live_ctx.preset_conf = live_parent_conf;
    for (i = 0; i < n; i++) { m = mods[i]->ctx; if (m->create_preset_conf) { live_parent_conf[i + 1] = m->create_preset_conf(&live_cf); live_preset_conf[i + 1] = m->create_preset_conf(&live_cf); } }
    for (i = 0; i < n; i++) { m = mods[i]->ctx; if (m->preconfiguration) { rc = m->preconfiguration(&live_cf); VF_ASSERT(rc == NGX_OK, "preconfiguration"); } }
    for (i = 0; i < n; i++) { m = mods[i]->ctx; if (m->init_main_conf) { s = m->init_main_conf(&live_cf, live_main_conf[i + 1]); VF_ASSERT(s == NGX_CONF_OK, "init main conf"); } }
    live_ctx.preset_conf = live_preset_conf;
    for (i = 0; i < n; i++) { m = mods[i]->ctx; if (m->merge_preset_conf) { s = m->merge_preset_conf(&live_cf, live_parent_conf[i + 1], live_preset_conf[i + 1]); VF_ASSERT(s == NGX_CONF_OK, "merge preset conf"); } }
    for (i = 0; i < n; i++) { m = mods[i]->ctx; if (m->postconfiguration) { rc = m->postconfiguration(&live_cf); VF_ASSERT(rc == NGX_OK, "postconfiguration"); } }
    rc = ngx_persist_conf_init(&live_cf, live_pconf); VF_ASSERT(rc == NGX_OK, "persist conf");
    bp_size[live_cpcf.bp_idx[NGX_LIVE_CORE_BP_TRACK]] = live_cpcf.track_ctx_size;
    ngx_live_channel_init_process(&live_cycle);
}
static ngx_live_channel_t *live_channel(const char *name)
{
    ngx_str_t id; ngx_live_channel_t *c = NULL; ngx_int_t rc;
    id.data = (u_char *) name; id.len = strlen(name);
    rc = ngx_live_channel_create(&id, &live_ctx, &vf_pool, &c);
    VF_ASSERT(rc == NGX_OK, "channel create");
    return c;
}
static ngx_live_track_t *live_track(ngx_live_channel_t *c, const char *name, uint32_t media)
{
    ngx_str_t id; ngx_live_track_t *t = NULL; ngx_int_t rc;
    id.data = (u_char *) name; id.len = strlen(name);
    rc = ngx_live_track_create(c, &id, NGX_LIVE_INVALID_TRACK_ID, media, &vf_log, &t);
    VF_ASSERT(rc == NGX_OK, "track create");
    return t;
}
/* a persist / KSMP file: the blocks of ctx as written for obj, flattened into an exactly sized buffer */
static u_char *live_write(ngx_uint_t ctx, uint32_t type, void *wctx, void *obj, size_t *size)
{
    ngx_persist_write_ctx_t *w; ngx_pool_t *pool = ngx_create_pool(512, &vf_log); ngx_chain_t *cl; u_char *flat; size_t n = 0; ngx_int_t rc;
    w = ngx_persist_write_init(pool, type, 0);
    ((ngx_persist_write_base_t *) w)->ctx = wctx;
    rc = ngx_persist_conf_write_blocks(live_pconf, w, ctx, obj);
    VF_ASSERT(rc == NGX_OK, "persist write");
    cl = ngx_persist_write_close(w, size, NULL);
    flat = vf_malloc(*size);
    for (; cl; cl = cl->next) { memcpy(flat + n, cl->buf->pos, cl->buf->last - cl->buf->pos); n += cl->buf->last - cl->buf->pos; }
    VF_ASSERT(n == *size, "persist size");
    ngx_destroy_pool(pool);
    return flat;
}
static ngx_int_t live_read(ngx_uint_t ctx, uint32_t type, void *scope, void *obj, u_char *p, size_t size)
{
    ngx_str_t buf; ngx_mem_rstream_t rs; ngx_int_t rc;
    buf.data = p; buf.len = size;
    rc = ngx_persist_read_file_header(&buf, type, &vf_log, scope, &rs);
    if (rc != NGX_OK) return rc;
    return ngx_persist_conf_read_blocks(live_pconf, ctx, &rs, obj);
}
#endif
